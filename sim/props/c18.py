"""C18 Attribute style access and item access are the same data."""
from node import base
from node.behaviors import Adopt
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import GetattrChildren
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.interfaces import INode
from node.locking import TreeLock
from node.utils import AttributeAccess
from node.utils import UNSET
from plumber import plumbing
from sim.core import Quiet
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.seam import Proxy
from sim.zoo import OddBase
import copy
import pickle

ID = 'C18'
RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = (
    'A case is a history of 8-40 reads, writes and deletes by attribute and '
    'by item on a node and its attribute access objects (made at different '
    'times), on the attributes of a node with attribute access switched on '
    'and off, or on nodes with children behind attribute names, mixed with '
    'real attributes of the same name, copies, pickles and tree locks, with '
    'faults planned at (operation, n-th storage call). The model is one '
    'dictionary per node. Non-trivial: a value written one way was read the '
    'other way, or a fault fired; distinct: different event log.')
STATE_MEASURE = 'hash of (class, keys, names of real attributes)'
REAL = ['node.utils.AttributeAccess', 'node.behaviors.common.AsAttrAccess',
        'node.behaviors.common.GetattrChildren',
        'node.behaviors.attributes', 'node.behaviors.storage', 'node.base',
        'node.locking', 'plumber', 'odict', 'copy', 'pickle']
STUB = ['storages: the shipped ones behind a proxy that fails on demand']
PROBES = ['crossed', 'missing_attr', 'missing_item', 'real_wins', 'failed',
          'hasattr', 'default', 'copied', 'locked', 'switched', 'shadowed',
          'reset']
ASSUMPTIONS = [
    'a storage call that fails has had no effect',
    'no key is named context (documented as taken) or _treelock',
]


def sim(cls, site='st', **ns):
    def storage(self):
        return Proxy(super(new, self).storage, site)
    name = 'S' + cls.__name__
    ns.update(storage=property(storage), __module__=__name__,
              __qualname__=name)
    new = type(cls)(name, (cls,), ns)
    globals()[name] = new
    return new


SAttrs = sim(NodeAttributes, 'attrs')


class Loose(base.BaseNode):
    allow_non_node_childs = True


@plumbing(Adopt, AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


@plumbing(UnicodeAware, Adopt, AsAttrAccess, DefaultInit, Nodify, DictStorage)
class Unicode(object):
    pass


@plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, OdictStorage)
class Children(object):
    color = 'red'
    nothing = None

    @property
    def prop(self):
        return 'real'

    def method(self):
        return 'real'


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, GetattrChildren,
          DefaultInit, Nodify, OdictStorage)
class ChildrenFull(object):
    attributes_factory = SAttrs
    allow_non_node_childs = True
    color = 'red'
    nothing = None

    @property
    def prop(self):
        return 'real'

    def method(self):
        return 'real'


class Switch(base.AttributedNode):
    attributes_factory = SAttrs


class SwitchOn(base.AttributedNode):
    attributes_factory = SAttrs
    attribute_access_for_attrs = True


SLoose = sim(Loose)
SOrdered = sim(Ordered)
SUnicode = sim(Unicode)
SChildren = sim(Children)
SChildrenFull = sim(ChildrenFull)

CONFIGS = {
    # name: class, kind
    'loose': (SLoose, 'aa'), 'ordered': (SOrdered, 'aa'),
    'unicode': (SUnicode, 'aa'),
    'children': (SChildren, 'kids'), 'childrenfull': (SChildrenFull, 'kids'),
    'switch': (Switch, 'attrs'), 'switchon': (SwitchOn, 'attrs'),
}
KEYS = ['a', 'b', 'keys', 'items', 'get', 'name', '_x', 'class', '\xe4',
        'attrs', 'uuid', '']
MANY = ['k%d' % i for i in range(16)]
REALKEYS = ['color', 'prop', 'method', 'nothing']
DUNDER = ['__class__', '__dict__', '__doc__', '__foo__', '__getattr__',
          '__init__', '__name__']
PLAIN = [None, 0, '', False, 'text', 7, ['unset'], ['list'], ['node'],
         ['node'], ['odd']]
MISS = object()


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        cls, self.kind = CONFIGS[case['cfg']]
        self.node = cls(name='n')
        self.data = {}
        self.how = {}            # key -> how it was written
        self.real = {}           # real instance attributes
        self.accesses = []       # AttributeAccess objects

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def value(self, v):
        if not isinstance(v, list):
            return v
        return {'unset': lambda: UNSET, 'list': list,
                'node': base.BaseNode, 'odd': OddBase}[v[0]]()

    def raw(self):
        """What is stored."""
        node = self.node
        if self.kind == 'attrs':
            if '__attrs__' not in node.nodespaces:
                return {}
            return node.nodespaces['__attrs__'].storage._t
        return node.storage._t

    def is_aa(self, ob):
        return isinstance(ob, AttributeAccess)

    # -- the two views -----------------------------------------------------
    def by_attr(self, op):
        """Object for attribute style access; None if there is none now."""
        if self.kind == 'kids':
            return self.node
        if self.kind == 'attrs':
            if op['n'] % 3 == 0:
                for aa in self.accesses:
                    return aa
            attrs = self.node.attrs
            if not self.is_aa(attrs):
                return self.accesses[0] if self.accesses else None
            if not self.accesses:
                self.accesses.append(attrs)
            return attrs
        if not self.accesses or op['n'] % 5 == 0:
            self.accesses.append(self.node.as_attribute_access())
        return self.accesses[op['n'] % len(self.accesses)]

    def by_item(self, op):
        if self.kind == 'attrs':
            # attribute access objects have items, too
            return self.node.attrs
        if self.kind == 'aa' and op['n'] % 2 and self.accesses:
            return self.accesses[op['n'] % len(self.accesses)]
        return self.node

    def mapping(self):
        """The node with the full mapping API."""
        if self.kind == 'attrs':
            attrs = self.node.attrs
            if self.is_aa(attrs):
                attrs = object.__getattribute__(attrs, 'context')
            return attrs
        return self.node

    # -- operations --------------------------------------------------------
    def run(self, op):
        k = op['k']
        if k in ('switch', 'copy', 'lock', 'setreal', 'delreal', 'reset'):
            getattr(self, k)(op)
            with Quiet(self.ctx):
                self.check(op)
            return
        with Quiet(self.ctx):
            if self.kind == 'attrs' and not self.node.nodespaces.get(
                    '__attrs__', 0):
                self.node.attrs
            target = self.by_item(op) if k.startswith('item') or k in (
                'get', 'in') else self.by_attr(op)
            if k in ('get', 'in'):
                target = self.mapping()
            taken = self.taken(target, op['key'])
        if target is None:
            return
        key = op['key']
        if k == 'setattr' and self.kind == 'kids':
            return self.setreal(op)
        before = dict(self.data)
        given = self.value(op['value']) if 'value' in op else None
        self.ctx.begin(op['id'])
        res = err = None
        try:
            if k == 'getattr':
                res = getattr(target, key)
            elif k == 'getattrd':
                res = getattr(target, key, MISS)
            elif k == 'hasattr':
                res = hasattr(target, key)
            elif k == 'setattr':
                setattr(target, key, given)
            elif k == 'item':
                res = target[key]
            elif k == 'itemset':
                target[key] = given
            elif k == 'itemdel':
                del target[key]
            elif k == 'get':
                res = target.get(key, MISS)
            elif k == 'in':
                res = key in target
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        fault = self.ctx.end()
        with Quiet(self.ctx):
            self.judge(op, k, key, given, res, err, fault, taken, before)
            self.check(op)
        self.ctx.ev('op', op['id'], sorted(self.data), type(err).__name__)
        self.ctx.state(self.case['cfg'], sorted(self.data),
                       sorted(self.real))

    def taken(self, target, key):
        """Is the name a real attribute?"""
        if target is None:
            return False
        try:
            object.__getattribute__(target, key)
        except AttributeError:
            return False
        return True

    def judge(self, op, k, key, given, res, err, fault, taken, before):
        ctx = self.ctx
        if fault is not None:
            ctx.nontrivial = True
            ctx.probe('failed')
            if fault.sim_kind == 'attribute' and err is None and \
                    k in ('getattrd', 'hasattr'):
                # for python this says the attribute is missing
                return
            if fault.sim_kind == 'attribute' and k == 'getattr' and \
                    isinstance(err, AttributeError):
                return
            if err is not fault:
                # a KeyError of a write is an error as well
                self.fail('error-lost', op, '%s failed with %r, caller gets '
                          '%r' % (fault.sim_site, fault, err or res))
            return
        has = key in before
        if k in ('getattr', 'getattrd', 'hasattr'):
            if taken:
                ctx.probe('real_wins')
                if has:
                    ctx.probe('shadowed')
                if err is not None or k == 'hasattr' and res is not True:
                    self.fail('real-attribute', op, 'real attribute %r gives '
                              '%r' % (key, err or res))
                if k != 'hasattr' and key in self.real and \
                        res is not self.real[key]:
                    self.fail('real-attribute', op, '%r gives %r' % (key, res))
                if k != 'hasattr' and has and key not in self.real and \
                        res is before[key] and INode.providedBy(res):
                    self.fail('real-attribute', op, 'child hides the real '
                              'attribute %r' % key)
                return
            if k == 'hasattr':
                ctx.probe('hasattr')
            if has:
                if err is not None:
                    self.fail('attribute', op, '%r fails with %r although '
                              'the item exists' % (key, err))
                if k == 'hasattr':
                    if res is not True:
                        self.fail('attribute', op, 'hasattr %r is %r' % (
                            key, res))
                    return
                self.same(op, key, res, before[key])
                self.crossed(key, 'attr')
                return
            ctx.probe('missing_attr')
            if k == 'getattr':
                if not isinstance(err, AttributeError):
                    self.fail('missing', op, 'missing %r gives %r' % (
                        key, err or res))
            elif err is not None:
                self.fail('missing', op, 'missing %r gives %r' % (key, err))
            elif k == 'getattrd':
                ctx.probe('default')
                if res is not MISS:
                    self.fail('missing', op, 'missing %r gives %r' % (
                        key, res))
            elif res is not False:
                self.fail('missing', op, 'hasattr of missing %r is %r' % (
                    key, res))
            return
        if k in ('setattr', 'itemset'):
            if err is not None:
                self.fail('unexpected-error', op, repr(err))
            self.data[key] = given
            self.how[key] = 'attr' if k == 'setattr' else 'item'
            return
        if not has:
            ctx.probe('missing_item')
            if k in ('item', 'itemdel'):
                if not isinstance(err, KeyError):
                    self.fail('missing', op, 'missing item %r gives %r' % (
                        key, err or res))
            elif err is not None or res is not (
                    MISS if k == 'get' else False):
                self.fail('missing', op, 'missing item %r gives %r' % (
                    key, err or res))
            return
        if err is not None:
            self.fail('unexpected-error', op, repr(err))
        if k == 'itemdel':
            del self.data[key]
        elif k == 'in':
            if res is not True:
                self.fail('item', op, '%r in node is %r' % (key, res))
        else:
            self.same(op, key, res, before[key])
            self.crossed(key, 'item')

    def same(self, op, key, res, want):
        if res is not want:
            self.fail('not-same', op, '%r gives %r, written was %r' % (
                key, res, want))

    def crossed(self, key, how):
        if self.how.get(key) not in (None, how):
            self.ctx.probe('crossed')
            self.ctx.nontrivial = True

    # -- everything else ---------------------------------------------------
    def setreal(self, op):
        """A real attribute of the instance."""
        if self.kind != 'kids' or op['key'] in REALKEYS + DUNDER + [
                'name', 'keys', 'items', 'get', 'attrs']:
            return
        self.real[op['key']] = object()
        setattr(self.node, op['key'], self.real[op['key']])

    def delreal(self, op):
        if self.real:
            key = sorted(self.real)[0]
            delattr(self.node, key)
            del self.real[key]

    def switch(self, op):
        if self.kind == 'attrs':
            self.node.attribute_access_for_attrs = bool(op['n'] % 2)
            self.ctx.probe('switched')
            attrs = self.node.attrs
            if self.is_aa(attrs) is not bool(op['n'] % 2):
                self.fail('switch', op, 'attrs are %r' % attrs)

    def reset(self, op):
        """The attributes are dropped, or replaced by other ones."""
        if self.kind != 'attrs':
            return
        with Quiet(self.ctx):
            if '__attrs__' not in self.node.nodespaces:
                return
            if op['n'] % 2:
                del self.node['__attrs__']
            else:
                self.node['__attrs__'] = SAttrs(
                    name='__attrs__', parent=self.node)
        self.data = {}
        self.accesses = []
        self.ctx.probe('reset')

    def lock(self, op):
        with TreeLock(self.node):
            with TreeLock(self.node):
                pass
        self.ctx.probe('locked')

    def copy(self, op):
        """Go on with a copy of the node or of an access object."""
        with Quiet(self.ctx):
            how = op['n'] % 4
            if how == 0 and self.accesses:
                # copies of access objects access the same node
                aa = copy.copy(self.accesses[0])
                self.accesses.append(aa)
                self.ctx.probe('copied')
                return
            if how == 1:
                node = copy.deepcopy(self.node)
            elif how == 2:
                try:
                    node = pickle.loads(pickle.dumps(self.node))
                except (pickle.PicklingError, AttributeError):
                    return
            elif self.accesses and self.kind == 'aa':
                aa = copy.deepcopy(self.accesses[0])
                node = object.__getattribute__(aa, 'context')
            else:
                return
            if type(node) is not type(self.node):
                self.fail('copy', op, 'copy is %r' % node)
            old = self.data
            self.node = node
            raw = self.raw()
            if sorted(old) != sorted(raw):
                self.fail('copy', op, 'copy has %r instead of %r' % (
                    sorted(raw), sorted(old)))
            self.data = {}
            for k, v in old.items():
                self.data[k] = raw[k]
                if INode.providedBy(v):
                    if type(raw[k]) is not type(v) or raw[k] is v:
                        self.fail('copy', op, 'copied child is %r' % raw[k])
            self.real = dict((k, node.__dict__[k]) for k in self.real)
            self.accesses = []
            self.ctx.probe('copied')

    def check(self, op):
        """All views agree after every operation."""
        raw = dict(self.raw())
        if set(raw) != set(self.data) or any(
                raw[k] is not v for k, v in self.data.items()):
            self.fail('data', op, 'stored is %r, should be %r' % (
                raw, self.data))
        m = self.mapping()
        views = list(self.accesses)
        if self.kind == 'kids':
            views.append(self.node)
        for key in self.case['keys']:
            want = self.data.get(key, MISS)
            got = m.get(key, MISS)
            if got is not want:
                self.fail('data', op, 'item %r is %r, should be %r' % (
                    key, got, want))
            for v in views:
                if not self.taken(v, key):
                    got = getattr(v, key, MISS)
                    if got is not want:
                        self.fail('data', op, 'attribute %r is %r, item is %r'
                                  % (key, got, want))


WEIGHTS = {'getattr': 6, 'getattrd': 3, 'hasattr': 3, 'setattr': 6, 'item': 4,
           'itemset': 6, 'itemdel': 4, 'get': 2, 'in': 1, 'switch': 2,
           'copy': 1, 'lock': 1, 'reset': 1, 'setreal': 1, 'delreal': 1}


class AccessScenario(object):
    name = 'access'
    weight = 1

    def generate(self, rng, tier):
        cfg = rng.choice(sorted(CONFIGS))
        kind = CONFIGS[cfg][1]
        pool = list(KEYS)
        if kind == 'kids':
            pool += REALKEYS
        else:
            pool += DUNDER
        many = rng.random() < 0.04
        keys = rng.sample(pool, rng.choice([2, 4, 6]))
        if many:
            keys += MANY
        ks = sorted(WEIGHTS)
        ops = []
        size = (8, 14, 25, 40) if tier == 'quick' else (8, 14, 25, 40, 80)
        for i in range(80 if many else rng.choice(size)):
            k = rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
            if kind == 'kids' and k == 'setattr':
                k = rng.choice(['itemset', 'itemset', 'setattr'])
            if many and i < 24:
                k = 'itemset' if kind == 'kids' else 'setattr'
            op = {'id': i, 'k': k, 'key': rng.choice(keys),
                  'n': rng.randrange(30)}
            if k in ('setattr', 'itemset'):
                op['value'] = rng.choice(PLAIN)
            ops.append(op)
        return {'cfg': cfg, 'ops': ops, 'keys': keys,
                'faults': gen_faults(rng, [o['id'] for o in ops],
                                     kinds=WRITE_FAULTS, maxcall=2)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        for op in case['ops']:
            r.run(op)


SCENARIOS = [AccessScenario()]
