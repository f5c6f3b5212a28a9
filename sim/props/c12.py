"""C12 Factory-made children are created once and adopted."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FixedChildren
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import VolatileStorageInvalidate
from node.interfaces import INode
from node.locking import TreeLock
from odict import odict
from plumber import plumbing
from sim.core import Quiet
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched
from sim.seam import Proxy
from sim.seam import gate
from sim.zoo import OddBase

ID = 'C12'
RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = (
    'A case is a history of 8-40 reads, enumerations, writes, removals and '
    'invalidations of two trees of child factory nodes of one of seven '
    'classes (factories may use other factory children of the node and make '
    'further factory nodes), or the construction and use of fixed children '
    'nodes, in one thread or in 2-3 threads that lock the tree, with faults '
    'planned at (operation, n-th factory or storage call). The oracle counts '
    'factory calls and knows which object belongs to which key. Non-trivial: '
    'a factory ran and a later operation used its child, or a fault fired; '
    'distinct: different event log.')
STATE_MEASURE = 'hash of (class, created keys per node, kind of operation)'
REAL = ['node.behaviors.common.ChildFactory', 'FixedChildren', 'Adopt',
        'node.behaviors.cache', 'node.behaviors.mapping',
        'node.behaviors.storage', 'node.locking', 'plumber', 'odict']
STUB = ['factories: simulated, count their calls and fail on demand',
        'storage: the shipped storage behind a proxy that fails on demand',
        'threads: scheduled by the simulator']
PROBES = ['created', 'reused', 'created_again', 'factory_failed',
          'storage_failed', 'nested_factory', 'invalidated', 'fixed_made',
          'fixed_refused', 'fixed_failed', 'depth']
ASSUMPTIONS = [
    'a storage call that fails has had no effect',
    'a factory does not access the very key it is creating',
    'keys of a factory node that are stored without being declared are not '
    'invalidated',
]

CUR = [None]
KEYS = ['a', '', 'c', 'n', 'z']
OTHER = ['x', 'y']


class Maker(object):
    """A child factory."""

    def __init__(self, key):
        self.key = key

    def __call__(self):
        return CUR[0].make(self.key)

    # one factory for several keys is still called once per key
    def __eq__(self, other):
        return isinstance(other, Maker)

    def __hash__(self):
        return 1


FACTORIES = odict((k, Maker(k)) for k in KEYS)


def sim(base):
    class Sim(base):
        factories = FACTORIES

        @property
        def storage(self):
            return Proxy(super(Sim, self).storage)
    return Sim


@sim
@plumbing(Nodify, ChildFactory, OdictStorage)
class Plain(object):
    __name__ = None
    __parent__ = None


@sim
@plumbing(Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, ChildFactory,
          OdictStorage)
class Adopting(object):
    pass


@sim
@plumbing(Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, ChildFactory,
          DictStorage)
class AdoptingDict(object):
    pass


@sim
@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify,
          ChildFactory, OdictStorage)
class Caching(object):
    pass


@sim
@plumbing(Cache, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify,
          ChildFactory, DictStorage)
class CachingOuter(object):
    pass


@sim
@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes,
          VolatileStorageInvalidate, DefaultInit, Nodify, ChildFactory,
          OdictStorage)
class Full(object):
    pass


class OwnFactories(Adopting):
    """Factories of the instance instead of the class."""

    def __init__(self, name=None, parent=None):
        Adopting.__init__(self, name, parent)
        self.factories = odict((k, Maker(k)) for k in KEYS)


class Falsy(BaseNode):

    def __bool__(self):
        return False


class Thing(object):
    """A child that is no node."""


CONFIGS = {
    # name: class, adopts, invalidates, strict
    'plain': (Plain, False, False, False),
    'adopting': (Adopting, True, True, False),
    'adoptingdict': (AdoptingDict, True, True, False),
    'caching': (Caching, True, True, False),
    'cachingouter': (CachingOuter, True, True, False),
    'full': (Full, True, True, True),
    'own': (OwnFactories, True, True, False),
}
PLAIN = [None, 0, '', False, 'text']


class Known(object):
    """A factory node and the children it has."""

    def __init__(self, node, depth):
        self.node = node
        self.depth = depth
        self.kids = {}           # key -> object
        self.had = set()


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.cls, self.adopts, self.invalidates, self.strict = CONFIGS[
            case['cfg']]
        CUR[0] = self
        self.known = []
        self.ops = {}            # tid -> [Known, op, made [(key, obj)], stack]
        for i in range(2):
            self.add(self.new(str(i)), 0)

    def new(self, name=None):
        if self.cls is Plain:
            return self.cls()
        return self.cls(name=name)

    def add(self, node, depth):
        self.known.append(Known(node, depth))
        return self.known[-1]

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def raw(self, node):
        with Quiet(self.ctx):
            return node.storage._t

    # -- the factories -----------------------------------------------------
    def make(self, key):
        st = self.ops.get(self.ctx.tid())
        if st is None:
            # while a read of the oracle is under way
            raise Violation('unexpected-factory', 'factory %r called' % key)
        k, op, made, stack = st
        if key in self.raw(k.node):
            self.fail('created-again', op, 'factory %r called although the '
                      'child is stored' % key)
        if key in stack:
            self.fail('created-again', op, 'factory %r called while it runs'
                      % key)
        if stack:
            self.ctx.probe('nested_factory')
        gate('factory', key)
        stack.append(key)
        try:
            if key == 'b' and self.case.get('nested'):
                # needs a sibling
                other = k.node['a']
                if other is not self.raw(k.node).get('a'):
                    self.fail('not-same', op, 'nested access to %r' % 'a')
                gate('factory', key)
        finally:
            stack.remove(key)
        if key == 'n':
            child = self.new()
        elif key == 'c':
            child = Falsy()
        elif key == 'z' and not self.strict:
            child = self.case['z']
            child = Thing() if child == 'thing' else child
        else:
            child = BaseNode() if len(key) > 1 else OddBase()
        made.append((key, child))
        return child

    # -- one operation -----------------------------------------------------
    def run(self, op, lock=False):
        k = self.known[op['on'] % 2]
        if not lock:
            return self.locked(k, op)
        with TreeLock(k.node):
            self.locked(k, op)

    def locked(self, k, op):
        if op.get('deep'):
            # the tree's factory node below, if there is one
            with Quiet(self.ctx):
                child = k.node.storage._t.get('n')
            for d in self.known[2:]:
                if d.node is child:
                    k = d
                    self.ctx.probe('depth')
                    break
        made = []
        tid = self.ctx.tid()
        self.ctx.begin(op['id'])
        self.ops[tid] = [k, op, made, []]
        res = err = None
        given = None
        if op['k'] in ('set', 'update', 'setdefault'):
            given = self.value(op)
        try:
            res = self.call(k.node, op, given)
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        finally:
            fault = self.ctx.end()
            self.ops.pop(tid)
        with Quiet(self.ctx):
            self.judge(k, op, given, made, res, err, fault)
        self.ctx.ev('op', op['id'], sorted(k.kids), [x for x, _ in made],
                    type(err).__name__)
        self.ctx.state(self.case['cfg'], sorted(k.kids), op['k'])

    def value(self, op):
        v = op['value']
        if v == 'node' or self.strict:
            return OddBase() if op['id'] % 3 == 0 else BaseNode()
        return v

    def call(self, node, op, given):
        k, key = op['k'], op.get('key')
        if k == 'item':
            return node[key]
        if k == 'get':
            return node.get(key, self)
        if k == 'in':
            return key in node
        if k == 'has_key':
            return node.has_key(key)                        # noqa
        if k == 'setdefault':
            return node.setdefault(key, given)
        if k == 'set':
            node[key] = given
        elif k == 'update':
            node.update([(key, given)])
        elif k == 'del':
            del node[key]
        elif k == 'pop':
            return node.pop(key)
        elif k == 'popd':
            return node.pop(key, self)
        elif k == 'popitem':
            return node.popitem()
        elif k == 'detach':
            return node.detach(key)
        elif k == 'invalidate':
            node.invalidate(key=key)
        elif k == 'invalidateall':
            node.invalidate()
        elif k == 'values':
            return node.values()
        elif k == 'itervalues':
            return list(node.itervalues())
        elif k == 'items':
            return node.items()
        elif k == 'iteritems':
            return list(node.iteritems())
        elif k == 'keys':
            return node.keys()
        elif k == 'iter':
            return [x for x in node]
        elif k == 'iterkeys':
            return list(node.iterkeys())
        elif k == 'len':
            return len(node)
        elif k == 'filtered':
            return node.filteredvalues(INode)

    # -- what must be the case after it ------------------------------------
    def judge(self, k, op, given, made, res, err, fault):
        kind, key = op['k'], op.get('key')
        ctx = self.ctx
        declared = key in KEYS
        had = dict(k.kids)
        if err is not None and fault is None:
            ok = isinstance(err, KeyError) and (
                kind in ('item', 'pop', 'detach', 'invalidate')
                and not declared and key not in had
                or kind == 'del' and key not in had
                or kind == 'invalidate' and not declared)
            if not ok:
                self.fail('unexpected-error', op, repr(err))
        if fault is not None:
            ctx.nontrivial = True
            site = fault.sim_site
            ctx.probe('factory_failed' if site == 'factory'
                      else 'storage_failed')
            lenient = isinstance(fault, KeyError)
            if err is not fault and not (lenient and (
                    kind in ('get', 'in', 'has_key', 'setdefault', 'popd',
                             'invalidate', 'set', 'update', 'item', 'pop',
                             'values', 'items', 'itervalues', 'iteritems',
                             'filtered', 'popitem', 'detach',
                             'invalidateall')
                    and (err is None or isinstance(err, KeyError)))):
                self.fail('error-lost', op, '%s failed with %r, caller gets '
                          '%r' % (site, fault, err or res))
        # 1. children that were made
        creating = dict(had)
        for i, (mk, obj) in enumerate(made):
            ctx.probe('created')
            if mk in k.had:
                ctx.probe('created_again')
            if mk in creating and not (
                    mk not in had and isinstance(fault, KeyError)):
                # made again although it is there: only if an operation of
                # this run took it away, or if the storage denied to have it
                self.fail('created-again', op, 'child %r made twice' % mk)
            creating[mk] = obj
        needs = self.needs(kind, key, had)
        for mk, obj in made:
            if mk not in needs:
                self.fail('unexpected-factory', op, 'factory %r called' % mk)
        if err is None and fault is None and kind not in ('in', 'has_key'):
            missing = [x for x in needs if x not in [m for m, _ in made]
                       and (x != 'a' or key != 'b')]
            if missing:
                self.fail('not-created', op, 'factory of %r was not called'
                          % missing)
        # 2. the content of the storage
        real = dict(self.raw(k.node))
        gone = set()
        if err is None:
            want = dict(creating)
            if kind in ('del', 'pop', 'detach', 'popd', 'invalidate'):
                want.pop(key, None)
                gone.add(key)
            elif kind == 'popitem':
                want.pop(KEYS[-1], None)
                gone.add(KEYS[-1])
            elif kind == 'invalidateall':
                want = {}
            elif kind in ('set', 'update'):
                want[key] = given
            elif kind == 'setdefault' and not declared and key not in had:
                want[key] = given
            alts = [want]
            if fault is not None:
                # a KeyError the operation took for a missing key
                alts.append(had)
                alts.append(self.without_last(creating, made))
                alts.append(creating)
                if kind == 'setdefault':
                    alts += [dict(a, **{key: given}) for a in alts[1:]]
                if kind == 'invalidateall' and all(
                        had.get(x, self) is v for x, v in real.items()):
                    alts.append(real)
        else:
            alts = [creating]
            if fault is not None:
                alts.append(self.without_last(creating, made))
                if kind == 'invalidateall' and all(
                        real.get(x, self) is v for x, v in had.items()
                        if x in real) and set(real) <= set(had):
                    alts.append(real)
        if not any(set(a) == set(real) and all(
                a[x] is real[x] for x in a) for a in alts):
            bad = {}
            for x in set(real) | set(alts[0]):
                if real.get(x, self) is not alts[0].get(x, self):
                    bad[x] = (real.get(x, '-'), alts[0].get(x, '-'))
            self.fail('children', op, 'stored children differ from the '
                      'expected ones (key: (is, should be)): %r%s' % (
                          bad, ', after failure %r' % fault if fault else ''))
        k.kids = real
        # 3. adoption
        if self.adopts:
            for x, v in real.items():
                if INode.providedBy(v) and (
                        v.name != x or v.parent is not k.node):
                    self.fail('adoption', op, 'child %r has name %r and '
                              'parent %r' % (x, v.name, v.parent))
            for mk, obj in made:
                if obj is not real.get(mk) and mk not in gone \
                        and INode.providedBy(obj):
                    if obj.parent is not None or obj.name is not None:
                        self.fail('partial-child', op, 'child %r that could '
                                  'not be stored has name %r' % (
                                      mk, obj.name))
        # 4. the answer
        if err is None and not (fault is not None):
            self.answer(k, op, kind, key, given, creating, res)
        for mk, obj in made:
            k.had.add(mk)
            if mk == 'n' and real.get('n') is obj:
                self.add(obj, k.depth + 1)
        if not made and had and kind in ('item', 'get', 'values', 'items'):
            ctx.probe('reused')
            ctx.nontrivial = True
        if kind.startswith('invalidate') and err is None:
            ctx.probe('invalidated')

    def without_last(self, creating, made):
        res = dict(creating)
        if made:
            res.pop(made[-1][0])
        return res

    def needs(self, kind, key, had):
        """Keys whose factory has to run."""
        res = []
        if kind in ('item', 'get', 'in', 'has_key', 'setdefault', 'pop',
                    'popd', 'detach'):
            keys = [key]
        elif kind in ('values', 'items', 'itervalues', 'iteritems',
                      'filtered'):
            keys = KEYS
        elif kind == 'popitem':
            keys = [KEYS[-1]]
        else:
            return res
        for x in keys:
            if x in KEYS and x not in had and x not in res:
                if x == 'b' and self.case.get('nested'):
                    if 'a' not in had and 'a' not in res:
                        res.append('a')
                res.append(x)
        return res

    def answer(self, k, op, kind, key, given, creating, res):
        def same(want):
            if res is not want:
                self.fail('not-same', op, 'key %r gives %r, child is %r' % (
                    key, res, want))
        if kind in ('item', 'pop', 'detach', 'setdefault', 'get', 'popd'):
            if key in creating:
                same(creating[key])
            elif kind == 'setdefault':
                same(given)
            elif kind in ('get', 'popd'):
                same(self)
        elif kind in ('in', 'has_key'):
            if res is not (key in creating or key in KEYS):
                self.fail('not-same', op, '%r in node is %r' % (key, res))
        elif kind == 'popitem':
            if res[0] != KEYS[-1] or res[1] is not creating[KEYS[-1]]:
                self.fail('not-same', op, 'gives %r' % (res,))
        elif kind in ('keys', 'iter', 'iterkeys'):
            if res != KEYS:
                self.fail('keys', op, 'keys are %r' % res)
        elif kind == 'len':
            if res != len(KEYS):
                self.fail('keys', op, 'length is %r' % res)
        elif kind in ('values', 'itervalues', 'items', 'iteritems'):
            if kind in ('items', 'iteritems'):
                if [x for x, _ in res] != KEYS:
                    self.fail('keys', op, 'keys are %r' % res)
                res = [v for _, v in res]
            if len(res) != len(KEYS) or any(
                    v is not creating[x] for x, v in zip(KEYS, res)):
                self.fail('not-same', op, 'values are %r, children %r' % (
                    res, creating))
        elif kind == 'filtered':
            want = [creating[x] for x in KEYS if INode.providedBy(
                creating[x])]
            if len(want) != len(res) or any(
                    a is not b for a, b in zip(want, res)):
                self.fail('not-same', op, 'filtered values are %r' % res)


WEIGHTS = {'item': 12, 'get': 3, 'in': 2, 'has_key': 1, 'setdefault': 2,
           'set': 4, 'update': 1, 'del': 4, 'pop': 2, 'popd': 1, 'popitem': 1,
           'detach': 2, 'invalidate': 3, 'invalidateall': 1, 'values': 2,
           'itervalues': 1, 'items': 1, 'iteritems': 1, 'keys': 1, 'iter': 1,
           'iterkeys': 1, 'len': 1, 'filtered': 1}
NOKEY = ('popitem', 'invalidateall', 'values', 'itervalues', 'items',
         'iteritems', 'keys', 'iter', 'iterkeys', 'len', 'filtered')


def gen_ops(rng, cfg, n, first=0):
    invalidates = CONFIGS[cfg][2]
    weights = dict(WEIGHTS)
    if not invalidates:
        weights.pop('invalidate')
        weights.pop('invalidateall')
    ks = sorted(weights)
    focus = rng.sample(KEYS, rng.choice([1, 2, 5]))
    ops = []
    for i in range(n):
        k = rng.choices(ks, [weights[x] for x in ks])[0]
        op = {'id': first + i, 'k': k, 'on': rng.choice([0, 0, 0, 1])}
        if k not in NOKEY:
            op['key'] = rng.choice(focus)
            if rng.random() < 0.12 and k != 'invalidate':
                op['key'] = rng.choice(OTHER)
            elif rng.random() < 0.12 and k == 'invalidate':
                op['key'] = 'unknown'
        if k in ('set', 'update', 'setdefault'):
            op['value'] = rng.choice(['node', 'node', 'node'] + PLAIN)
        if rng.random() < 0.25:
            op['deep'] = 1
        ops.append(op)
    return ops


class FactoryScenario(object):
    name = 'factory'
    weight = 5

    def generate(self, rng, tier):
        cfg = rng.choice(sorted(CONFIGS))
        ops = gen_ops(rng, cfg, rng.choice(
            (8, 14, 25, 40) if tier == 'quick' else (8, 14, 25, 40, 80)))
        return {'cfg': cfg, 'ops': ops, 'nested': rng.random() < 0.5,
                'z': rng.choice(PLAIN + ['thing']),
                'faults': gen_faults(rng, [o['id'] for o in ops],
                                     kinds=WRITE_FAULTS)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        try:
            for op in case['ops']:
                r.run(op)
        finally:
            CUR[0] = None


class ThreadScenario(object):
    name = 'threads'
    weight = 2

    def generate(self, rng, tier):
        cfg = rng.choice(sorted(set(CONFIGS) - {'plain'}))
        tasks = []
        first = 0
        for _ in range(rng.choice([2, 2, 3])):
            tasks.append(gen_ops(rng, cfg, rng.choice([2, 4, 7]), first))
            first += 10
        ids = [o['id'] for t in tasks for o in t]
        return {'cfg': cfg, 'tasks': tasks, 'nested': rng.random() < 0.5,
                'z': rng.choice(PLAIN + ['thing']),
                'faults': gen_faults(rng, ids, rate=rng.choice([0, 0.1, 0.3]),
                                     kinds=WRITE_FAULTS),
                'sched': gen_sched(rng)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        sched = Sched(ctx, case['sched'])

        def body(ops):
            def f():
                for op in ops:
                    r.run(op, lock=True)
            return f
        for i, ops in enumerate(case['tasks']):
            sched.spawn('t%d' % i, body(ops))
        try:
            sched.run()
        finally:
            CUR[0] = None
        if sched.deadlock:
            raise Violation('deadlock', sched.deadlock)
        ctx.nontrivial = True


# -- fixed children ----------------------------------------------------------

class Fixed(object):
    """Shared state of the fixed children scenario."""

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.calls = []
        CUR[0] = self

    def make(self, key):
        gate('factory', key)
        child = FIXEDKINDS[self.case['kinds'][key]]()
        self.calls.append((key, child))
        return child


@plumbing(Nodify, FixedChildren)
class FixedPlain(object):
    fixed_children_factories = None


@plumbing(DefaultInit, Nodify, FixedChildren)
class FixedInit(object):
    fixed_children_factories = None


@plumbing(Adopt, DefaultInit, Nodify, FixedChildren)
class FixedAdopt(object):
    fixed_children_factories = None


FIXED = {'plain': FixedPlain, 'init': FixedInit, 'adopt': FixedAdopt}
FIXEDKINDS = {'node': BaseNode, 'falsy': Falsy, 'thing': Thing}
FIXEDKEYS = ['a', '', 'c', 'd']
MANY = FIXEDKEYS + ['k%d' % i for i in range(14)]


class FixedScenario(object):
    name = 'fixed'
    weight = 1
    OPS = ['item', 'get', 'set', 'del', 'pop', 'popd', 'popitem', 'clear',
           'update', 'setdefault', 'detach', 'values', 'items', 'keys', 'len',
           'in', 'itervalues']

    def generate(self, rng, tier):
        pool = MANY if rng.random() < 0.05 else FIXEDKEYS
        keys = rng.sample(pool, 16 if pool is MANY else
                          rng.choice([0, 1, 2, 3, 4]))
        ops = []
        n = rng.choice([6, 12, 20])
        for i in range(n):
            k = rng.choice(self.OPS + ['new', 'new'])
            if i == 0:
                k = 'new'
            op = {'id': i, 'k': k}
            op['key'] = rng.choice(pool)
            op['on'] = rng.randrange(3)
            ops.append(op)
        shared = rng.random() < 0.3
        return {'cfg': rng.choice(sorted(FIXED)), 'keys': keys, 'ops': ops,
                'makers': [rng.choice(keys) if shared else k for k in keys],
                'style': rng.choice(['list', 'tuple', 'instance']),
                'kinds': dict((k, rng.choice(sorted(FIXEDKINDS)))
                              for k in pool),
                'faults': gen_faults(rng, [o['id'] for o in ops],
                                     kinds=WRITE_FAULTS)}

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def execute(self, case, ctx):
        st = Fixed(ctx, case)
        makers = dict((k, Maker(k)) for k in case['keys'])
        fs = [(k, makers[m]) for k, m in zip(case['keys'], case['makers'])]
        if case['style'] == 'tuple':
            fs = tuple(fs)
        cls = type('Fix', (FIXED[case['cfg']],),
                   {'fixed_children_factories': fs})
        nodes = []               # (node, [(key, child)])
        try:
            for op in case['ops']:
                self.run(st, cls, nodes, op)
                with Quiet(ctx):
                    for node, kids in nodes:
                        self.check(op, node, kids)
                ctx.state('fixed', len(nodes), op['k'])
        finally:
            CUR[0] = None

    def check(self, op, node, kids):
        real = node.items()
        if [k for k, _ in real] != [k for k, _ in kids] or any(
                a[1] is not b[1] for a, b in zip(real, kids)):
            self.fail('fixed', op, 'children are %r, should be %r' % (
                real, kids))
        for k, v in kids:
            if node[k] is not v:
                self.fail('fixed', op, 'child %r is not the same' % k)
            if v.__name__ != k or v.__parent__ is not node:
                self.fail('adoption', op, 'child %r has name %r and parent %r'
                          % (k, v.__name__, v.__parent__))

    def run(self, st, cls, nodes, op):
        ctx = st.ctx
        k, key = op['k'], op['key']
        ctx.begin(op['id'])
        del st.calls[:]
        res = err = None
        node = kids = None
        if k != 'new':
            if not nodes:
                ctx.end()
                return
            node, kids = nodes[op['on'] % len(nodes)]
        try:
            res = self.call(cls, node, op, st)
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        fault = ctx.end()
        ctx.ev('op', op['id'], type(err).__name__)
        if fault is not None:
            ctx.nontrivial = True
            ctx.probe('fixed_failed')
            if err is not fault:
                self.fail('error-lost', op, 'factory raised %r, caller gets '
                          '%r' % (fault, err or res))
            return
        if k == 'new':
            if err is not None:
                self.fail('unexpected-error', op, repr(err))
            if [x for x, _ in st.calls] != st.case['makers']:
                self.fail('fixed', op, 'factories called: %r' % (
                    [x for x, _ in st.calls],))
            nodes.append((res, [(k, child) for k, (_, child) in zip(
                st.case['keys'], st.calls)]))
            ctx.probe('fixed_made')
            return
        if st.calls:
            self.fail('unexpected-factory', op, 'factories called: %r' % (
                [x for x, _ in st.calls],))
        have = dict(kids)
        changes = k in ('set', 'update') or key in have and k in (
            'del', 'pop', 'popd', 'detach') or k == 'setdefault' \
            and key not in have or kids and k in ('popitem', 'clear')
        if changes:
            ctx.probe('fixed_refused')
            ctx.nontrivial = True
            if not isinstance(err, Exception):
                self.fail('not-refused', op, 'fixed children can be changed')
            return
        if k in ('item', 'pop', 'detach', 'popitem', 'del') and (
                key not in have or k == 'popitem'):
            if k == 'del' and isinstance(err, NotImplementedError):
                return
            if not isinstance(err, KeyError):
                self.fail('unexpected-error', op, 'missing key gives %r' % (
                    err or res,))
            return
        if err is not None:
            self.fail('unexpected-error', op, repr(err))
        want = {'item': have.get(key), 'get': have.get(key, st),
                'popd': st, 'setdefault': have.get(key), 'clear': None,
                'in': key in have, 'len': len(kids)}
        if k in want:
            if res is not want[k] and res != want[k]:
                self.fail('not-same', op, 'gives %r instead of %r' % (
                    res, want[k]))

    def call(self, cls, node, op, st):
        k, key = op['k'], op['key']
        if k == 'new':
            node = cls()
            return node
        if k == 'item':
            return node[key]
        if k == 'get':
            return node.get(key, st)
        if k == 'set':
            node[key] = BaseNode()
        elif k == 'del':
            del node[key]
        elif k == 'pop':
            return node.pop(key)
        elif k == 'popd':
            return node.pop(key, st)
        elif k == 'popitem':
            return node.popitem()
        elif k == 'clear':
            return node.clear()
        elif k == 'update':
            node.update([(key, BaseNode())])
        elif k == 'setdefault':
            return node.setdefault(key, BaseNode())
        elif k == 'detach':
            return node.detach(key)
        elif k == 'values':
            return node.values()
        elif k == 'items':
            return node.items()
        elif k == 'itervalues':
            return list(node.itervalues())
        elif k == 'keys':
            return node.keys()
        elif k == 'len':
            return len(node)
        elif k == 'in':
            return key in node


SCENARIOS = [FactoryScenario(), ThreadScenario(), FixedScenario()]
