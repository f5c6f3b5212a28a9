"""Copies of nodes with other behaviors: aliases, factories, fixed children,
caches, events, lazy properties, attribute access."""
import copy
import pickle
from node import base
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import FixedChildren
from node.behaviors import GetattrChildren
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.interfaces import INode
from node.utils import AttributeAccess
from node.utils import UNSET
from node.utils import instance_property
from odict import odict
from plumber import plumbing
from sim.core import Quiet
from sim.core import READ_FAULTS
from sim.core import Violation
from sim.core import gen_faults
from sim.world import Fragile

CALLS = []


@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class AliasNode(object):
    aliaser = PrefixSuffixAliaser('p-', '-s')


@plumbing(Adopt, Alias, DefaultInit, Nodify, DictStorage)
class OwnAlias(object):

    @instance_property
    def aliaser(self):
        return DictAliaser([('p-%s-s' % k, k) for k in KEYS])


@plumbing(Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, ChildFactory,
          OdictStorage)
class FactoryNode(object):
    factories = odict([('a', base.BaseNode), ('b', base.OrderedNode),
                       ('c', base.Node)])


@plumbing(Adopt, DefaultInit, Nodify, FixedChildren)
class FixedNode(object):
    fixed_children_factories = (('a', base.BaseNode), ('b', base.OrderedNode),
                                ('c', base.Node))


@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify,
          DictStorage)
class CacheNode(object):
    pass


@plumbing(Events, Nodespaces, Attributes, Adopt, DefaultInit, Nodify,
          OdictStorage)
class EventNode(object):
    a = EventAttribute(1)
    b = EventAttribute(2, storage='attrs')
    c = EventAttribute(always_dispatch=True)


@plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, OdictStorage)
class GetattrNode(object):
    pass


@plumbing(Fallback, UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)
class FallbackNode(object):
    fallback_key = 'c'


class LazyNode(base.OrderedNode):

    @instance_property
    def a(self):
        CALLS.append('a')
        return []

    @instance_property
    def b(self):
        CALLS.append('b')
        return [self.a]

    @instance_property
    def c(self):
        CALLS.append('c')


class Sub(object):
    """A subscriber."""

    def __init__(self, n):
        self.n = n

    def __call__(self, *args):
        CALLS.append((self.n, args))

    def __eq__(self, other):
        return isinstance(other, Sub) and other.n == self.n

    def __hash__(self):
        return self.n


KEYS = ['a', 'b', 'c']
KINDS = {
    'alias': AliasNode, 'ownalias': OwnAlias, 'factory': FactoryNode,
    'fixed': FixedNode, 'cache': CacheNode, 'events': EventNode,
    'getattr': GetattrNode, 'fallback': FallbackNode, 'lazy': LazyNode,
    'access': base.OrderedNode,
}
LOOSE = ('alias', 'ownalias', 'cache', 'getattr', 'fallback', 'access')


class Ob(object):
    """An object with its model: values, marks of children and so on."""

    def __init__(self, real, model, name):
        self.real = real
        self.model = model
        self.name = name


def fresh(kind):
    real = KINDS[kind](name='top')
    model = {'kids': {}, 'cache': {}, 'vals': {}, 'subs': {}, 'lazy': {}}
    if kind == 'fixed':
        model['kids'] = {k: ['n', []] for k in KEYS}
    if kind == 'events':
        model['subs'] = {k: [] for k in KEYS}
    if kind == 'access':
        real = AttributeAccess(real)
    return Ob(real, model, 'o0')


def user(kind, key):
    return 'p-%s-s' % key if kind in ('alias', 'ownalias') else key


class KindScenario(object):
    name = 'kinds'
    weight = 0.35

    def generate(self, rng, tier):
        kind = rng.choice(sorted(KINDS))
        ops = []
        for i in range(rng.choice([6, 12, 24, 40])):
            k = rng.choices(['copy', 'get', 'set', 'del', 'mark', 'special'],
                            [3, 3, 5, 2, 4, 4])[0]
            op = {'id': i, 'k': k, 'ob': rng.randrange(6),
                  'key': rng.choice(KEYS), 'n': rng.randrange(100)}
            if k == 'copy':
                op['how'] = rng.choice(['method', 'module', 'pickle', 'pickle',
                                        'shallow'])
                op['proto'] = rng.randrange(2, 6)
            elif k == 'set':
                op['v'] = rng.choice([['n'], ['n'], ['p', rng.choice(
                    [0, 5, '', 't', None])], ['F'], ['U'], ['l']])
            elif k == 'special':
                op['what'] = rng.randrange(4)
            ops.append(op)
        ids = [o['id'] for o in ops if o['k'] == 'copy']
        return {'kind': kind, 'ops': ops,
                'faults': gen_faults(rng, ids, kinds=READ_FAULTS, maxcall=3)}

    def execute(self, case, ctx):
        del CALLS[:]
        self.ctx, self.kind = ctx, case['kind']
        self.obs = [fresh(self.kind)]
        for op in case['ops']:
            ob = self.obs[op['ob'] % len(self.obs)]
            if op['k'] == 'copy':
                self.copy(op, ob)
            else:
                ctx.begin(op['id'])
                del CALLS[:]
                try:
                    getattr(self, 'do_' + op['k'])(op, ob)
                finally:
                    ctx.end()
            with Quiet(ctx):
                for o in self.obs:
                    self.check(o, op)
            ctx.ev(op['id'], op['k'], self.kind)
            ctx.state(self.kind, len(self.obs), sorted(ob.model['kids']))

    def fail(self, what, op, msg):
        raise Violation('copy-' + what, 'op %s (%s of a %s node): %s' % (
            op['id'], op['k'], self.kind, msg))

    # -- copies ------------------------------------------------------------
    def copy(self, op, ob):
        real, how = ob.real, op['how']
        self.ctx.begin(op['id'])
        err = res = None
        del CALLS[:]
        try:
            if how == 'shallow':
                if self.kind == 'access':
                    return
                res = copy.copy(real) if op['n'] % 2 else real.copy()
            elif how == 'pickle':
                res = pickle.loads(pickle.dumps(real, op['proto']))
            elif how == 'module' or self.kind == 'access':
                res = copy.deepcopy(real)
            else:
                res = real.deepcopy()
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        finally:
            fault = self.ctx.end()
        if fault is not None:
            self.ctx.nontrivial = True
            self.ctx.probe('copy_failed')
            if err is not fault:
                self.fail('error-lost', op, '%r is lost, caller gets %r' % (
                    fault, err or res))
            return
        if err is not None:
            self.fail('fails', op, '%s: %s' % (type(err).__name__, err))
        if CALLS:
            self.fail('active', op, 'copying calls %r' % CALLS)
        with Quiet(self.ctx):
            if res is real or type(res) is not type(real):
                self.fail('same', op, 'gives %r' % (type(res),))
            if how == 'shallow':
                if res.name != real.name or res.parent is not real.parent:
                    self.fail('shallow', op, 'name or parent')
                for k in ob.model['kids']:
                    k = user(self.kind, k)
                    if res[k] is not real[k]:
                        self.fail('shallow', op, 'child %r' % k)
                return
            new = Ob(res, copy.deepcopy(ob.model), 'o%d' % len(self.obs))
            self.check(new, op)
            for k in ob.model['kids']:
                a, b = self.item(ob, k), self.item(new, k)
                if a is b and (INode.providedBy(a)
                               or isinstance(a, (list, Fragile))):
                    self.fail('shared', op, 'child %r is shared' % k)
        self.ctx.probe('deep_copies')
        self.ctx.probe('kind_copies')
        if len(self.obs) < 4:
            self.obs.append(new)
        elif op['n'] % 2:
            self.obs[op['n'] % len(self.obs)] = new
        self.ctx.nontrivial = True

    # -- operations --------------------------------------------------------
    def item(self, ob, k):
        if self.kind == 'access':
            return getattr(ob.real, k)
        return ob.real[user(self.kind, k)]

    def do_get(self, op, ob):
        k = op['key']
        if self.kind == 'factory':
            self.item(ob, k)
            ob.model['kids'].setdefault(k, ['n', []])
            return
        try:
            self.item(ob, k)
            hit = True
        except (KeyError, AttributeError):
            hit = False
        want = k in ob.model['kids']
        if self.kind == 'cache' and k in ob.model['cache']:
            want = True
        elif self.kind == 'cache' and want:
            ob.model['cache'][k] = ob.model['kids'][k]
        if hit != want:
            self.fail('read', op, 'key %r is %sthere' % (
                k, '' if hit else 'not '))

    def do_set(self, op, ob):
        if self.kind in ('factory', 'fixed'):
            return
        k, v = op['key'], op['v']
        if v[0] == 'n' or self.kind == 'lazy' or (
                self.kind == 'events' and v[0] not in 'nl'):
            val, m = base.OrderedNode(), ['n', []]
        elif v[0] == 'F':
            val, m = Fragile(op['n']), ['F', op['n']]
        elif v[0] == 'U':
            val, m = UNSET, ['U']
        elif v[0] == 'l':
            val, m = [op['n']], ['l', [op['n']]]
        else:
            val, m = v[1], list(v)
        if self.kind == 'access':
            if m[0] != 'n':
                # ordered nodes hold nodes only
                val, m = base.OrderedNode(), ['n', []]
            setattr(ob.real, k, val)
        else:
            ob.real[user(self.kind, k)] = val
        ob.model['kids'][k] = m
        ob.model['cache'].pop(k, None)

    def do_del(self, op, ob):
        k = op['key']
        if k not in ob.model['kids'] or self.kind == 'fixed':
            return
        del ob.real[user(self.kind, k)]
        del ob.model['kids'][k]
        ob.model['cache'].pop(k, None)

    def do_mark(self, op, ob):
        """Change a child in place."""
        k = op['key']
        m = ob.model['kids'].get(k)
        if m is None or m[0] not in 'nl':
            return
        if self.kind == 'cache' and k not in ob.model['cache']:
            ob.model['cache'][k] = m
        val = self.item(ob, k)
        if m[0] == 'l':
            val.append(op['n'])
            m[1].append(op['n'])
            return
        key = 'm%d' % (op['n'] % 3)
        if key in m[1]:
            del val[key]
            m[1].remove(key)
        else:
            val[key] = base.OrderedNode() if not isinstance(val, base.Node) \
                else base.Node()
            m[1].append(key)

    def do_special(self, op, ob):
        real, model, k, n = ob.real, ob.model, op['key'], op['n']
        if self.kind == 'events':
            if op['what'] == 0:
                if n % 4 == 0:
                    real.unbind(event=k)
                    model['subs'][k] = []
                elif n % 4 == 1:
                    real.unbind(subscriber=Sub(n // 4 % 4))
                    for s in model['subs'].values():
                        if n // 4 % 4 in s:
                            s.remove(n // 4 % 4)
                else:
                    real.bind(**{k: Sub(n % 5)})
                    if n % 5 not in model['subs'][k]:
                        model['subs'][k].append(n % 5)
                return
            old = model['vals'].get(k, {'a': 1, 'b': 2, 'c': UNSET}[k])
            setattr(real, k, n % 3)
            model['vals'][k] = n % 3
            want = [(s, (n % 3,)) for s in model['subs'][k]] \
                if k == 'c' or old != n % 3 else []
            if CALLS != want:
                self.fail('events', op, '%s calls %r instead of %r' % (
                    ob.name, CALLS, want))
        elif self.kind == 'lazy':
            val = getattr(real, k)
            if k not in model['lazy']:
                if k == 'a' or k == 'b':
                    model['lazy'].setdefault('a', [])
                if k == 'b':
                    model['lazy']['b'] = [model['lazy']['a']]
                if k == 'c':
                    model['lazy']['c'] = None
            elif CALLS:
                self.fail('lazy', op, '%r computed again' % CALLS)
            if k == 'a':
                val.append(n)
                model['lazy']['a'].append(n)
            if k == 'b' and val[0] is not real.a:
                self.fail('lazy', op, 'parts of the copy are not connected')
        elif self.kind == 'cache':
            if op['what'] == 0:
                real.invalidate()
                model['cache'].clear()
                model['kids'].clear()
            elif op['what'] == 1 and k in model['kids']:
                real.invalidate(k)
                del model['kids'][k]
                model['cache'].pop(k, None)
        elif self.kind == 'factory' and k in model['kids'] and op['what'] < 2:
            real.invalidate(k)
            del model['kids'][k]

    # -- state -------------------------------------------------------------
    def check(self, ob, op):
        real, model = ob.real, ob.model
        kids = model['kids']
        if self.kind == 'access':
            have = [k for k in KEYS if hasattr(real, k)]
            if have != sorted(kids):
                self.fail('keys', op, '%s has %r, should have %r' % (
                    ob.name, have, sorted(kids)))
        else:
            have = [k for k in real]
            want = [user(self.kind, k) for k in kids]
            if self.kind == 'factory':
                want = KEYS
            if have != want and (self.kind not in ('ownalias', 'cache')
                                 or sorted(have) != sorted(want)):
                self.fail('keys', op, '%s has %r, should have %r' % (
                    ob.name, have, want))
            if real.name != 'top' or real.parent is not None:
                self.fail('name', op, 'name or parent of ' + ob.name)
        for k, m in kids.items():
            if self.kind == 'cache':
                if k not in model['cache']:
                    # reading fills the cache
                    model['cache'][k] = m
            val = self.item(ob, k)
            if m[0] == 'n':
                ok = INode.providedBy(val) and sorted(
                    x for x in val) == sorted(m[1]) \
                    and val.name == user(self.kind, k) \
                    and (self.kind == 'access' or val.parent is real)
                if self.kind == 'lazy' and ok:
                    ok = val.root is real
            elif m[0] == 'F':
                ok = isinstance(val, Fragile) and val.n == m[1]
            elif m[0] == 'U':
                ok = val is UNSET
            else:
                ok = type(val) is type(m[1]) and val == m[1]
            if not ok:
                self.fail('child', op, 'child %r of %s is %s, should be %r' % (
                    k, ob.name, type(val).__name__, m))
        if self.kind == 'events':
            for k, d in (('a', 1), ('b', 2), ('c', UNSET)):
                want = model['vals'].get(k, d)
                if getattr(real, k) != want:
                    self.fail('events', op, '%s of %s is %r, should be %r' % (
                        k, ob.name, getattr(real, k), want))
            if [x for x in real.attrs] != [k for k in ('b',)
                                           if k in model['vals']]:
                self.fail('events', op, 'attributes of %s are %r' % (
                    ob.name, list(real.attrs)))
        if self.kind == 'lazy':
            del CALLS[:]
            for k, want in model['lazy'].items():
                if getattr(real, k) != want:
                    self.fail('lazy', op, '%s of %s is %r, should be %r' % (
                        k, ob.name, getattr(real, k), want))
            if CALLS:
                self.fail('lazy', op, '%r computed again' % CALLS)
