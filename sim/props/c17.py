"""C17 Lazily computed instance properties are computed once."""
from node.base import BaseNode
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import GetattrChildren
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import VolatileStorageInvalidate
from node.locking import TreeLock
from node.locking import locktree
from node.utils import UNSET
from node.utils import instance_property
from plumber import plumbing
from sim.core import CALL_FAULTS
from sim.core import Quiet
from sim.core import Violation
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched
from sim.seam import gate

ID = 'C17'
RUNS = {'quick': 60000, 'thorough': 1000000}
RULE = (
    'A case is a history of 6-40 accesses to four instance properties of up '
    'to four (some: 14) instances, replaced at times, of one of twelve classes (plain, slots, equal or unhashable, custom __getattr__, '
    '__getattribute__ or __setattr__, children behind __getattr__, overriding '
    'with super, shipped storages and caches); properties use each other; '
    'values include falsy and uncooperative ones; in one thread or in 2-3 '
    'threads that lock the tree, with faults planned at (operation, n-th '
    'computation or attribute hook). The oracle counts computations per '
    'instance and knows the object computed. Non-trivial: a remembered value '
    'was served again or a fault fired; distinct: different event log.')
STATE_MEASURE = 'hash of (class, remembered properties per instance)'
REAL = ['node.utils.instance_property', 'node.behaviors.storage',
        'node.behaviors.cache', 'node.behaviors.common.GetattrChildren',
        'node.locking', 'plumber']
STUB = ['property functions and attribute hooks: simulated, counting and '
        'failing on demand', 'threads: scheduled by the simulator']
PROBES = ['computed', 'served', 'falsy', 'failed', 'recomputed', 'nested',
          'overridden', 'shipped', 'hook_failed']
ASSUMPTIONS = [
    'a property does not use itself (other than with super)',
    'no class or instance attribute is named like the property with a leading '
    'underscore',
    'AttributeErrors of properties of classes with __getattr__ are subject to '
    'the rules of the language and not injected',
]
CUR = [None]
# named such that sloppily made up attribute names clash
PROPS = ['a', 'b', 'A', '__a__']


class Odd(object):
    """A value that refuses to be looked at."""

    def __bool__(self):
        raise RuntimeError('truth')

    def __eq__(self, other):
        raise RuntimeError('comparison')

    __hash__ = None


class Defined(object):
    """Four instance properties."""

    @instance_property
    def a(self):
        """Doc of a."""
        return CUR[0].compute(self, 'a')

    @instance_property
    def b(self):
        return CUR[0].compute(self, 'b')

    @instance_property
    def A(self):
        return CUR[0].compute(self, 'A')

    @instance_property
    def __a__(self):
        return CUR[0].compute(self, '__a__')


class Plain(Defined):
    pass


class Slots(object):
    __slots__ = ('_a', '_b', '_A', '___a__', '__weakref__')
    a = Defined.a
    b = Defined.b
    A = Defined.A
    __a__ = Defined.__a__


class Equal(Defined):
    """Instances cannot be told apart by comparing."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class Unhashable(Defined):
    __hash__ = None


class Getattr(Defined):
    """Answers every missing attribute."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        gate('getattr', name, True)
        return None


class GetattrProps(Defined):
    """Answers missing attributes by other properties."""

    def __getattr__(self, name):
        if name == '_a':
            return self.b
        raise AttributeError(name)


class Getattribute(Defined):

    def __getattribute__(self, name):
        if name in ('_a', '_b'):
            return 'wrong'
        gate('getattribute', name, True)
        return super(Getattribute, self).__getattribute__(name)


class Setattr(Defined):

    def __setattr__(self, name, value):
        gate('setattr', name)
        super(Setattr, self).__setattr__(name, value)


class Overriding(Defined):
    """Extends the properties of its base class."""

    @instance_property
    def a(self):
        return CUR[0].override(self, 'a', lambda: super(Overriding, self).a)

    @instance_property
    def b(self):
        return CUR[0].override(self, 'b', lambda: super(Overriding, self).b)


@plumbing(GetattrChildren, DefaultInit, Nodify, OdictStorage)
class Children(object):
    """Children like the names that remember values."""
    a = Defined.a
    b = Defined.b
    A = Defined.A
    __a__ = Defined.__a__


@plumbing(Cache, VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)
class CachingNode(object):
    a = Defined.a
    b = Defined.b
    A = Defined.A
    __a__ = Defined.__a__


class Node(BaseNode, Defined):

    @locktree
    def locked(self, name):
        return getattr(self, name)


# class, shipped properties, no AttributeErrors
CONFIGS = {
    'plain': (Plain, ()), 'equal': (Equal, ()),
    'unhashable': (Unhashable, ()), 'slots': (Slots, ()), 'getattr': (Getattr, ()),
    'getattrprops': (GetattrProps, ()), 'getattribute': (Getattribute, ()),
    'setattr': (Setattr, ()), 'overriding': (Overriding, ()),
    'children': (Children, ('storage',)),
    'caching': (CachingNode, ('storage', 'cache')),
    'node': (Node, ('storage',)),
}
HOOKED = ('getattr', 'getattrprops', 'children')
VALUES = ['object', 'none', 'zero', 'empty', 'false', 'list', 'dict', 'unset',
          'odd', 'error', 'class', 'gen']


def value(kind):
    return {
        'object': object, 'none': lambda: None, 'zero': lambda: 0,
        'empty': lambda: '', 'false': lambda: False, 'list': list,
        'dict': dict, 'unset': lambda: UNSET, 'odd': Odd,
        'error': lambda: AttributeError('value'), 'class': lambda: object,
        'gen': lambda: (x for x in ()),
    }[kind]()


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.cls, self.shipped = CONFIGS[case['cfg']]
        CUR[0] = self
        self.obs = []            # (instance, {prop: value}, set of failed)
        self.live = {}           # tid -> [computations]
        self.new()

    def new(self):
        with Quiet(self.ctx):
            ob = self.cls()
            if self.case['cfg'] == 'children':
                ob['_a'] = 'child'
                ob['_b'] = 'child'
        self.obs.append((ob, {}, set()))

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def lookup(self, ob):
        for o, known, failed in self.obs:
            if o is ob:
                return known, failed
        raise Violation('instance', 'property of an unknown instance')

    # -- the computations --------------------------------------------------
    def compute(self, ob, name):
        return self.computing(ob, name, False)

    def override(self, ob, name, base):
        return self.computing(ob, name, base)

    def computing(self, ob, name, base):
        st = self.live.get(self.ctx.tid())
        if st is None:
            raise Violation('computed-again', 'property %r computed outside '
                            'of an access' % name)
        top = base or not (self.cls is Overriding and name in ('a', 'b'))
        known, failed = self.lookup(ob)
        if top and name in known:
            raise Violation('computed-again', 'property %r computed again '
                            'although it has a value' % name)
        if top and name in st['stack']:
            raise Violation('computed-again', 'property %r computed while it '
                            'is computed' % name)
        if top:
            if st['stack']:
                self.ctx.probe('nested')
            st['count'].append(name)
            st['stack'].append(name)
        try:
            gate('compute', name)
            if base:
                base()
                self.ctx.probe('overridden')
            if top:
                for other in self.case['uses'].get(name, ()):
                    self.access(ob, other)
            gate('compute', name)
            res = value(self.case['values'][name])
        except BaseException:
            if top:
                failed.add(name)
            raise
        finally:
            if top:
                st['stack'].remove(name)
        if top:
            self.ctx.probe('computed')
            if not isinstance(res, Odd) and not res:
                self.ctx.probe('falsy')
            if name in failed:
                self.ctx.probe('recomputed')
                failed.discard(name)
            st['made'].append((name, res))
        return res

    def access(self, ob, name):
        """Access from within a computation; settled here: it is nested."""
        st = self.live[self.ctx.tid()]
        known = self.lookup(ob)[0]
        n = len(st['made'])
        res = getattr(ob, name)
        made = [v for x, v in st['made'][n:] if x == name]
        self.settle(known, name, made, res, 'in a computation')
        return res

    def settle(self, known, name, made, res, where):
        """The result of a successful access."""
        if name in known:
            if known[name] is not res:
                raise Violation('not-same', 'property %r gives another value '
                                '%s' % (name, where))
            self.ctx.probe('served')
            self.ctx.nontrivial = True
            return
        if len(made) != 1:
            raise Violation('not-computed', 'property %r computed %d times '
                            '%s' % (name, len(made), where))
        if made[0] is not res:
            raise Violation('not-same', 'property %r does not give the '
                            'computed value %s' % (name, where))
        known[name] = res

    # -- operations --------------------------------------------------------
    def run(self, op, lock=False):
        if op['k'] == 'new':
            if len(self.obs) < self.case.get('many', 4) and not lock:
                self.new()
            return
        if op['k'] == 'replace':
            # may get the memory of the one forgotten
            if not lock:
                del self.obs[op['on'] % len(self.obs)]
                self.new()
            return
        ob, known, failed = self.obs[op['on'] % len(self.obs)]
        if not lock:
            return self.locked(op, ob, known, failed)
        with TreeLock(ob):
            self.locked(op, ob, known, failed)

    def locked(self, op, ob, known, failed):
        name, how = op['prop'], op['how']
        shipped = self.case['shipped'] and self.shipped
        if shipped and op['on'] % 2:
            return self.constant(op, ob, known, shipped)
        ctx = self.ctx
        tid = ctx.tid()
        ctx.begin(op['id'])
        box = {'count': [], 'stack': [], 'made': []}
        res = err = None
        miss = object()
        inside = how == 'locktree' and self.case['cfg'] == 'node'
        self.live[tid] = box
        try:
            if inside:
                res = ob.locked(name)
            elif how == 'default':
                res = getattr(ob, name, miss)
            elif how == 'hasattr':
                res = hasattr(ob, name)
            elif how == 'class':
                res = type(ob).__dict__.get(
                    name, getattr(self.cls, name)).__get__(ob)
            else:
                res = getattr(ob, name)
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        finally:
            self.live.pop(tid)
            fault = ctx.end()
        made = [v for x, v in box['made'] if x == name]
        if fault is not None:
            ctx.nontrivial = True
            ctx.probe('failed')
            if fault.sim_site in ('setattr', 'getattribute', 'getattr'):
                ctx.probe('hook_failed')
            soft = isinstance(fault, AttributeError) and how in (
                'default', 'hasattr')
            if soft and err is None:
                if how == 'default' and res is not miss or \
                        how == 'hasattr' and res:
                    self.fail('error-lost', op, '%s failed with %r, result is '
                              '%r' % (fault.sim_site, fault, res))
            elif err is not fault:
                self.fail('error-lost', op, '%s failed with %r, caller gets '
                          '%r' % (fault.sim_site, fault, err or res))
            return
        if err is not None:
            self.fail('unexpected-error', op, repr(err))
        if len(set(box['count'])) != len(box['count']):
            self.fail('computed-again', op, 'computed: %r' % box['count'])
        if how == 'hasattr':
            if res is not True:
                self.fail('unexpected-error', op, 'hasattr gives %r' % res)
            if name not in known:
                if len(made) != 1:
                    self.fail('not-computed', op, 'property %r computed %d '
                              'times' % (name, len(made)))
                known[name] = made[0]
            return
        self.settle(known, name, made, res, 'in op %s' % op['id'])
        ctx.ev('op', op['id'], name, len(made))
        ctx.state(self.case['cfg'], [sorted(k) for _, k, _ in self.obs])

    def constant(self, op, ob, known, shipped):
        """Storages and caches of shipped behaviors."""
        name = shipped[op['on'] // 2 % len(shipped)]
        with Quiet(self.ctx):
            first = getattr(ob, name)
            second = getattr(ob, name)
        if first is not second or known.setdefault(name, first) is not first:
            self.fail('not-same', op, '%s is another object' % name)
        for o, k, _ in self.obs:
            if o is not ob and k.get(name) is first:
                self.fail('instance', op, '%s is shared by two instances'
                          % name)
        self.ctx.probe('shipped')


def gen_ops(rng, n, first=0, new=0.08, on=8):
    ops = []
    for i in range(n):
        x = rng.random()
        k = 'new' if x < new else 'replace' if x < new + 0.02 else 'access'
        ops.append({'id': first + i, 'k': k, 'prop': rng.choice(PROPS),
                    'on': rng.randrange(on), 'how': rng.choice(
                        ['attr', 'attr', 'attr', 'default', 'hasattr',
                         'class', 'locktree'])})
    return ops


def gen_case(rng, cfgs):
    cfg = rng.choice(cfgs)
    uses = {}
    for i, p in enumerate(PROPS):
        later = PROPS[i + 1:]
        if later and rng.random() < 0.5:
            uses[p] = rng.sample(later, rng.randint(1, len(later)))
    return {'cfg': cfg, 'uses': uses, 'shipped': rng.random() < 0.5,
            'values': dict((p, rng.choice(VALUES)) for p in PROPS)}


def kinds(cfg):
    return [k for k in CALL_FAULTS
            if k != 'attribute' or cfg not in HOOKED]


class PropertyScenario(object):
    name = 'property'
    weight = 3

    def generate(self, rng, tier):
        case = gen_case(rng, sorted(CONFIGS))
        if rng.random() < 0.05:
            case['many'] = 14
            case['ops'] = gen_ops(rng, rng.choice((60, 100)), 0, 0.3, 14)
        else:
            case['ops'] = gen_ops(rng, rng.choice(
                (6, 12, 20, 40) if tier == 'quick' else (6, 12, 20, 40, 80)))
        case['faults'] = gen_faults(
            rng, [o['id'] for o in case['ops']], kinds=kinds(case['cfg']),
            maxcall=5)
        return case

    def execute(self, case, ctx):
        r = Run(ctx, case)
        try:
            for op in case['ops']:
                r.run(op)
        finally:
            CUR[0] = None


class ThreadScenario(object):
    name = 'threads'
    weight = 1

    def generate(self, rng, tier):
        case = gen_case(rng, ['children', 'caching', 'node', 'node'])
        case['tasks'] = []
        first = 0
        for _ in range(rng.choice([2, 2, 3])):
            case['tasks'].append(gen_ops(rng, rng.choice([2, 4, 6]), first))
            first += 10
        ids = [o['id'] for t in case['tasks'] for o in t]
        case['faults'] = gen_faults(rng, ids, rate=rng.choice([0, 0.1, 0.3]),
                                    kinds=kinds(case['cfg']), maxcall=4)
        case['sched'] = gen_sched(rng)
        return case

    def execute(self, case, ctx):
        r = Run(ctx, case)
        r.new()
        sched = Sched(ctx, case['sched'])

        def body(ops):
            def f():
                for op in ops:
                    r.run(op, lock=True)
            return f
        for i, ops in enumerate(case['tasks']):
            sched.spawn('t%d' % i, body(ops))
        try:
            sched.run()
        finally:
            CUR[0] = None
        if sched.deadlock:
            raise Violation('deadlock', sched.deadlock)
        ctx.nontrivial = True


SCENARIOS = [PropertyScenario(), ThreadScenario()]
