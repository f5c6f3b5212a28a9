"""C11 Cache and invalidation never serve wrong children."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from plumber import Behavior
from plumber import default
from plumber import override
from plumber import plumbing
from sim.core import Quiet
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.seam import Proxy
from sim.seam import gate
from sim.zoo import OddBase

ID = 'C11'
RUNS = {'quick': 60000, 'thorough': 1000000}
RULE = (
    'A case is a history of 8-40 reads, writes, deletes, invalidations and '
    'changes of the backing storage behind two caching nodes of one of nine '
    'classes, with faults planned at (operation, n-th storage or cache '
    'call). For every key the model knows which objects may be cached; '
    'every read is checked for its value and its number of loads. '
    'Non-trivial: a value was served from the cache or a fault fired; '
    'distinct: different event log.')
STATE_MEASURE = 'hash of (stored keys, possibly cached keys, stale keys)'
REAL = ['node.behaviors.cache', 'node.utils.instance_property',
        'node.behaviors.mapping', 'node.behaviors.storage', 'plumber', 'odict']
STUB = ['volatile storage: the shipped storage behind a counting proxy that '
        'fails on demand', 'persistent storage: simulated, loads fresh '
        'objects', 'some classes: cache dict behind a failing proxy']
PROBES = ['cached', 'loaded', 'stale_served', 'load_failed', 'write_failed',
          'invalidated', 'invalidate_unknown', 'reloaded_after_failure']
ASSUMPTIONS = [
    'a storage call that fails has had no effect',
    'whether a written value is cached at once or loaded by the next read is '
    'left open; after a failed write or delete it must be loaded',
]


class Rec(object):
    """A loaded value; every load makes a new one."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Rec%s' % self.n


class Box(object):
    """Content of one persistent storage."""


class Counting(Proxy):

    def __getitem__(self, key):
        if CUR[0] is not None and not CUR[0].ctx.quiet:
            CUR[0].loads.append(key)
        return Proxy.__getitem__(self, key)


class CacheProxy(Proxy):

    def __delitem__(self, key):
        gate('cache.del', key, True)
        del self._t[key]

    def __setitem__(self, key, value):
        gate('cache.set', key, True)
        self._t[key] = value


CUR = [None]


def counted(base):
    class Sim(base):

        @property
        def storage(self):
            return Counting(super(Sim, self).storage)
    return Sim


class Disk(Behavior):
    """Storage that reads its children from somewhere each time."""

    @override
    def __getitem__(self, key):
        CUR[0].loads.append(key)
        gate('st.get', key, True)
        v = self.disk[key]
        return Rec(v.n) if isinstance(v, Rec) else v

    @override
    def __setitem__(self, key, value):
        gate('st.set', key)
        self.disk[key] = value

    @override
    def __delitem__(self, key):
        gate('st.del', key)
        del self.disk[key]

    @override
    def __iter__(self):
        gate('st.iter', '', True)
        return iter(list(self.disk))

    @default
    def invalidate(self, key=None):
        gate('st.invalidate', key)
        if key is not None and key not in self.disk:
            raise KeyError(key)


@counted
@plumbing(Cache, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Volatile(object):
    pass


@counted
@plumbing(Cache, VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)
class VolatileDict(object):
    pass


@counted
@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify,
          OdictStorage)
class VolatileNodes(object):
    pass


@counted
@plumbing(Cache, Invalidate, Adopt, DefaultInit, Nodify, OdictStorage)
class Simple(object):
    pass


@counted
@plumbing(Invalidate, DefaultInit, Nodify, OdictStorage)
class NoCache(object):
    pass


@counted
@plumbing(VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class NoCacheVolatile(object):
    pass


@plumbing(Cache, DefaultInit, Nodify, Disk)
class Persistent(object):
    pass


@plumbing(UnicodeAware, Cache, Adopt, DefaultInit, Nodify, Disk)
class PersistentAdopt(object):
    pass


@plumbing(Cache, DefaultInit, Nodify, Disk)
class OwnCacheBase(object):
    pass


class OwnCache(OwnCacheBase):

    @property
    def cache(self):
        d = self.__dict__.setdefault('own_cache', {})
        return CacheProxy(d, 'cache')


class Cfg(object):

    def __init__(self, cls, cache=True, disk=False, nodes=False):
        self.cls = cls
        self.cache = cache
        self.disk = disk
        self.nodes = nodes


CONFIGS = {
    'volatile': Cfg(Volatile), 'volatiledict': Cfg(VolatileDict),
    'volatilenodes': Cfg(VolatileNodes, nodes=True),
    'simple': Cfg(Simple), 'nocache': Cfg(NoCache, cache=False),
    'nocachevolatile': Cfg(NoCacheVolatile, cache=False),
    'persistent': Cfg(Persistent, disk=True),
    'persistentadopt': Cfg(PersistentAdopt, disk=True),
    'owncache': Cfg(OwnCache, disk=True),
}
KEYS = ['a', '', 'c', 0]
MANY = KEYS + ['k%d' % i for i in range(16)]
NO = 'nothing cached'


def ordered(keys):
    return sorted(keys, key=repr)


class Side(object):
    """One node and what is known about it."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.node = cfg.cls(name='n')
        if cfg.disk:
            self.node.disk = {}
        self.possible = {}       # key -> list of NO / objects
        self.failed = set()

    def store(self):
        """The real content of the storage."""
        if self.cfg.disk:
            return self.node.disk
        return self.node.storage._t

    def may(self, key):
        return self.possible.get(key, [NO])


def same(a, b):
    if isinstance(a, (Rec, BaseNode)) or isinstance(b, (Rec, BaseNode)):
        return a is b
    return type(a) is type(b) and a == b


def known(may):
    """Something is cached for sure (values may be equal to anything)."""
    return not any(c is NO for c in may)


def alike(a, b):
    """b is what storing a yields when loaded."""
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.n == b.n
    return same(a, b)


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.cfg = CONFIGS[case['cfg']]
        self.loads = []
        self.n = 0
        CUR[0] = self
        self.sides = [Side(self.cfg), Side(self.cfg)]

    def value(self, v):
        if self.cfg.nodes:
            self.n += 1
            return OddBase() if self.n % 3 == 0 else BaseNode()
        if v == 'rec':
            self.n += 1
            return Rec(self.n)
        return v

    def fail(self, kind, s, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def do(self, fn):
        """-> (result, error, fault, loads)"""
        del self.loads[:]
        err = res = None
        try:
            res = fn()
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        return res, err, self.ctx.fired(), list(self.loads)

    # -- reads -------------------------------------------------------------
    def check_read(self, s, op, key, got, loads):
        """got: value or KeyError."""
        store = s.store()
        may = s.may(key)
        n = loads.count(key)
        if n > 1 and self.cfg.cache:
            self.fail('loaded-again', s, op, '%r was loaded %d times' % (
                key, n))
        ok = []
        for c in may:
            if c is NO:
                if n == 0 and self.cfg.cache:
                    continue
                if key in store:
                    if not isinstance(got, KeyError) and alike(
                            store[key], got):
                        ok.append(got if self.cfg.cache else NO)
                elif isinstance(got, KeyError):
                    ok.append(NO)
            elif n == 0 and same(c, got):
                ok.append(c)
        if not ok:
            kind = 'stale' if not known(may) and len(may) == 1 else 'cache'
            if n and known(may):
                kind = 'loaded-again'
            self.fail(kind, s, op, 'key %r gives %r with %d loads, storage '
                      'holds %r, may be cached: %r%s' % (
                          key, got, n, store.get(key, 'nothing'), may,
                          ' (after a failure)' if key in s.failed else ''))
        if ok[0] is not NO and n == 0:
            self.ctx.probe('cached')
            self.ctx.nontrivial = True
            if key not in store or not alike(store[key], got):
                self.ctx.probe('stale_served')
        else:
            self.ctx.probe('loaded')
            if key in s.failed:
                self.ctx.probe('reloaded_after_failure')
        s.failed.discard(key)
        s.possible[key] = ok[:1]

    def read(self, s, op):
        node, key = s.node, op['key']
        how = op['how']
        miss = object()
        fn = {'item': lambda: node[key], 'get': lambda: node.get(key, miss),
              'in': lambda: key in node,
              'setdefault': lambda: node.setdefault(key, miss),
              'has_key': lambda: node.has_key(key)}[how]     # noqa
        res, err, fault, loads = self.do(fn)
        if fault is not None:
            self.lost(s, op, err, fault, [key])
            return
        if how == 'item':
            if err is not None and not isinstance(err, KeyError):
                self.fail('unexpected-error', s, op, repr(err))
            self.check_read(s, op, key, err if err is not None else res,
                            loads)
            return
        if err is not None:
            self.fail('unexpected-error', s, op, repr(err))
        if how == 'get':
            self.check_read(s, op, key, KeyError() if res is miss else res,
                            loads)
        else:
            # the value itself is seen by the next read
            if not res and loads.count(key):
                self.check_read(s, op, key, KeyError(), loads)
            elif not res:
                self.fail('cache', s, op, '%r missing without asking the '
                          'storage' % key)
            elif loads.count(key):
                if key not in s.store():
                    self.fail('cache', s, op, '%r is found in nowhere' % key)
                s.possible[key] = ['loaded'] if self.cfg.cache else [NO]
                self.peek(s, key)
            elif not known(s.may(key)) and len(s.may(key)) == 1:
                self.fail('stale', s, op, '%r is found without a load' % key)
            else:
                s.possible[key] = [c for c in s.may(key) if c is not NO]

    def peek(self, s, key):
        """Object cached by a load whose result was not returned."""
        if self.cfg.cache:
            with Quiet(self.ctx):
                s.possible[key] = [s.node[key]]

    def readall(self, s, op):
        node = s.node
        how = op['how']
        if how in ('item', 'get'):
            fn = node.items
        elif how == 'in':
            fn = lambda: list(node.iteritems())               # noqa
        else:
            fn = lambda: list(zip(node.keys(), node.values()))  # noqa
        res, err, fault, loads = self.do(fn)
        if fault is not None:
            self.lost(s, op, err, fault, MANY)
            return
        if err is not None:
            self.fail('unexpected-error', s, op, repr(err))
        if ordered(k for k, v in res) != ordered(s.store()):
            self.fail('keys', s, op, 'keys are %r, storage has %r' % (
                [k for k, v in res], list(s.store())))
        for k, v in res:
            self.check_read(s, op, k, v, loads)

    def lost(self, s, op, err, fault, keys):
        """A failed read or bulk operation."""
        if err is not fault:
            self.fail('error-lost', s, op, 'storage raised %r, caller gets %r'
                      % (fault, err))
        self.ctx.probe('load_failed')
        for k in keys:
            # what was cached may still be, what was loaded may be
            if NO not in s.may(k):
                continue
            if len(keys) == 1 and fault.sim_site == 'st.get':
                s.failed.add(k)
                continue
            self.unknown(s, k)

    def unknown(self, s, k):
        """Whether k is cached is found by looking into the cache; it must be
        what the storage holds or held."""
        if not self.cfg.cache:
            return
        with Quiet(self.ctx):
            cache = s.node.cache
            if k not in cache:
                s.possible[k] = [NO]
                return
            c = cache[k]
        store = s.store()
        if k in store and alike(store[k], c) or any(
                x is not NO and same(x, c) for x in s.may(k)):
            s.possible[k] = [c]
            return
        raise Violation('cache', 'cache holds %r for %r, storage %r' % (
            c, k, store.get(k, 'nothing')))

    # -- writes ------------------------------------------------------------
    def write(self, s, op):
        node, key = s.node, op['key']
        v = self.value(op['value'])
        before = dict(s.store())
        if op['how'] == 'get':
            def fn():
                node.update([(key, v)])
        else:
            def fn():
                node[key] = v
        res, err, fault, loads = self.do(fn)
        if fault is not None:
            return self.broken(s, op, err, fault, key, before)
        if err is not None:
            self.fail('unexpected-error', s, op, repr(err))
        if s.store().get(key, NO) is not v and not same(
                s.store().get(key, NO), v):
            self.fail('lost-write', s, op, 'written value is not stored')
        s.possible[key] = [NO, v] if self.cfg.cache else [NO]
        s.failed.discard(key)

    def broken(self, s, op, err, fault, key, before):
        """A failed write or delete."""
        if err is not fault and not isinstance(fault, KeyError):
            self.fail('error-lost', s, op, 'storage raised %r, caller gets %r'
                      % (fault, err))
        if err is None:
            self.fail('error-lost', s, op, 'storage raised %r, caller gets '
                      'nothing' % fault)
        self.ctx.probe('write_failed')
        if dict(s.store()) != before:
            self.fail('half-done', s, op, 'failed but changed the storage')
        if fault.sim_site in ('st.set', 'st.del'):
            s.possible[key] = [NO]
            s.failed.add(key)
        elif fault.sim_site != 'st.get' or NO not in s.may(key):
            self.unknown(s, key)

    def delete(self, s, op):
        node, key = s.node, op['key']
        before = dict(s.store())
        has = key in before
        pop = op['how'] == 'get'
        if pop:
            fn = lambda: node.pop(key)          # noqa
            may = s.may(key)
            if known(may) and not has:
                return
        else:
            def fn():
                del node[key]
        res, err, fault, loads = self.do(fn)
        if fault is not None:
            return self.broken(s, op, err, fault, key, before)
        if not has:
            if not isinstance(err, KeyError):
                self.fail('not-refused', s, op, 'key %r does not exist' % key)
        elif err is not None:
            self.fail('unexpected-error', s, op, repr(err))
        if pop and err is None:
            self.check_read(s, op, key, res, loads) if False else None
            ok = [c for c in s.may(key) if c is not NO and same(c, res)]
            if not ok and not (not known(s.may(key)) and alike(
                    before[key], res)):
                self.fail('cache', s, op, 'pop of %r gives %r, storage held '
                          '%r' % (key, res, before[key]))
        if key in s.store():
            self.fail('lost-write', s, op, 'key %r is still stored' % key)
        s.possible[key] = [NO]

    def invalidate(self, s, op):
        node = s.node
        key = op['key'] if op['how'] != 'in' else None
        before = dict(s.store())
        if op['how'] == 'get' and key is not None:
            fn = lambda: node.invalidate(key)               # noqa
        elif key is None:
            fn = node.invalidate
        else:
            fn = lambda: node.invalidate(key=key)           # noqa
        res, err, fault, loads = self.do(fn)
        keys = MANY if key is None else [key]
        if fault is not None:
            swallow = isinstance(fault, KeyError)
            if err is not fault and not (swallow and isinstance(
                    err, KeyError)):
                if not (swallow and err is None):
                    self.fail('error-lost', s, op, 'storage raised %r, caller '
                              'gets %r' % (fault, err))
            store = s.store()
            for k in keys:
                if k in before and k not in store and not self.cfg.disk:
                    # removed before it failed
                    with Quiet(self.ctx):
                        if self.cfg.cache and k in s.node.cache:
                            self.fail('stale', s, op, 'key %r is gone from '
                                      'the storage but still cached' % k)
                self.unknown(s, k)
            return
        if key is not None and key not in before:
            self.ctx.probe('invalidate_unknown')
            if not isinstance(err, KeyError):
                self.fail('not-refused', s, op, 'invalidation of unknown key '
                          '%r gives %r' % (key, err or res))
            s.possible[key] = [NO] + [c for c in s.may(key) if c is not NO]
            self.unknown(s, key)
            return
        if err is not None:
            self.fail('unexpected-error', s, op, repr(err))
        self.ctx.probe('invalidated')
        after = dict(before)
        if not self.cfg.disk:
            for k in keys:
                after.pop(k, None)
        if ordered(after) != ordered(s.store()):
            self.fail('invalidate', s, op, 'storage has %r after, should have '
                      '%r' % (ordered(s.store()), ordered(after)))
        for k in keys:
            s.possible[k] = [NO]

    def external(self, s, op):
        """The storage changes behind the node."""
        store = s.store()
        if op['how'] == 'in':
            store.pop(op['key'], None)
        else:
            store[op['key']] = self.value(op['value'])

    def run(self, op):
        s = self.sides[op['side']]
        self.ctx.begin(op['id'])
        try:
            getattr(self, op['k'])(s, op)
        finally:
            self.ctx.end()
        self.ctx.ev('op', op['id'], ordered(s.store()))
        self.ctx.state(ordered(s.store()), ordered(
            (k, len(v), v[0] is NO) for k, v in s.possible.items()))


WEIGHTS = {'read': 10, 'readall': 2, 'write': 5, 'delete': 3,
           'invalidate': 3, 'external': 4}


class CacheScenario(object):
    name = 'cache'
    weight = 1

    def generate(self, rng, tier):
        cfg = rng.choice(sorted(CONFIGS))
        ks = sorted(WEIGHTS)
        ops = []
        # some nodes have many children
        many = rng.random() < 0.06
        size = (8, 14, 25, 40) if tier == 'quick' else (8, 14, 25, 40, 80)
        if many:
            size = (60, 100)
        for i in range(rng.choice(size)):
            k = rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
            how = rng.choice(['item', 'item', 'get', 'in'])
            if k == 'read':
                how = rng.choice(['item', 'item', 'item', 'get', 'in',
                                  'has_key'])
            if k == 'invalidate' and how == 'in' and rng.random() < 0.5:
                how = 'item'
            ops.append({'id': i, 'k': k, 'key': rng.choice(
                MANY if many else KEYS), 'how': how,
                        'side': rng.choice([0, 0, 0, 1]),
                        'value': rng.choice(['rec', 'rec', 'rec', 0, None, '',
                                             False, 'text'])})
            if many and i < len(MANY):
                # all of them are there
                ops[-1].update(k='external', key=MANY[i], side=0, how='item')
            elif many and rng.random() < 0.5:
                ops[-1].update(k='read', how='item', side=0)
        return {'cfg': cfg, 'ops': ops, 'faults': gen_faults(
            rng, [o['id'] for o in ops], kinds=WRITE_FAULTS, maxcall=4)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        try:
            for op in case['ops']:
                r.run(op)
        finally:
            CUR[0] = None


SCENARIOS = [CacheScenario()]
