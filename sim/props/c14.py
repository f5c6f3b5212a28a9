"""C14 Aliased nodes translate keys consistently in both directions."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors.alias import AliaserChain
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors.alias import DictAliaser
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from node.behaviors import UnicodeAware
from node.interfaces import INode
from plumber import plumbing
from sim.core import Quiet
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.seam import Proxy
from sim.seam import gate
from sim.zoo import OddBase

ID = 'C14'
RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = (
    'A case is a history of 8-40 mapping operations on two aliased nodes of '
    'one of seven classes with one of ten kinds of aliasers, mixed with '
    'changes of the storage behind the node, changes of the aliaser at '
    'runtime and deep copies, with faults planned at (operation, n-th storage '
    'or aliaser call). The model keeps the stored keys and its own '
    'translation. Non-trivial: a key was translated or hidden, or a fault '
    'fired; distinct: different event log.')
STATE_MEASURE = 'hash of (aliaser, stored keys, kind of operation)'
REAL = ['node.behaviors.alias', 'node.utils.ReverseMapping',
        'node.behaviors.mapping', 'node.behaviors.common',
        'node.behaviors.storage', 'plumber', 'odict']
STUB = ['storage: the shipped storage behind a proxy that fails on demand',
        'aliasers: the shipped ones, calls fail on demand']
PROBES = ['translated', 'hidden', 'unaliasable', 'missing', 'storage_failed',
          'aliaser_failed', 'realiased', 'remapped', 'external',
          'keyerror_named', 'empty_whitelist', 'copied', 'own_error']
ASSUMPTIONS = [
    'a storage or aliaser call that fails has had no effect',
    'aliasers map keys one-to-one; whitelisting ones are strict',
    'an aliaser failing with KeyError means the key is not listed',
]


# -- aliasers ----------------------------------------------------------------

def gated(base, name):
    class Gated(base):

        def alias(self, key):
            gate('alias', key, True)
            return base.alias(self, key)

        def unalias(self, key):
            gate('unalias', key, True)
            return base.unalias(self, key)

    Gated.__name__ = Gated.__qualname__ = name
    Gated.__module__ = __name__
    return Gated


GDict = gated(DictAliaser, 'GDict')
GPrefix = gated(PrefixAliaser, 'GPrefix')
GSuffix = gated(SuffixAliaser, 'GSuffix')
GChain = gated(AliaserChain, 'GChain')
GPrefixSuffix = gated(PrefixSuffixAliaser, 'GPrefixSuffix')


def build(spec):
    """The real aliaser."""
    k = spec[0]
    if k == 'none':
        return None
    if k == 'dict':
        return GDict([tuple(x) for x in spec[1]])
    if k == 'prefix':
        return GPrefix(spec[1])
    if k == 'suffix':
        return GSuffix(spec[1])
    if k == 'presuf':
        return GPrefixSuffix(spec[1], spec[2])
    if k == 'chain':
        return GChain([build(x) for x in spec[1]])


def alias(spec, key):
    """Model: the alias of a stored key, None if it has none."""
    k = spec[0]
    if k == 'none':
        return key
    if k == 'dict':
        for a, r in spec[1]:
            if r == key:
                return a
        return None
    if k == 'prefix':
        return (spec[1] or '') + key
    if k == 'suffix':
        return key + (spec[1] or '')
    if k == 'presuf':
        return (spec[1] or '') + key + (spec[2] or '')
    for x in spec[1]:
        key = alias(x, key)
        if key is None:
            return None
    return key


def unalias(spec, key):
    k = spec[0]
    if k == 'none':
        return key
    if k == 'dict':
        for a, r in spec[1]:
            if a == key:
                return r
        return None
    if k == 'prefix':
        p = spec[1] or ''
        return key[len(p):] if key[:len(p)] == p else None
    if k == 'suffix':
        p = spec[1] or ''
        n = len(key) - len(p)
        return key[:n] if n >= 0 and key[n:] == p else None
    if k == 'presuf':
        key = unalias(('suffix', spec[2]), key)
        return None if key is None else unalias(('prefix', spec[1]), key)
    for x in reversed(spec[1]):
        key = unalias(x, key)
        if key is None:
            return None
    return key


RAW = ['a', 'b', 'ab', 'aa', 'ba', '', '\xe4\u4e16']
MANY = ['r%d' % i for i in range(16)]
SPECS = [
    ['dict', [['x%d' % i, 'r%d' % i] for i in range(14)]],
    ['none'],
    ['dict', [['x', 'a'], ['y', 'b'], ['ab', 'aa']]],
    ['dict', [['a', 'b'], ['b', 'a']]],
    ['dict', [['a', 'b'], ['b', 'ab'], ['ab', 'aa'], ['aa', 'a'],
              ['', 'ba']]],
    ['dict', [['\xe4', '']]],
    ['dict', []],
    ['prefix', 'a'], ['prefix', 'pre-'], ['prefix', ''], ['prefix', None],
    ['suffix', 'a'], ['suffix', '-suf'], ['suffix', ''], ['suffix', None],
    ['presuf', 'a', 'a'], ['presuf', 'a', 'b'], ['presuf', '', '-s'],
    ['presuf', None, None], ['presuf', 'ab', None],
    ['chain', [['prefix', 'a'], ['suffix', 'b'], ['prefix', 'b']]],
    ['chain', [['suffix', 'b'], ['presuf', 'a', 'ab']]],
    ['chain', []],
]


# -- nodes -------------------------------------------------------------------

def sim(base):
    class Sim(base):

        @property
        def storage(self):
            return Proxy(super(Sim, self).storage)

    Sim.__name__ = Sim.__qualname__ = 'Sim' + base.__name__
    Sim.__module__ = __name__
    globals()[Sim.__name__] = Sim
    return base


@sim
@plumbing(Alias, Nodify, DictStorage)
class Bare(object):

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@sim
@plumbing(Alias, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


@sim
@plumbing(Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class Adopting(object):
    pass


@sim
@plumbing(NodeChildValidate, Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class Strict(object):
    pass


@sim
@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Alias,
          DefaultInit, Nodify, DictStorage)
class Full(object):
    pass


@sim
@plumbing(UnicodeAware, Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class Unicode(object):
    pass


@sim
@plumbing(Adopt, Alias, Cache, Invalidate, DefaultInit, Nodify, OdictStorage)
class Cached(object):
    pass


# name: class, adopts, strict, ordered, cached
CONFIGS = {
    'bare': (SimBare, False, False, False),                   # noqa
    'ordered': (SimOrdered, False, False, True),              # noqa
    'adopting': (SimAdopting, True, False, True),             # noqa
    'strict': (SimStrict, True, True, True),                  # noqa
    'full': (SimFull, True, True, False),                     # noqa
    'unicode': (SimUnicode, True, False, True),               # noqa
    'cached': (SimCached, True, False, True),                 # noqa
}


class Side(object):

    def __init__(self, node, spec):
        self.node = node
        self.spec = spec
        self.raw = {}            # stored key -> object, in order
        self.names = {}          # id(obj) -> (name, obj)


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.cls, self.adopts, self.strict, self.ordered = CONFIGS[
            case['cfg']]
        self.made = 0
        self.sides = []
        for spec in case['specs']:
            node = self.cls(name='n')
            node.aliaser = build(spec)
            self.sides.append(Side(node, spec))

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def store(self, s):
        return s.node.storage._t

    def presented(self, s, raw=None):
        """[(alias, object)] the node must present."""
        res = []
        for r, v in (s.raw if raw is None else raw).items():
            a = alias(s.spec, r)
            if a is not None:
                res.append((a, v))
        return res

    def value(self, v):
        if v == 'node' or self.strict:
            self.made += 1
            return OddBase() if self.made % 3 == 0 else BaseNode()
        return v

    def run(self, op):
        s = self.sides[op['on']]
        k = op['k']
        if k in ('external', 'drop', 'realias', 'remap', 'copy'):
            with Quiet(self.ctx):
                getattr(self, k)(s, op)
                self.check(s, op)
            return
        given = None
        if k in ('set', 'setdefault'):
            given = self.value(op['value'])
        elif k == 'update':
            given = [(x, self.value(v)) for x, v in op['items']]
        self.ctx.begin(op['id'])
        res = err = None
        try:
            res = self.call(s.node, op, given)
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        fault = self.ctx.end()
        with Quiet(self.ctx):
            self.judge(s, op, given, res, err, fault)
            self.check(s, op)
        self.ctx.ev('op', op['id'], list(s.raw), type(err).__name__)
        self.ctx.state(str(s.spec), sorted(s.raw), k)

    # -- what happens behind the node --------------------------------------
    def external(self, s, op):
        v = self.value(op['value'])
        if self.case['cfg'] == 'cached' and op['key'] in s.raw:
            return
        self.store(s)[op['key']] = v
        s.raw[op['key']] = v
        self.note(s, v)
        self.ctx.probe('external')

    def drop(self, s, op):
        if self.case['cfg'] == 'cached':
            return
        if op['key'] in s.raw:
            del self.store(s)[op['key']]
            del s.raw[op['key']]

    def realias(self, s, op):
        s.spec = op['spec']
        s.node.aliaser = build(s.spec)
        self.ctx.probe('realiased')

    def remap(self, s, op):
        """Entries of the dict aliaser change."""
        if s.spec[0] != 'dict':
            return
        a, r = op['pair']
        entries = [list(x) for x in s.spec[1]]
        for x in list(entries):
            if x[0] == a or x[1] == r:
                del s.node.aliaser[x[0]]
                entries.remove(x)
        if not op['remove']:
            s.node.aliaser[a] = r
            entries.append([a, r])
        s.spec = ['dict', entries]
        self.ctx.probe('remapped')

    def copy(self, s, op):
        """Go on with a deep copy."""
        new = s.node.deepcopy()
        old = list(s.raw.items())
        names = dict(s.names)
        s.node = new
        real = self.store(s)
        if list(real.keys()) != [r for r, _ in old]:
            self.fail('copy', op, 'copy stores %r instead of %r' % (
                list(real.keys()), [r for r, _ in old]))
        s.raw = {}
        s.names = {}
        for r, v in old:
            s.raw[r] = real[r]
            if INode.providedBy(v):
                s.names[id(real[r])] = (names[id(v)][0], real[r])
        self.ctx.probe('copied')

    def note(self, s, v):
        if INode.providedBy(v):
            s.names[id(v)] = (v.name, v)

    # -- operations --------------------------------------------------------
    def call(self, node, op, given):
        k, key = op['k'], op.get('key')
        if k == 'item':
            return node[key]
        if k == 'get':
            return node.get(key, self)
        if k == 'in':
            return key in node
        if k == 'has_key':
            return node.has_key(key)                        # noqa
        if k == 'setdefault':
            return node.setdefault(key, given)
        if k == 'set':
            node[key] = given
        elif k == 'update':
            node.update(given)
        elif k == 'del':
            del node[key]
        elif k == 'pop':
            return node.pop(key)
        elif k == 'popd':
            return node.pop(key, self)
        elif k == 'popitem':
            return node.popitem()
        elif k == 'detach':
            return node.detach(key)
        elif k == 'clear':
            node.clear()
        elif k == 'values':
            return node.values()
        elif k == 'itervalues':
            return list(node.itervalues())
        elif k == 'items':
            return node.items()
        elif k == 'iteritems':
            return list(node.iteritems())
        elif k == 'keys':
            return node.keys()
        elif k == 'iter':
            return [x for x in node]
        elif k == 'iterkeys':
            return list(node.iterkeys())
        elif k == 'len':
            return len(node)

    def step(self, s, raw, what, key, val=None):
        """Apply one key operation to ``raw``; returns False if refused."""
        r = unalias(s.spec, key)
        if r is None:
            return False
        if what == 'set':
            raw[r] = val
            return True
        if r not in raw:
            return False
        del raw[r]
        return True

    def judge(self, s, op, given, res, err, fault):
        k, key = op['k'], op.get('key')
        ctx = self.ctx
        pres = self.presented(s)
        have = dict(pres)
        if len(pres) < len(s.raw):
            ctx.probe('hidden')
            ctx.nontrivial = True
            if s.spec == ['dict', []]:
                ctx.probe('empty_whitelist')
        if any(a != r for (a, _), r in zip(pres, s.raw)):
            ctx.probe('translated')
            ctx.nontrivial = True
        raw = None if key is None else unalias(s.spec, key)
        want_err = False
        states = [dict(s.raw)]       # every intermediate state
        sets = []
        if k in ('set', 'setdefault'):
            if raw is None:
                want_err = True
            elif k == 'set' or key not in have:
                new = dict(s.raw)
                new[raw] = given
                states.append(new)
                sets = [(key, given)]
        elif k == 'update':
            cur = dict(s.raw)
            for x, v in given:
                if not self.step(s, cur, 'set', x, v):
                    want_err = True
                    break
                states.append(dict(cur))
                sets.append((x, v))
        elif k in ('del', 'pop', 'detach', 'popd', 'item'):
            if key not in have:
                want_err = k != 'popd'
            elif k != 'item':
                new = dict(s.raw)
                del new[raw]
                states.append(new)
        elif k == 'popitem':
            if not pres:
                want_err = True
            else:
                new = dict(s.raw)
                del new[unalias(s.spec, pres[-1][0])]
                states.append(new)
        elif k == 'clear':
            cur = dict(s.raw)
            for a, _ in pres:
                self.step(s, cur, 'del', a)
                states.append(dict(cur))
        if want_err and key is not None:
            ctx.probe('unaliasable' if raw is None else 'missing')
        real = self.store(s)
        if fault is None:
            if want_err:
                if not isinstance(err, KeyError):
                    self.fail('not-refused', op, 'key %r gives %r' % (
                        key, err or res))
                if key is not None:
                    self.named(op, err, key, raw is None)
            elif err is not None:
                self.fail('unexpected-error', op, repr(err))
            possible = states[-1:]
        else:
            ctx.nontrivial = True
            site = fault.sim_site
            own = site in ('alias', 'unalias')
            ctx.probe('aliaser_failed' if own else 'storage_failed')
            possible = states
            if isinstance(fault, KeyError):
                if err is None:
                    if k not in ('get', 'popd', 'in', 'has_key'):
                        self.fail('error-lost', op, '%s failed with %r, '
                                  'caller gets %r' % (site, fault, res))
                elif not isinstance(err, KeyError):
                    self.fail('error-lost', op, '%s failed with %r, caller '
                              'gets %r' % (site, fault, err))
                elif key is not None:
                    self.named(op, err, key, own)
            elif err is not fault:
                self.fail('error-lost', op, '%s failed with %r, caller gets '
                          '%r' % (site, fault, err or res))
            if len(states) <= 2 and k != 'update' and k != 'clear':
                # one key: applied or not
                possible = states[:1]
            if k == 'clear':
                # any of them may be left
                left = states[-1]
                possible = [dict((x, v) for x, v in s.raw.items()
                                 if x in left or x in real)]
        reached = None
        for i, st in enumerate(possible):
            if list(st) == list(real) if self.ordered else set(st) == set(
                    real):
                if all(st[x] is real[x] for x in st):
                    reached = i
        if reached is None:
            kind = 'half-done' if err is not None else 'stored'
            self.fail(kind, op, 'storage holds %r, should hold %r%s' % (
                dict(real), possible[-1],
                ', after failure %r' % fault if fault else ''))
        s.raw = dict((x, real[x]) for x in real)
        done = dict((id(v), (x, v)) for x, v in sets)
        for x, v in list(real.items()):
            if INode.providedBy(v) and id(v) not in s.names:
                if self.adopts:
                    x = done[id(v)][0]
                    if v.name != x or v.parent is not s.node:
                        self.fail('name', op, 'child set as %r has name %r '
                                  'and parent %r' % (x, v.name, v.parent))
                self.note(s, v)
        if fault is not None and self.adopts:
            for x, v in sets[reached:]:
                if INode.providedBy(v) and (
                        v.name is not None or v.parent is not None):
                    self.fail('half-done', op, 'child that was not stored has '
                              'name %r' % v.name)
        if err is None and fault is None:
            self.answer(s, op, given, res, pres, have)

    def named(self, op, err, key, own):
        """The error names the alias, or it is the aliaser's own."""
        if own:
            self.ctx.probe('own_error')
            return
        self.ctx.probe('keyerror_named')
        if err.args[:1] != (key,):
            self.fail('error-names', op, 'error of key %r is %r' % (key, err))

    def answer(self, s, op, given, res, pres, have):
        k, key = op['k'], op.get('key')
        keys = [a for a, _ in pres]
        vals = [v for _, v in pres]

        def same(want):
            if res is not want:
                self.fail('answer', op, '%r gives %r instead of %r' % (
                    key, res, want))

        def alike(a, b):
            if len(a) != len(b):
                return False
            if not self.ordered:
                a = sorted(a, key=id)
                b = sorted(b, key=id)
            return all(x is y for x, y in zip(a, b))
        if k in ('item', 'pop', 'detach'):
            same(have[key])
        elif k in ('get', 'popd'):
            same(have.get(key, self))
        elif k == 'setdefault':
            same(have.get(key, given))
        elif k in ('in', 'has_key'):
            same(key in have)
        elif k == 'popitem':
            if res[0] != keys[-1] or res[1] is not vals[-1]:
                self.fail('answer', op, 'gives %r' % (res,))
        elif k in ('keys', 'iter', 'iterkeys'):
            if (res if self.ordered else sorted(res)) != (
                    keys if self.ordered else sorted(keys)):
                self.fail('answer', op, 'keys are %r, should be %r' % (
                    res, keys))
        elif k == 'len':
            if res != len(keys):
                self.fail('answer', op, 'length is %r' % res)
        elif k in ('values', 'itervalues'):
            if not alike(res, vals):
                self.fail('answer', op, 'values are %r' % res)
        elif k in ('items', 'iteritems'):
            if sorted(x for x, _ in res) != sorted(keys) or any(
                    v is not have[x] for x, v in res):
                self.fail('answer', op, 'items are %r' % res)
            if self.ordered and [x for x, _ in res] != keys:
                self.fail('answer', op, 'items are %r' % res)

    def check(self, s, op):
        """Both directions, after every operation."""
        node = s.node
        pres = self.presented(s)
        got = list(node)
        keys = [a for a, _ in pres]
        if (got if self.ordered else sorted(got)) != (
                keys if self.ordered else sorted(keys)):
            self.fail('listing', op, 'node lists %r, should list %r' % (
                got, keys))
        have = dict(pres)
        for a in self.probe_keys(s):
            v = node.get(a, self)
            if v is not have.get(a, self):
                self.fail('reading', op, 'key %r gives %r, should give %r' % (
                    a, v, have.get(a)))
        if self.adopts:
            for name, v in s.names.values():
                if any(v is o for o in s.raw.values()) and v.name != name:
                    self.fail('name', op, 'name of %r changed' % v)

    def probe_keys(self, s):
        res = set(s.raw) | set(self.case['keys'])
        for r in s.raw:
            a = alias(s.spec, r)
            if a is not None:
                res.add(a)
        return sorted(res)


WEIGHTS = {'item': 5, 'get': 3, 'in': 2, 'has_key': 1, 'setdefault': 2,
           'set': 9, 'update': 2, 'del': 4, 'pop': 2, 'popd': 1, 'popitem': 1,
           'detach': 2, 'clear': 1, 'values': 2, 'itervalues': 1, 'items': 2,
           'iteritems': 1, 'keys': 2, 'iter': 1, 'iterkeys': 1, 'len': 1,
           'external': 4, 'drop': 1, 'realias': 1, 'remap': 2, 'copy': 1}
NOKEY = ('popitem', 'clear', 'values', 'itervalues', 'items', 'iteritems',
         'keys', 'iter', 'iterkeys', 'len', 'copy', 'realias', 'remap')


class AliasScenario(object):
    name = 'alias'
    weight = 1

    def generate(self, rng, tier):
        cfg = rng.choice(sorted(CONFIGS))
        specs = [rng.choice(SPECS), rng.choice(SPECS)]
        ks = sorted(WEIGHTS)
        many = rng.random() < 0.04
        raws = rng.sample(RAW, rng.choice([2, 3, 5]))
        if many:
            # many children
            raws += MANY
            specs = [rng.choice(SPECS[:1] + SPECS), SPECS[0]]
        keys = set(raws)
        for s in specs:
            for r in raws:
                a = alias(s, r)
                if a is not None:
                    keys.add(a)
        keys = sorted(keys)
        value = lambda: rng.choice(                           # noqa
            ['node', 'node', 'node', 'node', None, 0, '', 'text'])

        def key(on):
            x = rng.random()
            if x < 0.75:
                al = [alias(specs[on], r) for r in raws]
                al = [a for a in al if a is not None]
                if al:
                    return rng.choice(al)
            return rng.choice(keys)
        ops = []
        size = (8, 14, 25, 40) if tier == 'quick' else (8, 14, 25, 40, 80)
        for i in range(60 if many else rng.choice(size)):
            k = rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
            op = {'id': i, 'k': k, 'on': rng.choice([0, 0, 0, 1])}
            if many and i < 24:
                op['k'] = k = rng.choice(['external', 'set'])
            if k in ('external', 'drop'):
                op['key'] = rng.choice(raws)
            elif k not in NOKEY:
                op['key'] = key(op['on'])
            if k in ('set', 'setdefault', 'external'):
                op['value'] = value()
            elif k == 'update':
                op['items'] = [[key(op['on']), value()]
                               for _ in range(rng.choice([0, 1, 2, 3]))]
                op.pop('key')
            elif k == 'realias':
                op['spec'] = rng.choice(SPECS)
            elif k == 'remap':
                op['pair'] = [rng.choice(keys), rng.choice(raws)]
                op['remove'] = rng.random() < 0.4
            ops.append(op)
        return {'cfg': cfg, 'specs': specs, 'ops': ops, 'keys': keys,
                'faults': gen_faults(rng, [o['id'] for o in ops],
                                     kinds=WRITE_FAULTS)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        for op in case['ops']:
            r.run(op)


SCENARIOS = [AliasScenario()]
