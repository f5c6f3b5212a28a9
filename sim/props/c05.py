"""C05 Fallback lookup finds the documented value, leaves no state behind."""
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from plumber import plumbing
from sim.core import Quiet
from sim.core import READ_FAULTS
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched
from sim.seam import simclass

ID = 'C05'
RUNS = {'quick': 40000, 'thorough': 800000}
RULE = (
    'A case is a random tree of uniform depth 2-4 with fallback keys on '
    'random levels (values only at the leaves, or attributes of the nodes), '
    'and a history of changes and lookups, or changes followed by concurrent '
    'lookups of 2-3 threads under a seeded schedule, with faults at '
    '(operation, n-th storage read). Every lookup is compared with an '
    'independent recursive search of a model of the tree. Non-trivial: a '
    'fallback was searched; distinct: different event log.')
STATE_MEASURE = 'hash of (tree shape with keys and fallback keys)'
REAL = ['node.behaviors.fallback', 'node.behaviors.*', 'odict', 'plumber',
        'CPython threads and thread locals']
STUB = ['storage: the shipped storage behind a proxy that fails on demand',
        'thread scheduler (one thread at a time, chosen by the seed)']
PROBES = ['own', 'fallback_hit', 'miss', 'read_failed', 'nested_fallback',
          'preemptions', 'fallback_missing']
ASSUMPTIONS = [
    'values are at the same depth everywhere (a value cannot be descended '
    'into)',
    'the tree is not changed while lookups run',
]


@plumbing(Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class FbBase(object):
    pass


@plumbing(Fallback, Adopt, DefaultInit, Nodify, DictStorage)
class FbDictBase(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class PlainBase(object):
    """No lookup of its own, but may provide a fallback key."""


@plumbing(Nodespaces, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class FbAttrsBase(object):
    pass


Fb = simclass(FbBase, 'Fb', __name__)
FbDict = simclass(FbDictBase, 'FbDict', __name__)
Plain = simclass(PlainBase, 'Plain', __name__)
FbAttrs = simclass(FbAttrsBase, 'FbAttrs', __name__, 'attrs')


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class FbNodeBase(object):
    attributes_factory = FbAttrs


@plumbing(Nodespaces, Fallback, Adopt, Attributes, DefaultInit, Nodify,
          OdictStorage)
class FbBothBase(object):
    attributes_factory = FbAttrs


FbNode = simclass(FbNodeBase, 'FbNode', __name__)
FbBoth = simclass(FbBothBase, 'FbBoth', __name__)


class FbClassKey(Fb):
    fallback_key = 'x'


class FbEqual(Fb):
    """All are equal, and False."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class FbUnhashable(FbDict):
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, FbUnhashable)


CLASSES = {'fb': Fb, 'fbdict': FbDict, 'plain': Plain, 'classkey': FbClassKey,
           'node': FbNode, 'both': FbBoth, 'equal': FbEqual,
           'unhashable': FbUnhashable}
LOOKUP = {'fb', 'fbdict', 'classkey', 'both', 'equal', 'unhashable'}
KEYS = ['a', '', 'x', 'y']
VALUES = [0, 1, '', 'v', None, False, {}, [], 2, 3, 4, 5]
MISS = object()


class M(object):
    """Node of the model."""

    def __init__(self, cls, parent, fk=None):
        self.cls = cls
        self.parent = parent
        self.kids = {}
        self.fk = fk
        self.real = None

    def depth(self):
        return 0 if self.parent is None else self.parent.depth() + 1

    def names(self):
        if self.parent is None:
            return ()
        for k, v in self.parent.kids.items():
            if v is self:
                return self.parent.names() + (k,)


def descend(m, names):
    """Follow names as far as possible -> (found, node or value)."""
    for n in names:
        if n not in m.kids:
            return False, m
        m = m.kids[n]
    return True, m


def search(anchor, path, stop, stats):
    """First hit of the fallbacks of the ancestors of anchor below stop."""
    c = anchor
    while c is not stop and c.parent is not None:
        p = c.parent
        if p.fk:
            f = p.kids.get(p.fk)
            if isinstance(f, M):
                stats['searched'] += 1
                ok, res = descend(f, path[f.depth():])
                if ok:
                    return res
                res = search(res, path, f, stats)
                if res is not MISS:
                    stats['nested'] += 1
                    return res
            else:
                stats['missing'] += 1
        c = p
    return MISS


def lookup(m, key, stats):
    if key in m.kids:
        return m.kids[key]
    if m.cls in LOOKUP or m.cls == 'attrs':
        return search(m, m.names() + (key,), None, stats)
    return MISS


class Tree(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.depth = case['depth']
        self.attrs = case['attrs']
        self.root = M(case['classes'][0], None)
        self.root.real = CLASSES[self.root.cls](name='root')
        self.nodes = [self.root]
        self.n = 0
        if self.root.cls == 'classkey':
            self.root.fk = 'x'

    def pick(self, op):
        nodes = self.nodes
        if op.get('lvl') is not None:
            lvl = [m for m in nodes if m.depth() == op['lvl']]
            nodes = lvl or nodes
        return nodes[op['node'] % len(nodes)]

    def below(self, m):
        yield m
        for v in m.kids.values():
            if isinstance(v, M):
                for x in self.below(v):
                    yield x

    def relist(self):
        self.nodes = [m for m in self.below(self.root)]

    def make(self, parent, key):
        self.n += 1
        cls = self.case['classes'][self.n % len(self.case['classes'])]
        m = M(cls, parent)
        m.real = CLASSES[cls]()
        if cls == 'classkey':
            m.fk = 'x'
        return m

    def apply(self, op):
        """A change; raises a fault, which must not have had an effect."""
        m = self.pick(op)
        key = op['key']
        k = op['k']
        if m.cls == 'attrs':
            if k == 'grow' or k == 'value':
                m.real[key] = op['value']
                m.kids[key] = op['value']
            elif k == 'del' and key in m.kids:
                del m.real[key]
                del m.kids[key]
            return
        if k == 'fk':
            m.real.fallback_key = op['fk']
            m.fk = op['fk']
        elif k == 'del':
            if key in m.kids and key != '__attrs__':
                del m.real[key]
                del m.kids[key]
        elif k in ('grow', 'value'):
            if self.attrs and (k == 'value' or m.depth() >= self.depth - 1):
                if '__attrs__' not in m.kids:
                    a = M('attrs', m)
                    a.real = m.real.attrs
                    m.kids['__attrs__'] = a
                m.kids['__attrs__'].real[key] = op['value']
                m.kids['__attrs__'].kids[key] = op['value']
            elif m.depth() >= self.depth - 1:
                m.real[key] = op['value']
                m.kids[key] = op['value']
            elif k == 'grow':
                c = self.make(m, key)
                m.real[key] = c.real
                m.kids[key] = c
        elif k == 'move':
            p = self.pick({'node': op['to']})
            if key not in m.kids or p.cls == 'attrs' or not isinstance(
                    m.kids[key], M) or p.depth() != m.depth() \
                    or m.kids[key].cls == 'attrs':
                return
            c = m.kids[key]
            node = m.real.detach(key)
            del m.kids[key]
            c.parent = None
            p.real[op['key2']] = node
            p.kids[op['key2']] = c
            c.parent = p

    def change(self, op):
        self.ctx.begin(op['id'])
        try:
            self.apply(op)
        except BaseException as e:
            if not hasattr(e, 'sim_site'):
                raise
            self.ctx.ev('failed', op['id'], type(e).__name__)
        finally:
            self.ctx.end()
        self.relist()

    # -- lookups -----------------------------------------------------------
    def ask(self, op):
        m = self.pick(op)
        key = op['key']
        stats = {'searched': 0, 'nested': 0, 'missing': 0}
        want = lookup(m, key, stats)
        ctx = self.ctx
        ctx.begin(op['id'])
        marker = object()
        err = None
        got = None
        how = op['how']
        if m.cls == 'attrs' and op.get('via'):
            node = m.parent.real.attrs
        else:
            node = m.real
        try:
            if how == 'item':
                got = node[key]
            elif how == 'get':
                got = node.get(key, marker)
            else:
                got = key in node
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        fired = ctx.end()
        where = 'lookup of %r on node %r' % (key, list(m.names()))
        if fired is not None:
            ctx.probe('read_failed')
            if err is not fired:
                raise Violation(
                    'error-lost', '%s: storage raised %r, caller got %r' % (
                        where, fired, err or got))
            ctx.ev('lookup', op['id'], 'failed')
            return
        if stats['searched']:
            ctx.nontrivial = True
        if stats['missing']:
            ctx.probe('fallback_missing')
        if want is MISS:
            ctx.probe('miss')
            if how == 'item':
                if not isinstance(err, KeyError):
                    raise Violation(
                        'wrong-value', '%s must miss, got %s' % (
                            where, self.show(got) if err is None else repr(
                                err)))
                if err.args != (key,):
                    raise Violation(
                        'wrong-key', '%s: KeyError names %r' % (
                            where, err.args))
                return
            want = marker if how == 'get' else False
        else:
            ctx.probe('own' if key in m.kids else 'fallback_hit')
            if stats['nested']:
                ctx.probe('nested_fallback')
            want = True if how == 'in' else want.real if isinstance(
                want, M) else want
        if err is not None:
            raise Violation('wrong-value', '%s must find %s, raises %r' % (
                where, self.show(want), err))
        if not (got is want or (type(got) is type(want) and not isinstance(
                want, tuple(CLASSES.values())) and got == want)):
            raise Violation('wrong-value', '%s must find %s, got %s' % (
                where, self.show(want), self.show(got)))
        ctx.ev('lookup', op['id'], self.show(got))

    def show(self, v):
        for m in self.nodes:
            if m.real is v:
                return 'node %s' % '/'.join(m.names())
        return repr(v) if isinstance(
            v, (int, str, bool, type(None), dict, list)) else type(v).__name__

    def untouched(self):
        """Lookups change nothing."""
        with Quiet(self.ctx):
            for m in self.nodes:
                keys = set(m.real)
                want = set(m.kids) - {'__attrs__'}
                if keys != want:
                    raise Violation('lookup-changed-tree', 'node %r has keys '
                                    '%r, should be %r' % (
                                        m.names(), keys, want))


class FallbackScenario(object):

    def __init__(self, name, weight, threads):
        self.name = name
        self.weight = weight
        self.threads = threads

    def look(self, rng, depth):
        return {'k': 'ask', 'node': rng.randrange(60),
                'lvl': rng.choice([depth, depth, depth, depth - 1, None]),
                'key': rng.choice(KEYS), 'via': rng.random() < 0.3,
                'how': rng.choice(['item', 'item', 'get', 'in'])}

    def change(self, rng, kinds):
        return {'k': rng.choice(kinds), 'node': rng.randrange(60),
                'key': rng.choice(KEYS), 'key2': rng.choice(KEYS),
                'to': rng.randrange(60), 'value': rng.choice(VALUES),
                'fk': rng.choice(['a', 'b', 'x', 'x', 'x', None, '', 'z'])}

    def generate(self, rng, tier):
        attrs = rng.random() < 0.35
        if attrs:
            classes = rng.choice([['node'], ['both'], ['node', 'both']])
        else:
            classes = rng.choice([['fb'], ['fbdict'], ['fb', 'plain'],
                                  ['fb', 'fbdict', 'classkey'],
                                  ['classkey'], ['fb', 'fb', 'plain'],
                                  ['equal'], ['unhashable', 'equal', 'fb'],
                                  ['unhashable']])
        ops = []
        ids = iter(range(100000))
        # some trees are deep
        deep = rng.random() < 0.04
        depth = rng.choice([6, 9]) if deep else rng.choice([2, 3, 3, 4])
        leaf = depth if attrs else depth - 1
        for lvl in range(depth):
            for i in range(rng.choice([2, 3]) if deep else
                           rng.choice([2, 3, 4, 6, 10]) * (lvl + 1)):
                op = self.change(rng, ['grow'])
                op['lvl'] = lvl
                if lvl < depth - 1:
                    op['key'] = rng.choice(['a', 'b', 'x', 'x'])
                ops.append(op)
            for i in range(rng.choice([0, 0, 1]) if deep else
                           rng.choice([1, 2, 4]) * (lvl + 1)):
                op = self.change(rng, ['fk'])
                op['lvl'] = rng.randrange(lvl + 1)
                if rng.random() < 0.7:
                    op['fk'] = rng.choice(['x', 'x', 'a'])
                ops.append(op)
        case = {'depth': depth, 'attrs': attrs, 'classes': classes,
                'ops': ops}
        asked = []
        if self.threads:
            case['tasks'] = [
                [self.look(rng, leaf) for _ in range(rng.choice([2, 4, 8]))]
                for _ in range(rng.choice([2, 2, 3]))]
            case['sched'] = gen_sched(rng)
            asked = [o for t in case['tasks'] for o in t]
        else:
            for i in range(rng.choice([8, 15, 30] if tier == 'quick' else
                                      [8, 15, 30, 80])):
                if rng.random() < 0.75:
                    op = self.look(rng, leaf)
                    asked.append(op)
                else:
                    op = self.change(rng, ['grow', 'grow', 'value', 'fk',
                                           'fk', 'del', 'del', 'move'])
                ops.append(op)
        for o in ops + (asked if self.threads else []):
            o['id'] = next(ids)
        case['faults'] = gen_faults(
            rng, [o['id'] for o in asked], kinds=READ_FAULTS) + gen_faults(
            rng, [o['id'] for o in ops if o['k'] != 'ask'], rate=0.03,
            kinds=WRITE_FAULTS)
        return case

    def execute(self, case, ctx):
        t = Tree(ctx, case)
        for op in case['ops']:
            if op['k'] == 'ask':
                t.ask(op)
            else:
                t.change(op)
        ctx.state(sorted((m.names(), m.fk, sorted(m.kids)) for m in t.nodes))
        if case.get('tasks'):
            sched = Sched(ctx, case['sched'])

            def task(ops):
                def run():
                    for op in ops:
                        t.ask(op)
                return run
            for i, ops in enumerate(case['tasks']):
                sched.spawn('t%d' % i, task(ops))
            sched.run()
            if sched.deadlock:
                raise Violation('deadlock', sched.deadlock)
            if not sched.preempted:
                ctx.nontrivial = False
        t.untouched()


SCENARIOS = [FallbackScenario('history', 1, False),
             FallbackScenario('threads', 1, True)]
