"""C19 Navigation answers describe the current tree."""
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.interfaces import INode
from node.utils import node_by_path
from plumber import plumbing
from sim.core import READ_FAULTS
from sim.core import Violation
from sim.core import gen_faults
from sim.seam import simclass
from sim.treescn import REAL
from sim.treescn import RULE as TREERULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario
from sim.zoo import IOne
from sim.zoo import ITwo
from zope.interface import alsoProvides
from zope.interface import noLongerProvides

ID = 'C19'
RUNS = {'quick': 20000, 'thorough': 500000}
PROBES = ['refused', 'equal_names', 'query_failed', 'marked']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'removed nodes get their parent pointer cleared by the application '
    '(it is left behind by the removal) before they are looked at',
]
RULE = TREERULE + (
    ' A quarter of the runs use nodes without Adopt instead: names and '
    'parents are set by hand, nodes are held under any key in several '
    'places, interfaces are provided and withdrawn, and every query on a '
    'seeded node (with read faults) is compared with a plain dict model.')

WEIGHTS = {'new': 3, 'set': 12, 'del': 3, 'pop': 1, 'detach': 2, 'clear': 0.5,
           'setdefault': 1, 'update': 2, 'ins': 3, 'swap': 1, 'attr': 0.5,
           'popitem': 0.5}
PROFILES = [
    ['base'], ['ordered'], ['node'], ['mbase', 'mordered', 'mnode'],
    ['mbase', 'base', 'ordered'], ['mordered', 'adoptodict', 'mbase'],
    ['mnode', 'node'], ['loosebase', 'looseordered', 'mbase'],
    ['adoptodict', 'mordered'], ['spaceodict', 'mordered'], ['stackdict'],
    ['custom', 'mbase'], ['refdict', 'refodict'], ['orderonly', 'mordered'],
    ['oddbase', 'oddordered'], ['oddnode', 'oddbase', 'mnode'], ['falsynode', 'mnode'],
]
AREAS = ['children', 'ptr', 'nav']


@plumbing(DefaultInit, Nodify, OdictStorage)
class FreeOdict(object):
    """Does not adopt: names and parents are the business of the caller."""


@plumbing(DefaultInit, Nodify, DictStorage)
class FreeDict(object):
    pass


SimFreeOdict = simclass(FreeOdict, 'SimFreeOdict', __name__)
SimFreeDict = simclass(FreeDict, 'SimFreeDict', __name__)

NAMES = ['a', 'b', 'A', 'x y', '', '\xe4', None, 'c']
SPACED = [' a', 'a', 'a ', 'A', '.', '..', '\ta', '*', 'a.b', '%s', '{}', '//']
KEYS = ['a', 'b', 'B', '10', '9', '', '\xe4', 'x/y']
PLAIN = [0, None, '', 'text', False, [1]]
QUERIES = ['path', 'root', 'acquire', 'filter', 'filter', 'bypath', 'print',
           'acquire']
MARKS = {'one': IOne, 'two': ITwo}
KINDS = {'odict': FreeOdict, 'dict': FreeDict, 'one': IOne, 'two': ITwo,
         'node': INode}


class Tree(object):
    """What the nodes look like."""

    def __init__(self):
        self.nodes = {}

    def new(self, h, cls, name, parent):
        self.nodes[h] = {'cls': cls, 'name': name, 'parent': parent,
                         'kids': {}, 'marks': []}

    def ups(self, h):
        res = []
        while h is not None:
            res.append(h)
            h = self.nodes[h]['parent']
        return res

    def below(self, h):
        res = {h}
        for v in self.nodes[h]['kids'].values():
            if v[0] == 'n':
                res |= self.below(v[1])
        return res

    def can(self, op):
        """Keeps shrunk histories meaningful."""
        n = self.nodes
        for k in ('n', 'c', 'parent'):
            if op.get(k) is not None and op[k] not in n:
                return False
        k = op['k']
        if k == 'put' and op['v'][0] == 'n':
            return op['v'][1] in n and op['c'] not in self.below(op['v'][1])
        if k == 'parent' and op['parent'] is not None:
            return op['n'] not in self.ups(op['parent'])
        if k == 'del':
            return op['key'] in n[op['c']]['kids']
        return True

    def apply(self, op):
        k = op['k']
        if k == 'new':
            self.new(op['id'], op['cls'], op['name'], op['parent'])
        elif k == 'put':
            self.nodes[op['c']]['kids'][op['key']] = op['v']
        elif k == 'del':
            del self.nodes[op['c']]['kids'][op['key']]
        elif k in ('name', 'parent'):
            self.nodes[op['n']][k] = op[k]
        elif k == 'mark':
            if op['mark'] not in self.nodes[op['n']]['marks']:
                self.nodes[op['n']]['marks'].append(op['mark'])
        elif k == 'unmark':
            if op['mark'] in self.nodes[op['n']]['marks']:
                self.nodes[op['n']]['marks'].remove(op['mark'])

    def isa(self, h, what):
        n = self.nodes[h]
        return what == 'node' or what == n['cls'] or what in n['marks']


class FreeScenario(object):
    name = 'free'
    weight = 0.35

    def generate(self, rng, tier):
        t = Tree()
        ops = []
        keys = KEYS[:rng.choice([2, 4, 8])]
        if rng.random() < 0.25:
            keys = rng.sample(SPACED, rng.choice([3, 6]))
        names = NAMES[:rng.choice([1, 2, 4, 8])]
        clss = rng.choice([['odict'], ['dict'], ['odict', 'dict']])

        def add(op):
            op['id'] = len(ops)
            if op['k'] != 'new' and not t.can(op):
                return False
            ops.append(op)
            t.apply(op)

        def node():
            return rng.choice(list(t.nodes))

        for _ in range(rng.choice([2, 4, 6])):
            add({'k': 'new', 'cls': rng.choice(clss),
                 'name': rng.choice(names),
                 'parent': rng.choice([None] + list(t.nodes))})
        for _ in range(rng.choice([10, 20, 40])):
            k = rng.choices(['new', 'put', 'del', 'name', 'parent', 'mark',
                             'unmark', 'ask'],
                            [1, 5, 1.5, 1, 2, 1.5, 0.7, 6])[0]
            if k == 'new':
                if len(t.nodes) < 8:
                    add({'k': k, 'cls': rng.choice(clss),
                         'name': rng.choice(names),
                         'parent': rng.choice([None] + list(t.nodes))})
            elif k == 'put':
                v = ['n', node()]
                if rng.random() < 0.15:
                    v = ['p', rng.choice(PLAIN)]
                add({'k': k, 'c': node(), 'key': rng.choice(keys), 'v': v})
            elif k == 'del':
                c = node()
                if t.nodes[c]['kids']:
                    add({'k': k, 'c': c,
                         'key': rng.choice(list(t.nodes[c]['kids']))})
            elif k == 'name':
                add({'k': k, 'n': node(), 'name': rng.choice(names)})
            elif k == 'parent':
                add({'k': k, 'n': node(),
                     'parent': rng.choice([None] + list(t.nodes))})
            elif k in ('mark', 'unmark'):
                add({'k': k, 'n': node(), 'mark': rng.choice(sorted(MARKS))})
            else:
                n = node()
                op = {'k': k, 'n': n, 'q': rng.choice(QUERIES)}
                if op['q'] == 'acquire':
                    op['what'] = rng.choice(sorted(KINDS))
                elif op['q'] == 'filter':
                    op['what'] = rng.choice(['one', 'two', 'node'])
                    op['m'] = rng.choice(['values', 'iter', 'items'])
                elif op['q'] == 'bypath':
                    way = []
                    at = n
                    while t.nodes[at]['kids'] and rng.random() < 0.8:
                        key = rng.choice(list(t.nodes[at]['kids']))
                        if '' in t.nodes[at]['kids'] and rng.random() < 0.2:
                            key = ''
                        v = t.nodes[at]['kids'][key]
                        way.append(key)
                        if v[0] != 'n':
                            break
                        at = v[1]
                    if rng.random() < 0.15:
                        way.append(rng.choice(keys))
                    if len(way) > 1 and rng.random() < 0.15:
                        way.insert(rng.randrange(1, len(way)), '')
                    op['way'] = way
                    op['how'] = rng.choice(['list', 'tuple', 'text', '/text',
                                            'text/', '//text//', 'iter',
                                            'keys', 'none'])
                add(op)
        ids = [op['id'] for op in ops if op['k'] == 'ask']
        return {'ops': ops, 'raw': rng.random() < 0.2,
                'faults': gen_faults(rng, ids, kinds=READ_FAULTS)}

    def execute(self, case, ctx):
        t = Tree()
        real = {}
        back = {}
        if case['raw']:
            clss = {'odict': FreeOdict, 'dict': FreeDict}
        else:
            clss = {'odict': SimFreeOdict, 'dict': SimFreeDict}

        def val(v):
            return real[v[1]] if v[0] == 'n' else v[1]

        def show(obj):
            return back.get(id(obj)) if id(obj) in back else repr(obj)

        asked = 0
        for op in case['ops']:
            if op['k'] == 'new':
                if op['parent'] is not None and op['parent'] not in t.nodes:
                    continue
            elif not t.can(op):
                continue
            t.apply(op)
            k = op['k']
            if k == 'new':
                h = op['id']
                real[h] = clss[op['cls']](
                    op['name'], None if op['parent'] is None
                    else real[op['parent']])
                back[id(real[h])] = 'node %s' % h
            elif k == 'put':
                real[op['c']][op['key']] = val(op['v'])
            elif k == 'del':
                del real[op['c']][op['key']]
            elif k == 'name':
                real[op['n']].__name__ = op['name']
            elif k == 'parent':
                real[op['n']].__parent__ = None if op['parent'] is None \
                    else real[op['parent']]
            elif k == 'mark':
                ctx.probe('marked')
                alsoProvides(real[op['n']], MARKS[op['mark']])
            elif k == 'unmark':
                if MARKS[op['mark']].providedBy(real[op['n']]):
                    noLongerProvides(real[op['n']], MARKS[op['mark']])
            else:
                asked += 1
                self.ask(ctx, t, real, op, show)
            ctx.state(sorted((h, n['name'], n['parent'], sorted(
                map(repr, n['kids'].items()))) for h, n in t.nodes.items()))
        if asked > 1:
            ctx.nontrivial = True

    def ask(self, ctx, t, real, op, show):
        node = real[op['n']]
        n = t.nodes[op['n']]
        q = op['q']
        want, err, many = None, None, False
        if q == 'path':
            want = [t.nodes[x]['name'] for x in t.ups(op['n'])][::-1]

            def fn():
                return node.path
        elif q == 'root':
            want = real[t.ups(op['n'])[-1]]

            def fn():
                return node.root
        elif q == 'acquire':
            for x in t.ups(op['n'])[1:]:
                if t.isa(x, op['what']):
                    want = real[x]
                    break

            def fn():
                return node.acquire(KINDS[op['what']])
        elif q == 'filter':
            many = True
            kids = [v[1] for v in n['kids'].values()
                    if v[0] == 'n' and t.isa(v[1], op['what'])]
            if len(set(t.nodes[x]['name'] for x in kids)) < len(kids):
                ctx.probe('equal_names')
            want = [real[x] for x in kids]

            def fn():
                meth = {'values': node.filteredvalues,
                        'iter': node.filtereditervalues,
                        'items': node.filtereditems}[op['m']]
                return [x for x in meth(KINDS[op['what']])]
        elif q == 'bypath':
            way = list(op['way'])
            how = op['how']
            if 'text' in how and all('/' not in w for w in way) \
                    and all(way[:1] + way[-1:]):
                path = how.replace('text', '/'.join(way))
            elif how == 'none' and not way:
                path = None
            elif how == 'iter':
                path = (w for w in way)
            elif how == 'keys' and len(set(way)) == len(way):
                path = dict.fromkeys(way).keys()
            else:
                path = tuple(way) if how == 'tuple' else list(way)
            at = ['n', op['n']]
            for i, w in enumerate(way):
                if at[0] != 'n':
                    return
                at = t.nodes[at[1]]['kids'].get(w)
                if at is None:
                    err = KeyError
                    break
            else:
                want = real[at[1]] if at[0] == 'n' else at[1]

            def fn():
                return node_by_path(node, path)
        else:
            want = self.printed(t, real, op['n'], 0)

            def fn():
                return node.treerepr()
        ctx.begin(op['id'])
        try:
            got, exc = fn(), None
        except Violation:
            raise
        except BaseException as e:
            if getattr(e, 'sim_site', None) is None \
                    and not isinstance(e, Exception):
                raise
            got, exc = None, e
        fault = ctx.end()
        ctx.ev('ask', op['id'], q, type(exc).__name__)
        where = '%s of node %s (op %s)' % (q, op['n'], op['id'])
        if fault is not None:
            ctx.probe('query_failed')
            ctx.nontrivial = True
            if exc is not fault:
                raise Violation('swallowed', '%s: %r of the storage became '
                                '%r %s' % (where, fault, exc, show(got)))
            return
        if err is not None:
            if not isinstance(exc, err):
                raise Violation('navigation', '%s should fail with %s, got '
                                '%r %s' % (where, err.__name__, exc,
                                           show(got)))
            return
        if exc is not None:
            raise Violation('navigation', '%s fails with %s: %s' % (
                where, type(exc).__name__, exc))
        if many:
            ok = len(got) == len(want) and all(
                a is b for a, b in zip(got, want))
            if n['cls'] == 'dict' and not ok:
                ok = sorted(map(id, got)) == sorted(map(id, want))
        elif q in ('path', 'print'):
            ok = got == want
        else:
            ok = got is want or (
                q == 'bypath' and type(got) is type(want) and got == want
                and not isinstance(want, FreeOdict)
                and not isinstance(want, FreeDict))
        if not ok:
            raise Violation('navigation', '%s is %s, should be %s' % (
                where, [show(x) for x in got] if many else show(got),
                [show(x) for x in want] if many else show(want)))

    def printed(self, t, real, h, indent):
        n = t.nodes[h]
        res = '%s%s: %s\n' % (indent * ' ', type(real[h]), n['name'])
        keys = list(n['kids'])
        if n['cls'] == 'dict':
            keys = sorted(keys)
        for k in keys:
            v = n['kids'][k]
            if v[0] == 'n':
                res += self.printed(t, real, v[1], indent + 2)
            else:
                res += '%s%s: %r\n' % ((indent + 2) * ' ', k, v[1])
        return res


SCENARIOS = [
    TreeScenario(ID, 'navigation', 1, AREAS, WEIGHTS, PROFILES, reset=True,
                 maxnodes=lambda rng: rng.choice([5, 8, 12])),
    FreeScenario(),
]
