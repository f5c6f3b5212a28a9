"""C21 A reverse mapping is a live view with keys and values exchanged."""
from node import base
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.utils import ReverseMapping
from odict import odict
from plumber import plumbing
from sim.core import READ_FAULTS
from sim.core import Quiet
from sim.core import Violation
from sim.core import gen_faults
from sim.seam import simclass

ID = 'C21'
RUNS = {'quick': 60000, 'thorough': 1000000}
RULE = (
    'A case is a history of 8-60 changes of a node or dictionary and '
    'questions to reverse mappings of it made at different times, with '
    'storage faults planned at (question, n-th storage call). Every answer '
    'is compared with the exchanged items of a plain model in order. '
    'Non-trivial: three questions or a fault; distinct: different event log.')
STATE_MEASURE = 'hash of (class, items)'
REAL = ['node.utils.ReverseMapping', 'node.behaviors', 'odict', 'plumber']
STUB = ['storages: the shipped ones behind a proxy that fails on demand']
PROBES = ['equal_values', 'missing', 'failed', 'default', 'node_values',
          'falsy']
ASSUMPTIONS = ['values are compared by equality']


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class Unordered(object):
    pass


class Loose(base.BaseNode):
    allow_non_node_childs = True


SimOrdered = simclass(Ordered, 'SimOrdered', __name__)
SimUnordered = simclass(Unordered, 'SimUnordered', __name__)
SimLoose = simclass(Loose, 'SimLoose', __name__)
CONTEXTS = {'ordered': SimOrdered, 'unordered': SimUnordered,
            'loose': SimLoose, 'odict': odict, 'dict': dict}
KEYS = ['a', 'b', 'c', '', 'd', '\xe4']
VALUES = ['a', 'b', '', 0, 1, None, False, True, 1.0, [1], ['node', 0],
          ['node', 1], ['node', 2], ['alike', 0], ['alike', 1]]


class Alike(object):
    """Equal to others with another hash."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Alike) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'Alike(%s)' % self.n


QUESTIONS = ['getitem', 'get', 'getd', 'in', 'keys', 'iter', 'values',
             'items', 'len']


class ReverseScenario(object):
    name = 'reverse'
    weight = 1

    def generate(self, rng, tier):
        keys = KEYS[:rng.choice([2, 4, 6])]
        context = rng.choice(sorted(CONTEXTS))
        if context in ('odict', 'dict') and rng.random() < 0.4:
            # keys of any kind
            keys = keys + [None, 0, 1.5][:rng.choice([1, 2, 3])]
        values = rng.sample(VALUES, rng.choice([2, 4, 8]))
        ops = []
        many = rng.random() < 0.06
        if many:
            keys = keys + ['k%d' % i for i in range(20)]
            values = values + list(range(30, 45))
        for i in range(100 if many else rng.choice([8, 14, 30, 60])):
            if many and i < 30:
                k = 'set'
            elif rng.random() < 0.4:
                k = rng.choice(['set', 'set', 'set', 'del', 'clear', 'view'])
            else:
                k = rng.choice(QUESTIONS)
            op = {'id': i, 'k': k, 'key': rng.choice(keys),
                  'value': rng.choice(values), 'view': rng.randrange(4)}
            if k == 'clear' and rng.random() < 0.7:
                op['k'] = 'set'
            if k == 'getd':
                op['d'] = rng.choice([0, '', 'default', False])
            ops.append(op)
        ids = [o['id'] for o in ops if o['k'] in QUESTIONS]
        return {'context': context, 'ops': ops,
                'faults': gen_faults(rng, ids, kinds=READ_FAULTS)}

    def execute(self, case, ctx):
        cls = CONTEXTS[case['context']]
        context = cls()
        nodes = [base.BaseNode(name='v%d' % i) for i in range(3)]
        model = {}
        views = [ReverseMapping(context)]
        asked = 0
        for op in case['ops']:
            val = op['value']
            if isinstance(val, list) and val[0] == 'node':
                val = nodes[val[1]]
            elif isinstance(val, list) and val[0] == 'alike':
                val = Alike(val[1])
            k = op['k']
            if k == 'set':
                if isinstance(val, base.BaseNode) and any(
                        v is val for x, v in model.items()
                        if x != op['key']):
                    continue
                context[op['key']] = model[op['key']] = val
            elif k == 'del':
                if op['key'] in model:
                    del context[op['key']], model[op['key']]
            elif k == 'clear':
                context.clear()
                model.clear()
            elif k == 'view':
                views.append(ReverseMapping(context))
            else:
                asked += 1
                self.ask(ctx, op, context, model,
                         views[op['view'] % len(views)], val,
                         case['context'] in ('dict', 'odict'))
            ctx.state(case['context'], sorted(map(repr, [
                (x, v if not isinstance(v, base.BaseNode) else v.name)
                for x, v in model.items()])))
        if asked > 2:
            ctx.nontrivial = True

    def ask(self, ctx, op, context, model, view, val, plain):
        k = op['k']
        hits = [key for key, v in model.items() if v == val]
        err = False
        if len(hits) > 1:
            ctx.probe('equal_values')
        if k in ('getitem', 'get', 'getd'):
            if not hits:
                ctx.probe('missing')
                if k == 'getitem':
                    err = True
                want = op.get('d')
                if k == 'getd':
                    ctx.probe('default')
            else:
                want = hits[0]
                if not want:
                    ctx.probe('falsy')
        elif k == 'in':
            want = bool(hits)
        elif k in ('keys', 'iter'):
            want = list(model.values())
        elif k == 'values':
            want = list(model)
        elif k == 'items':
            want = [(v, key) for key, v in model.items()]
        else:
            want = len(model)
        if any(isinstance(v, base.BaseNode) for v in model.values()):
            ctx.probe('node_values')

        def fn():
            if k == 'getitem':
                return view[val]
            if k == 'get':
                return view.get(val)
            if k == 'getd':
                return view.get(val, op['d'])
            if k == 'in':
                return val in view
            if k == 'iter':
                return [x for x in view]
            if k == 'len':
                return len(view)
            return list(getattr(view, k)())
        ctx.begin(op['id'])
        try:
            got, exc = fn(), None
        except Exception as e:
            got, exc = None, e
        except BaseException as e:
            if getattr(e, 'sim_site', None) is None:
                raise
            got, exc = None, e
        fault = ctx.end()
        ctx.ev('op', op['id'], k, type(exc).__name__)
        where = '%s (op %s)' % (k, op['id'])
        with Quiet(ctx):
            if [(x, id(context[x])) for x in context] != [
                    (x, id(v)) for x, v in model.items()] \
                    and sorted(map(repr, context)) != sorted(
                        map(repr, model)):
                raise Violation('changed', '%s changed the context' % where)
        if fault is not None:
            ctx.nontrivial = True
            ctx.probe('failed')
            if exc is not fault:
                raise Violation('swallowed', '%s: %r of the storage became '
                                '%r %r' % (where, fault, exc, got))
            return
        if err:
            if not isinstance(exc, KeyError):
                raise Violation('accepted', '%s of a value that is not there '
                                'gives %r %r' % (where, exc, got))
            return
        if exc is not None:
            raise Violation('unexpected', '%s fails with %s: %s' % (
                where, type(exc).__name__, exc))
        if k in ('keys', 'iter'):
            ok = len(got) == len(want) and all(
                a is b for a, b in zip(got, want))
        elif k == 'items':
            ok = len(got) == len(want) and all(
                isinstance(a, tuple) and len(a) == 2 and a[0] is b[0]
                and a[1] == b[1] for a, b in zip(got, want))
        else:
            ok = type(got) is type(want) and got == want
        if not ok:
            raise Violation('answer', '%s of %r is %r, should be %r' % (
                where, val, got, want))


SCENARIOS = [ReverseScenario()]
