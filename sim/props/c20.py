"""C20 Text conversion is complete, leaves the argument alone and hides
nothing."""
from collections import OrderedDict
from node import base
from node import utils
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.utils import StrCodec
from odict import odict
from plumber import plumbing
from sim.core import READ_FAULTS
from sim.core import Quiet
from sim.core import Violation
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched
from sim.seam import simclass

ID = 'C20'
RUNS = {'quick': 40000, 'thorough': 800000}
RULE = (
    'A case is one to three threads converting seeded nested structures '
    '(lists, tuples, dictionaries, their subclasses, nodes over failing '
    'storages, text, bytes that are text in some encodings only, anything '
    'else) with shared codecs of seeded encoding and strictness and with the '
    'functions of the module; nodes are changed between conversions. Every '
    'result is compared with a reference conversion, the argument with what '
    'it was. Non-trivial: two conversions or a fault; distinct: different '
    'event log.')
STATE_MEASURE = 'hash of (codec, direction, argument)'
REAL = ['node.utils.StrCodec', 'node.utils.encode/decode', 'node.behaviors',
        'plumber', 'odict']
STUB = ['storages: the shipped ones behind a proxy that fails on demand']
PROBES = ['node_converted', 'undecodable', 'unencodable', 'failed', 'nested',
          'changed', 'threads']
ASSUMPTIONS = ['threads convert different arguments']


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class Unordered(object):
    pass


class Loose(base.BaseNode):
    allow_non_node_childs = True


class Items(list):
    pass


class Pair(tuple):
    pass


class Text(str):
    pass


class Blob(bytes):
    pass


class Mapping(dict):
    pass


CLASSES = {'ordered': simclass(Ordered, 'SimOrdered', __name__),
           'unordered': simclass(Unordered, 'SimUnordered', __name__),
           'loose': simclass(Loose, 'SimLoose', __name__)}
for _c in CLASSES.values():
    globals()[_c.__name__] = _c
NODES = tuple(CLASSES.values())
TEXTS = ['', 'a', 'text', '\xe4\xf6', '\u4e16', '\U0001f600', 'b']
BYTES = ['', '61', 'c3a4', 'e4', 'ff', 'c3', '74657874', '80', '00']
OTHERS = ['none', 'int', 'float', 'true', 'object', 'set', 'class', 'ba']
KEYS = ['a', 'b', '\xe4', '', '\u4e16']
CODECS = [(None, None), ('utf-8', True), ('utf-8', False), ('latin-1', True),
          ('latin-1', False), ('ascii', True), ('ascii', False),
          ('utf-16-le', True)]


class Opaque(object):
    pass


def gen_arg(rng, depth=0):
    x = rng.random()
    if depth > 3 or x < 0.3:
        y = rng.random()
        if y < 0.45:
            return [rng.choice(['s', 's', 's', 'S']), rng.choice(TEXTS)]
        if y < 0.8:
            return [rng.choice(['b', 'b', 'b', 'B']), rng.choice(BYTES)]
        return ['o', rng.choice(OTHERS)]
    n = rng.choice([0, 1, 2, 2, 3])
    if x < 0.33:
        # the same object twice
        return ['2', gen_arg(rng, depth + 1)]
    if x < 0.6:
        return [rng.choice(['l', 'l', 't', 't', 'L', 'T']),
                [gen_arg(rng, depth + 1) for _ in range(n)]]
    if x < 0.8:
        return [rng.choice(['d', 'd', 'od', 'D', 'OD']), [
            [gen_key(rng), gen_arg(rng, depth + 1)] for _ in range(n)]]
    return ['n', rng.choice(sorted(CLASSES)), [
        [rng.choice(KEYS), gen_arg(rng, depth + 1)] for _ in range(n)]]


def gen_key(rng):
    x = rng.random()
    if x < 0.5:
        return ['s', rng.choice(TEXTS)]
    if x < 0.75:
        return ['b', rng.choice(BYTES)]
    if x < 0.9:
        return ['t', [['s', rng.choice(TEXTS)], ['b', rng.choice(BYTES)]]]
    return ['o', rng.choice(['none', 'int', 'float', 'object'])]


def build(arg):
    k = arg[0]
    if k == 's':
        return arg[1]
    if k == 'S':
        return Text(arg[1])
    if k == 'b':
        return bytes.fromhex(arg[1])
    if k == 'B':
        return Blob(bytes.fromhex(arg[1]))
    if k == '2':
        x = build(arg[1])
        return [x, (x,), x]
    if k == 'o':
        return {'none': lambda: None, 'int': lambda: 7, 'float': lambda: 2.5,
                'true': lambda: True, 'object': Opaque,
                'set': lambda: {'a', b'b'}, 'class': lambda: Opaque,
                'ba': lambda: bytearray(b'a')}[arg[1]]()
    if k in ('l', 't', 'L', 'T'):
        return {'l': list, 't': tuple, 'L': Items, 'T': Pair}[k](
            [build(a) for a in arg[1]])
    if k in ('d', 'od', 'D', 'OD'):
        res = {'d': dict, 'od': odict, 'D': Mapping, 'OD': OrderedDict}[k]()
        for key, val in arg[1]:
            res[build(key)] = build(val)
        return res
    node = CLASSES[arg[1]](name='n')
    for key, val in arg[2]:
        node[key] = build(val)
    return node


def isnode(x):
    return isinstance(x, NODES)


def snap(x):
    """Structure of an argument, everything by identity."""
    if isinstance(x, (list, tuple)):
        return (id(x), [snap(a) for a in x])
    if isinstance(x, dict):
        return (id(x), [(snap(k), snap(v)) for k, v in x.items()])
    if isnode(x):
        return (id(x), x.__name__, id(x.__parent__), [
            (k, snap(x[k])) for k in x])
    if isinstance(x, (set, bytearray)):
        return (id(x), repr(x))
    return id(x)


class Refused(Exception):

    def __init__(self, cls):
        self.cls = cls


def want_encode(x, enc, soft):
    if isinstance(x, (list, tuple)):
        return type(x)([want_encode(a, enc, soft) for a in x])
    if isinstance(x, dict) or isnode(x):
        res = {}
        for k, v in pairs(x):
            k, v = want_encode(k, enc, soft), want_encode(v, enc, soft)
            res[k] = v
        return res
    if isinstance(x, bytes):
        d = want_decode(x, enc, soft)
        return x if isinstance(d, bytes) else want_encode(d, enc, soft)
    if isinstance(x, str):
        try:
            return x.encode(enc)
        except UnicodeEncodeError:
            raise Refused(UnicodeEncodeError)
    return x


def want_decode(x, enc, soft):
    if isinstance(x, (list, tuple)):
        return type(x)([want_decode(a, enc, soft) for a in x])
    if isinstance(x, dict) or isnode(x):
        res = {}
        for k, v in pairs(x):
            k, v = want_decode(k, enc, soft), want_decode(v, enc, soft)
            res[k] = v
        return res
    if isinstance(x, bytes):
        try:
            return x.decode(enc)
        except UnicodeDecodeError:
            if soft:
                return x
            raise Refused(UnicodeDecodeError)
    return x


def errors(x, convert, enc, soft):
    """What may be raised, the parts are converted in any order."""
    res = set()
    if isinstance(x, (list, tuple)):
        for a in x:
            res |= errors(a, convert, enc, soft)
    elif isinstance(x, dict) or isnode(x):
        for k, v in pairs(x):
            res |= errors(k, convert, enc, soft)
            res |= errors(v, convert, enc, soft)
    else:
        try:
            convert(x, enc, soft)
        except Refused as e:
            res.add(e.cls)
    return res


def pairs(x):
    if isnode(x):
        return [(k, x[k]) for k in x]
    return list(x.items())


def differ(got, want, path='result'):
    if type(got) is not type(want):
        return '%s is a %s, should be a %s' % (
            path, type(got).__name__, type(want).__name__)
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            return '%s has %d elements, should have %d' % (
                path, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            d = differ(a, b, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(want, dict):
        if set(got) != set(want):
            return '%s has keys %r, should have %r' % (
                path, list(got), list(want))
        for k in want:
            d = differ(got[k], want[k], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(want, (str, bytes)):
        return None if got == want else '%s is %r, should be %r' % (
            path, got, want)
    return None if got is want else '%s is %r, should be %r' % (
        path, got, want)


def containers(x, res):
    if isinstance(x, list) or isinstance(x, dict) or isnode(x):
        res[id(x)] = x
    if isinstance(x, (list, tuple)):
        for a in x:
            containers(a, res)
    elif isinstance(x, dict) or isnode(x):
        for k, v in pairs(x):
            containers(v, res)
    return res


def deep(x):
    return isinstance(x, (list, tuple, dict)) and len(x) > 0


class CodecScenario(object):
    name = 'conversion'
    weight = 1

    def arg(self, rng):
        arg = gen_arg(rng)
        x = rng.random()
        if x < 0.01:
            # deep
            for _ in range(rng.choice([10, 30])):
                arg = rng.choice([
                    ['l', [arg]], ['t', [arg, ['s', '\xe4']]],
                    ['d', [[['s', 'a'], arg]]], ['n', rng.choice(sorted(
                        CLASSES)), [['a', arg]]]])
        elif x < 0.02:
            # long
            n = rng.choice([12, 40, 100])
            args = [gen_arg(rng, 3) for _ in range(n)]
            arg = rng.choice([
                [rng.choice('ltLT'), args],
                ['d', [[['s', 'k%d' % i], a] for i, a in enumerate(args)]],
                ['n', rng.choice(sorted(CLASSES)), [
                    ['k%d' % i, a] for i, a in enumerate(args)]]])
        elif x < 0.03:
            # long texts
            n = rng.choice([50, 300, 5000])
            arg = ['l', [['s', rng.choice(TEXTS) * n],
                         ['b', rng.choice(BYTES) * n], arg]]
        return arg

    def generate(self, rng, tier):
        codecs = [rng.randrange(len(CODECS)) for _ in range(2)]
        tasks = []
        ids = iter(range(1000))
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 4])):
                op = {'id': next(ids), 'codec': rng.choice(codecs),
                      'dir': rng.choice(['encode', 'decode']),
                      'arg': self.arg(rng), 'again': rng.random() < 0.4,
                      'change': rng.random() < 0.5,
                      'replace': rng.random() < 0.5}
                ops.append(op)
            tasks.append(ops)
        return {'tasks': tasks, 'sched': gen_sched(rng),
                'faults': gen_faults(
                    rng, [o['id'] for t in tasks for o in t],
                    kinds=READ_FAULTS)}

    def execute(self, case, ctx):
        shared = {}
        for op in (o for t in case['tasks'] for o in t):
            i = op['codec']
            if i not in shared:
                enc, soft = CODECS[i]
                shared[i] = utils if enc is None else StrCodec(enc, soft)
        with Quiet(ctx):
            args = dict((o['id'], build(o['arg']))
                        for t in case['tasks'] for o in t)
        count = []

        def body(ops):
            def f():
                for op in ops:
                    self.convert(ctx, op, shared[op['codec']],
                                 args[op['id']])
                    count.append(1)
                    if op['again']:
                        if op['change']:
                            self.change(ctx, args[op['id']],
                                        op['replace'])
                        self.convert(ctx, op, shared[op['codec']],
                                     args[op['id']])
                        count.append(1)
            return f
        if len(case['tasks']) == 1:
            body(case['tasks'][0])()
        else:
            ctx.probe('threads')
            sched = Sched(ctx, case['sched'])
            for i, ops in enumerate(case['tasks']):
                sched.spawn('t%d' % i, body(ops))
            sched.run()
            if sched.deadlock:
                raise Violation('deadlock', sched.deadlock)
        if len(count) > 1:
            ctx.nontrivial = True

    def change(self, ctx, x, replace):
        """What was converted before is not the same any more."""
        ctx.probe('changed')
        with Quiet(ctx):
            if replace and isinstance(x, list) and x:
                x[0] = b'other'
            elif replace and isinstance(x, dict) and x:
                x[next(iter(x))] = b'other'
            elif replace and isnode(x) and len(x):
                for k in [k for k in x][-1:]:
                    x[k] = b'other'
            elif isnode(x):
                for k in [k for k in x][:1]:
                    del x[k]
                x['new'] = ['\xe4']
            elif isinstance(x, list):
                x.append(b'new')
            elif isinstance(x, dict):
                x['new'] = b'a'

    def convert(self, ctx, op, codec, arg):
        enc, soft = CODECS[op['codec']]
        enc, soft = enc or 'utf-8', True if soft is None else soft
        with Quiet(ctx):
            before = snap(arg)
            mine = containers(arg, {})
            convert = want_encode if op['dir'] == 'encode' else want_decode
            want, err = None, errors(arg, convert, enc, soft)
            if not err:
                want = convert(arg, enc, soft)
        ctx.state(op['codec'], op['dir'], repr(op['arg']))
        ctx.begin(op['id'])
        try:
            got, exc = getattr(codec, op['dir'])(arg), None
        except Exception as e:
            got, exc = None, e
        except BaseException as e:
            if getattr(e, 'sim_site', None) is None:
                raise
            got, exc = None, e
        fault = ctx.end()
        ctx.ev('op', op['id'], op['dir'], type(exc).__name__)
        where = '%s of op %s' % (op['dir'], op['id'])
        with Quiet(ctx):
            if snap(arg) != before:
                raise Violation('argument-changed',
                                '%s changed its argument' % where)
            if fault is not None:
                ctx.nontrivial = True
                ctx.probe('failed')
                if exc is not fault:
                    raise Violation('swallowed', '%s: %r of the storage '
                                    'became %r' % (where, fault, exc))
                return
            if err:
                for e in sorted(err, key=lambda e: e.__name__):
                    ctx.probe('unencodable' if e is UnicodeEncodeError
                              else 'undecodable')
                if not isinstance(exc, tuple(err)):
                    raise Violation('accepted', '%s should fail with %s, got '
                                    '%r %r' % (where, ' or '.join(sorted(
                                        e.__name__ for e in err)), exc, got))
                return
            if exc is not None:
                raise Violation('unexpected', '%s fails with %s: %s' % (
                    where, type(exc).__name__, exc))
            msg = differ(got, want)
            if msg:
                raise Violation('conversion', '%s: %s' % (where, msg))
            if deep(got):
                ctx.probe('nested')
            if any(isnode(x) for x in mine.values()):
                ctx.probe('node_converted')
            for i, x in containers(got, {}).items():
                if i in mine:
                    raise Violation('shared', '%s: result shares %r with the '
                                    'argument' % (where, x))


SCENARIOS = [CodecScenario()]
