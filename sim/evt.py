"""Programs of event operations, run on the real dispatcher under the
scheduler and on a small reference dispatcher; their logs must be equal."""
from node.base import AttributedNode
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import suppress_events
from node.events import EventDispatcher
from node.events import UnknownEvent
from node.utils import UNSET
from plumber import plumbing
from sim.core import BackendError
from sim.core import CALL_FAULTS
from sim.core import FAULT_KINDS
from sim.core import Violation
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched

CUR = [None]     # program currently executed (decorator subscribers)


class Store(dict):
    """Storage of event attributes, may fail."""

    def get(self, *args):
        CUR[0].store('get')
        return dict.get(self, *args)

    def __getitem__(self, key):
        CUR[0].store('get')
        return dict.__getitem__(self, key)

    def __contains__(self, key):
        CUR[0].store('get')
        return dict.__contains__(self, key)

    def pop(self, *args):
        CUR[0].store('del')
        return dict.pop(self, *args)

    def update(self, *args, **kw):
        CUR[0].store('set')
        dict.update(self, *args, **kw)

    def __setitem__(self, key, value):
        CUR[0].store('set')
        dict.__setitem__(self, key, value)

    def __delitem__(self, key):
        CUR[0].store('del')
        dict.__delitem__(self, key)


class Plain(EventDispatcher):
    pass


@plumbing(Events)
class Declared(object):
    __events__ = ['one', 'two']


@plumbing(Events)
class Attrs(object):
    a = EventAttribute(0)
    b = EventAttribute(0, always_dispatch=True)
    n = EventAttribute(None)
    u = EventAttribute()


@plumbing(Events)
class Deco(object):
    __events__ = ['one']
    a = EventAttribute(0)
    x = EventAttribute(0)
    y = EventAttribute('', always_dispatch=True)

    @x.subscriber
    def on_x1(self, *args, **kw):
        CUR[0].deco(self, 'x1', args, kw)

    @x.subscriber
    def on_x2(self, *args, **kw):
        CUR[0].deco(self, 'x2', args, kw)

    @y.subscriber
    def on_y1(self, *args, **kw):
        CUR[0].deco(self, 'y1', args, kw)


class Derived(Deco):
    z = EventAttribute(0)
    a = EventAttribute(1, always_dispatch=True)

    @z.subscriber
    def on_z1(self, *args, **kw):
        CUR[0].deco(self, 'z1', args, kw)


@plumbing(Events)
class Stored(object):
    a = EventAttribute(0, storage='store')
    b = EventAttribute(0, storage='store', always_dispatch=True)
    x = EventAttribute(0, storage='store')

    def __init__(self, store, **kw):
        self.store = store

    @x.subscriber
    def on_x1(self, *args, **kw):
        CUR[0].deco(self, 'x1', args, kw)


@plumbing(Events)
class NodeAttrs(AttributedNode):
    __events__ = ['one']
    a = EventAttribute(0, storage='attrs')
    x = EventAttribute('', storage='attrs')

    @x.subscriber
    def on_x1(self, *args, **kw):
        CUR[0].deco(self, 'x1', args, kw)


@plumbing(Events)
class Odd(object):
    """An empty, falsy thing equal to all the others."""
    __events__ = ['one']
    a = EventAttribute(1)
    x = EventAttribute(2)

    @x.subscriber
    def on_x1(self, *args, **kw):
        CUR[0].deco(self, 'x1', args, kw)

    def __len__(self):
        return 0

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


# name -> (default, always, decorator subscribers)
CLASSES = {
    'plain': (Plain, [], {}),
    'declared': (Declared, ['one', 'two'], {}),
    'attrs': (Attrs, [], {'a': (0, False, []), 'b': (0, True, []),
                          'n': (None, False, []), 'u': (UNSET, False, [])}),
    'deco': (Deco, ['one'], {'a': (0, False, []),
                             'x': (0, False, ['x1', 'x2']),
                             'y': ('', True, ['y1'])}),
    'derived': (Derived, ['one'], {'a': (1, True, []),
                                   'x': (0, False, ['x1', 'x2']),
                                   'y': ('', True, ['y1']),
                                   'z': (0, False, ['z1'])}),
    'stored': (Stored, [], {'a': (0, False, []), 'b': (0, True, []),
                            'x': (0, False, ['x1'])}),
    'odd': (Odd, ['one'], {'a': (1, False, []), 'x': (2, False, ['x1'])}),
    'node': (NodeAttrs, ['one'], {'a': (0, False, []),
                                  'x': ('', False, ['x1'])}),
}


def create(name):
    # constructors may take arguments
    cls = CLASSES[name][0]
    if cls is Stored:
        return cls(Store(), b=1)
    if cls is NodeAttrs:
        return cls(name='dispatcher')
    return cls()


NAMES = ['one', 'two', 'three', 'a', 'b', 'x', 'y', 'z', 'u', '']
MANY = NAMES + ['e%d' % i for i in range(14)]
VALUES = [0, 1, 1.0, True, False, '', 'v', None, 2, [], [1]]
MAXDEPTH = 4
FUEL = 60


def show(v):
    return 'UNSET' if v is UNSET else '%s %r' % (type(v).__name__, v)


class Method(object):
    """Its bound methods are equal, but a new object each time."""

    def __init__(self, prog, n):
        self.prog = prog
        self.n = n

    def __call__(self):
        raise RuntimeError('not a subscriber')

    def notify(self, *args, **kw):
        self.prog.called(self.n, args, kw)


class Falsy(object):
    """A callable which is False."""

    def __init__(self, prog, n):
        self.prog = prog
        self.n = n

    def __bool__(self):
        return False

    def __call__(self, *args, **kw):
        self.prog.called(self.n, args, kw)


class RefEvents(object):
    """What an object dispatching events does."""

    def __init__(self, prog, cls):
        self.prog = prog
        self.known, self.attrs = list(CLASSES[cls][1]), CLASSES[cls][2]
        self.values = {}
        self.subs = {}

    def register_event(self, event):
        self.known.append(event)

    def bind(self, **kw):
        for event, sub in kw.items():
            if event not in self.known and event not in self.attrs:
                raise UnknownEvent(event)
            subs = self.subs.setdefault(event, [])
            if sub not in subs:
                subs.append(sub)

    def unbind(self, event=None, subscriber=None):
        for ev in list(self.subs):
            if event is None or ev == event:
                self.subs[ev] = [s for s in self.subs[ev]
                                 if subscriber is not None
                                 and s != subscriber]

    def dispatch(self, event, *args, **kw):
        self.deliver(event, (), args, kw)

    def deliver(self, event, decos, args, kw):
        for names in self.prog.stack():
            if names is None or event in names:
                return
        subs = list(self.subs.get(event, ()))
        for d in decos:
            self.prog.deco(self, d, args, kw)
        for s in subs:
            s(*args, **kw)

    def get(self, attr):
        return self.values.get(attr, self.attrs[attr][0])

    def set(self, attr, value, stored):
        default, always, decos = self.attrs[attr]
        if stored:
            self.prog.store('get')
        old = self.get(attr)
        if stored:
            self.prog.store('set')
        self.values[attr] = value
        if always or value != old:
            self.deliver(attr, decos, (value,), {})

    def delete(self, attr, stored):
        if stored:
            self.prog.store('del')
        del self.values[attr]
        self.deliver(attr, (), (UNSET,), {})


class RefSuppress(object):

    def __init__(self, prog, names):
        self.prog = prog
        self.names = names

    def __enter__(self):
        self.prog.stack().append(self.names)
        return len(self.prog.stack())

    def __exit__(self, *exc):
        self.prog.stack().pop()


class Program(object):
    """One execution of a case, on reality (ref=False) or the reference."""

    def __init__(self, ctx, case, ref):
        self.ctx = ctx
        self.case = case
        self.ref = ref
        self.logs = {}
        self.fuel = {}
        self.depth = {}
        self.stacks = {}
        self.armed = {}
        self.calls = {}
        self.cur = 0             # current thread of the reference run
        self.inst = {}
        self.objs = []
        self.index = {}
        self.known = [set(CLASSES[o['cls']][1]) | set(CLASSES[o['cls']][2])
                      for o in case['objs']]
        for o in case['objs']:
            ob = RefEvents(self, o['cls']) if ref else create(o['cls'])
            self.index[id(ob)] = len(self.objs)
            self.objs.append(ob)
        self.subs = []
        for n, s in enumerate(case['subs']):
            self.subs.append(
                Method(self, n) if s['kind'] == 'method' else
                Falsy(self, n) if s['kind'] == 'falsy' else self.function(n))

    def function(self, n):
        def sub(*args, **kw):
            self.called(n, args, kw)
        return sub

    def sub(self, n):
        s = self.subs[n % len(self.subs)]
        return s.notify if isinstance(s, Method) else s

    def stack(self):
        return self.stacks.setdefault(self.tid(), [])

    # -- log, faults -------------------------------------------------------
    def tid(self):
        return self.cur if self.ref else max(0, self.ctx.tid())

    def log(self, *what):
        self.logs.setdefault(self.tid(), []).append(what)
        if not self.ref:
            self.ctx.ev(self.tid(), *what)

    def gate(self, op, site):
        """The n-th seam call of a top level operation may fail."""
        t = self.tid()
        if not self.ref:
            if self.ctx.sched is not None:
                self.ctx.sched.point()
            self.ctx.steps += 1
            self.ctx.simtime += 0.001
        top, n, fired = self.calls.get(t, (None, 0, True))
        if top is None:
            return
        kind = self.ctx.plan.get((top, n))
        self.calls[t] = (top, n + 1, fired or kind is not None)
        if kind is not None and not fired:
            exc = FAULT_KINDS[kind]('%s of op %s call %s' % (site, top, n))
            exc.sim_site = site
            if not self.ref:
                name = '%s@%s' % (kind, site)
                f = self.ctx.faults_fired
                f[name] = f.get(name, 0) + 1
                self.ctx.ev(t, 'FAULT', name)
            raise exc

    def store(self, what):
        """Storage call of an event attribute: fails if armed for it."""
        t = self.tid()
        if self.armed.get(t) and self.armed[t][0] == what:
            _, kind = self.armed.pop(t)
            exc = FAULT_KINDS[kind]('attribute storage')
            exc.sim_site = 'store.' + what
            if not self.ref:
                name = '%s@store.%s' % (kind, what)
                f = self.ctx.faults_fired
                f[name] = f.get(name, 0) + 1
            raise exc

    # -- subscribers -------------------------------------------------------
    def called(self, n, args, kw):
        self.log('call', n, [show(a) for a in args],
                 sorted((k, show(v)) for k, v in kw.items()))
        self.react(self.case['subs'][n]['body'])

    def deco(self, obj, name, args, kw):
        self.log('deco', self.index.get(id(obj)), name,
                 [show(a) for a in args],
                 sorted((k, show(v)) for k, v in kw.items()))
        self.react(self.case['decos'].get(name, ()))

    def react(self, body):
        t = self.tid()
        self.gate(None, 'subscriber')
        fuel = self.fuel.get(t, FUEL)
        depth = self.depth.get(t, 0)
        if fuel <= 0 or depth >= MAXDEPTH:
            return
        self.fuel[t] = fuel - 1
        self.depth[t] = depth + 1
        if depth and not self.ref:
            self.ctx.probe('nested_dispatch')
        try:
            self.body(body)
        finally:
            self.depth[t] = depth

    # -- operations --------------------------------------------------------
    def body(self, ops):
        for op in ops:
            self.gate(None, 'statement')
            if op.get('catch'):
                self.caught(op)
            else:
                self.step(op)

    def caught(self, op):
        try:
            self.step(op)
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            self.log('exc', type(e).__name__, str(e)[:80]
                     if hasattr(e, 'sim_site') else '')
            if not self.ref:
                self.ctx.probe('failed')

    def target(self, op):
        """Object of the op as seen by the current thread."""
        t = self.tid()
        mine = [i for i, o in enumerate(self.case['objs'])
                if o['owner'] in (t, -1)]
        if not mine:
            return None, None
        i = mine[op['obj'] % len(mine)]
        return i, self.objs[i]

    def step(self, op):
        k = op['k']
        if k == 'raise':
            exc = BackendError('raised')
            exc.sim_site = 'raise'
            raise exc
        if k == 'sup':
            return self.suppress(op)
        i, ob = self.target(op)
        if ob is None:
            return
        cls = self.case['objs'][i]['cls']
        shared = self.case['objs'][i]['owner'] == -1
        ev = self.event(cls, op.get('ev'))
        if k == 'dispatch':
            if not self.ref:
                self.ctx.probe('dispatches')
            ob.dispatch(ev, *op['args'], **op['kw'])
        elif k in ('set', 'del', 'get'):
            self.attribute(op, k, ob, cls, shared)
        elif shared and not op.get('init'):
            return
        elif k == 'register':
            self.register(i, ev)
        elif k == 'bind':
            self.bind(i, op['on'])
        elif k == 'unbind':
            kw = {}
            if ev is not None:
                kw['event'] = ev
            if op['sub'] is not None:
                kw['subscriber'] = self.sub(op['sub'])
            ob.unbind(**kw)

    def event(self, cls, ev):
        return 'z' if cls == 'derived' and ev == 'two' else ev

    def register(self, i, ev):
        self.known[i].add(ev)
        self.objs[i].register_event(ev)

    def bind(self, i, on):
        cls = self.case['objs'][i]['cls']
        on = [(self.event(cls, e), s) for e, s in on]
        if len(on) > 1 and not all(e in self.known[i] for e, s in on):
            # which of them get bound is nobody's business
            on = on[:1]
        self.objs[i].bind(**dict((e, self.sub(s)) for e, s in on))

    def attribute(self, op, k, ob, cls, shared):
        attrs = CLASSES[cls][2]
        if not attrs:
            return
        attr = sorted(attrs)[op['attr'] % len(attrs)]
        if shared:
            # concurrent changes make old values a matter of schedule
            always = [a for a in sorted(attrs) if attrs[a][1]]
            if k != 'set' or not always:
                return
            attr = always[0]
        stored = cls == 'stored'
        t = self.tid()
        if op.get('fault') and stored and not shared:
            # the old value need not be looked up if it does not matter
            self.armed[t] = ('get' if k == 'set' and op['fault'][0] == 'get'
                             and not attrs[attr][1]
                             else {'set': 'set', 'del': 'del'}.get(k),
                             op['fault'][1])
        try:
            if k == 'set':
                if self.ref:
                    ob.set(attr, op['value'], stored)
                else:
                    setattr(ob, attr, op['value'])
            elif k == 'del':
                if attrs[attr][2]:
                    return
                if self.ref:
                    ob.delete(attr, stored)
                else:
                    delattr(ob, attr)
            elif k == 'get':
                self.log('get', attr, eqclass(
                    ob.get(attr) if self.ref else getattr(ob, attr)))
        finally:
            self.armed.pop(t, None)

    def suppress(self, op):
        t = self.tid()
        names = op['names']
        wrap = {'str': lambda n: n[0], 'list': list, 'tuple': tuple}
        # one block object may be entered again inside of itself and be used
        # by several threads
        key = op['inst'] if self.case.get('common') else (t, op['inst'])
        s = None
        if op['inst'] is not None:
            names = self.case['insts'][op['inst']]
            s = self.inst.get(key)
        how = op['as'] if names is None or len(names) == 1 or \
            op['as'] != 'str' else 'list'
        if s is None:
            if self.ref:
                s = RefSuppress(self, None if names is None else set(names))
            elif names is None:
                s = suppress_events()
            else:
                given = wrap[how](names)
                s = suppress_events(given)
                if op.get('mut') and how == 'list':
                    # the list belongs to the caller
                    given[:] = op['mut']
            if op['inst'] is not None:
                self.inst[key] = s
        if op.get('unused'):
            return     # made, never entered
        active = self.inst.setdefault(('active', t, op['inst']), [0])
        with s as depth:
            self.log('suppressed', depth)
            if not self.ref:
                if depth > 1:
                    self.ctx.probe('nested_blocks')
                if op['inst'] is not None and active[0]:
                    self.ctx.probe('same_block_nested')
            active[0] += 1
            try:
                self.body(op['body'])
            finally:
                active[0] -= 1

    def main(self, t, ops):
        def run():
            for op in ops:
                self.calls[t] = (op['id'], 0, False)
                self.caught(op)
                if not self.ref:
                    self.ctx.ops_done += 1
                self.calls.pop(t, None)
            self.log('end', len(self.stack()) if self.ref else None)
        return run

    def init(self):
        for op in self.case['init']:
            i = op['obj'] % len(self.objs)
            if op['k'] == 'register':
                self.register(i, self.event(
                    self.case['objs'][i]['cls'], op['ev']))
            else:
                try:
                    self.bind(i, op['on'])
                except UnknownEvent:
                    self.log('unknown')


def eqclass(v):
    """Values an attribute may not tell apart."""
    if v is UNSET:
        return 'UNSET'
    if isinstance(v, (int, float)):
        return float(v)
    return repr(v)


class EventScenario(object):

    def __init__(self, name, weight, weights, threads):
        self.name = name
        self.weight = weight
        self.weights = weights
        self.threads = threads
        self.pool = (NAMES, 8)   # events and subscribers of the case

    # -- generation --------------------------------------------------------
    def op(self, rng, nobj, depth, catch):
        ks = sorted(self.weights)
        w = [self.weights[k] * (0 if depth >= 3 and k == 'sup' else 1)
             for k in ks]
        k = rng.choices(ks, w)[0]
        evs, nsub = self.pool
        op = {'k': k, 'obj': rng.randrange(12),
              'catch': rng.random() < catch}
        ev = rng.choice(evs)
        if k == 'dispatch':
            op.update(ev=ev, args=[rng.choice(VALUES) for _ in range(
                rng.choice([0, 1, 1, 2]))], kw=rng.choice(
                    [{}, {}, {'opt': 1}, {'event_': 'x', 'subscriber': 2}]))
        elif k == 'set':
            op.update(attr=rng.randrange(12), value=rng.choice(VALUES))
            if rng.random() < 0.2:
                op['fault'] = [rng.choice(['get', 'set']),
                               rng.choice(CALL_FAULTS)]
                if op['fault'] == ['get', 'key']:
                    # might as well be taken for a missing value
                    op['fault'][1] = 'value'
        elif k in ('del', 'get'):
            op.update(attr=rng.randrange(12))
            if k == 'del' and rng.random() < 0.2:
                op['fault'] = ['del', rng.choice(CALL_FAULTS)]
        elif k == 'register':
            op.update(ev=ev)
        elif k == 'bind':
            op.update(on=[[e, rng.randrange(nsub)] for e in rng.sample(
                evs, rng.choice([1, 1, 1, 2]))])
        elif k == 'unbind':
            op.update(ev=rng.choice([ev, ev, None]),
                      sub=rng.choice([rng.randrange(nsub), rng.randrange(nsub),
                                      None]))
        elif k == 'sup':
            op.update(
                names=rng.choice([None, None, [ev], [ev], rng.sample(
                    evs, 2), rng.sample(evs, 3), [ev, ev], []]),
                inst=rng.choice([None, None, None, 0, 1]),
                unused=rng.random() < 0.07,
                body=[self.op(rng, nobj, depth + 1, catch)
                      for _ in range(rng.choice([1, 2, 3, 4]))])
            op['as'] = rng.choice(['str', 'list', 'tuple'])
            if rng.random() < 0.2:
                op['mut'] = rng.choice([[ev], ['other'], rng.sample(evs, 2)])
        return op

    def generate(self, rng, tier):
        nt = rng.choice(self.threads)
        # some cases have many events and subscribers
        many = rng.random() < 0.04
        self.pool = evs, nsub = (MANY, 14) if many else (NAMES, 8)
        classes = sorted(CLASSES)
        objs = []
        for t in range(nt):
            for _ in range(rng.choice([1, 1, 2])):
                objs.append({'cls': rng.choice(classes), 'owner': t})
        if nt > 1:
            for _ in range(rng.choice([0, 1, 1, 2])):
                objs.append({'cls': rng.choice(classes), 'owner': -1})
        catch = rng.choice([0.2, 0.6])
        subs = [{'kind': rng.choice(['func', 'func', 'method', 'falsy']),
                 'body': [self.op(rng, len(objs), 1, catch) for _ in range(
                     0 if many else rng.choice([0, 0, 0, 1, 1, 2, 3]))]}
                for _ in range(14 if many else rng.choice([2, 3, 5, 6]))]
        decos = dict((d, [self.op(rng, len(objs), 1, catch) for _ in range(
            rng.choice([0, 0, 1, 2]))]) for d in ('x1', 'x2', 'y1', 'z1'))
        init = []
        for i in range(len(objs)):
            for ev in rng.sample(evs, rng.choice(
                    [2, 12, 20] if many else [2, 3, 5])):
                cls, known, attrs = CLASSES[objs[i]['cls']]
                if ev not in known and ev not in attrs and rng.random() < .9:
                    init.append({'k': 'register', 'obj': i, 'ev': ev})
                for _ in range(rng.choice(
                        [1, 2, 24] if many else [1, 1, 2, 3])):
                    init.append({'k': 'bind', 'obj': i,
                                 'on': [[ev, rng.randrange(nsub)]]})
        size = (3, 6, 10) if tier == 'quick' else (3, 6, 10, 20)
        if many:
            size = (10, 20)
        ids = iter(range(10000))
        tasks = [[dict(self.op(rng, len(objs), 0, catch), id=next(ids))
                  for _ in range(rng.choice(size))] for _ in range(nt)]
        case = {'objs': objs, 'subs': subs, 'decos': decos, 'init': init,
                'tasks': tasks,
                'common': rng.random() < 0.5,
                'insts': [rng.choice([None, [rng.choice(evs)], rng.sample(
                    evs, 2)]) for _ in range(2)],
                'faults': gen_faults(
                    rng, [o['id'] for ops in tasks for o in ops],
                    kinds=CALL_FAULTS, maxcall=rng.choice([3, 8, 20]))}
        if nt > 1:
            case['sched'] = gen_sched(rng)
        return case

    # -- execution ---------------------------------------------------------
    def execute(self, case, ctx):
        real = Program(ctx, case, False)
        CUR[0] = real
        real.init()
        for n, ops in enumerate(case['tasks']):
            ctx.state(n, len(ops))
        if case.get('sched'):
            sched = Sched(ctx, case['sched'])
            for t, ops in enumerate(case['tasks']):
                sched.spawn('t%d' % t, real.main(t, ops))
            sched.run()
            if sched.deadlock:
                raise Violation('deadlock', sched.deadlock)
            ctx.nontrivial = bool(sched.preempted)
        else:
            for t, ops in enumerate(case['tasks']):
                real.main(t, ops)()
            ctx.nontrivial = sum(len(v) for v in real.logs.values()) > 4
        ref = Program(ctx, case, True)
        CUR[0] = ref
        ref.init()
        for t, ops in enumerate(case['tasks']):
            ref.cur = t
            ref.main(t, ops)()
            if ref.stack():
                raise RuntimeError('reference is broken')
        for t in range(len(case['tasks'])):
            a = [e for e in real.logs.get(t, []) if e[0] != 'end']
            b = [e for e in ref.logs.get(t, []) if e[0] != 'end']
            for n, e in enumerate(a):
                ctx.state(e[:2], e[2:3] if e[0] == 'call' else '')
            for n in range(max(len(a), len(b))):
                x = a[n] if n < len(a) else None
                y = b[n] if n < len(b) else None
                if x != y:
                    raise Violation(
                        self.classify(x, y), 'thread %d, observation %d: got '
                        '%s, should be %s (after %s)' % (
                            t, n, x, y, b[max(0, n - 3):n]))

    def classify(self, x, y):
        calls = ('call', 'deco')
        kx = x and x[0]
        ky = y and y[0]
        if kx in calls and ky in calls:
            return 'wrong-call'
        if kx in calls:
            return 'extra-call'
        if ky in calls:
            return 'missing-call'
        if kx == ky == 'get':
            return 'attribute-value'
        if 'suppressed' in (kx, ky):
            return 'depth'
        return 'outcome'


REAL = ['node.behaviors.events', 'node.events', 'node.base.AttributedNode '
        '(attribute storage of some dispatchers)', 'plumber',
        'CPython threads and thread locals']
STUB = ['thread scheduler (one thread at a time, chosen by the seed)',
        'subscribers (scripted programs of the case)',
        'attribute storage of one class: dict which fails on demand']
RULE = (
    'A case is 1-4 threads, each with a program of event operations (bind, '
    'unbind, register, dispatch, attribute set/get/delete, suppression '
    'blocks), subscribers that are themselves such programs, and faults '
    'planned at (operation, n-th statement or subscriber call). It runs on '
    'the real code under a seeded schedule and then on a reference '
    'dispatcher of 60 lines; the observations of every thread (subscriber '
    'calls with arguments, exceptions, values, depths) must be equal. '
    'Non-trivial: preempted, or more than four observations; distinct: '
    'different event log.')
STATE = 'hash of (observation, subscriber) pairs'
