"""Simulation context: one seed decides everything, every seam call is logged
and may be made to fail.

A *case* is a plain JSON value (configuration, operations, planned faults,
schedule).  Executing a case is a pure function of the case and of the code
under test.
"""
import hashlib
import random
import re
import sys


class Violation(BaseException):
    """The property is broken (BaseException: code under test must not eat it).
    """

    def __init__(self, kind, msg):
        # addresses differ from process to process
        msg = re.sub('0x[0-9a-f]+', '0x', msg)
        BaseException.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg

    def __str__(self):
        return '%s: %s' % (self.kind, self.msg)


class Hang(BaseException):
    """Step budget of a run exhausted inside code under test."""


class EndRun(BaseException):
    """Reality and model disagree in a way that is not this property's
    business: the run says nothing further."""


class HarnessError(BaseException):
    """The simulator itself is broken; never reported as a violation."""


class BackendError(Exception):
    """Application level failure of a storage backend or callback."""


class Cancelled(BaseException):
    """A caller is cancelled while it is inside a seam (like
    KeyboardInterrupt or GreenletExit: not an Exception)."""


FAULT_KINDS = {
    'io': lambda d: OSError(5, 'Input/output error', d),
    'nospace': lambda d: OSError(28, 'No space left on device', d),
    'timeout': lambda d: TimeoutError('timed out: ' + d),
    'memory': lambda d: MemoryError(d),
    'backend': lambda d: BackendError(d),
    'value': lambda d: ValueError('rejected by backend: ' + d),
    'type': lambda d: TypeError('bad type: ' + d),
    'attribute': lambda d: AttributeError('backend: ' + d),
    'runtime': lambda d: RuntimeError('backend: ' + d),
    'index': lambda d: IndexError('backend: ' + d),
    'notimpl': lambda d: NotImplementedError('backend: ' + d),
    'assertion': lambda d: AssertionError('backend: ' + d),
    'exit': lambda d: SystemExit(d),
    'key': lambda d: KeyError('backend lost key: ' + d),
    'cancel': lambda d: Cancelled(d),
    'interrupt': lambda d: KeyboardInterrupt(d),
}
# faults a read may raise without looking like "key is missing"
READ_FAULTS = ['io', 'timeout', 'memory', 'backend', 'value', 'type',
               'runtime', 'cancel', 'interrupt', 'index', 'notimpl',
               'assertion', 'exit', 'attribute']
WRITE_FAULTS = READ_FAULTS + ['nospace', 'key']
CALL_FAULTS = READ_FAULTS + ['key']


class Ctx(object):
    """State of one simulated run."""

    def __init__(self, case, budget=40000):
        self.case = case
        self.log = []
        self.faults_fired = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.budget = budget
        self.quiet = 0
        self.plan = {}
        for f in case.get('faults', ()):
            self.plan[(f['op'], f['call'])] = f['kind']
        self.sched = None
        self._op = {}            # tid -> [op id, calls, fired exception]
        self.simtime = 0.0
        self.nontrivial = False
        self.ops_done = 0
        self.interleaving = None

    # -- logging -----------------------------------------------------------
    def ev(self, *what):
        self.log.append(what)

    def digest(self):
        h = hashlib.sha1()
        for e in self.log:
            h.update(repr(e).encode('utf8', 'backslashreplace'))
        return h.hexdigest()

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(
            repr(key).encode('utf8', 'backslashreplace'),
            digest_size=8).digest(), 'big'))

    # -- operations and faults --------------------------------------------
    def tid(self):
        return self.sched.current_tid() if self.sched is not None else 0

    def begin(self, op):
        self._op[self.tid()] = [op, 0, None]

    def end(self):
        """Finish the operation; returns the fault that fired in it, if any."""
        op = self._op.pop(self.tid(), None)
        self.ops_done += 1
        return op and op[2]

    def fired(self):
        op = self._op.get(self.tid())
        return op and op[2]

    def gate(self, site, detail='', read=False):
        """Seam call: may raise the planned fault *before* having any effect.
        """
        if self.quiet:
            return
        self.steps += 1
        self.simtime += 0.001
        if self.steps > self.budget:
            raise Hang('more than %d seam calls' % self.budget)
        if self.sched is not None:
            self.sched.point()
            tid = self.sched.current_tid()
        else:
            tid = 0
        op = self._op.get(tid)
        if op is None:
            return
        call = op[1]
        op[1] += 1
        self.log.append((tid, op[0], call, site, str(detail)))
        kind = self.plan.get((op[0], call))
        if kind is None or op[2] is not None:
            return
        if read and (kind == 'key' or kind == 'attribute' and str(
                detail).startswith('_')):
            # taken for "there is no such key" or, by code that looks for
            # special attributes, for "there is no such attribute"
            kind = 'io'
        if kind == 'type' and inside('__len__') or \
                kind == 'index' and inside('popitem'):
            # Python drops TypeErrors when it asks for the length of what is
            # made a list, which is up to the implementation. popitem may
            # take an IndexError for having no more items
            kind = 'value'
        exc = FAULT_KINDS[kind]('%s %s' % (site, detail))
        op[2] = exc
        exc.sim_kind = kind
        exc.sim_site = site
        name = '%s@%s' % (kind, site)
        self.faults_fired[name] = self.faults_fired.get(name, 0) + 1
        self.log.append((tid, 'FAULT', name))
        raise exc


def inside(name):
    frame = sys._getframe(2)
    while frame is not None:
        if frame.f_code.co_name == name:
            return True
        frame = frame.f_back
    return False


class Quiet(object):
    """Oracle phase: seams neither fail nor count nor log."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.ctx.quiet += 1

    def __exit__(self, *exc):
        self.ctx.quiet -= 1


def run_seed(*parts):
    h = hashlib.blake2b(repr(parts).encode('utf8'), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def make_rng(*parts):
    return random.Random(run_seed(*parts))


def gen_faults(rng, ids, rate=None, kinds=WRITE_FAULTS, maxcall=None):
    """Plan faults inside some of the operations."""
    if rate is None:
        rate = rng.choice([0, 0.08, 0.15, 0.3, 0.5])
    if maxcall is None:
        maxcall = rng.choice([2, 3, 5, 8, 14])
    res = []
    for i in ids:
        if rng.random() < rate:
            if rng.random() < 0.4:
                call = rng.randrange(0, 2)
            else:
                call = rng.randrange(0, maxcall)
            res.append({'op': i, 'call': call, 'kind': rng.choice(kinds)})
    return res


def gen_sched(rng):
    mode = rng.choice(['random', 'random', 'random', 'pct', 'after', 'after'])
    if mode == 'after':
        return {'mode': 'after', 'seed': rng.getrandbits(40),
                'at': rng.choice(['store', 'store', 'call']),
                'chance': rng.choice([0.02, 0.1, 0.3, 0.7]),
                'run': rng.choice([1, 100, 1000, 4000]),
                'gap': rng.choice([100, 1000, 10000])}
    if mode == 'random':
        return {'mode': 'random', 'seed': rng.getrandbits(40),
                'gap': rng.choice([3, 8, 20, 60, 200, 600])}
    return {'mode': 'pct', 'seed': rng.getrandbits(40),
            'est': rng.choice([300, 1000, 3000, 8000]),
            'depth': rng.choice([1, 2, 3, 6])}


def match_exc(exc):
    """Stable name of an exception for comparison and logs."""
    if exc is None:
        return None
    return type(exc).__name__
