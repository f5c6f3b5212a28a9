"""Deterministic scheduler for real threads.

Exactly one task runs at any time; which one is decided here, at every traced
bytecode of the code under test (every line of odict), at every seam call and
at every operation on a lock.  The tasks are real threads (thread locals
behave as in production) but they only ever run when they hold the baton.

Lock primitives created by the code under test are the simulated ones below
(``install()`` replaces them in ``threading`` before ``node`` is imported).
"""
import _thread
import dis
import random
import sys
import threading
import time as _time
from sim.core import FAULT_KINDS
from sim.core import Hang
from sim.core import HarnessError
from sim.core import EndRun
from sim.core import Violation

_start_new_thread = _thread.start_new_thread
_real_lock = _thread.allocate_lock
_real_sleep = _time.sleep
get_ident = _thread.get_ident

ACTIVE = None   # the scheduler of the running simulation, if any


class Abort(BaseException):
    """Unwinds tasks of a run that is over (deadlock, violation)."""


class Sched(object):

    def __init__(self, ctx, spec, max_steps=1500000):
        self.ctx = ctx
        self.spec = spec
        self.max_steps = max_steps
        self.tasks = []          # [name, fn, lock, state, exc, waiting_on]
        self.by_ident = {}
        self.cur = None
        self.step = 0
        self.switches = []       # recorded decisions [step, tid]
        self.deadlock = None
        self.livelock = False
        self.aborting = False
        self.failure = None
        self.main = _real_lock()
        self.main.acquire()
        self.contended = 0
        self.preempted = 0
        self.interrupts = {}     # task -> kind, for the next wait
        mode = self.mode = spec['mode']
        self.points = []
        self.after = None
        if mode == 'explicit':
            self.plan = dict((s, t) for s, t in spec['switches'])
            self.points = sorted(self.plan)
        elif mode == 'random':
            self.rng = random.Random(spec['seed'])
            self.gap = spec['gap']
        elif mode == 'after':
            # preempt where something has just been stored (or called)
            self.rng = random.Random(spec['seed'])
            self.gap = spec['gap']
            self.after = spec['at']
            self.chance = spec['chance']
            self.run_on = spec['run']
            self.cold_until = 0
        elif mode == 'pct':
            self.rng = random.Random(spec['seed'])
            self.points = sorted(self.rng.randrange(1, spec['est'])
                                 for _ in range(spec['depth']))
        else:
            raise HarnessError(mode)
        self.next_at = 0
        self._schedule_next()

    def _schedule_next(self):
        """Step of the next preemption decision."""
        if self.mode in ('random', 'after'):
            self.next_at = self.step + 1 + int(
                self.rng.expovariate(1.0 / self.gap))
        else:
            while self.points and self.points[0] <= self.step:
                self.points.pop(0)
            self.next_at = self.points[0] if self.points else 1 << 60
        half = self.max_steps // 2
        if self.next_at > half:
            # fairness in the second half of the budget
            self.next_at = min(self.next_at, max(half, self.step + 50))
        if self.next_at > self.max_steps:
            self.next_at = self.max_steps + 1

    def decide(self):
        """Preemption decision at a point where the current task could go on.
        Returns the tid to run."""
        cur = self.cur
        if self.step > self.max_steps:
            self.livelock = True
            self._abort()
            raise Abort()
        if self.mode == 'explicit' and self.step in self.plan:
            tid = self.plan[self.step]
            self._schedule_next()
            return tid if self._ready(tid) or self._expire(tid) else cur
        fair = self.step > self.max_steps // 2
        self._schedule_next()
        if self.mode == 'explicit' and not fair:
            return cur
        ready = [t for t in range(len(self.tasks))
                 if t != cur and self._ready(t)]
        if not fair:
            late = self._late()
            if late is not None:
                return late
        if not ready:
            return cur
        if fair:
            return ([t for t in ready if t > cur] or ready)[0]
        return self.rng.choice(ready)

    def decide_forced(self):
        """The current task cannot go on (blocked or done)."""
        ready = [t for t in range(len(self.tasks)) if self._ready(t)]
        if not ready:
            # virtual time jumps: a waiter with a timeout gives up
            for t, task in enumerate(self.tasks):
                if task[3] == 'blocked' and task[5][1]:
                    task[5] = (task[5][0], 'expired')
                    self.ctx.simtime += 1.0
                    return t
            return None
        if self.mode == 'explicit':
            tid = self.plan.get(self.step)
            if tid in ready or tid is not None and self._expire(tid):
                return tid
            return ready[0]
        late = self._late()
        return self.rng.choice(ready) if late is None else late

    def _expire(self, tid):
        """A waiter with a timeout gives up, the others were slow."""
        if tid >= len(self.tasks):
            return False
        task = self.tasks[tid]
        if task[3] != 'blocked' or task[5][1] is not True:
            return False
        task[5] = (task[5][0], 'expired')
        self.ctx.simtime += 1.0
        return True

    def _late(self):
        timed = [t for t, task in enumerate(self.tasks)
                 if task[3] == 'blocked' and task[5][1] is True
                 and not self._ready(t)]
        if timed and self.rng.random() < 0.3:
            tid = self.rng.choice(timed)
            self._expire(tid)
            return tid
        return None

    def _ready(self, tid):
        if tid is None or tid >= len(self.tasks):
            return False
        task = self.tasks[tid]
        if task[3] == 'ready':
            return True
        if task[3] == 'blocked':
            return task[5][0]()
        return False

    # -- task side ---------------------------------------------------------
    def current_tid(self):
        return self.by_ident.get(get_ident(), -1)

    def spawn(self, name, fn):
        lock = _real_lock()
        lock.acquire()
        self.tasks.append([name, fn, lock, 'ready', None, None])

    def point(self):
        """A possible preemption of the current task."""
        if self.ctx.quiet:
            return
        self.step += 1
        if self.step < self.next_at or self.aborting:
            return
        tid = self.by_ident.get(get_ident())
        if tid is None or tid != self.cur:
            return
        nxt = self.decide()
        if nxt != tid:
            self.preempted += 1
            self.switches.append([self.step, nxt])
            self._switch(tid, nxt)

    def hot_point(self):
        """A preemption that is more likely than others."""
        if self.step >= self.cold_until and self.rng.random() < self.chance:
            # the other one goes on for a while
            self.next_at = min(self.next_at, self.step + 1)
            self.cold_until = self.step + int(
                self.rng.expovariate(1.0 / self.run_on))
        self.point()

    def _switch(self, tid, nxt):
        self.cur = nxt
        task = self.tasks[tid]
        self.tasks[nxt][2].release()
        task[2].acquire()
        if self.aborting:
            raise Abort()

    def block(self, ready, timeout=False):
        """Block the current task until ``ready()``; returns False if a
        timeout expired."""
        tid = self.current_tid()
        task = self.tasks[tid]
        self.step += 1
        self.contended += 1
        task[3] = 'blocked'
        task[5] = (ready, timeout)
        nxt = self.decide_forced()
        if nxt is None:
            self.deadlock = self.describe()
            self._abort()
            raise Abort()
        self.switches.append([self.step, nxt])
        if nxt != tid:
            self._switch(tid, nxt)
        expired = task[5][1] == 'expired'
        task[3] = 'ready'
        task[5] = None
        return not expired

    def interrupted(self):
        """A signal reaches the task while it waits."""
        kind = self.interrupts.pop(self.current_tid(), None)
        if kind is None:
            return
        exc = FAULT_KINDS[kind]('waiting')
        exc.sim_kind = kind
        exc.sim_site = 'lock.wait'
        name = '%s@lock.wait' % kind
        fired = self.ctx.faults_fired
        fired[name] = fired.get(name, 0) + 1
        raise exc

    def describe(self):
        return ', '.join('%s %s' % (t[0], t[3]) for t in self.tasks)

    def stop(self, exc):
        """The run ends here with ``exc``, no other task goes on."""
        if self.failure is None and not self.aborting:
            self.failure = exc
        self._abort()

    def _abort(self):
        self.aborting = True

    def _body(self, tid):
        task = self.tasks[tid]
        self.by_ident[get_ident()] = tid
        task[2].acquire()
        try:
            if not self.aborting:
                task[1]()
        except Abort:
            pass
        except BaseException as e:
            task[4] = e
            if self.failure is None and not self.aborting:
                self.failure = e
            self._abort()
        task[3] = 'done'
        self.step += 1
        if not self.aborting:
            nxt = self.decide_forced()
            if nxt is not None:
                self.switches.append([self.step, nxt])
                self.cur = nxt
                self.tasks[nxt][2].release()
                return
            if all(t[3] == 'done' for t in self.tasks):
                self.main.release()
                return
            self.deadlock = self.describe()
            self._abort()
        # let everybody unwind, one after the other
        for i, t in enumerate(self.tasks):
            if t[3] != 'done':
                self.cur = i
                t[2].release()
                return
        self.main.release()

    def run(self):
        """Run all tasks to their end.  Raises what a task raised (tasks
        handle the exceptions of the code under test themselves)."""
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested simulation')
        instrument()
        ACTIVE = self
        self.ctx.sched = self
        try:
            for i in range(len(self.tasks)):
                _start_new_thread(self._body, (i,))
            if self.mode == 'explicit':
                first = self.plan.get(0, 0)
                if first >= len(self.tasks):
                    first = 0
            else:
                first = self.rng.randrange(len(self.tasks))
            self.switches.append([0, first])
            self.cur = first
            # wait until all threads know themselves
            while len(self.by_ident) < len(self.tasks):
                _real_sleep(0)
            self.tasks[first][2].release()
            self.main.acquire()
        finally:
            ACTIVE = None
            self.ctx.sched = None
        ctx = self.ctx
        ctx.interleaving = hash(tuple(map(tuple, self.switches)))
        ctx.ev('sched', self.step, tuple(map(tuple, self.switches)))
        ctx.simtime += self.step * 1e-6
        if self.preempted:
            ctx.probe('preemptions', self.preempted)
        if self.contended:
            ctx.probe('lock_contended', self.contended)
        if self.failure is not None:
            raise self.failure
        if self.livelock:
            raise Hang('tasks make no progress: ' + self.describe())


# ---------------------------------------------------------------------------
# preemption points inside the code under test
# ---------------------------------------------------------------------------
# sys.monitoring events, switched on once per code object and never off again:
# toggling them (as sys.settrace does per thread) crashes CPython 3.12 when
# other threads are suspended inside an instrumented function.

TOOL = 4
_codes = set()
_hot = {}       # id of code -> offsets after stores / after stores and calls
STORES = ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF',
          'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE')


def _offsets(code):
    stores, calls = set(), set()
    last = None
    for ins in dis.get_instructions(code):
        if last in STORES:
            stores.add(ins.offset)
            calls.add(ins.offset)
        elif last is not None and last.startswith('CALL'):
            calls.add(ins.offset)
        last = ins.opname
    return {'store': frozenset(stores), 'call': frozenset(calls)}


def _on_instruction(code, offset):
    s = ACTIVE
    if s is None or s.ctx.quiet:
        return
    if s.after is not None and offset in _hot[id(code)][s.after]:
        s.hot_point()
        return
    s.step += 1
    if s.step >= s.next_at:
        s.step -= 1
        s.point()


def _on_line(code, line):
    s = ACTIVE
    if s is not None:
        s.point()


def _code_objects(code):
    yield code
    for const in code.co_consts:
        if hasattr(const, 'co_code'):
            for c in _code_objects(const):
                yield c


def _instrument(code, events):
    for c in _code_objects(code):
        if c not in _codes:
            _codes.add(c)
            _hot[id(c)] = _offsets(c)
            sys.monitoring.set_local_events(TOOL, c, events)


def instrument():
    """Make every function of src/node (bytecodes) and odict (lines) a
    sequence of preemption points.  Idempotent."""
    if _codes:
        return
    import gc
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for ob in gc.get_objects():
        if type(ob).__name__ == 'function':
            code = ob.__code__
            if code.co_filename.startswith(REPO_SRC):
                _instrument(code, mon.events.INSTRUCTION)
            elif '/odict/' in code.co_filename:
                _instrument(code, mon.events.LINE)


REPO_SRC = '/repo/src/node/'


# ---------------------------------------------------------------------------
# lock primitives
# ---------------------------------------------------------------------------

class SimLock(object):
    """threading.Lock of the simulation."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        s = ACTIVE
        insim = s is not None and me in s.by_ident and not s.aborting
        if insim:
            s.point()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if not insim:
                if s is not None and s.aborting:
                    raise Abort()
                raise Violation(
                    'deadlock', 'acquire of a lock nobody can release')
            ok = s.block(self._free(me),
                         timeout is not None and timeout >= 0)
            if not ok:
                return False
            s.interrupted()

    def _free(self, me):
        def free():
            return self.owner is None or (
                self.reentrant and self.owner == me)
        return free

    def release(self):
        if self.owner is None or (self.reentrant
                                  and self.owner != get_ident()):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s = ACTIVE
        if s is not None and not s.aborting and get_ident() in s.by_ident:
            s.point()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.owner is not None

    # copying a lock fails as it does for the real ones
    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.%s' object"
                        % ('RLock' if self.reentrant else 'lock'))

    # Condition protocol
    def _is_owned(self):
        return self.owner == get_ident() or (
            not self.reentrant and self.owner is not None)

    def _release_save(self):
        c = self.count
        self.count = 0
        self.owner = None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c

    _at_fork_reinit = __init__


class SimRLock(SimLock):
    reentrant = True


def sim_sleep(secs):
    s = ACTIVE
    if s is not None and get_ident() in s.by_ident:
        s.ctx.simtime += secs
        s.point()
        return
    _real_sleep(secs)


def install():
    """Replace the primitives; must run before ``node`` is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _time.sleep = sim_sleep
