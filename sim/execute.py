"""Runs one case (or a sequence of cases) and classifies the outcome."""
import traceback
from sim import env
from sim import sched
from sim.core import Ctx
from sim.core import EndRun
from sim.core import Hang
from sim.core import HarnessError
from sim.core import Violation
from sim.sched import _real_lock as _alloc
from sim.sched import _start_new_thread as _start

WALL = 20.0     # seconds; a run takes milliseconds


class Outcome(object):

    def __init__(self, status, kind=None, msg=None, ctx=None, trace=None):
        self.status = status      # ok | end | violation | error
        self.kind = kind
        self.msg = msg
        self.ctx = ctx
        self.trace = trace
        self.stuck = False


def _run(scenario, case, ctx):
    try:
        env.reset(ctx)
        scenario.execute(case, ctx)
        return Outcome('ok', ctx=ctx)
    except EndRun as e:
        ctx.probe('run_ended_early')
        return Outcome('end', 'end', str(e), ctx)
    except Violation as e:
        return Outcome('violation', e.kind, e.msg, ctx)
    except Hang as e:
        return Outcome('violation', 'hang', str(e), ctx)
    except HarnessError as e:
        return Outcome('error', 'harness', str(e), ctx,
                       traceback.format_exc())
    except BaseException as e:
        trace = traceback.format_exc()
        if through_code_under_test(e):
            # nothing in a scenario lets an error of the code under test pass
            # unless the code is not expected to fail there
            ctx.ev('ESCAPED', type(e).__name__)
            return Outcome('violation', 'unexpected-error', '%s: %s\n%s' % (
                type(e).__name__, e, trace[-1500:]), ctx, trace)
        return Outcome('error', type(e).__name__, str(e), ctx, trace)
    finally:
        env.reset(None)


def through_code_under_test(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(sched.REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def execute(scenario, case, wall=WALL):
    """One case, in a thread of its own (fresh thread local state)."""
    ctx = Ctx(case, budget=getattr(scenario, 'budget', 40000))
    done = _alloc()
    done.acquire()
    box = []

    def body():
        try:
            box.append(_run(scenario, case, ctx))
        finally:
            done.release()

    _start(body, ())
    if not done.acquire(True, wall):
        out = Outcome('violation', 'hang',
                      'run does not end (untraced endless loop)', ctx)
        out.stuck = True
        return out
    out = box[0]
    if out.status == 'violation':
        ctx.ev('VIOLATION', out.kind, out.msg)
    return out
