"""Brings up the code under test inside the simulator.

Everything the code under test takes from its environment is replaced before
it is imported: lock primitives, sleeping, and the random source of uuid4.
"""
import os
import sys
import uuid

SRC = os.environ.get('SIM_SRC', '/repo/src')


class _State(object):
    rng = None
    ctx = None


def _sim_uuid4():
    if _State.ctx is not None:
        _State.ctx.gate('uuid4')
    if _State.rng is None:
        return _real_uuid4()
    return uuid.UUID(int=_State.rng.getrandbits(128), version=4)


_real_uuid4 = uuid.uuid4
_up = False


def up():
    """Import the code under test into the simulator (once per process)."""
    global _up
    if _up:
        return
    _up = True
    # third party, before primitives are replaced
    import odict                                            # noqa
    import plumber                                          # noqa
    import zope.component                                   # noqa
    import zope.component.event                             # noqa
    import zope.deprecation                                 # noqa
    import zope.interface.common.mapping                    # noqa
    import zope.lifecycleevent                              # noqa
    import copy, json, pickle, logging, inspect, contextlib  # noqa
    from sim import sched
    sched.install()
    uuid.uuid4 = _sim_uuid4
    # the working tree of the repository, nothing installed elsewhere
    sys.path[:] = [SRC] + [p for p in sys.path if p != SRC]
    for name in [m for m in sys.modules
                 if m == 'node' or m.startswith('node.')]:
        del sys.modules[name]
    import node
    node.__path__ = [os.path.join(SRC, 'node')]
    sched.REPO_SRC = os.path.join(SRC, 'node') + os.sep
    import node.base
    import node.behaviors
    import node.events
    import node.locking
    import node.serializer
    import node.utils
    for m in (node.base, node.behaviors, node.locking):
        if not m.__file__.startswith(sched.REPO_SRC):
            from sim.core import HarnessError
            raise HarnessError('imported %s' % m.__file__)


def reset(ctx):
    """Fresh environment for a run."""
    from sim.core import make_rng
    _State.ctx = ctx
    _State.rng = make_rng('uuid', ctx.case.get('useed', 0)) \
        if ctx is not None else None
