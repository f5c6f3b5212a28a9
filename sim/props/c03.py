"""C03 Event dispatch reaches every subscriber exactly once, in order."""
from sim.evt import EventScenario
from sim.evt import REAL
from sim.evt import RULE
from sim.evt import STATE as STATE_MEASURE
from sim.evt import STUB

ID = 'C03'
RUNS = {'quick': 60000, 'thorough': 1000000}
PROBES = ['dispatches', 'nested_dispatch', 'failed', 'preemptions']
ASSUMPTIONS = [
    'an object is bound, unbound and its attributes compared by one thread; '
    'several threads dispatch on shared objects',
    'decorator subscribers are not expected on deletion of an attribute',
]
WEIGHTS = {'dispatch': 6, 'bind': 4, 'unbind': 3, 'register': 1, 'set': 7,
           'get': 1, 'del': 1.5, 'raise': 0.6}

SCENARIOS = [
    EventScenario('single', 1, WEIGHTS, [1]),
    EventScenario('threads', 1, WEIGHTS, [2, 2, 3]),
]
