"""C04 Event suppression is scoped to its block and its thread."""
from sim.evt import EventScenario
from sim.evt import REAL
from sim.evt import RULE
from sim.evt import STATE as STATE_MEASURE
from sim.evt import STUB

ID = 'C04'
RUNS = {'quick': 40000, 'thorough': 1000000}
PROBES = ['dispatches', 'nested_blocks', 'same_block_nested', 'failed', 'preemptions']
ASSUMPTIONS = [
    'blocks are left in reverse order of entering them',
]
WEIGHTS = {'dispatch': 7, 'bind': 1, 'unbind': 0.5, 'set': 4, 'del': 0.3,
           'get': 0.3, 'sup': 8, 'raise': 1.2}

SCENARIOS = [
    EventScenario('single', 1, WEIGHTS, [1]),
    EventScenario('threads', 1.3, WEIGHTS, [2, 2, 3, 4]),
]
