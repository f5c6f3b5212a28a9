"""C09 Order operations produce exactly the requested order."""
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C09'
RUNS = {'quick': 40000, 'thorough': 800000}
PROBES = ['refused']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'reference children are in the container under their own name',
]

WEIGHTS = {'new': 3, 'set': 5, 'del': 2, 'pop': 1, 'detach': 2, 'update': 1,
           'ins': 14, 'swap': 6, 'uuid': 1, 'attr': 0.3, 'clear': 0.2}
PROFILES = [
    ['node'], ['attributed'], ['orderonly'], ['refodict'], ['spaceaccess'],
    ['node', 'refodict'], ['orderonly', 'base', 'ordered'],
    ['spaceaccess', 'adoptodict'],
    ['oddnode'], ['falsynode'], ['falsynode', 'node'], ['oddnode', 'oddordered', 'node'],
]
AREAS = ['children', 'ptr', 'index']

SCENARIOS = [
    TreeScenario(ID, 'order', 1, AREAS, WEIGHTS, PROFILES,
                 keys=['a', 'b', 'c', 'd', 'e', '', '\xe4\u4e16']),
]
