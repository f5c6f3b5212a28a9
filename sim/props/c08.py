"""C08 The uuid index of a tree contains exactly the nodes of the tree."""
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C08'
RUNS = {'quick': 40000, 'thorough': 800000}
PROBES = ['refused']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'a node is in one container at a time',
]

WEIGHTS = {'new': 2, 'set': 12, 'del': 3, 'pop': 2, 'popitem': 1, 'detach': 4,
           'clear': 1, 'setdefault': 1, 'update': 3, 'ins': 3, 'swap': 1,
           'uuid': 6, 'attr': 0.5, 'space': 1, 'lock': 0.2}
PROFILES = [
    ['node'], ['attributed'], ['node', 'attributed'], ['refdict'],
    ['refodict'], ['refloose'], ['node', 'refodict', 'refdict'],
    ['refodict', 'refloose'], ['node', 'node', 'base'],
    ['refdict', 'refdict', 'adoptodict'],
    ['oddnode'], ['falsynode'], ['oddnode', 'oddbase', 'refodict'],
]
AREAS = ['children', 'index']

SCENARIOS = [
    TreeScenario(ID, 'index', 1, AREAS, WEIGHTS, PROFILES,
                 maxnodes=lambda rng: rng.choice([6, 9, 12])),
]
