"""C13 Attributes and other nodespaces stay separate from children."""
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C13'
RUNS = {'quick': 40000, 'thorough': 1000000}
PROBES = ['refused']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'the nodespace __children__ itself is neither replaced nor deleted',
]

WEIGHTS = {'new': 2, 'set': 4, 'del': 2, 'pop': 1, 'popitem': 1, 'detach': 1,
           'clear': 1, 'setdefault': 1, 'update': 1, 'ins': 0.5, 'read': 2,
           'attr': 14, 'space': 6, 'lock': 0.2}
PROFILES = [
    ['node'], ['attributed'], ['spacedict'], ['spaceodict'], ['spaceaccess'],
    ['uuidattrs'], ['stack'], ['spacedict', 'base'],
    ['spaceaccess', 'spaceodict'], ['node', 'attributed'],
    ['oddnode'], ['falsynode'], ['oddnode', 'spacedict'],
]
AREAS = ['children', 'attrs', 'ptr']

SCENARIOS = [
    TreeScenario(ID, 'nodespaces', 1, AREAS, WEIGHTS, PROFILES),
]
