"""C07 A node behaves as a mapping, also when its storage fails."""
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C07'
RUNS = {'quick': 50000, 'thorough': 1000000}
PROBES = ['refused']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'iteration order of nodes that are not ordered is unspecified',
]

WEIGHTS = {'new': 2, 'set': 8, 'del': 3, 'pop': 3, 'popitem': 2, 'detach': 2,
           'clear': 1, 'setdefault': 3, 'update': 4, 'read': 9, 'attr': 1,
           'ins': 1}
PROFILES = [
    ['base'], ['ordered'], ['node'], ['attributed'], ['base', 'ordered'],
    ['adoptdict'], ['adoptodict'], ['loosebase', 'looseordered'],
    ['refdict'], ['refodict'], ['refloose'], ['orderonly'], ['uuidodict'],
    ['uuidloose'],
    ['spacedict'], ['spaceodict'], ['stack'], ['stackdict'], ['custom'],
    ['custom', 'ordered', 'loosebase'], ['node', 'refodict', 'refdict'],
    ['lifeodict'], ['lifeodict', 'base'], ['mapdict'], ['mapodict'], ['oddbase', 'oddordered'], ['oddnode', 'oddbase'], ['falsynode'],
]

SCENARIOS = [
    TreeScenario(ID, 'mapping', 4, ['children'], WEIGHTS, PROFILES,
                 multi=lambda rng: rng.random() < 0.3),
    TreeScenario(ID, 'mapping-faultfree', 1, ['children'], WEIGHTS, PROFILES,
                 faults=False, raw=0.7,
                 multi=lambda rng: rng.random() < 0.3),
]
