"""C06 Containment and hierarchy agree, also after failed mutations."""
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C06'
RUNS = {'quick': 40000, 'thorough': 1000000}
PROBES = ['refused']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'a node is put below one container at a time or, in some runs of non '
    'referencing classes, below several; no cycles',
    'name and parent of a node after its removal are unspecified, but fixed',
]

WEIGHTS = {'new': 2, 'set': 12, 'del': 4, 'pop': 2, 'popitem': 1, 'detach': 3,
           'clear': 1, 'setdefault': 3, 'update': 4, 'ins': 3, 'swap': 1,
           'attr': 2, 'space': 1, 'uuid': 1, 'lock': 0.3}
PROFILES = [
    ['base'], ['ordered'], ['node'], ['attributed'], ['base', 'ordered'],
    ['adoptdict'], ['adoptodict'], ['loosebase', 'looseordered'],
    ['refdict'], ['refodict'], ['refloose'], ['orderonly'], ['uuidodict'],
    ['uuidloose'],
    ['spacedict'], ['spaceodict'], ['spaceaccess'], ['stack'], ['stackdict'],
    ['custom'], ['custom', 'ordered', 'loosebase'],
    ['node', 'refodict', 'refdict'], ['base', 'node', 'adoptodict'],
    ['lifeodict'], ['lifeodict', 'base'], ['oddbase', 'oddordered'], ['oddnode', 'oddbase'], ['falsynode'],
]
AREAS = ['children', 'ptr', 'attrs']

SCENARIOS = [
    TreeScenario(ID, 'containment', 1, AREAS, WEIGHTS, PROFILES,
                 multi=lambda rng: rng.random() < 0.3),
]
