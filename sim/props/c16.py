"""C16 Copies are complete and independent of the original."""
from sim.copies import KindScenario
from sim.treescn import REAL
from sim.treescn import RULE
from sim.treescn import STATE as STATE_MEASURE
from sim.treescn import STUB
from sim.treescn import TreeScenario

ID = 'C16'
RUNS = {'quick': 24000, 'thorough': 500000}
PROBES = ['refused', 'deep_copies', 'copy_failed', 'kind_copies']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'a shallow copy shares the storage with the original and is not changed '
    'afterwards',
]

WEIGHTS = {'new': 2, 'set': 7, 'del': 2, 'pop': 1, 'detach': 1, 'clear': 0.5,
           'update': 1, 'ins': 1, 'swap': 0.5, 'uuid': 1.5, 'attr': 6,
           'space': 1.5, 'copy': 6, 'lock': 1.5}
PROFILES = [
    ['base'], ['ordered'], ['node'], ['attributed'], ['adoptdict'],
    ['looseordered'], ['refdict'], ['refodict'], ['uuidodict'],
    ['uuidattrs'], ['uuidself'], ['uuidself', 'uuidodict'],
    ['uuidloose'], ['uuidloose', 'node'], ['uuidodict', 'base'], ['spacedict'],
    ['spaceodict'], ['spaceaccess'], ['stack'], ['custom'], ['stackdict'],
    ['node', 'refodict'], ['base', 'node'],
    ['oddnode'], ['falsynode'], ['oddbase', 'oddordered', 'base'],
]
AREAS = ['children', 'ptr', 'attrs', 'index']


def locks(w):
    """Tree locks of the original and of the copy are independent."""
    from sim.core import Violation
    from sim.sched import Sched
    from node.locking import TreeLock
    fams = {}
    for h, n in w.m.nodes.items():
        if h >= 1000 or n.fam == 0:
            top = w.real[h].root
            fams.setdefault(n.fam, top)
    tops = []
    for f in sorted(fams):
        if not any(fams[f] is t for t in tops):
            tops.append(fams[f])
    if len(tops) < 2:
        return
    a, b = tops[0], tops[-1]
    w.ctx.probe('locks_compared')
    held = []
    other = []
    sched = Sched(w.ctx, {'mode': 'random', 'seed': 1, 'gap': 50})

    def first():
        with TreeLock(a):
            held.append(1)
            sched.block(lambda: bool(other))

    def second():
        sched.block(lambda: bool(held))
        with TreeLock(b):
            other.append(1)

    sched.spawn('original', first)
    sched.spawn('copy', second)
    sched.run()
    if sched.deadlock:
        raise Violation('lock-shared', 'the tree lock of a copy is blocked '
                        'while the original is locked')


SCENARIOS = [
    TreeScenario(ID, 'copies', 1, AREAS, WEIGHTS, PROFILES, finish=locks,
                 fragile=True, reset=lambda rng: rng.random() < 0.5,
                 maxnodes=8),
    KindScenario(),
]
