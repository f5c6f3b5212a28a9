"""Scenario running an operation history against the reference model."""
from sim.gen import tree_case
from sim.world import World


class TreeScenario(object):

    def __init__(self, prop, name, weight, areas, weights, profiles,
                 finish=None, **kw):
        self.prop = prop
        self.name = name
        self.weight = weight
        self.areas = frozenset(areas)
        self.weights = weights
        self.profiles = profiles
        self.kw = kw
        self.finish = finish

    def generate(self, rng, tier):
        kw = dict(self.kw)
        for k, v in list(kw.items()):
            if callable(v):
                kw[k] = v(rng)
        if tier == 'thorough' and 'nops' not in kw:
            kw['nops'] = (8, 14, 22, 40)
        return tree_case(rng, self.weights, self.profiles, **kw)

    def execute(self, case, ctx):
        w = World(ctx, case, self.prop, self.areas)
        for op in case['ops']:
            w.run(op)
        w.look()
        if w.mutations > 2:
            ctx.nontrivial = True
        if self.finish:
            self.finish(w)


REAL = ['node.base', 'node.behaviors.*', 'node.utils', 'node.locking',
        'plumber', 'odict', 'zope.interface', 'copy', 'pickle']
STUB = ['storage: the shipped storage behind a proxy that fails on demand '
        '(about 1 in 8 runs use the shipped classes without it)',
        'uuid.uuid4 (seeded)', 'lock primitives of threading (simulated)']
RULE = (
    'A case is a history of 8-40 operations on a population of up to 10 '
    'nodes of seeded classes, generated along the model so that most '
    'operations are meaningful, with faults planned at (operation, n-th '
    'storage/factory call). After every operation the complete observable '
    'state is compared with the reference model. Non-trivial: a fault fired '
    'or at least three operations changed the state; distinct: different '
    'event log.')
STATE = 'hash of (class, keys, parent, name) of all nodes after an operation'
