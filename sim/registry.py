"""Property modules and the seed -> case function."""
import importlib
from sim.core import make_rng


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def scenario_by_name(mod, name):
    for s in mod.SCENARIOS:
        if s.name == name:
            return s
    raise KeyError(name)


def pick(mod, seed, tier, idx):
    """Case number idx of a campaign: a pure function of its arguments."""
    rng = make_rng('case', str(seed), mod.ID, idx)
    total = sum(s.weight for s in mod.SCENARIOS)
    x = rng.random() * total
    for s in mod.SCENARIOS:
        x -= s.weight
        if x <= 0:
            break
    case = s.generate(rng, tier)
    case['scenario'] = s.name
    case['useed'] = rng.getrandbits(32)
    return s, case
