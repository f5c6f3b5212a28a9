"""Static facts about the classes of the zoo, for the model."""
from sim.zoo import ZOO

FACTS = {name: {
    'ordered': c.ordered, 'order': c.order, 'reference': c.reference,
    'attributes': c.attributes, 'spaces': c.spaces, 'strict': c.strict,
    'uuidaware': c.uuidaware, 'recursive_uuid': c.recursive_uuid,
    'access': c.access} for name, c in ZOO.items()}
