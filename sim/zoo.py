"""Node classes for the simulated trees: shipped ones and combinations."""
from node import base
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import UnicodeAware
from node.behaviors import UUIDAware
from node.behaviors import VolatileStorageInvalidate
from node.interfaces import IAttributes
from node.interfaces import INodespaces
from node.interfaces import IOrdered
from node.interfaces import IOrder
from node.interfaces import IReference
from node.interfaces import IUUIDAware
from plumber import plumbing
from sim.seam import gate
from sim.seam import simclass
from zope.interface import Interface
from zope.interface import implementer


class IOne(Interface):
    """Marker."""


class ITwo(Interface):
    """Marker."""


class SimAttributesMixin(object):
    pass


def _attrs_class():
    cls = simclass(NodeAttributes, 'SimAttributes', __name__, 'attrs')

    class SimAttributes(cls):

        def __init__(self, name=None, parent=None):
            gate('attrs.factory', '')
            super(SimAttributes, self).__init__(name=name, parent=parent)

    SimAttributes.__qualname__ = 'SimAttributes'
    SimAttributes.__module__ = __name__
    return SimAttributes


SimAttributes = _attrs_class()


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class AdoptDict(object):
    """Minimal adopting node, any values."""


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class AdoptOdict(object):
    pass


@plumbing(DefaultInit, Nodify, DictStorage)
class MapDict(object):
    """Children are not adopted, methods of the mapping itself are used."""


@plumbing(DefaultInit, Nodify, OdictStorage)
class MapOdict(object):
    pass


@plumbing(NodeChildValidate, Lifecycle, Adopt, DefaultInit, Nodify,
          OdictStorage)
class LifeOdict(object):
    """Nobody listens."""


class LooseBase(base.BaseNode):
    allow_non_node_childs = True


class LooseOrdered(base.OrderedNode):
    allow_non_node_childs = True


@plumbing(NodeChildValidate, Adopt, Reference, DefaultInit, Nodify,
          DictStorage)
class RefDict(object):
    pass


@plumbing(NodeChildValidate, Adopt, Reference, Order, DefaultInit, Nodify,
          OdictStorage)
class RefOdict(object):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class RefLoose(object):
    """Referencing node with any values."""


@plumbing(NodeChildValidate, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class OrderOnly(object):
    pass


@plumbing(NodeChildValidate, Adopt, UUIDAware, DefaultInit, Nodify,
          OdictStorage)
class UUIDOdict(object):
    pass


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class UUIDLoose(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, UUIDAware,
          AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class UUIDAttrs(object):
    pass


@plumbing(NodeChildValidate, Adopt, UUIDAware, DefaultInit, Nodify,
          DictStorage)
class UUIDSelf(object):
    """Only the copied node itself gets a new uuid."""
    overwrite_recursiv_on_copy = False


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class SpaceDict(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, AsAttrAccess,
          DefaultInit, Nodify, OdictStorage)
class SpaceOdict(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Order,
          DefaultInit, Nodify, OdictStorage)
class SpaceAccess(object):
    attribute_access_for_attrs = True


@plumbing(Nodespaces, Alias, Fallback, Cache, VolatileStorageInvalidate,
          UnicodeAware, Adopt, Attributes, GetattrChildren, DefaultInit,
          Nodify, OdictStorage)
class Stack(object):
    """Many behaviors that all should be transparent here."""


@plumbing(UnicodeAware, NodeChildValidate, Adopt, GetattrChildren,
          DefaultInit, Nodify, DictStorage)
class StackDict(object):
    pass


class CustomBase(base.AbstractNode):
    """A node on top of the abstract one with a storage of its own."""

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self.rows = {}

    def __getitem__(self, key):
        return self.rows[key]

    def __setitem__(self, key, value):
        self.rows[key] = value

    def __delitem__(self, key):
        del self.rows[key]

    def __iter__(self):
        return iter(self.rows)


class CustomNode(CustomBase):
    """``AbstractNode`` derived: methods of this class are the storage, they
    are not plumbed, so it is plumbed again."""


@plumbing(Adopt)
class CustomAdopt(CustomBase):
    pass


class SimCustom(CustomBase):

    def __getitem__(self, key):
        gate('st.get', key, True)
        return self.rows[key]

    def __setitem__(self, key, value):
        gate('st.set', key)
        self.rows[key] = value

    def __delitem__(self, key):
        gate('st.del', key)
        del self.rows[key]

    def __iter__(self):
        gate('st.iter', '', True)
        for key in self.rows:
            yield key


@plumbing(Adopt)
class SimCustomAdopt(SimCustom):
    pass


class OddBase(base.BaseNode):
    """All are equal, and False."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


class OddOrdered(base.OrderedNode):
    """Equal and not hashable."""
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, OddOrdered)

    def __ne__(self, other):
        return not self == other


class OddNode(base.Node):
    """No truth value, not even equal to itself."""

    def __bool__(self):
        raise ValueError('truth of a node')

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __hash__(self):
        return id(self) // 64


class FalsyNode(base.Node):
    """False, and all are equal."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return isinstance(other, FalsyNode)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class Cfg(object):

    def __init__(self, name, raw, sim=None):
        self.name = name
        self.raw = raw
        if sim is None:
            ns = {}
            if IAttributes.implementedBy(raw):
                ns['attributes_factory'] = SimAttributes
            sim = simclass(raw, 'Sim_' + name, __name__, **ns)
        self.sim = globals()[sim.__name__] = sim
        self.ordered = IOrdered.implementedBy(raw)
        self.order = IOrder.implementedBy(raw)
        self.reference = IReference.implementedBy(raw)
        self.attributes = IAttributes.implementedBy(raw)
        self.spaces = INodespaces.implementedBy(raw)
        self.uuidaware = IUUIDAware.implementedBy(raw)
        self.recursive_uuid = getattr(raw, 'overwrite_recursiv_on_copy', False)
        self.access = getattr(raw, 'attribute_access_for_attrs', False)
        self.strict = not getattr(raw, 'allow_non_node_childs', True)
        self.cached = issubclass(raw, Stack)
        self.adopts = raw is not CustomNode


ZOO = {}
for _name, _raw, _sim in [
        ('base', base.BaseNode, None),
        ('ordered', base.OrderedNode, None),
        ('node', base.Node, None),
        ('attributed', base.AttributedNode, None),
        ('adoptdict', AdoptDict, None),
        ('adoptodict', AdoptOdict, None),
        ('lifeodict', LifeOdict, None),
        ('mapdict', MapDict, None),
        ('mapodict', MapOdict, None),
        ('loosebase', LooseBase, None),
        ('looseordered', LooseOrdered, None),
        ('refdict', RefDict, None),
        ('refodict', RefOdict, None),
        ('refloose', RefLoose, None),
        ('orderonly', OrderOnly, None),
        ('uuidodict', UUIDOdict, None),
        ('uuidloose', UUIDLoose, None),
        ('uuidattrs', UUIDAttrs, None),
        ('uuidself', UUIDSelf, None),
        ('spacedict', SpaceDict, None),
        ('spaceodict', SpaceOdict, None),
        ('spaceaccess', SpaceAccess, None),
        ('stack', Stack, None),
        ('stackdict', StackDict, None),
        ('oddbase', OddBase, None),
        ('oddordered', OddOrdered, None),
        ('oddnode', OddNode, None),
        ('falsynode', FalsyNode, None),
        ('custom', CustomAdopt, SimCustomAdopt)]:
    ZOO[_name] = Cfg(_name, _raw, _sim)


@implementer(IOne)
class MarkedBase(base.BaseNode):
    pass


@implementer(ITwo)
class MarkedOrdered(base.OrderedNode):
    pass


@implementer(IOne, ITwo)
class MarkedNode(base.Node):
    pass


ZOO['mbase'] = Cfg('mbase', MarkedBase)
ZOO['mordered'] = Cfg('mordered', MarkedOrdered)
ZOO['mnode'] = Cfg('mnode', MarkedNode)
