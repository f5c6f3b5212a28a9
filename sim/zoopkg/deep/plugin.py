"""Node classes of an application which are not imported by its package."""
from node.base import OrderedNode


class PluginNode(OrderedNode):
    pass


class Thing(object):
    """Referenced by attributes."""

    class Inner(object):
        pass


def function():
    """Referenced by attributes."""
