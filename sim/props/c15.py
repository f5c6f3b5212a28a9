"""C15 A JSON dump taken at any time restores the tree."""
from node import base
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import NodeAttributes
from node.behaviors import UUIDAware
from node.interfaces import INode
from node.interfaces import IAttributes
from node.interfaces import IOrdered
from node.interfaces import IOrder
from node.interfaces import IReference
from node.locking import TreeLock
from node.serializer import NodeDecoder
from node.serializer import NodeEncoder
from node.serializer import deserialize
from node.serializer import deserializer
from node.serializer import serialize
from node.serializer import serializer
from node.utils import UNSET
from plumber import plumbing
from sim.core import Quiet
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.core import gen_sched
from sim.sched import Sched
from sim.seam import Proxy
from sim.seam import gate
from zope.interface import Interface
from zope.interface import implementer
import importlib
import importlib.util
import json
import sys
import uuid

ID = 'C15'
RUNS = {'quick': 25000, 'thorough': 600000}
RULE = (
    'A case is a history of 8-40 changes of a tree of shipped and custom '
    'node classes with dumps to a simulated disk of two generations, crashes '
    '(everything in memory and every module the application imports on '
    'demand is lost; a dump being written is torn or overlaps the longer one '
    'it overwrites) and reloads alone, below a root or as a list, with faults '
    'planned at (operation, n-th storage, constructor or callback call). A '
    'reload must equal the snapshot at dump time; the reloaded tree and the '
    'original then go on in lockstep. Non-trivial: a tree with children or '
    'attributes was restored, or a fault fired; distinct: different event '
    'log.')
STATE_MEASURE = 'hash of the shape (classes, number of children and ' \
    'attributes) of the dumped tree'
REAL = ['node.serializer', 'node.base', 'node.behaviors', 'json', 'plumber',
        'odict']
STUB = ['storages: the shipped ones behind a proxy that fails on demand',
        'constructors and serializer callbacks of custom classes fail on '
        'demand', 'disk: simulated, two generations, torn writes',
        'process restart: modules of the application are unloaded']
PROBES = ['dumped', 'restored', 'restored_children', 'restored_attrs',
          'torn_refused', 'overlap_refused', 'dump_failed', 'load_failed',
          'list', 'root', 'module_reloaded', 'lockstep', 'crash', 'fallback_'
          'generation', 'constructor_data', 'plain', 'threads']
ASSUMPTIONS = [
    'strings do not look like the encoding of UNSET and UUIDs',
    'children are nodes, classes are importable by name',
    'a storage or callback that fails has had no effect',
]


# -- an application ----------------------------------------------------------

def sim(cls, site='st', **ns):
    """Storage that fails on demand; registered by name for loading."""
    def storage(self):
        return Proxy(super(new, self).storage, site)
    name = 'S' + cls.__name__
    ns.update(storage=property(storage), __module__=__name__,
              __qualname__=name)
    new = type(cls)(name, (cls,), ns)
    globals()[name] = new
    return new


SNodeAttributes = sim(NodeAttributes, 'attrs')


class Faulty(object):
    """Constructors may fail."""


SBaseNode = sim(base.BaseNode)
SOrderedNode = sim(base.OrderedNode)
SNode = sim(base.Node, attributes_factory=SNodeAttributes)
SAttributedNode = sim(base.AttributedNode)


@plumbing(UUIDAware)
class UuidNode(SAttributedNode):
    pass


class OddNode(SOrderedNode):
    """All are equal, and False."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class AccessNode(SAttributedNode):
    """Attributes by attribute access."""
    attribute_access_for_attrs = True


class Titled(SAttributedNode):
    """Custom constructor data."""

    def __init__(self, title, values=(), ref=None, name=None, parent=None):
        gate('init', title)
        super(Titled, self).__init__(name=name, parent=parent)
        self.title = title
        self.values_ = values
        self.ref = ref
        self.notes = []


class ISpecial(Interface):
    """Extra data."""


@implementer(ISpecial)
class Special(SOrderedNode):
    extra = None


@implementer(ISpecial)
class SpecialTitled(Titled):
    """Both."""
    extra = None


class SubTitled(Titled):
    """Inherits the callbacks of its base class."""


@serializer(Titled)
def serialize_titled(encoder, node, data):
    gate('serializer', 'titled')
    data['kw'] = {'title': node.title, 'values': node.values_,
                  'ref': node.ref}


@serializer(ISpecial)
def serialize_special(encoder, node, data):
    gate('serializer', 'special')
    if isinstance(node, Titled) and 'kw' not in data:
        raise Violation('callbacks', 'called before the one registered for '
                        'the class')
    data['extra'] = encoder.default(node.extra)
    # what was registered before has been called
    data['count'] = len(data.get('children', ()))


@deserializer(Titled)
def deserialize_titled(decoder, node, data):
    gate('deserializer', 'titled')
    node.notes = ['titled']


@deserializer(ISpecial)
def deserialize_special(decoder, node, data):
    gate('deserializer', 'special')
    node.extra = decoder.decode(data['extra'])
    if isinstance(node, Titled) and node.notes != ['titled']:
        raise Violation('callbacks', 'called before the one registered for '
                        'the class')
    if len(node.keys()) != data['count']:
        raise Violation('callbacks', 'called with %d of %d children' % (
            len(node.keys()), data['count']))


class Thing(object):

    class Inner(object):

        @staticmethod
        def method():
            """Referenced."""


def function():
    """Referenced."""


# -- modules that have to be imported again after a restart ------------------

PKG = 'sim.zoopkg.deep'
MODS = [PKG, PKG + '.plugin']


class Finder(object):
    """Finds the unloaded modules.  After a restart the plugin has classes of
    its own under the same names (two sets of them per process)."""
    stash = {}
    sets = []
    current = 0

    def find_spec(self, name, path=None, target=None):
        if name in self.stash:
            return importlib.util.spec_from_loader(
                name, self, is_package=name == PKG)

    def create_module(self, spec):
        return self.stash[spec.name]

    def exec_module(self, module):
        gate('import', module.__name__, True)
        if module.__name__ == MODS[1]:
            module.__dict__.update(self.sets[Finder.current])


def plugin():
    mod = importlib.import_module(MODS[1])
    if not Finder.stash:
        for name in MODS:
            Finder.stash[name] = sys.modules[name]
        names = ('PluginNode', 'Thing', 'function')
        first = dict((x, mod.__dict__[x]) for x in names)
        again = importlib.util.module_from_spec(mod.__spec__)
        mod.__spec__.loader.exec_module(again)
        Finder.sets[:] = [first, dict((x, again.__dict__[x]) for x in names)]
        sys.meta_path.insert(0, Finder())
    return mod


def first_start():
    """Every run starts with the same classes."""
    if Finder.current:
        Finder.current = 0
        Finder.stash[MODS[1]].__dict__.update(Finder.sets[0])


def current(ob):
    """Is this what the name stands for?"""
    if ob.__module__ != MODS[1]:
        return True
    res = Finder.stash[MODS[1]]
    for name in ob.__qualname__.split('.'):
        res = getattr(res, name)
    return res is ob


def restart():
    """Unload the modules of the application."""
    plugin()
    Finder.current = 1 - Finder.current
    for name in MODS:
        sys.modules.pop(name, None)
        parent, _, last = name.rpartition('.')
        parent = sys.modules.get(parent) or Finder.stash.get(parent)
        if parent is not None:
            parent.__dict__.pop(last, None)


CLASSES = {
    # name: class, needs constructor data
    'base': SBaseNode, 'ordered': SOrderedNode, 'node': SNode,      # noqa
    'attributed': SAttributedNode, 'uuid': UuidNode, 'odd': OddNode,
    'access': AccessNode, 'titled': Titled, 'subtitled': SubTitled,
    'special': Special, 'both': SpecialTitled, 'plain': base.OrderedNode,
}
REFS = ['node', 'attributed', 'access', 'titled', 'subtitled',
        'both']
FREE = ['base', 'ordered', 'special', 'plain', 'plugin']
PROFILES = [REFS, FREE, FREE + REFS, ['base', 'ordered'], ['titled', 'node'],
            ['plugin', 'special', 'node'], ['base', 'uuid'],
            ['odd', 'base', 'special']]
KEYS = ['a', 'b', 'c', 'd', '', 'children', 'name', '__node__x', '\xe4\u4e16',
        'class', '"', '\\', '\ud800']
SCALARS = ['<UUID>', '<UUID', '<UNSET>:', 0, 1, -5, 2.5, 10 ** 30, 1e300, '', 'text', '\xe4\n"\\\u4e16',
           None, True, False, ['$', 'unset'], ['$', 'uuid', 1],
           ['$', 'uuid', 2 ** 100 + 7], ['$', 'node', 'v'],
           ['$', 'node', ''], ['$', 'class'], ['$', 'inner'],
           ['$', 'function'], ['$', 'method'], ['$', 'builtin'],
           ['$', 'nodeclass'], ['$', 'pluginclass'], ['$', 'pluginfunction'],
           'UUID', '<UNSET', '__ob__', float('inf'),
           'see <UUID>:x', ' <UUID>:', '<uuid>:y', 'a <UNSET>', '<unset>',
           ' <UNSET>', '12345678-1234-1234-1234-123456789abc']


def value(v):
    """Attribute value from its JSON spec."""
    if isinstance(v, dict):
        return dict((k, value(x)) for k, x in v.items())
    if not isinstance(v, list):
        return v
    if v[:1] != ['$']:
        return [value(x) for x in v]
    k = v[1]
    if k == 'unset':
        return UNSET
    if k == 'uuid':
        return uuid.UUID(int=v[2])
    if k == 'node':
        # values may be nodes, they are no children
        node = base.AttributedNode(name=v[2])
        node.attrs['own'] = v[2]
        node['sub'] = base.AttributedNode()
        return node
    if k.startswith('plugin'):
        mod = plugin()
        return mod.Thing.Inner if k == 'pluginclass' else mod.function
    return {'class': Thing, 'inner': Thing.Inner, 'function': function,
            'method': Thing.Inner.method, 'builtin': dict,
            'nodeclass': base.Node}[k]


def gen_value(rng, depth=0):
    x = rng.random()
    if x < 0.25 and depth < 3:
        if rng.random() < 0.02:
            # many
            return [gen_value(rng, 3) for _ in range(rng.choice([12, 40]))]
        if rng.random() < 0.02:
            # deep
            res = gen_value(rng, 3)
            for _ in range(rng.choice([8, 20])):
                res = rng.choice([[res], {'a': res}, [1, res]])
            return res
        return [gen_value(rng, depth + 1)
                for _ in range(rng.choice([0, 1, 2, 3]))]
    if x < 0.4 and depth < 3:
        return dict((rng.choice(['a', 'b', '', 'class', 'name', '\xe4']),
                     gen_value(rng, depth + 1))
                    for _ in range(rng.choice([0, 1, 2, 3])))
    return rng.choice(SCALARS)


def shown(v):
    """Comparable form of a value."""
    if isinstance(v, list):
        return ('list', tuple(shown(x) for x in v))
    if isinstance(v, dict):
        return ('dict', tuple(sorted((k, shown(x)) for k, x in v.items())))
    if v is UNSET:
        return 'UNSET'
    if INode.providedBy(v):
        return ('node', snapshot(v))
    if isinstance(v, (type, type(function))):
        if not current(v):
            raise Violation('outdated', '%r is not what its name stands for'
                            % v)
        return (type(v).__name__, v.__module__, v.__qualname__)
    return (type(v).__name__, repr(v))


def plain_attrs(node):
    attrs = node.attrs
    if isinstance(attrs, NodeAttributes):
        return attrs
    return object.__getattribute__(attrs, 'context')


def snapshot(node):
    """Comparable form of a tree."""
    cls = type(node)
    if not current(cls):
        raise Violation('outdated', 'the class of node %r is not what its '
                        'name stands for' % node.name)
    kids = []
    for key, child in node.items():
        if child.name != key or child.parent is not node:
            raise Violation('hierarchy', 'child %r has name %r and parent %r'
                            % (key, child.name, child.parent))
        kids.append(snapshot(child))
    if not IOrdered.providedBy(node):
        kids.sort(key=lambda x: repr(x[1]))
    attrs = None
    if IAttributes.providedBy(node):
        attrs = plain_attrs(node)
        ordered = IOrdered.providedBy(attrs)
        for k, v in attrs.items():
            if INode.providedBy(v) and (
                    v.name != k or v.parent is not attrs):
                raise Violation('hierarchy', 'attribute %r is a node with '
                                'name %r and parent %r' % (
                                    k, v.name, v.parent))
        attrs = tuple((k, shown(v)) for k, v in attrs.items())
        if not ordered:
            attrs = tuple(sorted(attrs, key=repr))
    own = None
    if isinstance(node, Titled):
        own = (shown(node.title), shown(list(node.values_)), shown(node.ref))
    if ISpecial.providedBy(node):
        own = (own, shown(node.extra))
    return (cls.__module__ + '.' + cls.__qualname__, node.name, own, attrs,
            tuple(kids))


def plain_value(v, classes=False):
    """What a value looks like in a dump without types."""
    if isinstance(v, list):
        return [plain_value(x, classes) for x in v]
    if isinstance(v, dict):
        return dict((k, plain_value(x, classes)) for k, x in v.items())
    if INode.providedBy(v):
        return plain(v, classes)
    if v is UNSET:
        return '<UNSET>'
    if isinstance(v, uuid.UUID):
        return '<UUID>:%s' % v
    if isinstance(v, (type, type(function))):
        return '%s.%s' % (v.__module__, v.__qualname__)
    return v


def plain(node, classes):
    """What a tree looks like in a dump without types."""
    res = {'name': node.name}
    cls = type(node)
    if classes:
        # nodes are named by their class only
        res['class'] = cls.__module__ + '.' + cls.__name__
    if IAttributes.providedBy(node):
        res['attrs'] = dict((k, plain_value(v, classes))
                            for k, v in plain_attrs(node).items())
    if isinstance(node, Titled):
        res['kw'] = plain_value({'title': node.title, 'values': list(
            node.values_), 'ref': node.ref}, classes)
    if ISpecial.providedBy(node):
        res['extra'] = plain_value(node.extra, classes)
        res['count'] = len(node)
    kids = [plain(child, classes) for child in node.values()]
    if kids:
        res['children'] = kids
    return res


def plain_text(node, classes):
    return json.dumps(plain(node, classes), sort_keys=True)


def shape(snap):
    return (snap[0], len(snap[3] or ()), tuple(shape(x) for x in snap[4]))


class Disk(object):
    """Two generations of the dump file."""

    def __init__(self):
        self.files = [None, None]    # text, snapshot, mode
        self.next = 0


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.disk = Disk()
        first_start()
        with Quiet(ctx):
            self.tree = self.make(case['root'], case['name'])
        self.twin = None
        self.torn = None
        self.coders = {}

    def serialize(self, data, **kw):
        """May use the same encoder again and again."""
        if not self.case.get('coders'):
            return serialize(data, **kw)
        key = repr(kw)
        if key not in self.coders:
            self.coders[key] = NodeEncoder(**kw)
        return self.coders[key].encode(data)

    def deserialize(self, text, root=None):
        if not self.case.get('coders'):
            return deserialize(text, root=root)
        if not self.coders.get('decoder'):
            self.coders['decoder'] = NodeDecoder()
        return self.coders['decoder'].decode(json.loads(text), parent=root)

    def fail(self, kind, op, msg):
        raise Violation(kind, 'op %s (%s): %s' % (op['id'], op['k'], msg))

    def make(self, spec, name=None):
        cls = spec['cls']
        if cls == 'plugin':
            cls = plugin().PluginNode
        else:
            cls = CLASSES[cls]
        if issubclass(cls, Titled):
            node = cls(spec['title'], value(spec['values']),
                       value(spec['ref']), name=name)
        else:
            node = cls(name=name)
        if ISpecial.implementedBy(cls):
            node.extra = value(spec['ref'])
        return node

    def at(self, tree, path):
        """Existing node on a path of numbers."""
        node = tree
        for i in path:
            keys = list(node.keys())
            if not IOrdered.providedBy(node):
                keys.sort()
            if not keys:
                break
            node = node[keys[i % len(keys)]]
        return node

    # -- changes -----------------------------------------------------------
    def change(self, tree, op):
        """-> what happened."""
        with Quiet(self.ctx):
            node = self.at(tree, op['path'])
            other = self.at(tree, op.get('path2', ()))
            k = op['k']
            try:
                res = getattr(self, 'do_' + k)(tree, node, other, op)
            except Exception as e:
                return type(e).__name__
            return res

    def do_add(self, tree, node, other, op):
        spec = op['spec']
        if IReference.providedBy(node) and spec['cls'] not in REFS:
            return 'skipped'
        node[op['key']] = self.make(spec)

    def do_delete(self, tree, node, other, op):
        if node is tree:
            return 'root'
        del node.parent[node.name]

    def do_move(self, tree, node, other, op):
        up = other
        while up is not None:
            if up is node:
                return 'cycle'
            up = up.parent
        if node is tree:
            return 'root'
        if IReference.providedBy(other) and not IReference.providedBy(node):
            return 'skipped'
        if op['key'] in other:
            return 'exists'
        node = node.parent.detach(node.name)
        other[op['key']] = node

    def do_attr(self, tree, node, other, op):
        if IAttributes.providedBy(node):
            plain_attrs(node)[op['key']] = value(op['value'])

    def do_delattr(self, tree, node, other, op):
        if IAttributes.providedBy(node):
            del plain_attrs(node)[op['key']]

    def do_append(self, tree, node, other, op):
        if IAttributes.providedBy(node):
            for v in plain_attrs(node).values():
                if isinstance(v, list):
                    v.append(value(op['value']))
                elif isinstance(v, dict):
                    v['new'] = value(op['value'])

    def do_order(self, tree, node, other, op):
        if node is tree or not IOrder.providedBy(node.parent):
            return 'skipped'
        up = node.parent
        key = node.name
        child = up.detach(key)
        if op['n'] % 2:
            up.insertfirst(child)
        else:
            up.insertlast(child)

    def do_swap(self, tree, node, other, op):
        if IOrder.providedBy(node) and len(node) > 1:
            kids = node.values()
            node.swap(kids[op['n'] % len(kids)], kids[-1])

    def do_lock(self, tree, node, other, op):
        with TreeLock(node):
            return node.name

    def do_uuid(self, tree, node, other, op):
        if IReference.providedBy(node):
            node.uuid = uuid.uuid4()

    def do_extra(self, tree, node, other, op):
        if ISpecial.providedBy(node):
            node.extra = value(op['value'])
        elif isinstance(node, Titled):
            node.values_ = [value(op['value'])]

    # -- dump and load -----------------------------------------------------
    def attempt(self, op, fn):
        """-> (result, error, fault) of code that may be hit by faults."""
        self.ctx.begin(op['id'])
        res = err = None
        try:
            res = fn()
        except BaseException as e:
            if not hasattr(e, 'sim_site') and not isinstance(e, Exception):
                raise
            err = e
        return res, err, self.ctx.end()

    def judge(self, op, res, err, fault, what):
        """True if it worked."""
        if fault is not None:
            self.ctx.nontrivial = True
            self.ctx.probe(what + '_failed')
            if err is None:
                self.fail('error-lost', op, '%s although %s failed with %r' % (
                    what, fault.sim_site, fault))
            return False
        if err is not None:
            self.fail(what, op, '%s fails with %r' % (what, err))
        return True

    def dump(self, op):
        mode = op['mode']
        if mode == 'root' and self.tree.name is None:
            mode = 'alone'
        with Quiet(self.ctx):
            before = snapshot(self.tree)
        if mode == 'list':
            with Quiet(self.ctx):
                data = list(self.tree.values())
        else:
            data = self.tree
        text, err, fault = self.attempt(op, lambda: self.serialize(data))
        with Quiet(self.ctx):
            after = snapshot(self.tree)
        if after != before:
            self.fail('dump-changes', op, 'tree was %r, is %r' % (
                before, after))
        self.ctx.state(shape(before))
        if not self.judge(op, text, err, fault, 'dump'):
            return
        self.ctx.probe('dumped')
        disk = self.disk
        old = disk.files[disk.next]
        new = [text, before, mode, None]
        if op['torn'] is None:
            disk.files[disk.next] = new
            disk.next = 1 - disk.next
            return
        # the crash comes while the file is written
        n = int(op['torn'] * len(text))
        if n >= len(text):
            n = len(text) - 1
        if op['overlap'] and old is not None and len(old[0]) > len(text):
            # complete, but the rest of the longer old one is still there
            new[0] = text + old[0][len(text):]
            new[3] = 'overlap'
            if text == old[0]:
                return
        else:
            new[0] = text[:n]
            new[3] = 'torn'
        disk.files[disk.next] = new
        self.crash(op)

    def plain(self, op):
        """Dump without types."""
        tree = self.tree
        with Quiet(self.ctx):
            before = snapshot(tree)
            want = plain_text(tree, op['classes'])
        text, err, fault = self.attempt(op, lambda: self.serialize(
            tree, simple_mode=True, include_class=op['classes']))
        with Quiet(self.ctx):
            if snapshot(tree) != before:
                self.fail('dump-changes', op, 'tree was %r, is %r' % (
                    before, snapshot(tree)))
        if not self.judge(op, text, err, fault, 'dump'):
            return
        self.ctx.probe('plain')
        got = json.dumps(json.loads(text), sort_keys=True)
        if got != want:
            self.fail('plain', op, 'is %s, should be %s' % (got, want))

    def holder(self, snap, spec):
        with Quiet(self.ctx):
            if self.case['refs']:
                return SNode(name='holder')                   # noqa
            return base.OrderedNode(name='holder')

    def load(self, op, record):
        """-> (tree or nodes, error, fault)"""
        text, snap, mode, bad = record
        if mode == 'alone':
            return self.attempt(op, lambda: self.deserialize(text)) + (None,)
        root = self.holder(snap, None)
        return self.attempt(
            op, lambda: self.deserialize(text, root=root)) + (root,)

    def crash(self, op):
        """The process dies and is restarted."""
        ctx = self.ctx
        ctx.probe('crash')
        self.coders.clear()
        if self.case['restart']:
            restart()
        disk = self.disk
        # the newest generation first
        order = [disk.files[1 - disk.next], disk.files[disk.next]]
        if order[1] is not None and order[1][3]:
            order.reverse()
        self.twin = None
        for i, record in enumerate(order):
            if record is None:
                continue
            for attempt in range(2):
                res, err, fault, root = self.load(op, record)
                if record[3]:
                    if fault is None and err is None:
                        self.fail('torn', op, 'a %s dump is loaded: %r' % (
                            record[3], record[0][:200]))
                    if fault is None:
                        ctx.probe(record[3] + '_refused')
                        ctx.nontrivial = True
                        break
                    op = dict(op, id=-1)
                    continue
                if self.judge(op, res, err, fault, 'load'):
                    self.restored(op, record, res, root)
                    if i:
                        ctx.probe('fallback_generation')
                    # what is on the disk is good; torn ones are removed
                    disk.files = [record, None]
                    disk.next = 1
                    return
                op = dict(op, id=-1)    # the fault does not come again
        # nothing on the disk: start again
        disk.files = [None, None]
        with Quiet(ctx):
            self.tree = self.make(self.case['root'], self.case['name'])

    def restored(self, op, record, res, root):
        ctx = self.ctx
        text, snap, mode, bad = record
        ctx.probe('restored')
        if mode != 'alone':
            ctx.probe(mode)
        with Quiet(ctx):
            if Finder.stash and PKG + '.plugin' in text \
                    and MODS[1] in sys.modules and self.case['restart']:
                ctx.probe('module_reloaded')
            if mode == 'list':
                got = [snapshot(x) for x in res]
                # ordered as listed; unordered containers list in any order
                want = list(snap[4])
                if sorted(got, key=repr) != sorted(want, key=repr):
                    self.fail('restore', op, 'restored %r instead of %r' % (
                        got, want))
                self.below(op, root, res)
                tree = self.make(self.case['root'], self.case['name'])
                for x in res:
                    tree[x.name] = root.detach(x.name)
                self.index(op, tree)
            else:
                got = snapshot(res)
                if got != snap:
                    self.fail('restore', op, 'restored %r instead of %r' % (
                        got, snap))
                if mode == 'root':
                    self.below(op, root, [res])
                    tree = root.detach(res.name)
                    tree.__parent__ = None
                else:
                    tree = res
                    if tree.parent is not None:
                        self.fail('restore', op, 'parent is %r' % tree.parent)
                self.index(op, tree)
            if snap[4]:
                ctx.probe('restored_children')
                ctx.nontrivial = True
            if snap[3]:
                ctx.probe('restored_attrs')
                ctx.nontrivial = True
            if 'Titled' in snap[0]:
                ctx.probe('constructor_data')
            self.tree = tree

    def below(self, op, root, nodes):
        if [id(x) for x in root.values()] != [id(x) for x in nodes]:
            self.fail('restore', op, 'root has %r, restored nodes are %r' % (
                root.values(), nodes))
        for x in nodes:
            if x.parent is not root or root[x.name] is not x:
                self.fail('restore', op, '%r has parent %r' % (x, x.parent))

    def index(self, op, tree):
        """uuid lookup in restored trees."""
        def walk(node, root):
            if IReference.providedBy(node):
                root = root or node
                if root.node(node.uuid) is not node:
                    self.fail('index', op, '%r is not found by uuid' % node)
            else:
                root = None
            for child in node.values():
                walk(child, root)
        walk(tree, None)

    def twins(self, op):
        """Load the last dump besides the living tree: both go on."""
        disk = self.disk
        record = disk.files[1 - disk.next]
        if record is None or record[2] == 'list' or record[3]:
            return
        with Quiet(self.ctx):
            if snapshot(self.tree) != record[1]:
                return
        if not self.case['refs'] or True:
            res, err, fault, root = self.load(op, record)
            if not self.judge(op, res, err, fault, 'load'):
                return
            tree = self.tree
            self.restored(op, record, res, root)
            self.tree, self.twin = tree, self.tree
            self.ctx.probe('lockstep')

    def compare(self, op, a, b):
        with Quiet(self.ctx):
            one, two = snapshot(self.tree), snapshot(self.twin)
        if a != b or one != two:
            self.fail('diverge', op, 'original: %r -> %r, restored: %r -> %r'
                      % (a, one, b, two))

    def run(self, op):
        k = op['k']
        if k in ('dump', 'crash', 'twins', 'plain'):
            getattr(self, k)(op)
        else:
            a = self.change(self.tree, op)
            if self.twin is not None:
                self.compare(op, a, self.change(self.twin, op))
        with Quiet(self.ctx):
            self.ctx.ev('op', op['id'], repr(snapshot(self.tree)))


WEIGHTS = {'add': 12, 'delete': 2, 'move': 2, 'attr': 7, 'delattr': 1,
           'append': 1, 'order': 2, 'swap': 1, 'lock': 1, 'uuid': 1,
           'extra': 2, 'dump': 5, 'crash': 2, 'twins': 3,
           'plain': 1}


def gen_spec(rng, classes):
    return {'cls': rng.choice(classes), 'title': rng.choice(
        ['', 'T', None, '\xe4']), 'values': [gen_value(rng) for _ in range(
            rng.choice([0, 1, 2]))], 'ref': gen_value(rng)}


class DumpScenario(object):
    name = 'dump'
    weight = 1

    def generate(self, rng, tier):
        classes = rng.choice(PROFILES)
        refs = classes[0] in REFS and all(x in REFS for x in classes)
        ks = sorted(WEIGHTS)
        ops = []
        big = rng.choice(['wide', 'deep']) if rng.random() < 0.04 else None
        depths = [12] if big == 'deep' else [0, 0, 1, 1, 2, 3]
        path = lambda: [rng.randrange(4) for _ in range(       # noqa
            rng.choice(depths))]
        keys = KEYS[:rng.choice([3, 5, len(KEYS)])]
        if big:
            keys = keys + ['k%d' % i for i in range(20)]
        size = (8, 14, 25, 40) if tier == 'quick' else (8, 14, 25, 40, 80)
        for i in range(40 if big else rng.choice(size)):
            k = rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
            if ops and ops[-1]['k'] == 'dump' and rng.random() < 0.4:
                k = rng.choice(['twins', 'crash'])
            if big and i < 20:
                k = rng.choice(['add', 'add', 'add', 'attr'])
            op = {'id': i, 'k': k}
            if k not in ('dump', 'crash', 'twins', 'plain'):
                op['path'] = path()
            if k == 'add':
                op['spec'] = gen_spec(rng, classes)
                op['key'] = rng.choice(keys)
                if big == 'wide' and i < 20:
                    op['path'] = []
            elif k == 'move':
                op['path2'] = path()
                op['key'] = rng.choice(keys)
            elif k in ('attr', 'delattr', 'append', 'extra'):
                op['key'] = rng.choice(keys)
                op['value'] = gen_value(rng)
            elif k in ('order', 'swap'):
                op['n'] = rng.randrange(4)
            elif k == 'dump':
                op['mode'] = rng.choice(['alone', 'alone', 'root', 'list'])
                op['torn'] = rng.random() if rng.random() < 0.2 else None
                op['overlap'] = rng.random() < 0.4
            elif k == 'plain':
                op['classes'] = rng.random() < 0.5
            ops.append(op)
        ids = [o['id'] for o in ops if o['k'] in (
            'dump', 'crash', 'twins', 'plain')]
        return {'root': gen_spec(rng, classes), 'ops': ops, 'refs': refs,
                'name': rng.choice(['root', 'root', None, '', '0', 'a/b']),
                'restart': rng.random() < 0.5,
                'coders': rng.random() < 0.3,
                'faults': gen_faults(
                    rng, ids, kinds=WRITE_FAULTS,
                    maxcall=rng.choice([3, 8, 20, 50]))}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        for op in case['ops']:
            r.run(op)


class ThreadScenario(object):
    """Dumps and reloads in several threads at the same time."""
    name = 'threads'
    weight = 0.15

    def generate(self, rng, tier):
        classes = rng.choice([REFS, ['base', 'ordered', 'special', 'plain'],
                              ['titled', 'node'], ['special', 'node']])
        ids = iter(range(1000))
        trees = []
        for _ in range(rng.choice([1, 2])):
            trees.append({'spec': gen_spec(rng, classes), 'ops': [{
                'id': -1, 'k': rng.choice(['add', 'add', 'attr']),
                'path': [rng.randrange(4) for _ in range(rng.randrange(3))],
                'spec': gen_spec(rng, classes),
                'key': rng.choice(KEYS[:5]), 'value': gen_value(rng)}
                for _ in range(rng.choice([2, 5, 9]))]})
        tasks = [[{'id': next(ids), 'k': rng.choice(
            ['dump', 'dump', 'plain', 'load', 'load']),
            'tree': rng.randrange(len(trees)),
            'classes': rng.random() < 0.5}
            for _ in range(rng.choice([1, 2, 3]))]
            for _ in range(rng.choice([2, 2, 3]))]
        return {'trees': trees, 'tasks': tasks, 'sched': gen_sched(rng),
                'faults': gen_faults(
                    rng, [o['id'] for t in tasks for o in t],
                    kinds=WRITE_FAULTS)}

    def execute(self, case, ctx):
        trees, snaps, texts, plains = [], [], [], []
        for spec in case['trees']:
            r = Run(ctx, {'root': spec['spec'], 'name': 'root'})
            for op in spec['ops']:
                r.change(r.tree, op)
            with Quiet(ctx):
                trees.append(r.tree)
                snaps.append(snapshot(r.tree))
                texts.append(serialize(r.tree))
                plains.append([plain_text(r.tree, x) for x in (False, True)])

        def body(ops):
            def run():
                for op in ops:
                    self.op(ctx, r, op, trees[op['tree']], snaps[op['tree']],
                            texts[op['tree']], plains[op['tree']])
            return run
        sched = Sched(ctx, case['sched'])
        for i, ops in enumerate(case['tasks']):
            sched.spawn('t%d' % i, body(ops))
        sched.run()
        if sched.deadlock:
            raise Violation('deadlock', sched.deadlock)
        ctx.probe('threads')
        ctx.nontrivial = True
        with Quiet(ctx):
            for tree, snap in zip(trees, snaps):
                if snapshot(tree) != snap:
                    raise Violation('dump-changes', 'tree was %r, is %r' % (
                        snap, snapshot(tree)))

    def op(self, ctx, r, op, tree, snap, text, plains):
        k = op['k']
        if k == 'plain':
            res, err, fault = r.attempt(op, lambda: serialize(
                tree, simple_mode=True, include_class=op['classes']))
        elif k == 'dump':
            res, err, fault = r.attempt(op, lambda: serialize(tree))
        else:
            res, err, fault = r.attempt(op, lambda: deserialize(text))
        ctx.ev('op', op['id'], k, type(err).__name__)
        if not r.judge(op, res, err, fault, 'load' if k == 'load' else 'dump'):
            return
        if k == 'load':
            with Quiet(ctx):
                got = snapshot(res)
                r.index(op, res)
            want = snap
        elif k == 'plain':
            got = json.dumps(json.loads(res), sort_keys=True)
            want = plains[op['classes']]
        else:
            got, want = json.loads(res), json.loads(text)
        if got != want:
            r.fail('threads', op, '%s gives %r, should be %r' % (
                k, got, want))


SCENARIOS = [DumpScenario(), ThreadScenario()]
