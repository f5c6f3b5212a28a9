"""C10 Lifecycle: one event per successful change, none for failed ones."""
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.events import NodeAddedEvent
from node.events import NodeCreatedEvent
from node.events import NodeDetachedEvent
from node.events import NodeModifiedEvent
from node.events import NodeRemovedEvent
from node.interfaces import IOrder
from node.interfaces import IReference
from plumber import plumbing
from sim.core import CALL_FAULTS
from sim.core import Quiet
from sim.core import Violation
from sim.core import gen_faults
from sim.seam import Proxy
from sim.seam import gate
from sim.seam import simclass
from zope.interface.interfaces import IObjectEvent
import zope.component

ID = 'C10'
RUNS = {'quick': 40000, 'thorough': 1000000}
RULE = (
    'A case is a history of 6-30 operations on 2-6 nodes of lifecycle aware '
    'classes with event handlers that change nodes themselves, and faults '
    'planned at (operation, n-th storage, factory or handler call). Every '
    'event must be the next one due of the innermost running operation, its '
    'change must be visible in the handler, and after every operation the '
    'content must be what the notified events say. Non-trivial: a fault '
    'fired or more than three events; distinct: different event log.')
STATE_MEASURE = 'hash of (class, keys, attributes) of all nodes'
REAL = ['node.behaviors.lifecycle', 'node.events', 'node.behaviors.*',
        'zope.component event dispatch', 'plumber', 'odict']
STUB = ['storage and attributes: the shipped storage behind a proxy that '
        'fails on demand', 'event handlers (scripted by the case)',
        'uuid.uuid4 (seeded)']
PROBES = ['events', 'handler_failed', 'storage_failed', 'nested', 'during',
          'refused', 'detached']
ASSUMPTIONS = [
    'Lifecycle is plumbed outside of Adopt and inside of Nodespaces, as '
    'documented',
    'replacing a child notifies the addition only',
    'a storage call that fails has had no effect',
]
CUR = [None]


def handler(obj, event):
    if CUR[0] is not None:
        CUR[0].handle(obj, event)


zope.component.provideHandler(handler, (None, IObjectEvent))


class MyAdded(NodeAddedEvent):
    pass


class MyRemoved(NodeRemovedEvent):
    pass


class MyDetached(NodeDetachedEvent):
    pass


class MyModified(NodeModifiedEvent):
    pass


class MyCreated(NodeCreatedEvent):
    pass


DEFAULT = {'created': NodeCreatedEvent, 'added': NodeAddedEvent,
           'modified': NodeModifiedEvent, 'removed': NodeRemovedEvent,
           'detached': NodeDetachedEvent}
CUSTOM = {'created': MyCreated, 'added': MyAdded, 'modified': MyModified,
          'removed': MyRemoved, 'detached': MyDetached}


@plumbing(AttributesLifecycle)
class PlainAttributes(NodeAttributes):
    pass


SimAttributes = simclass(PlainAttributes, 'SimAttributes', __name__, 'attrs')


class Attrs(SimAttributes):

    def __init__(self, name=None, parent=None):
        gate('attrs.factory', '')
        super(Attrs, self).__init__(name=name, parent=parent)


class HookProxy(Proxy):

    def __delitem__(self, key):
        Proxy.__delitem__(self, key)
        CUR[0].during()


class Hooked(object):

    @property
    def storage(self):
        return HookProxy(super(Hooked, self).storage)


@plumbing(Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage)
class PlainBase(object):
    pass


@plumbing(Lifecycle, DefaultInit, Nodify, DictStorage)
class NoAdoptBase(object):
    pass


@plumbing(Nodespaces, Attributes, Lifecycle, NodeChildValidate, Adopt,
          DefaultInit, Nodify, OdictStorage)
class DocumentedBase(object):
    attributes_factory = Attrs


@plumbing(Nodespaces, Attributes, Lifecycle, DefaultInit, Nodify, DictStorage)
class TestedBase(object):
    attributes_factory = Attrs
    events = CUSTOM


@plumbing(Nodespaces, Attributes, Lifecycle, NodeChildValidate, Adopt,
          Reference, Order, DefaultInit, Nodify, OdictStorage)
class FullBase(object):
    attributes_factory = Attrs
    events = dict(DEFAULT, added=MyAdded, detached=MyDetached)


@plumbing(Nodespaces, Attributes, Lifecycle, Adopt, Order, DefaultInit,
          Nodify, OdictStorage)
class AccessBase(object):
    attributes_factory = Attrs
    attribute_access_for_attrs = True
    events = dict(CUSTOM, created=NodeCreatedEvent)


class PlainLife(Hooked, PlainBase):
    pass


class NoAdoptLife(Hooked, NoAdoptBase):
    pass


class DocumentedLife(Hooked, DocumentedBase):
    pass


class TestedLife(Hooked, TestedBase):
    pass


class FullLife(Hooked, FullBase):
    pass


class AccessLife(Hooked, AccessBase):
    pass


class OddLife(FullLife):
    """All are equal, and False."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return isinstance(other, OddLife)

    def __hash__(self):
        return 1


class Cls(object):

    def __init__(self, cls, attrs, strict, adopts, events):
        self.cls = cls
        self.attrs = attrs
        self.strict = strict
        self.adopts = adopts
        self.events = events
        self.order = IOrder.implementedBy(cls)
        self.reference = IReference.implementedBy(cls)


CLASSES = {
    'plain': Cls(PlainLife, False, False, True, DEFAULT),
    'noadopt': Cls(NoAdoptLife, False, False, False, DEFAULT),
    'documented': Cls(DocumentedLife, True, True, True, DEFAULT),
    'tested': Cls(TestedLife, True, False, False, CUSTOM),
    'full': Cls(FullLife, True, True, True,
                dict(DEFAULT, added=MyAdded, detached=MyDetached)),
    'odd': Cls(OddLife, True, True, True,
               dict(DEFAULT, added=MyAdded, detached=MyDetached)),
    'access': Cls(AccessLife, True, False, True,
                  dict(CUSTOM, created=NodeCreatedEvent)),
}
KEYS = ['a', '', 'c', 'd']
MANY = KEYS + ['k%d' % i for i in range(14)]
SIDE = ['r', 's']
MAXDEPTH = 3
FUEL = 12


class Frame(object):
    """A running operation: what it still has to notify."""

    def __init__(self, op, steps, free=False):
        self.op = op
        self.steps = steps       # (kind, node handle, key, child, apply)
        self.free = free         # any order
        self.events = 0
        self.error = None        # handler error on its way to the caller

    def take(self, kind, match):
        todo = self.steps if self.free else self.steps[:1]
        for s in todo:
            if s['kind'] == kind and match(s):
                self.steps.remove(s)
                if self.free == 'one':
                    self.steps = []
                self.events += 1
                return s


class Run(object):

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.nodes = []          # real nodes
        self.cls = []
        self.kids = []           # model: list of dicts
        self.attrs = []
        self.where = {}          # handle -> (container, key)
        self.frames = []
        self.fuel = 0
        self.total = 0
        self.hooks = []
        self.keep = []
        self.skip = None         # node in the middle of a deletion

    # -- model helpers -----------------------------------------------------
    def handle_of(self, obj):
        for i, n in enumerate(self.nodes):
            if n is obj:
                return i
        return None

    def below(self, h, top):
        """Is h inside the tree of top?"""
        seen = set()
        while h is not None and h not in seen:
            if h == top:
                return True
            seen.add(h)
            h = self.where.get(h, (None,))[0]
        return False

    def step_add(self, c, key, child):
        def apply():
            old = self.kids[c].get(key)
            if old is not None and old[0] == 'n':
                self.where.pop(old[1], None)
            self.kids[c][key] = child
            if child[0] == 'n':
                self.where[child[1]] = (c, key)
        return {'kind': 'added', 'node': c, 'key': key, 'child': child,
                'apply': apply}

    def step_del(self, c, key, kind='removed'):
        child = self.kids[c][key]

        def apply():
            del self.kids[c][key]
            if child[0] == 'n':
                self.where.pop(child[1], None)
        return {'kind': kind, 'node': c, 'key': key, 'child': child,
                'apply': apply}

    def step_attr(self, c, key, value=None, delete=False):
        def apply():
            if delete:
                del self.attrs[c][key]
            else:
                self.attrs[c][key] = value
        return {'kind': 'modified', 'node': c, 'apply': apply, 'key': key}

    # -- events ------------------------------------------------------------
    def val(self, child):
        return self.nodes[child[1]] if child[0] == 'n' else child[1]

    def is_val(self, child, obj):
        return obj is self.nodes[child[1]] if child[0] == 'n' \
            else obj == child[1]

    def handle(self, obj, event):
        if self.ctx.quiet:
            return
        if obj is not event.object:
            raise Violation('wrong-event', 'handler called for another '
                            'object')
        if not self.frames:
            raise Violation('extra-event', '%s outside of any operation'
                            % type(event).__name__)
        f = self.frames[-1]
        name = type(event).__name__
        where = ''
        for kind in ('created', 'modified', 'added', 'removed', 'detached'):
            def match(s):
                if kind == 'created':
                    return type(event) is s['events'][kind] and \
                        isinstance(obj, s['cls'])
                cfg = CLASSES[self.cls[s['node']]]
                if type(event) is not cfg.events[kind]:
                    return False
                node = self.nodes[s['node']]
                if kind == 'modified':
                    return obj is node and (
                        f.op['k'] != 'aclear' or s['key'] not in
                        self.real_attrs(node))
                if not self.is_val(s['child'], obj):
                    return False
                if kind == 'added':
                    return (event.newParent is node
                            and event.newName == s['key'])
                return event.oldParent is node and event.oldName == s['key']
            s = f.take(kind, match)
            if s is not None:
                break
        else:
            due = [(s['kind'], s.get('key')) for s in f.steps[:2]]
            for a in ('newName', 'oldName'):
                where += ' %s=%r' % (a, getattr(event, a, None))
            raise Violation(
                'extra-event' if not f.steps else 'wrong-event',
                'operation %s notifies %s%s, due is %s' % (
                    f.op['k'], name, where, due))
        self.total += 1
        self.ctx.probe('events')
        if s['kind'] == 'detached':
            self.ctx.probe('detached')
        if len(self.frames) > 1:
            self.ctx.probe('nested')
        self.ctx.ev('event', len(self.frames), s['kind'], s.get('key'))
        if s['kind'] == 'created':
            s['apply'](obj)
        else:
            s['apply']()
        bad = self.compare()
        if bad:
            raise Violation('event-before-change', 'when %s of op %s is '
                            'notified, %s' % (s['kind'], f.op['k'], bad))
        try:
            self.ctx.gate('handler', s['kind'])
            self.react(f, s['kind'])
        except BaseException as e:
            f.error = e
            raise

    def react(self, f, kind):
        script = self.case['react'].get(kind)
        if not script or f.op['k'] == 'clear' or self.skip is not None or self.fuel <= 0 \
                or len(self.frames) > MAXDEPTH:
            return
        self.fuel -= 1
        for op in script:
            self.run(op, side=True)

    def during(self):
        """A storage that changes other nodes while it deletes."""
        if self.ctx.quiet or not self.frames:
            return
        f = self.frames[-1]
        op = f.op.get('during')
        if not op or f.op['k'] not in ('del', 'detach', 'pop') \
                or self.skip is not None or self.fuel <= 0:
            return
        self.fuel -= 1
        c = f.op['node'] % len(self.nodes)
        others = [i for i in range(len(self.nodes)) if i != c]
        if not others:
            return
        self.ctx.probe('during')
        op = dict(op, node=others[op['node'] % len(others)])
        self.skip = c
        try:
            self.run(op, side=True)
        except BaseException as e:
            # the deletion was done by then, the storage copes
            if not hasattr(e, 'sim_site') and not isinstance(
                    e, (KeyError, ValueError)):
                raise
        finally:
            self.skip = None

    # -- operations --------------------------------------------------------
    def run(self, op, side=False):
        """Run an operation and judge it; raises what it raised."""
        if op['k'] == 'new' and len(self.nodes) >= 8:
            return
        if not self.nodes and op['k'] != 'new':
            return
        plan = self.plan(op, side)
        if plan is None:
            return
        call, steps, refuse, free = plan
        f = Frame(op, steps, free)
        due = len(steps)
        self.frames.append(f)
        before = self.ctx.fired()
        err = None
        try:
            try:
                call()
            except BaseException as e:
                err = e
        finally:
            self.frames.pop()
        if err is not None and not isinstance(err, Exception) \
                and not hasattr(err, 'sim_site'):
            raise err
        fired = self.ctx.fired()
        self.ctx.ev('op', op['k'], type(err).__name__ if err else None)
        if err is None:
            if refuse:
                raise Violation('not-refused', 'op %s must fail' % op['k'])
            if f.error is not None:
                raise Violation(
                    'handler-error-lost', 'error %r of the handler does not '
                    'reach the caller of %s' % (f.error, op['k']))
            if f.steps:
                raise Violation(
                    'missing-event', 'op %s was successful but %d of %d '
                    'events were not notified: %s' % (
                        op['k'], len(f.steps), due,
                        [(s['kind'], s.get('key')) for s in f.steps]))
        else:
            if f.error is not None:
                if err is not f.error:
                    raise Violation(
                        'handler-error-lost', 'handler of %s raised %r, '
                        'caller gets %r' % (op['k'], f.error, err))
                self.ctx.probe('handler_failed')
            elif fired is not None and fired is not before:
                self.ctx.probe('storage_failed')
                if err is not fired and not (
                        type(fired) is KeyError):
                    raise Violation(
                        'error-changed', '%s failed with %r, caller gets %r'
                        % (op['k'], fired, err))
            elif refuse and isinstance(err, refuse):
                self.ctx.probe('refused')
            else:
                raise Violation(
                    'unexpected-error', 'op %s fails with %s: %s' % (
                        op['k'], type(err).__name__, err))
        bad = self.compare()
        if bad:
            raise Violation(
                'change-without-event' if err is None else
                'failure-not-clean', 'after op %s (%s, %d events), %s' % (
                    op['k'], type(err).__name__ if err else 'ok', f.events,
                    bad))
        if err is not None:
            raise err

    def plan(self, op, side):
        """-> call, steps, exceptions it must be refused with, any order."""
        k = op['k']
        if k == 'new':
            return self.plan_new(op)
        c = op['node'] % len(self.nodes)
        node = self.nodes[c]
        cfg = CLASSES[self.cls[c]]
        kids = self.kids[c]
        keys = SIDE if side else MANY if self.case.get('many') else KEYS
        key = keys[op['key'] % len(keys)]
        if k in ('del', 'detach', 'pop', 'popdefault') and op['key'] > 2:
            mine = [x for x in keys if x in kids]
            if mine:
                key = mine[op['key'] % len(mine)]
        if k == 'set' or k == 'setdefault':
            child = self.child(op, c, cfg)
            if child is None:
                return None
            if k == 'setdefault' and key in kids:
                return (lambda: node.setdefault(key, self.val(child))), \
                    [], None, False
            refuse = ValueError if child[0] == 'v' and cfg.strict else None
            steps = [] if refuse else [self.step_add(c, key, child)]
            if k == 'set':
                def call():
                    node[key] = self.val(child)
            else:
                def call():
                    node.setdefault(key, self.val(child))
            return call, steps, refuse, False
        if k in ('del', 'detach', 'pop', 'popdefault'):
            has = key in kids
            kind = 'detached' if k == 'detach' else 'removed'
            steps = [self.step_del(c, key, kind)] if has else []

            def call():
                if k == 'del':
                    del node[key]
                elif k == 'detach':
                    node.detach(key)
                elif k == 'pop':
                    node.pop(key)
                else:
                    node.pop(key, None)
            return call, steps, KeyError if not has and k != 'popdefault' \
                else None, False
        if k == 'popitem':
            if not kids:
                return node.popitem, [], KeyError, False
            return node.popitem, [self.step_del(c, x) for x in kids], None, \
                'one'
        if k == 'clear':
            return node.clear, [self.step_del(c, x) for x in kids], None, True
        if k == 'update':
            items = []
            steps = []
            for kk, o in zip(keys, op['many']):
                ch = self.child(o, c, cfg, [x[1] for x in items])
                if ch is not None and not (ch[0] == 'v' and cfg.strict):
                    items.append((kk, ch))
                    steps.append(self.step_add(c, kk, ch))
            return (lambda: node.update([(a, self.val(b)) for a, b in items])
                    ), steps, None, False
        if k == 'insert':
            if not cfg.order:
                return None
            child = self.child(dict(op, val=None), c, cfg)
            if child is None or child[0] != 'n':
                return None
            new = self.nodes[child[1]]
            if new.__name__ is None:
                new.__name__ = key
            name = new.__name__
            if name in kids:
                return None
            ref = sorted(x for x in kids if kids[x][0] == 'n')
            how = op['how']
            if how in ('before', 'after') and not ref:
                return None
            steps = [self.step_add(c, name, child)]

            def call():
                if how == 'first':
                    node.insertfirst(new)
                elif how == 'last':
                    node.insertlast(new)
                else:
                    r = self.nodes[kids[ref[op['key'] % len(ref)]][1]]
                    getattr(node, 'insert' + how)(new, r)
            if cfg.order and any(x[0] != 'n' for x in kids.values()):
                return None
            return call, steps, None, False
        # attributes
        if not cfg.attrs:
            return None
        at = self.attrs[c]
        value = op['value']
        key = ('x', 'y', 'z')[op['key'] % 3] if not side else 'side'
        if k in ('adel', 'apop') and op['key'] > 2 and not side and at:
            key = sorted(at)[op['key'] % len(at)]
        access = self.cls[c] == 'access'
        if k == 'aset':
            def call():
                if access and op['how'] == 'first':
                    setattr(node.attrs, key, value)
                else:
                    node.attrs[key] = value
            return call, [self.step_attr(c, key, value)], None, False
        if access and k not in ('adel', 'aupdate'):
            return None
        if k == 'adel':
            has = key in at

            def call():
                del node.attrs[key]
            return call, [self.step_attr(c, key, delete=True)] if has else [
                ], None if has else KeyError, False
        if k == 'apop':
            has = key in at
            return (lambda: node.attrs.pop(key)), [
                self.step_attr(c, key, delete=True)] if has else [], \
                None if has else KeyError, False
        if k == 'aupdate':
            if access:
                return None
            data = [(x, value) for x in (['x', 'y'] if not side
                                         else ['side'])]
            return (lambda: node.attrs.update(data)), [
                self.step_attr(c, a, b) for a, b in data], None, False
        if k == 'asetdefault':
            has = key in at
            return (lambda: node.attrs.setdefault(key, value)), [] if has \
                else [self.step_attr(c, key, value)], None, False
        if k == 'aclear':
            return (lambda: node.attrs.clear()), [
                self.step_attr(c, x, delete=True) for x in at], None, True
        raise RuntimeError(k)

    def plan_new(self, op):
        cname = op['cls']
        cfg = CLASSES[cname]

        def register(obj):
            self.keep.append(obj)
            self.nodes.append(obj)
            self.cls.append(cname)
            self.kids.append({})
            self.attrs.append({})
        step = {'kind': 'created', 'events': cfg.events, 'cls': cfg.cls,
                'apply': register}
        return (lambda: cfg.cls(op.get('name')) if op.get('pos') else
                cfg.cls(name=op.get('name'))), [step], None, False

    def child(self, op, c, cfg, taken=()):
        """A value that may be put below c."""
        if op.get('val') is not None:
            return ('v', op['val'])
        taken = list(taken)
        for f in self.frames:
            taken += [s.get('child') for s in f.steps]
        if any(t and t[0] == 'n' and self.below(c, t[1]) for t in taken):
            return None      # about to be moved by a running operation
        free = [i for i in range(len(self.nodes))
                if i != c and i not in self.where
                and not self.below(c, i) and ('n', i) not in taken]
        if cfg.reference:
            # no node may be twice in a tree
            free = [i for i in free if CLASSES[self.cls[i]].reference]
        if not free:
            return None
        return ('n', free[op['child'] % len(free)])

    # -- comparison --------------------------------------------------------
    def real_attrs(self, node):
        with Quiet(self.ctx):
            if node.nodespaces.get('__attrs__') is None:
                return {}
            a = node['__attrs__']
            return dict((k, a[k]) for k in a)

    def compare(self):
        with Quiet(self.ctx):
            for i, n in enumerate(self.nodes):
                if i == self.skip:
                    continue
                keys = list(n)
                want = self.kids[i]
                if sorted(keys) != sorted(want):
                    return 'node %d has %r, events say %r' % (
                        i, keys, list(want))
                for k in keys:
                    if not self.is_val(want[k], n[k]):
                        return 'node %d has another child at %r' % (i, k)
                    if want[k][0] == 'n' and CLASSES[self.cls[i]].adopts:
                        ch = n[k]
                        if ch.__parent__ is not n or ch.__name__ != k:
                            return 'child %r of node %d is not adopted' % (
                                k, i)
                if CLASSES[self.cls[i]].attrs:
                    real = self.real_attrs(n)
                    if real != self.attrs[i]:
                        return 'attributes of node %d are %r, events say ' \
                            '%r' % (i, real, self.attrs[i])
        return None


WEIGHTS = {'new': 1.5, 'set': 8, 'setdefault': 1.5, 'del': 3, 'detach': 5,
           'pop': 1, 'popdefault': 1, 'popitem': 0.7, 'clear': 0.6,
           'update': 1.5, 'insert': 3, 'aset': 5, 'adel': 2, 'apop': 0.7,
           'aupdate': 0.8, 'asetdefault': 0.7, 'aclear': 0.4}


class LifecycleScenario(object):
    name = 'lifecycle'
    weight = 1

    def op(self, rng, k=None):
        ks = sorted(WEIGHTS)
        k = k or rng.choices(ks, [WEIGHTS[x] for x in ks])[0]
        op = {'k': k}
        if k == 'new':
            op.update(cls=rng.choice(sorted(CLASSES)),
                      name=rng.choice([None, 'a', 'b', 'n1', 'n2']),
                      pos=rng.random() < 0.2)
            return op
        op.update(node=rng.choice([0, 0, 0, 1, 2, 3, 4]),
                  key=rng.randrange(12), child=rng.randrange(12),
                  how=rng.choice(['first', 'last', 'before', 'after']),
                  value=rng.choice([0, 1, None, '', 'x']),
                  val=rng.choice([None, None, None, None, 'text', 7]))
        if k == 'update':
            op['many'] = [{'child': rng.randrange(12), 'val': rng.choice(
                [None, None, 'text'])} for _ in range(rng.choice([1, 2, 3]))]
        return op

    def generate(self, rng, tier):
        ids = iter(range(10000))
        ops = []
        # some trees have many nodes
        many = rng.random() < 0.04
        cls = rng.choice(sorted(CLASSES))
        for i in range(16 if many else rng.choice([2, 3, 4, 6])):
            ops.append(dict(self.op(rng, 'new'), cls=cls if rng.random() < .6
                            else rng.choice(sorted(CLASSES))))
        n = rng.choice((6, 10, 16, 24) if tier == 'quick'
                       else (6, 10, 16, 24, 40))
        if many:
            n = 50
            for i in range(14):
                ops.append(dict(self.op(rng, 'set'), key=i, child=i + 1))
        for i in range(n):
            op = self.op(rng)
            if many:
                op['key'] = rng.randrange(20)
                op['child'] = rng.randrange(16)
            if op['k'] in ('del', 'detach', 'pop') and rng.random() < 0.3:
                op['during'] = self.op(rng, rng.choice(
                    ['set', 'aset', 'del', 'detach', 'adel']))
            ops.append(op)
        for op in ops:
            op['id'] = next(ids)
        react = {}
        if rng.random() < 0.5:
            for kind in sorted(DEFAULT):
                if rng.random() < 0.4:
                    react[kind] = [self.op(rng, rng.choice(
                        ['set', 'aset', 'del', 'detach', 'adel', 'aset',
                         'setdefault', 'insert', 'new']))
                        for _ in range(rng.choice([1, 1, 2]))]
        return {'ops': ops, 'react': react, 'many': many, 'faults': gen_faults(
            rng, [o['id'] for o in ops[1:]], kinds=CALL_FAULTS)}

    def execute(self, case, ctx):
        r = Run(ctx, case)
        CUR[0] = r
        try:
            for op in case['ops']:
                ctx.begin(op['id'])
                r.fuel = FUEL
                try:
                    r.run(op)
                except BaseException as e:
                    if not hasattr(e, 'sim_site') and not isinstance(
                            e, (KeyError, ValueError)):
                        raise
                finally:
                    ctx.end()
                ctx.state([(r.cls[i], sorted(r.kids[i]), sorted(r.attrs[i]))
                           for i in range(len(r.nodes))])
        finally:
            CUR[0] = None
        ctx.nontrivial = r.total > 3


SCENARIOS = [LifecycleScenario()]
