"""Executes operations on real node trees and compares with the model."""
import copy
import pickle
import uuid as uuidlib
from odict import odict
from sim import model as M
from sim.core import EndRun
from sim.core import HarnessError
from sim.core import Hang
from sim.core import Quiet
from sim.core import Violation
from sim.seam import gate
from sim.zoo import ZOO
from sim import zoo
from node.base import BaseNode
from node.locking import TreeLock
from node.utils import AttributeAccess
from node.utils import UNSET


class Fragile(object):
    """A value that may fail while it is copied."""

    def __init__(self, n):
        self.n = n

    def __reduce_ex__(self, protocol):
        gate('value.copy', self.n)
        return (Fragile, (self.n,))

    def __eq__(self, other):
        return isinstance(other, Fragile) and other.n == self.n

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return 'F%s' % self.n


class FalsyDict(dict):

    def __bool__(self):
        return False


class FalsyList(list):

    def __bool__(self):
        return False


class Source(object):
    """A mapping that is no dictionary."""

    def __init__(self, items):
        self.d = dict(items)

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()


class FakeNode(object):
    """Has a name but is no node."""

    def __init__(self, name):
        self.name = self.__name__ = name
        self.__parent__ = None
        self.uuid = uuidlib.UUID(int=4711)


class Mismatch(object):

    def __init__(self, area, h, msg):
        self.area = area
        self.h = h
        self.msg = msg


class OddDefault(object):
    """Equal to everything, False, not hashable."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False

    __hash__ = None


ODD = OddDefault()

CONTROL = (Violation, EndRun, Hang, HarnessError)
MISSING = object()


class World(object):

    def __init__(self, ctx, case, prop, areas):
        self.ctx = ctx
        self.case = case
        self.prop = prop
        self.areas = areas
        self.raw = case.get('raw', False)
        self.multi = case.get('multi', False)
        self.real = {}           # handle -> node
        self.handles = {}        # id(node) -> handle
        self.m = M.Model()
        self.baseline = {}
        self.uuids = set()
        self.attr_objs = {}
        self.keep = []           # keeps ids unique
        self.nfam = 0
        self.mutations = 0
        self.pending = []        # operations nobody looked at the result of

    # -- values --------------------------------------------------------------
    def val(self, v):
        if v[0] == 'n':
            return self.real[v[1]]
        if v[0] == 'F':
            return Fragile(v[1])
        if v[0] == 'U':
            return UNSET
        if v[0] == 'c':
            return BaseNode
        return copy.deepcopy(v[1])

    def same(self, v, obj):
        """Is obj the value v?"""
        if v[0] == 'n':
            return obj is self.real[v[1]]
        if v[0] == 'F':
            return isinstance(obj, Fragile) and obj.n == v[1]
        if v[0] == 'U':
            return obj is UNSET
        if v[0] == 'c':
            return obj is BaseNode
        return self.plain_same(obj, v[1])

    def default(self, op):
        return ODD if op['d'] == '__odd__' else op['d']

    def show(self, obj):
        h = self.handles.get(id(obj))
        if h is not None:
            return 'node %s' % h
        return '%s:%.60r' % (type(obj).__name__, obj) if isinstance(
            obj, (str, int, float, bool, list, type(None), tuple)) \
            else type(obj).__name__

    def register(self, h, node):
        self.real[h] = node
        self.handles[id(node)] = h
        self.keep.append(node)

    # -- verdicts --------------------------------------------------------------
    def fail(self, props, kind, msg):
        self.ctx.ev('FAIL', kind, sorted(props))
        if self.prop in props:
            raise Violation(kind, msg)
        raise EndRun('%s: %s' % (kind, msg))

    def area_props(self, mm, pred, failed):
        area, h = mm.area, mm.h
        res = set()
        if area in ('children', 'order', 'len'):
            if failed:
                res |= {'C06', 'C07'}
            else:
                res.add('C07')
                if h != pred.target:
                    res.add('C06')
            if pred.cat == 'order':
                res = {'C09'} | ({'C06'} if failed else set())
            if pred.cat in ('attr', 'space'):
                res.add('C13')
            if pred.cat == 'new':
                res.add('C07')
        elif area == 'ptr':
            res.add('C06')
            if pred.cat == 'order':
                res.add('C09')
            if pred.cat in ('attr', 'space'):
                res.add('C13')
        elif area in ('attrs', 'spaces'):
            res.add('C13')
        elif area in ('index', 'uuid'):
            res.add('C08')
            if pred.cat == 'order':
                res.add('C09')
        elif area == 'nav':
            res.add('C19')
        if pred.cat == 'copy':
            res.add('C16')
        t = self.m.nodes.get(pred.target)
        o = self.m.nodes.get(h)
        if t is not None and o is not None and t.fam != o.fam:
            res.add('C16')
        if pred.cat == 'lock':
            res.add('C16')
        return res

    # -- comparison ----------------------------------------------------------
    def compare(self, m, old=None):
        """First difference between reality and model m."""
        with Quiet(self.ctx):
            for h, n in m.nodes.items():
                node = self.real[h]
                mm = self.cmp_children(m, h, n, node)
                if mm:
                    return mm
            if 'ptr' in self.areas:
                for h, n in m.nodes.items():
                    mm = self.cmp_ptr(m, h, n, old)
                    if mm:
                        return mm
            if 'attrs' in self.areas:
                for h, n in m.nodes.items():
                    mm = self.cmp_attrs(m, h, n)
                    if mm:
                        return mm
            if 'index' in self.areas:
                mm = self.cmp_index(m)
                if mm:
                    return mm
        return None

    def cmp_children(self, m, h, n, node):
        want = n.kids
        try:
            keys = list(node)
            vals = [node[k] for k in keys]
            ln = len(node)
        except CONTROL:
            raise
        except BaseException as e:
            return Mismatch('children', h, 'reading node %s fails with %s: %s'
                            % (h, type(e).__name__, e))
        if n.f['ordered']:
            bad = keys != list(want)
        else:
            bad = len(keys) != len(want) or set(keys) != set(want)
        if bad:
            return Mismatch(
                'order' if sorted(map(str, keys)) == sorted(map(str, want))
                else 'children', h,
                'node %s has keys %r, should have %r' % (h, keys, list(want)))
        for k, v in zip(keys, vals):
            if not self.same(want[k], v):
                return Mismatch('children', h, 'node %s has %s at %r, should '
                                'have %s' % (h, self.show(v), k, want[k]))
        if ln != len(want):
            return Mismatch('children', h, 'len of node %s is %r, has %r' % (
                h, ln, keys))
        return None

    def cmp_ptr(self, m, h, n, old):
        node = self.real[h]
        name, parent = node.__name__, node.__parent__
        if node.name is not name and node.name != name \
                or node.parent is not parent:
            return Mismatch('ptr', h, 'name/parent of node %s are %r/%s, '
                            '__name__/__parent__ %r/%s' % (
                                h, node.name, self.show(node.parent), name,
                                self.show(parent)))
        if n.stale:
            if old is not None and h in old.nodes \
                    and old.nodes[h].stale == n.stale:
                bname, bparent = self.baseline[h]
                if name != bname or parent is not bparent:
                    return Mismatch(
                        'ptr', h, 'name and parent of node %s changed from '
                        '%r, %s to %r, %s' % (
                            h, bname, self.show(bparent), name,
                            self.show(parent)))
            return None
        if n.parent is None:
            want = None
        elif isinstance(n.parent, tuple):
            want = self.attr_objs.get(n.parent[1], MISSING)
            if want is MISSING:
                return None
        else:
            want = self.real[n.parent]
        if name != n.name or parent is not want:
            return Mismatch(
                'ptr', h, 'node %s has name %r and parent %s, should have %r '
                'and %s' % (h, name, self.show(parent), n.name,
                            self.show(want)))
        return None

    def cmp_attrs(self, m, h, n):
        if not n.f['spaces']:
            return None
        node = self.real[h]
        try:
            if n.f['attributes'] and n.attrs is not None:
                if not n.attrs and '__attrs__' not in node:
                    return Mismatch('attrs', h, 'attributes of node %s are '
                                    'not kept' % h)
                attrs = node.attrs
                if n.f['access']:
                    if not isinstance(attrs, AttributeAccess):
                        return Mismatch('attrs', h, 'attrs is no attribute '
                                        'access')
                    attrs = node['__attrs__']
                known = self.attr_objs.get(h)
                if known is None:
                    self.attr_objs[h] = attrs
                    self.keep.append(attrs)
                elif known is not attrs:
                    return Mismatch('attrs', h, 'attributes of node %s were '
                                    'created again' % h)
                if attrs.__parent__ is not node \
                        or attrs.__name__ != '__attrs__':
                    return Mismatch(
                        'attrs', h, 'attributes of node %s have parent %s '
                        'and name %r' % (h, self.show(attrs.__parent__),
                                         attrs.__name__))
                if node['__attrs__'] is not attrs:
                    return Mismatch('attrs', h, '__attrs__ of node %s is '
                                    'something else' % h)
                keys = list(attrs)
                if keys != list(n.attrs):
                    return Mismatch(
                        'attrs', h, 'attributes of node %s are %r, should '
                        'be %r' % (h, keys, list(n.attrs)))
                for k in keys:
                    if not self.same(n.attrs[k], attrs[k]):
                        return Mismatch(
                            'attrs', h, 'attribute %r of node %s is %s, '
                            'should be %s' % (k, h, self.show(attrs[k]),
                                              n.attrs[k]))
            for k, v in n.spaces.items():
                if node[k] is not self.real[v]:
                    return Mismatch('spaces', h, 'nodespace %s of node %s is '
                                    '%s' % (k, h, self.show(node[k])))
            for k in M.RESERVED:
                if k not in n.spaces and k in node:
                    return Mismatch('spaces', h, 'node %s has a nodespace %s: '
                                    '%s' % (h, k, self.show(node[k])))
        except CONTROL:
            raise
        except BaseException as e:
            return Mismatch('attrs', h, 'reading nodespaces of node %s fails '
                            'with %s: %s' % (h, type(e).__name__, e))
        if n.spaces or n.attrs is not None:
            try:
                if node['__children__'] is not node:
                    return Mismatch('spaces', h, '__children__ is not the '
                                    'node')
            except KeyError:
                return Mismatch('spaces', h, 'no __children__')
        return None

    def cmp_index(self, m):
        roots = {}
        for h, n in m.nodes.items():
            if not n.f['reference']:
                continue
            node = self.real[h]
            if node.uuid is None or node.uuid.int != n.uuid:
                return Mismatch('uuid', h, 'uuid of node %s is %r, should be '
                                '%r' % (h, node.uuid, n.uuid))
            r = m.ref_root(h)
            if r not in roots:
                roots[r] = m.ref_index(r)
            want = roots[r]
            index = node.index
            for u in self.uuids:
                uid = uuidlib.UUID(int=u)
                exp = want.get(u)
                exp = self.real[exp] if exp is not None else None
                try:
                    got = node.node(uid)
                    got2 = index.get(uid)
                    has = uid in index
                    try:
                        got3 = index[uid]
                    except KeyError:
                        got3 = None
                except CONTROL:
                    raise
                except BaseException as e:
                    return Mismatch('index', h, 'uuid lookup from node %s '
                                    'fails with %s: %s' % (
                                        h, type(e).__name__, e))
                if got is not exp or got2 is not exp or got3 is not exp \
                        or has != (exp is not None):
                    return Mismatch(
                        'index', h, 'from node %s: uuid %s is %s (index: %s, '
                        '%s, %s), should be %s' % (
                            h, self.whose(m, u), self.show(got),
                            self.show(got2), self.show(got3), has,
                            self.show(exp)))
        return None

    def whose(self, m, u):
        return 'of %s' % [h for h, n in m.nodes.items() if n.uuid == u]

    # -- adoption of a new state -----------------------------------------------
    def adopt(self, new):
        old = self.m
        with Quiet(self.ctx):
            for h, n in new.nodes.items():
                if n.stale and not (
                        h in old.nodes and old.nodes[h].stale == n.stale):
                    node = self.real[h]
                    self.baseline[h] = (node.__name__, node.__parent__)
                    self.keep.append(node.__parent__)
                    n.name = node.__name__
                    n.parent = self.handle_of(node.__parent__)
                if n.attrs is None:
                    self.attr_objs.pop(h, None)
        if new is not old:
            self.mutations += 1
        self.m = new

    def handle_of(self, node):
        """Handle of a parent, which may be the attributes of a node."""
        h = self.handles.get(id(node))
        if h is None and getattr(node, '__name__', None) == '__attrs__':
            h = self.handles.get(id(node.__parent__))
            if h is not None:
                return ('attrs', h)
        return h

    # -- execution -------------------------------------------------------------
    def call(self, op, fn):
        ctx = self.ctx
        ctx.begin(op['id'])
        try:
            res, exc = fn(), None
        except CONTROL:
            raise
        except BaseException as e:
            res, exc = None, e
        return res, exc, ctx.end()

    def run(self, op):
        if 'n' not in op and 'c' in op and not self.m.has(op['c']):
            return
        pred = M.predict(self.m, op, self.multi)
        if pred is None:
            return
        ctx = self.ctx
        fn = getattr(self, 'x_' + op['k'])
        if op['k'] in ('new', 'copy'):
            return fn(op, pred)
        act = fn(op)
        res, exc, fault = self.call(op, act)
        ctx.ev('op', op['id'], op['k'], type(exc).__name__,
               getattr(fault, 'sim_kind', None))
        props = self.cat_props(pred, op)
        failed = exc is not None
        where = 'op %s (%s %s)' % (op['id'], op['k'], op.get('m', ''))
        if fault is not None:
            ctx.nontrivial = True
            if fault.sim_kind == 'key':
                if exc is None:
                    if 'd' in op and self.plain_same(res, op['d']):
                        pass
                    else:
                        self.fail(props, 'swallowed', (
                            '%s: KeyError of %s disappeared, result %s' % (
                                where, fault.sim_site, self.show(res))))
                    failed = True
                elif not isinstance(exc, (KeyError, ValueError)):
                    self.fail(props, 'exception', '%s: raised %r for %r' % (
                        where, exc, fault))
            elif exc is None:
                self.fail(props, 'swallowed', (
                    '%s: %s at %s disappeared, result %s' % (
                        where, type(fault).__name__, fault.sim_site,
                        self.show(res))))
            elif exc is not fault and not (
                    fault.sim_kind == 'attribute'
                    and isinstance(exc, AttributeError)):
                # (AttributeError of a property makes Python ask __getattr__)
                self.fail(props, 'exception', (
                    '%s: raised %s: %s instead of the %s raised by %s' % (
                        where, type(exc).__name__, exc,
                        type(fault).__name__, fault.sim_site)))
            if pred.bulk:
                cands = list(pred.models)
                if op['k'] == 'clear':
                    cands = self.clear_candidates(op)
            else:
                cands = pred.models[:pred.pre]
                if pred.cat == 'order' and (
                        fault.sim_site == 'st.del' or pred.exc is not None) \
                        and self.compare(self.m, self.m) is not None:
                    # undoing a refused insertion failed as well
                    raise EndRun('undo failed')
        elif pred.exc is not None:
            if exc is None:
                self.fail(set(pred.refuse) | props, 'accepted', (
                    '%s was not refused, returned %s' % (
                        where, self.show(res))))
            if not isinstance(exc, pred.exc):
                self.fail(props, 'exception', '%s: raised %s: %s' % (
                    where, type(exc).__name__, exc))
            cands = pred.models[-1:]
            ctx.probe('refused')
        elif exc is not None:
            if not (pred.either and isinstance(exc, ValueError)):
                self.fail(props, 'unexpected', '%s failed with %s: %s' % (
                    where, type(exc).__name__, exc))
            cands = pred.models[-1:]
        else:
            cands = pred.models[-1:]
            msg, cands = self.check_result(op, pred, res, cands)
            if msg:
                self.fail(props, 'result', '%s: %s' % (where, msg))
        self.settle(op, pred, cands, failed)

    def settle(self, op, pred, cands, failed):
        if op.get('blind') and not failed and len(cands) == 1:
            # looking would refresh whatever the nodes remember
            self.adopt(cands[0])
            self.pending.append(pred)
            return
        first = None
        for m in reversed(cands):
            mm = self.compare(m, self.m)
            if mm is None:
                self.pending = []
                self.adopt(m)
                self.after(op, pred)
                return
            first = first or mm
        props = self.area_props(first, pred, failed)
        for p in self.pending:
            props |= self.area_props(first, p, False)
        self.fail(props,
                  ('changed-by-failure-' if failed else 'state-')
                  + first.area, 'after %s op %s (%s%s): %s' % (
                      'failed' if failed else 'successful', op['id'],
                      op['k'], ' ' + str(op.get('m', op.get('how', ''))),
                      first.msg))

    def look(self):
        """Compare if the last operations were not."""
        if self.pending:
            pred = self.pending.pop()
            self.settle({'id': 'last', 'k': pred.cat}, pred, [self.m], False)

    def after(self, op, pred):
        self.ctx.state([(n.cls, tuple(n.kids), n.parent, n.name)
                        for n in self.m.nodes.values()])
        if 'nav' in self.areas:
            self.check_nav(pred)

    def plain_same(self, res, d):
        if isinstance(d, str) and d == '__odd__':
            return res is ODD
        return type(res) is type(d) and res == d

    def cat_props(self, pred, op):
        if pred.cat == 'map':
            res = {'C07'}
            if op['k'] in ('set', 'update', 'setdefault', 'del', 'pop',
                           'popitem', 'detach', 'clear') \
                    and self.m.nodes[op['c']].f['reference']:
                res.add('C08')
            return res
        return {'order': {'C09'}, 'uuid': {'C08'}, 'attr': {'C13'},
                'space': {'C13'}, 'copy': {'C16'}, 'lock': {'C16'},
                'reset': set(), 'nav': {'C19'}}[pred.cat]

    def clear_candidates(self, op):
        m = self.m
        # the order of removal is up to the implementation
        with Quiet(self.ctx):
            left = list(self.real[op['c']])
        new = m.clone()
        for k in list(m.nodes[op['c']].kids):
            if k not in left:
                new.remove(op['c'], k)
        return [new]

    def check_result(self, op, pred, res, cands):
        want = pred.result
        if want is None:
            return None, cands
        kind = want[0]
        if kind == 'item':
            if not isinstance(res, tuple) or len(res) != 2:
                return 'popitem returned %r' % (res,), cands
            key, val = res
            if op['k'] == 'popitem' \
                    and not self.m.nodes[op['c']].f['ordered']:
                kids = self.m.nodes[op['c']].kids
                if key not in kids:
                    return 'popitem returned unknown key %r' % key, cands
                new = self.m.clone()
                new.remove(op['c'], key)
                cands = [new]
                want = ('item', key, kids[key])
            if key != want[1] or not self.same(want[2], val):
                return 'returned %r: %s, should be %r: %s' % (
                    key, self.show(val), want[1], want[2]), cands
            return None, cands
        if kind in ('keys', 'values', 'items'):
            ordered = op['k'] == 'attr' \
                or self.m.nodes[op['c']].f['ordered']
            if op.get('m') in ('keys', 'values', 'items') \
                    and not isinstance(res, list):
                res = list(res)
            if kind == 'keys':
                ok = res == want[1] if ordered else \
                    len(res) == len(want[1]) and set(res) == set(want[1])
            elif kind == 'items':
                w = dict(want[1])
                ok = len(res) == len(w) and all(
                    isinstance(x, tuple) and len(x) == 2 and x[0] in w
                    and self.same(w[x[0]], x[1]) for x in res) \
                    and len(set(x[0] for x in res)) == len(res)
                if ordered and ok:
                    ok = [x[0] for x in res] == [x[0] for x in want[1]]
            else:
                w = [v for k, v in want[1]]
                ok = len(res) == len(w)
                if ok and ordered:
                    ok = all(self.same(a, b) for a, b in zip(w, res))
                elif ok:
                    rest = list(res)
                    for v in w:
                        for i, r in enumerate(rest):
                            if self.same(v, r):
                                del rest[i]
                                break
                    ok = not rest
            if not ok:
                return 'returned %s, should be %s' % (
                    [self.show(x) if not isinstance(x, tuple) else
                     (x[0], self.show(x[1])) for x in res], want[1]), cands
            return None, cands
        if not self.same(want, res):
            return 'returned %s, should be %s' % (
                self.show(res), want), cands
        return None, cands

    # -- operations ------------------------------------------------------------
    def cls(self, name):
        c = ZOO[name]
        return c.raw if self.raw else c.sim

    def x_new(self, op, pred):
        cls = self.cls(op['cls'])
        res, exc, fault = self.call(
            op, (lambda: cls(op['name'])) if op.get('pos') else
            (lambda: cls(name=op['name'])))
        if exc is not None:
            if fault is None:
                raise exc
            if exc is not fault:
                self.fail({'C07'}, 'exception', 'creating a node: %r' % exc)
            return
        if fault is not None:
            self.fail({'C08'}, 'swallowed', 'creating a node: %r' % fault)
        h = op['id']
        self.register(h, res)
        n = pred.models[-1].nodes[h]
        n.uuid = None
        if n.f['reference'] or n.f['uuidaware']:
            n.uuid = res.uuid.int
            self.uuids.add(n.uuid)
        self.settle(op, pred, pred.models[-1:], False)

    def x_set(self, op):
        node, val = self.real[op['c']], self.val(op['v'])

        def act():
            node[op['key']] = val
        return act

    def x_del(self, op):
        node = self.real[op['c']]

        def act():
            del node[op['key']]
        return act

    def x_pop(self, op):
        node = self.real[op['c']]
        if 'd' in op:
            return lambda: node.pop(op['key'], self.default(op))
        return lambda: node.pop(op['key'])

    def x_detach(self, op):
        node = self.real[op['c']]
        return lambda: node.detach(op['key'])

    def x_popitem(self, op):
        return self.real[op['c']].popitem

    def x_clear(self, op):
        return self.real[op['c']].clear

    def x_setdefault(self, op):
        node, val = self.real[op['c']], self.val(op['v'])
        if op['v'] == ['p', None] and op.get('nodefault'):
            return lambda: node.setdefault(op['key'])
        return lambda: node.setdefault(op['key'], val)

    def x_update(self, op):
        node = self.real[op['c']]
        items = [(k, self.val(v)) for k, v in op['items']]
        style = op['style']
        if style == 'two':
            return lambda: node.update({}, {})
        if style == 'dict':
            d = dict(items)
            return lambda: node.update(d)
        if style == 'falsydict':
            d = FalsyDict(items)
            return lambda: node.update(d)
        if style == 'falsylist':
            d = FalsyList(items)
            return lambda: node.update(d)
        if style == 'mapping':
            d = Source(items)
            return lambda: node.update(d)
        if style == 'odict':
            d = odict(items)
            return lambda: node.update(d)
        if style == 'kw':
            d = dict(items)
            return lambda: node.update(**d)
        if style == 'mixed':
            half = len(items) // 2
            d = dict(items[half:])
            return lambda: node.update(items[:half], **d)
        if style == 'gen':
            def source():
                for k, v in items:
                    gate('source', k, True)
                    yield k, v
                gate('source', 'end', True)
            return lambda: node.update(source())
        return lambda: node.update(items)

    def x_read(self, op):
        node, m = self.real[op['c']], op['m']
        key = op.get('key')
        if m == 'getitem':
            return lambda: node[key]
        if m == 'get':
            if 'd' in op:
                return lambda: node.get(key, self.default(op))
            return lambda: node.get(key)
        if m == 'in':
            return lambda: key in node
        if m == 'has_key':
            return lambda: node.has_key(key)            # noqa
        if m == 'len':
            return lambda: len(node)
        if m == 'iter':
            return lambda: list(iter(node))
        if m in ('iterkeys', 'itervalues', 'iteritems'):
            return lambda: list(getattr(node, m)())
        return lambda: getattr(node, m)()

    def x_ins(self, op):
        node = self.real[op['c']]
        new = FakeNode(op['name']) if op['n'] == M.OWN else self.real[op['n']]
        meth = getattr(node, 'insert' + op['how'])
        if op['how'] in ('before', 'after'):
            ref = self.real[op['ref']]
            return lambda: meth(new, ref)
        return lambda: meth(new)

    def x_swap(self, op):
        node = self.real[op['c']]
        return lambda: node.swap(self.real[op['a']], self.real[op['b']])

    def x_uuid(self, op):
        node = self.real[op['n']]
        u = op['u']
        if isinstance(u, list):
            u = self.m.nodes[u[1]].uuid
        self.uuids.add(u)

        def act():
            node.uuid = uuidlib.UUID(int=u)
        return act

    def x_attr(self, op):
        node, meth = self.real[op['n']], op['m']
        key = op.get('key')
        access = self.m.nodes[op['n']].f['access']

        def attrs():
            a = node.attrs
            if access and not (op.get('aa') and meth in (
                    'set', 'getitem', 'del')):
                return object.__getattribute__(a, 'context')
            return a

        if meth == 'touch':
            return attrs
        if meth == 'reset':
            def act():
                del node['__attrs__']
            return act
        if meth == 'set':
            val = self.val(op['v'])

            def act():
                attrs()[key] = val
            return act
        if meth == 'setdefault':
            val = self.val(op['v'])
            return lambda: attrs().setdefault(key, val)
        if meth == 'del':
            def act():
                del attrs()[key]
            return act
        if meth == 'getitem':
            return lambda: attrs()[key]
        if meth == 'append':
            def act():
                attrs()[key].append(7)
            return act
        if meth == 'get':
            return lambda: attrs().get(key, op.get('d'))
        if meth == 'pop':
            if 'd' in op:
                return lambda: attrs().pop(key, self.default(op))
            return lambda: attrs().pop(key)
        if meth == 'popitem':
            return lambda: attrs().popitem()
        if meth == 'items':
            return lambda: attrs().items()
        if meth == 'clear':
            return lambda: attrs().clear()
        items = [(k, self.val(v)) for k, v in op['items']]
        return lambda: attrs().update(items)

    def x_space(self, op):
        node, meth, key = self.real[op['n']], op['m'], op['key']
        if meth == 'set':
            val = self.val(op['v'])

            def act():
                node[key] = val
            return act
        if meth == 'get':
            return lambda: node[key]
        if meth == 'in':
            return lambda: key in node
        if meth == 'pop':
            return lambda: node.pop(key)

        def act():
            del node[key]
        return act

    def x_reset(self, op):
        node = self.real[op['n']]

        def act():
            node.__parent__ = None
        return act

    def x_lock(self, op):
        node = self.real[op['n']]

        def act():
            with TreeLock(node):
                pass
        return act

    def x_walk(self, op):
        from sim.nav import chain
        from sim.nav import check_node
        h = op['n']
        ch = chain(self, h)
        if ch is None:
            return lambda: None
        return lambda: check_node(self, h, ch)

    def x_nav(self, op):
        return lambda: None

    # -- copies ----------------------------------------------------------------
    def x_copy(self, op, pred):
        h, how = op['n'], op['how']
        node = self.real[h]
        if how == 'copy':
            fn = node.copy
        elif how == 'copymod':
            def fn():
                return copy.copy(node)
        elif how == 'deepcopy':
            fn = node.deepcopy
        elif how == 'deepcopymod':
            def fn():
                return copy.deepcopy(node)
        else:
            def fn():
                return pickle.loads(pickle.dumps(node, op['proto']))
        res, exc, fault = self.call(op, fn)
        self.ctx.ev('op', op['id'], 'copy', how, type(exc).__name__,
                    getattr(fault, 'sim_kind', None))
        where = 'op %s (%s of node %s)' % (op['id'], how, h)
        n = self.m.nodes[h]
        if fault is not None:
            self.ctx.nontrivial = True
            self.ctx.probe('copy_failed')
            if exc is not fault:
                self.fail({'C16'}, 'swallowed', '%s: %r at %s, got %r' % (
                    where, fault, fault.sim_site, exc))
        elif how == 'copy' and n.f['uuidaware']:
            if not isinstance(exc, RuntimeError):
                self.fail({'C16'}, 'result', '%s should be refused' % where)
        elif exc is not None:
            self.fail({'C16'}, 'unexpected', '%s failed with %s: %s' % (
                where, type(exc).__name__, exc))
        elif how in ('copy', 'copymod'):
            self.check_shallow(op, h, n, node, res, where)
        else:
            self.ctx.probe('deep_copies')
            self.check_deep(op, h, res, where)
        self.settle(op, pred, [self.m], exc is not None)

    def bad_copy(self, where, msg):
        self.fail({'C16'}, 'copy', '%s: %s' % (where, msg))

    def check_shallow(self, op, h, n, node, res, where):
        with Quiet(self.ctx):
            if res is node or type(res) is not type(node):
                self.bad_copy(where, 'is %r' % type(res))
            if res.__name__ != node.__name__ \
                    or res.__parent__ is not node.__parent__:
                self.bad_copy(where, 'name or parent differ: %r, %s' % (
                    res.__name__, self.show(res.__parent__)))
            try:
                items = list(res.items())
            except CONTROL:
                raise
            except BaseException as e:
                self.bad_copy(where, 'reading fails with %r' % e)
            want = [(k, node[k]) for k in node]
            if [k for k, v in items] != [k for k, v in want] or any(
                    a[1] is not b[1] for a, b in zip(items, want)):
                self.bad_copy(where, 'children %r' % [k for k, v in items])
            self.keep.append(res)

    def check_deep(self, op, h, res, where):
        """Walk original and copy together."""
        m = self.m
        pairs = {}
        fam = self.nfam = self.nfam + 1
        new = m.clone()
        with Quiet(self.ctx):
            todo = [(h, res)]
            while todo:
                oh, c = todo.pop()
                if oh in pairs:
                    if pairs[oh] is not c:
                        self.bad_copy(where, 'node %s was copied twice' % oh)
                    continue
                node, n = self.real[oh], m.nodes[oh]
                if id(c) in self.handles:
                    self.bad_copy(where, 'shares node %s with the original'
                                  % self.handles[id(c)])
                if type(c) is not type(node):
                    self.bad_copy(where, 'copy of node %s is a %s' % (
                        oh, type(c).__name__))
                if any(p is c for p in pairs.values()):
                    self.bad_copy(where, 'two nodes have the same copy')
                pairs[oh] = c
                if c.__name__ != node.__name__:
                    self.bad_copy(where, 'copy of %r is named %r' % (
                        node.__name__, c.__name__))
                try:
                    keys = list(c)
                    if keys != list(node):
                        self.bad_copy(where, 'copy of node %s has keys %r, '
                                      'should have %r' % (
                                          oh, keys, list(node)))
                    for k in keys:
                        v = n.kids[k]
                        if v[0] == 'n':
                            todo.append((v[1], c[k]))
                        elif not self.same(v, c[k]):
                            self.bad_copy(where, 'value at %r' % k)
                    if n.f['spaces']:
                        self.walk_spaces(m, oh, n, node, c, where, todo)
                except CONTROL:
                    raise
                except BaseException as e:
                    self.bad_copy(where, 'reading the copy of node %s fails '
                                  'with %s: %s' % (oh, type(e).__name__, e))
                p = node.__parent__
                if p is None:
                    if c.__parent__ is not None:
                        self.bad_copy(where, 'parent of copy is %s' %
                                      self.show(c.__parent__))
                    continue
                ph = self.handles.get(id(p))
                if ph is not None:
                    todo.append((ph, c.__parent__))
                elif isinstance(n.parent, tuple) and not n.stale:
                    todo.append((n.parent[1], c.__parent__.__parent__))
                elif c.__parent__ is p:
                    self.bad_copy(where, 'shares the parent of node %s' % oh)
            handles = {}
            base = 1000 * fam + 1000
            for i, oh in enumerate(sorted(pairs)):
                handles[oh] = base + i
            for oh, c in pairs.items():
                n = new.nodes[oh].clone()
                n.h = handles[oh]
                n.fam = fam
                n.parent = self.mapped_parent(n.parent, handles)
                n.kids = {k: self.mapped(v, handles)
                          for k, v in n.kids.items()}
                if n.attrs is not None:
                    n.attrs = {k: self.mapped(v, handles)
                               for k, v in n.attrs.items()}
                n.spaces = {k: handles[v] for k, v in n.spaces.items()}
                self.register(n.h, c)
                if n.stale:
                    self.baseline[n.h] = (c.__name__, c.__parent__)
                new.nodes[n.h] = n
            # a stale node keeps its flag: already known as stale
            self.check_copy_uuids(op, m, h, pairs, new, handles, where)
        old = self.m
        self.m = new
        mm = self.compare(new, new)
        if mm is not None:
            self.m = old
            self.fail({'C16'}, 'copy', '%s: %s (node %s is the copy of %s)' % (
                where, mm.msg, mm.h, [
                    o for o, x in handles.items() if x == mm.h]))
        self.adopt(new)

    def mapped(self, v, handles):
        return ['n', handles[v[1]]] if v[0] == 'n' else copy.deepcopy(v)

    def mapped_parent(self, p, handles):
        if isinstance(p, tuple):
            return ('attrs', handles[p[1]]) if p[1] in handles else p
        return handles.get(p, p)

    def walk_spaces(self, m, oh, n, node, c, where, todo):
        for k, v in n.spaces.items():
            todo.append((v, c[k]))
        if n.spaces or n.attrs is not None:
            if c['__children__'] is not c:
                self.bad_copy(where, '__children__ of the copy is %s' %
                              self.show(c['__children__']))
        if not n.f['attributes'] or n.attrs is None:
            return
        a, ca = node['__attrs__'], c['__attrs__']
        if ca is a or type(ca) is not type(a):
            self.bad_copy(where, 'attributes are shared')
        if ca.__parent__ is not c:
            self.bad_copy(where, 'attributes of the copy of node %s belong '
                          'to %s' % (oh, self.show(ca.__parent__)))
        if list(ca) != list(a):
            self.bad_copy(where, 'attributes of the copy are %r' % list(ca))
        for k, v in n.attrs.items():
            if v[0] == 'n':
                todo.append((v[1], ca[k]))
            elif not self.same(v, ca[k]):
                self.bad_copy(where, 'attribute %r' % k)
            elif isinstance(ca[k], (list, Fragile)) and ca[k] is a[k]:
                self.bad_copy(where, 'attribute value %r is shared' % k)

    def check_copy_uuids(self, op, m, h, pairs, new, handles, where):
        renew = set()
        top = m.nodes[h]
        if op['how'] == 'deepcopy' and top.f['uuidaware']:
            renew = {h}
            if top.f['recursive_uuid']:
                renew = set(x for x in m.subtree(h)
                            if m.nodes[x].f['uuidaware'])
        seen = set()
        for oh, c in pairs.items():
            n = m.nodes[oh]
            if not (n.f['reference'] or n.f['uuidaware']):
                continue
            u = c.uuid.int if c.uuid is not None else None
            if self.real[oh].uuid is None \
                    or self.real[oh].uuid.int != n.uuid:
                self.bad_copy(where, 'uuid of original node %s changed' % oh)
            if oh in renew:
                if u is None or u in self.uuids:
                    self.bad_copy(where, 'copy of node %s has no new uuid'
                                  % oh)
                if u in seen:
                    self.bad_copy(where, 'uuid is not unique in the copy')
                seen.add(u)
            elif n.f['reference'] and u != n.uuid:
                self.bad_copy(where, 'uuid of the copy of node %s' % oh)
            elif u != n.uuid and n.f['uuidaware'] \
                    and op['how'] == 'deepcopy':
                # allowed to be renewed too if it is unique
                if u in self.uuids:
                    self.bad_copy(where, 'uuid of the copy of node %s' % oh)
            new.nodes[handles[oh]].uuid = u
        for oh in pairs:
            u = new.nodes[handles[oh]].uuid
            if u is not None:
                self.uuids.add(u)

    # -- navigation ------------------------------------------------------------
    def check_nav(self, pred):
        from sim.nav import check
        with Quiet(self.ctx):
            msg = check(self)
        if msg:
            self.fail({'C19'}, 'navigation', msg)
