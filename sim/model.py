"""Reference model of node trees: plain data, no code under test.

``predict(model, op)`` says what an operation has to do: the sequence of
models the operation goes through (all of them for bulk operations, before and
after for the others), the result and the exceptions that are to be raised.
"""
from sim.zoo_facts import FACTS

OWN = '__own__'
_epoch = [0]


def stale():
    """Pointers are unspecified from here on: a new mark every time."""
    _epoch[0] += 1
    return _epoch[0]


class MNode(object):
    __slots__ = ('h', 'cls', 'kids', 'name', 'parent', 'attrs', 'attr_order',
                 'spaces', 'uuid', 'fam', 'stale')

    def __init__(self, h, cls, name, uuid=None, fam=0):
        self.h = h
        self.cls = cls
        self.kids = {}
        self.name = name
        self.parent = None       # handle, or None
        self.stale = False       # pointers are whatever they are
        self.attrs = None        # not created yet
        self.spaces = {}
        self.uuid = uuid
        self.fam = fam

    def clone(self):
        n = MNode(self.h, self.cls, self.name, self.uuid, self.fam)
        n.kids = dict(self.kids)
        n.parent = self.parent
        n.stale = self.stale
        n.attrs = None if self.attrs is None else dict(self.attrs)
        n.spaces = dict(self.spaces)
        return n

    @property
    def f(self):
        return FACTS[self.cls]


class Model(object):

    def __init__(self):
        self.nodes = {}

    def clone(self):
        m = Model()
        m.nodes = {h: n.clone() for h, n in self.nodes.items()}
        return m

    def has(self, h):
        return h in self.nodes

    # -- structure ---------------------------------------------------------
    def containers(self, h):
        """All (kind, container, key) places that hold node h."""
        res = []
        for n in self.nodes.values():
            for k, v in n.kids.items():
                if v == ['n', h]:
                    res.append(('kid', n.h, k))
            if n.attrs:
                for k, v in n.attrs.items():
                    if v == ['n', h]:
                        res.append(('attr', n.h, k))
            for k, v in n.spaces.items():
                if v == h:
                    res.append(('space', n.h, k))
        return res

    def below(self, h, seen=None):
        """h and everything reachable below it."""
        seen = set() if seen is None else seen
        if h in seen:
            return seen
        seen.add(h)
        n = self.nodes[h]
        for v in list(n.kids.values()) + list((n.attrs or {}).values()):
            if v[0] == 'n':
                self.below(v[1], seen)
        for v in n.spaces.values():
            self.below(v, seen)
        return seen

    def ancestors(self, h):
        """Following pointers, also those removed nodes are left with."""
        res = set()
        while h is not None and h not in res:
            res.add(h)
            n = self.nodes.get(h)
            if n is None:
                break
            h = n.parent[1] if isinstance(n.parent, tuple) else n.parent
        return res

    def kid_handles(self, h):
        return [v[1] for v in self.nodes[h].kids.values() if v[0] == 'n']

    def subtree(self, h):
        res = [h]
        for k in self.kid_handles(h):
            res.extend(self.subtree(k))
        return res

    def container(self, h):
        for kind, c, k in self.containers(h):
            if kind == 'kid':
                return c
        return None

    def top(self, h):
        while True:
            c = self.container(h)
            if c is None:
                return h
            h = c

    # -- reference trees ----------------------------------------------------
    def ref_root(self, h):
        while True:
            c = self.container(h)
            if c is None or not self.nodes[c].f['reference']:
                return h
            h = c

    def ref_index(self, h):
        """uuid -> handle of h and all referencing nodes below."""
        n = self.nodes[h]
        if not n.f['reference']:
            return {}
        res = {n.uuid: h}
        for k in self.kid_handles(h):
            res.update(self.ref_index(k))
        return res

    # -- primitive changes ----------------------------------------------------
    def _left(self, c, key, val):
        if val is not None and val[0] == 'n':
            n = self.nodes[val[1]]
            if n.parent == c and n.name == key:
                n.stale = stale()

    def put(self, c, key, val):
        n = self.nodes[c]
        old = n.kids.get(key)
        if old is not None and old != val:
            self._left(c, key, old)
        n.kids[key] = val
        if val[0] == 'n':
            v = self.nodes[val[1]]
            v.name = key
            v.parent = c
            v.stale = False

    def remove(self, c, key):
        self._left(c, key, self.nodes[c].kids.pop(key))

    def order(self, c, keys):
        n = self.nodes[c]
        n.kids = {k: n.kids[k] for k in keys}


class Pred(object):
    """What an operation is expected to do."""

    def __init__(self, models, exc=None, result=None, bulk=False,
                 either=False, cat='map', refuse=(), target=None, pre=1):
        self.models = models
        self.exc = exc            # exception types to be raised, or None
        self.result = result      # expected value ('v', ..) or None
        self.bulk = bulk
        self.either = either      # may also be refused, same state
        self.cat = cat            # map | order | attr | space | uuid | copy
        self.refuse = refuse      # properties the refusal belongs to
        self.target = target
        self.pre = pre            # models possible if it fails


ANY = (Exception,)


def occupied(m, c, key, val, multi):
    """May node val not be put at (c, key) at all?"""
    h = val[1]
    if c == h or c in m.below(h) or h in m.ancestors(c):
        return True
    for kind, pc, pk in m.containers(h):
        if (kind, pc, pk) == ('kid', c, key):
            continue
        if not multi or kind != 'kid' or m.nodes[h].f['reference']:
            return True
    return False


def refused(m, c, key, val):
    """(exception types, properties) if the container must refuse val."""
    n = m.nodes[c]
    if val[0] != 'n':
        if n.f['strict']:
            return (ValueError,), ('C06',)
        return None
    if n.f['reference']:
        v = m.nodes[val[1]]
        if not v.f['reference']:
            return ANY, ()
        index = m.ref_index(m.ref_root(c))
        old = n.kids.get(key)
        gone = {}
        if old is not None and old[0] == 'n' and old != val:
            gone = m.ref_index(old[1])
        for u, h in m.ref_index(val[1]).items():
            if u in index and u not in gone and index[u] != h:
                return ANY, ('C08',)
    return None


def same_subtree(m, c, key, val):
    """Referencing node is set again under its own key."""
    return (val[0] == 'n' and m.nodes[c].kids.get(key) == val
            and m.nodes[c].f['reference'])


def predict(m, op, multi=False):
    """Returns a Pred, or None: the operation makes no sense now."""
    fn = globals()['p_' + op['k']]
    return fn(m, op, multi)


def _val_ok(m, val):
    return val[0] != 'n' or m.has(val[1])


def p_set(m, op, multi):
    c, key, val = op['c'], op['key'], op['v']
    if not m.has(c) or not _val_ok(m, val):
        return None
    if val[0] == 'n' and occupied(m, c, key, val, multi):
        return None
    r = refused(m, c, key, val)
    if r:
        return Pred([m], exc=r[0], refuse=r[1], target=c)
    new = m.clone()
    new.put(c, key, val)
    return Pred([m, new], target=c,
                either=same_subtree(m, c, key, val))


def p_del(m, op, multi):
    c, key = op['c'], op['key']
    if not m.has(c):
        return None
    if key not in m.nodes[c].kids:
        return Pred([m], exc=(KeyError,), refuse=('C07',), target=c)
    new = m.clone()
    new.remove(c, key)
    return Pred([m, new], target=c)


def p_pop(m, op, multi):
    c, key = op['c'], op['key']
    if not m.has(c):
        return None
    kids = m.nodes[c].kids
    if key not in kids:
        if 'd' in op:
            return Pred([m], result=('p', op['d']), target=c)
        return Pred([m], exc=(KeyError,), refuse=('C07',), target=c)
    new = m.clone()
    new.remove(c, key)
    return Pred([m, new], result=tuple(kids[key]), target=c)


def p_detach(m, op, multi):
    c, key = op['c'], op['key']
    if not m.has(c):
        return None
    kids = m.nodes[c].kids
    if key not in kids:
        return Pred([m], exc=(KeyError,), refuse=('C07',), target=c)
    new = m.clone()
    new.remove(c, key)
    return Pred([m, new], result=tuple(kids[key]), target=c)


def p_popitem(m, op, multi):
    c = op['c']
    if not m.has(c):
        return None
    kids = m.nodes[c].kids
    if not kids:
        return Pred([m], exc=(KeyError,), refuse=('C07',), target=c)
    key = list(kids)[-1]
    new = m.clone()
    new.remove(c, key)
    return Pred([m, new], result=('item', key, kids[key]), target=c)


def p_clear(m, op, multi):
    c = op['c']
    if not m.has(c):
        return None
    models = [m]
    for key in m.nodes[c].kids:
        new = models[-1].clone()
        new.remove(c, key)
        models.append(new)
    return Pred(models, bulk=True, target=c)


def p_setdefault(m, op, multi):
    c, key, val = op['c'], op['key'], op['v']
    if not m.has(c) or not _val_ok(m, val):
        return None
    kids = m.nodes[c].kids
    if key in kids:
        return Pred([m], result=tuple(kids[key]), target=c)
    if val[0] == 'n' and occupied(m, c, key, val, multi):
        return None
    r = refused(m, c, key, val)
    if r:
        return Pred([m], exc=r[0], refuse=r[1], target=c)
    new = m.clone()
    new.put(c, key, val)
    return Pred([m, new], result=tuple(val), target=c)


def p_update(m, op, multi):
    c = op['c']
    if not m.has(c):
        return None
    if not all(_val_ok(m, v) for k, v in op['items']):
        return None
    if op['style'] == 'two':
        return Pred([m], exc=(TypeError,), refuse=('C07',), target=c)
    models = [m]
    items = op['items']
    if op['style'] in ('dict', 'odict', 'kw', 'node', 'falsydict', 'mapping'):
        d = {}
        for k, v in items:
            d[k] = v
        items = list(d.items())
    elif op['style'] == 'mixed':
        # the second half is given as keyword arguments
        half = len(items) // 2
        items = items[:half] + list(dict(
            (k, v) for k, v in items[half:]).items())
    for key, val in items:
        cur = models[-1]
        if val[0] == 'n' and occupied(cur, c, key, val, multi):
            return None
        if same_subtree(cur, c, key, val):
            return None
        r = refused(cur, c, key, val)
        if r:
            return Pred(models, exc=r[0], refuse=r[1], bulk=True, target=c)
        new = cur.clone()
        new.put(c, key, val)
        models.append(new)
    return Pred(models, bulk=True, target=c)


def p_read(m, op, multi):
    c, meth = op['c'], op['m']
    if not m.has(c):
        return None
    kids = m.nodes[c].kids
    key = op.get('key')
    if meth == 'getitem':
        if key not in kids:
            return Pred([m], exc=(KeyError,), refuse=('C07',), target=c)
        return Pred([m], result=tuple(kids[key]), target=c)
    if meth == 'get':
        if key not in kids:
            return Pred([m], result=('p', op.get('d')), target=c)
        return Pred([m], result=tuple(kids[key]), target=c)
    if meth in ('in', 'has_key'):
        return Pred([m], result=('p', key in kids), target=c)
    if meth == 'len':
        return Pred([m], result=('p', len(kids)), target=c)
    if meth in ('iter', 'keys', 'iterkeys'):
        return Pred([m], result=('keys', list(kids)), target=c)
    if meth in ('values', 'itervalues'):
        return Pred([m], result=('values', list(kids.items())), target=c)
    return Pred([m], result=('items', list(kids.items())), target=c)


# -- order -------------------------------------------------------------------

def consistent(m, c, h):
    """h is a child of c under its own name."""
    n = m.nodes[h]
    return not n.stale and n.parent == c \
        and m.nodes[c].kids.get(n.name) == ['n', h]


def p_ins(m, op, multi):
    c, n, ref, how = op['c'], op['n'], op.get('ref'), op['how']
    if not m.has(c) or not m.nodes[c].f['order']:
        return None
    if how in ('before', 'after') and not m.has(ref):
        return None
    cn = m.nodes[c]
    kids = list(cn.kids)
    if n == OWN:
        # not a node
        name = op['name']
        if name in kids or not cn.f['strict']:
            return None
        if how in ('before', 'after') and not consistent(m, c, ref):
            return None
        return Pred([m], exc=ANY, refuse=('C06', 'C09'), cat='order',
                    target=c)
    if not m.has(n):
        return None
    nn = m.nodes[n]
    name = nn.name
    if name is not None and (not isinstance(name, str)
                             or name.startswith('__')):
        return None
    exc = None
    placed = m.containers(n)
    if name is None:
        exc = ('C09',)
    elif name in kids:
        exc = ('C09',)
    if cn.f['reference']:
        if not nn.f['reference']:
            # has no uuid
            return None
        index = m.ref_index(m.ref_root(c))
        if nn.uuid in index:
            exc = ('C09', 'C08')
        elif any(u in index for u in m.ref_index(n)):
            exc = exc or ('C09', 'C08')
    if how in ('before', 'after'):
        rn = m.nodes[ref]
        if consistent(m, c, ref):
            pass
        elif rn.name is None or rn.name not in kids:
            exc = exc or ('C09',)
        else:
            return None      # another node of the name of a child
        if n == ref and not exc:
            return None
    elif kids:
        first = cn.kids[kids[0] if how == 'first' else kids[-1]]
        if first[0] != 'n' or not consistent(m, c, first[1]) \
                or list(cn.kids.values()).count(first) > 1:
            return None
        rn = m.nodes[first[1]]
    if exc:
        return Pred([m], exc=ANY, refuse=exc, cat='order', target=c)
    if placed or c in m.below(n) or n in m.ancestors(c):
        return None
    new = m.clone()
    new.put(c, name, ['n', n])
    if how == 'first':
        keys = [name] + kids
    elif how == 'last':
        keys = kids + [name]
    else:
        i = kids.index(rn.name) + (how == 'after')
        keys = kids[:i] + [name] + kids[i:]
    new.order(c, keys)
    return Pred([m, new], cat='order', target=c)


def p_swap(m, op, multi):
    c, a, b = op['c'], op['a'], op['b']
    if not (m.has(c) and m.has(a) and m.has(b)):
        return None
    cn = m.nodes[c]
    if not cn.f['order']:
        return None
    kids = list(cn.kids)
    for h in (a, b):
        if not consistent(m, c, h) and m.nodes[h].name in kids:
            return None
    if a == b or not consistent(m, c, a) or not consistent(m, c, b):
        return Pred([m], exc=ANY, refuse=('C09',), cat='order', target=c)
    na, nb = m.nodes[a].name, m.nodes[b].name
    keys = [nb if k == na else na if k == nb else k for k in kids]
    new = m.clone()
    new.order(c, keys)
    return Pred([m, new], cat='order', target=c)


# -- uuid ----------------------------------------------------------------------

def p_uuid(m, op, multi):
    h = op['n']
    if not m.has(h) or not m.nodes[h].f['reference']:
        return None
    u = op['u']
    if isinstance(u, list):
        if not m.has(u[1]) or not m.nodes[u[1]].f['reference']:
            return None
        u = m.nodes[u[1]].uuid
    index = m.ref_index(m.ref_root(h))
    if index.get(u, h) != h:
        return Pred([m], exc=ANY, refuse=('C08',), cat='uuid', target=h)
    new = m.clone()
    new.nodes[h].uuid = u
    return Pred([m, new], cat='uuid', target=h)


# -- attributes and nodespaces -----------------------------------------------

def p_attr(m, op, multi):
    h, meth = op['n'], op['m']
    if not m.has(h) or not m.nodes[h].f['attributes']:
        return None
    n = m.nodes[h]
    key = op.get('key')
    val = op.get('v')
    kw = {'cat': 'attr', 'target': h}
    if meth == 'reset':
        # deleting the nodespace
        if n.attrs is None:
            return Pred([m], exc=(KeyError,), refuse=('C13',), **kw)
        new = m.clone()
        for v in n.attrs.values():
            if v[0] == 'n':
                return None
        new.nodes[h].attrs = None
        return Pred([m, new], **kw)
    base = m
    if n.attrs is None:
        base = m.clone()
        base.nodes[h].attrs = {}
    attrs = base.nodes[h].attrs
    pre = [m] if base is m else [m, base]
    kw['pre'] = len(pre)
    if meth == 'touch':
        return Pred(pre, **kw)
    if val is not None and val[0] == 'n':
        if not m.has(val[1]) or occupied_attr(m, h, key, val):
            return None
    if meth in ('get', 'del', 'pop', 'getitem', 'append'):
        if key not in attrs:
            if meth == 'append':
                return None
            if meth == 'get':
                return Pred(pre, result=('p', op.get('d')), **kw)
            if meth == 'pop' and 'd' in op:
                return Pred(pre, result=('p', op['d']), **kw)
            return Pred(pre, exc=(KeyError,), refuse=('C13',), **kw)
        if meth in ('get', 'getitem'):
            return Pred(pre, result=tuple(attrs[key]), **kw)
        new = base.clone()
        if meth == 'append':
            if attrs[key][0] != 'p' or not isinstance(attrs[key][1], list):
                return None
            new.nodes[h].attrs[key] = ['p', attrs[key][1] + [7]]
            return Pred(pre + [new], **kw)
        v = new.nodes[h].attrs.pop(key)
        if v[0] == 'n':
            new.nodes[v[1]].stale = stale()
        if meth == 'pop':
            return Pred(pre + [new], result=tuple(attrs[key]), **kw)
        return Pred(pre + [new], **kw)
    if meth in ('set', 'setdefault'):
        if meth == 'setdefault' and key in attrs:
            return Pred(pre, result=tuple(attrs[key]), **kw)
        new = base.clone()
        put_attr(new, h, key, val)
        return Pred(pre + [new],
                    result=tuple(val) if meth == 'setdefault' else None, **kw)
    if meth == 'update':
        models = list(pre)
        for k, v in op['items']:
            if v[0] == 'n':
                return None
            new = models[-1].clone()
            put_attr(new, h, k, v)
            models.append(new)
        return Pred(models, bulk=True, **kw)
    if meth == 'clear':
        models = list(pre)
        # the order of removal is up to the implementation
        for keys in (list(attrs)[::-1], list(attrs)):
            new = pre[-1]
            for k in keys:
                new = new.clone()
                v = new.nodes[h].attrs.pop(k)
                if v[0] == 'n':
                    new.nodes[v[1]].stale = stale()
                models.append(new)
        return Pred(models, bulk=True, **kw)
    if meth == 'items':
        return Pred(pre, result=('items', list(attrs.items())), **kw)
    if meth == 'popitem':
        if not attrs:
            return Pred(pre, exc=(KeyError,), refuse=('C13',), **kw)
        k = list(attrs)[-1]
        new = base.clone()
        v = new.nodes[h].attrs.pop(k)
        if v[0] == 'n':
            new.nodes[v[1]].stale = stale()
        return Pred(pre + [new], result=('item', k, v), **kw)
    raise KeyError(meth)


def occupied_attr(m, h, key, val):
    v = val[1]
    if h in m.below(v) or v in m.ancestors(h):
        return True
    return any(p != ('attr', h, key) for p in m.containers(v))


def put_attr(m, h, key, val):
    attrs = m.nodes[h].attrs
    old = attrs.get(key)
    if old is not None and old[0] == 'n' and old != val:
        m.nodes[old[1]].stale = stale()
    attrs[key] = val
    if val[0] == 'n':
        v = m.nodes[val[1]]
        v.name = key
        v.parent = ('attrs', h)
        v.stale = False


RESERVED = ['__foo__', '__bar__', '____']


def p_space(m, op, multi):
    h, meth, key = op['n'], op['m'], op['key']
    if not m.has(h) or not m.nodes[h].f['spaces']:
        return None
    n = m.nodes[h]
    kw = {'cat': 'space', 'target': h}
    if meth == 'set':
        v = op['v'][1]
        if op['v'][0] == 'p':
            # can neither be named nor get a parent
            return Pred([m], exc=(AttributeError, TypeError, ValueError),
                        refuse=('C13',), **kw)
        if op['v'][0] != 'n' or not m.has(v):
            return None
        if h in m.below(v) or v in m.ancestors(h) or any(
                p != ('space', h, key) for p in m.containers(v)):
            return None
        new = m.clone()
        old = n.spaces.get(key)
        if old is not None and old != v:
            new.nodes[old].stale = stale()
        new.nodes[h].spaces[key] = v
        new.nodes[v].name = key
        new.nodes[v].parent = h
        new.nodes[v].stale = False
        return Pred([m, new], **kw)
    if key not in n.spaces:
        if meth == 'in':
            return Pred([m], result=('p', False), **kw)
        return Pred([m], exc=(KeyError,), refuse=('C13',), **kw)
    if meth == 'in':
        return Pred([m], result=('p', True), **kw)
    if meth == 'get':
        return Pred([m], result=('n', n.spaces[key]), **kw)
    new = m.clone()
    new.nodes[new.nodes[h].spaces.pop(key)].stale = stale()
    if meth == 'pop':
        return Pred([m, new], result=('n', n.spaces[key]), **kw)
    return Pred([m, new], **kw)


# -- others --------------------------------------------------------------------

def p_new(m, op, multi):
    if m.has(op['id']):
        return None
    new = m.clone()
    new.nodes[op['id']] = MNode(op['id'], op['cls'], op['name'],
                                uuid=-1 - op['id'])
    return Pred([m, new], cat='new', target=op['id'])


def p_copy(m, op, multi):
    if not m.has(op['n']):
        return None
    return Pred([m], cat='copy', target=op['n'])


def p_reset(m, op, multi):
    """The application clears the pointer of a removed node."""
    h = op['n']
    if not m.has(h) or m.containers(h):
        return None
    new = m.clone()
    new.nodes[h].parent = None
    if new.nodes[h].stale:
        new.nodes[h].stale = stale()
    return Pred([m, new], cat='reset', target=h)


def p_lock(m, op, multi):
    if not m.has(op['n']):
        return None
    return Pred([m], cat='lock', target=op['n'])


def p_walk(m, op, multi):
    """Navigation from a node, while others may run."""
    if not m.has(op['n']):
        return None
    return Pred([m], result=('p', None), cat='nav', target=op['n'])


def p_nav(m, op, multi):
    if not m.has(op['n']):
        return None
    return Pred([m], cat='nav', target=op['n'])
