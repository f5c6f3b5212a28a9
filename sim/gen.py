"""Generates operation histories for simulated trees."""
from sim import model as M
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.zoo_facts import FACTS

KEYS = ['a', 'b', 'c', 'd', 'e', '', '\xe4\u4e16']
# names whose order depends on how they are compared
MIXED = ['b', 'B', 'a', 'A', '10', '9', 'Z']
NUMBERS = ['b', 10, 9, 0, 'a', -1, 7]
# almost reserved names
UNDER = ['_c_', '__a', 'b__', '_', 'a', '___b_', '_c__']
# names that differ by whitespace, punctuation or case only
SPACED = [' a', 'a', 'a ', 'A', '.', '..', '\ta', '*', 'a.b', '%s', '{}']
PLAIN = [0, 1, '', 'text', None, False, True, [], [1, 2], 2.5]
READS = ['getitem', 'get', 'in', 'has_key', 'len', 'iter', 'keys', 'values',
         'items', 'iterkeys', 'itervalues', 'iteritems']


class Gen(object):

    def __init__(self, rng, weights, classes, keys=KEYS, multi=False,
                 maxnodes=10, plain=PLAIN, fragile=False, reset=False):
        self.rng = rng
        self.weights = weights
        self.classes = classes
        if keys is KEYS and rng.random() < 0.25:
            keys = MIXED
            if not any(FACTS[c]['spaces'] or FACTS[c]['access']
                       for c in classes):
                if rng.random() < 0.4:
                    keys = NUMBERS
            elif rng.random() < 0.6:
                keys = rng.sample(UNDER, len(UNDER))
        if keys is KEYS and rng.random() < 0.12:
            keys = rng.sample(SPACED, len(SPACED))
        self.keys = keys[:rng.choice([2, 3, 5, 7])]
        self.multi = multi
        self.maxnodes = maxnodes
        self.plain = plain
        self.fragile = fragile
        self.reset = reset
        self.m = M.Model()
        self.ops = []
        self.nid = 0

    def id(self):
        self.nid += 1
        return self.nid - 1

    def handles(self, fact=None):
        return [h for h, n in self.m.nodes.items()
                if fact is None or n.f[fact]]

    def pick(self, fact=None):
        hs = self.handles(fact)
        return self.rng.choice(hs) if hs else None

    def free(self, c, fact=None):
        """A node that may be put below c."""
        below = [h for h in self.handles(fact)
                 if h != c and not self.m.containers(h)
                 and c not in self.m.below(h)]
        if below and self.rng.random() < 0.85:
            return self.rng.choice(below)
        hs = self.handles(fact)
        return self.rng.choice(hs) if hs else None

    def key(self, c=None):
        r = self.rng
        if c is not None and self.m.nodes[c].kids and r.random() < 0.7:
            return r.choice(list(self.m.nodes[c].kids))
        return r.choice(self.keys)

    def value(self, c, nodes=0.8):
        r = self.rng
        if r.random() < nodes:
            h = self.free(c)
            if h is not None:
                return ['n', h]
        if self.m.nodes[c].f['strict']:
            if r.random() < 0.3:
                return ['c']
        if self.fragile and r.random() < 0.3:
            return ['F', r.randrange(100)]
        if r.random() < 0.06:
            return ['U']
        return ['p', r.choice(self.plain)]

    def add(self, op):
        """Append op, follow it in the model (as if nothing failed)."""
        op['id'] = self.id() if 'id' not in op else op['id']
        pred = M.predict(self.m, op, self.multi)
        if pred is None:
            return False
        self.ops.append(op)
        old = self.m
        self.m = pred.models[-1]
        if self.reset and self.m is not old:
            for h in list(self.m.nodes):
                if self.m.nodes[h].stale and not self.m.containers(h):
                    if op['k'] != 'reset':
                        self.add({'k': 'reset', 'n': h})
        return True

    def new(self):
        r = self.rng
        return self.add({'k': 'new', 'cls': r.choice(self.classes),
                         'name': r.choice([None, 'root'] + self.keys),
                         'pos': r.random() < 0.2})

    def fresh(self, cn):
        """A new node that may be inserted below cn."""
        names = [k for k in self.keys if k not in cn.kids]
        classes = [c for c in self.classes
                   if FACTS[c]['reference'] or not cn.f['reference']]
        have = set(self.m.nodes)
        if names and classes:
            self.add({'k': 'new', 'cls': self.rng.choice(classes),
                      'name': self.rng.choice(names), 'pos': False})
        return [h for h in self.m.nodes if h not in have]

    def seed(self, n):
        for _ in range(n):
            self.new()

    def grow(self, shape, n):
        """A tree with many children or levels."""
        r = self.rng
        self.keys = ['k%d' % i for i in range(30)] + self.keys
        self.new()
        top = last = next(iter(self.m.nodes))
        for i in range(n):
            have = set(self.m.nodes)
            self.new()
            h = [x for x in self.m.nodes if x not in have]
            if not h:
                continue
            c = {'wide': top, 'deep': last, 'mixed': r.choice(
                sorted(have, key=str))}[shape]
            if r.random() < 0.1:
                c = r.choice([top, last])
            self.add({'k': 'set', 'c': c, 'key': 'k%d' % i,
                      'v': ['n', h[0]]})
            last = h[0]

    def step(self):
        """One random operation."""
        r = self.rng
        ks = list(self.weights)
        for _ in range(20):
            k = r.choices(ks, [self.weights[x] for x in ks])[0]
            if getattr(self, 'g_' + k)():
                return
        if r.random() < 0.6 and self.g_set():
            return
        if len(self.m.nodes) < self.maxnodes or not self.g_walk():
            self.new()

    def build(self, n):
        for _ in range(n):
            self.step()
        return self.ops

    # -- one generator per kind -------------------------------------------
    def g_new(self):
        if len(self.m.nodes) >= self.maxnodes:
            return False
        return self.new()

    def g_set(self):
        c = self.pick()
        if c is None:
            return False
        val = self.value(c)
        key = self.key(c if self.rng.random() < 0.35 else None)
        if self.rng.random() < 0.05 and self.m.nodes[c].kids:
            key = self.rng.choice(list(self.m.nodes[c].kids))
            val = self.m.nodes[c].kids[key]
        return self.add({'k': 'set', 'c': c, 'key': key, 'v': val})

    def nonempty(self):
        hs = [h for h, n in self.m.nodes.items() if n.kids]
        if hs and self.rng.random() < 0.85:
            return self.rng.choice(hs)
        return self.pick()

    def g_del(self):
        c = self.nonempty()
        return c is not None and self.add(
            {'k': 'del', 'c': c, 'key': self.key(c)})

    def g_pop(self):
        c = self.nonempty()
        if c is None:
            return False
        op = {'k': 'pop', 'c': c, 'key': self.key(c)}
        if self.rng.random() < 0.5:
            op['d'] = self.rng.choice([None, 0, 'default', '__odd__'])
        return self.add(op)

    def g_detach(self):
        c = self.nonempty()
        return c is not None and self.add(
            {'k': 'detach', 'c': c, 'key': self.key(c)})

    def g_popitem(self):
        c = self.nonempty()
        return c is not None and self.add({'k': 'popitem', 'c': c})

    def g_clear(self):
        c = self.nonempty()
        return c is not None and self.add({'k': 'clear', 'c': c})

    def g_setdefault(self):
        c = self.pick()
        if c is None:
            return False
        op = {'k': 'setdefault', 'c': c, 'key': self.key(c),
              'v': self.value(c)}
        if self.rng.random() < 0.2:
            op['v'] = ['p', None]
            op['nodefault'] = 1
        return self.add(op)

    def g_update(self):
        r = self.rng
        c = self.pick()
        if c is None:
            return False
        style = r.choice(['dict', 'odict', 'list', 'gen', 'kw', 'mixed',
                          'list', 'gen', 'two', 'falsydict', 'falsylist',
                          'mapping'])
        items = []
        used = set()
        keys = self.keys
        if style in ('kw', 'mixed'):
            keys = [k for k in keys if isinstance(k, str)] or ['a']
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            v = self.value(c, 0.9)
            if v[0] == 'n':
                if v[1] in used:
                    continue
                used.add(v[1])
            items.append([r.choice(keys), v])
        if style == 'mixed':
            half = len(items) // 2
            seen = {}
            for k, v in items[half:]:
                seen[k] = v
            items = items[:half] + [[k, v] for k, v in seen.items()]
        return self.add({'k': 'update', 'c': c, 'style': style,
                         'items': items})

    def g_read(self):
        r = self.rng
        c = self.nonempty()
        if c is None:
            return False
        op = {'k': 'read', 'c': c, 'm': r.choice(READS)}
        if op['m'] in ('getitem', 'get', 'in', 'has_key'):
            op['key'] = self.key(c)
            if r.random() < 0.03:
                op['key'] = r.choice([7, None, 2.5])
            if op['m'] == 'get' and r.random() < 0.5:
                op['d'] = r.choice([0, '', 'default', False, '__odd__'])
        return self.add(op)

    def g_walk(self):
        h = self.pick()
        if h is None:
            return False
        return self.add({'k': 'walk', 'n': h})

    def g_ins(self):
        r = self.rng
        full = [h for h in self.handles('order') if self.m.nodes[h].kids]
        c = r.choice(full) if full and r.random() < 0.5 \
            else self.pick('order')
        if c is None:
            return False
        how = r.choice(['before', 'after', 'first', 'last'])
        op = {'k': 'ins', 'c': c, 'how': how}
        cn = self.m.nodes[c]
        cand = [h for h in self.handles() if h != c]
        if cn.f['reference']:
            cand = [h for h in cand if self.m.nodes[h].f['reference']]
        good = [h for h in cand if not self.m.containers(h)
                and self.m.nodes[h].name is not None
                and self.m.nodes[h].name not in cn.kids
                and c not in self.m.below(h)]
        if not good and len(self.m.nodes) < self.maxnodes + 3 \
                and r.random() < 0.6:
            good = self.fresh(cn)
        if good and r.random() < 0.8:
            cand = good
        if not cand:
            return False
        op['n'] = r.choice(cand)
        if r.random() < 0.06:
            op['n'] = M.OWN
            op['name'] = r.choice(['x', 'y'])
        if how in ('before', 'after'):
            kids = self.m.kid_handles(c)
            if kids and r.random() < 0.9:
                op['ref'] = r.choice(kids)
            else:
                op['ref'] = self.pick()
        return self.add(op)

    def g_swap(self):
        r = self.rng
        c = self.pick('order')
        if c is None:
            return False
        kids = self.m.kid_handles(c)
        if len(kids) > 1 and r.random() < 0.85:
            a, b = r.sample(kids, 2)
        else:
            a, b = self.pick(), self.pick()
        return self.add({'k': 'swap', 'c': c, 'a': a, 'b': b})

    def g_uuid(self):
        r = self.rng
        h = self.pick('reference')
        if h is None:
            return False
        x = r.random()
        if x < 0.35:
            u = r.choice([0, 1, 2, 3])
        elif x < 0.5:
            u = r.getrandbits(100)
        else:
            u = ['of', self.pick('reference')]
        return self.add({'k': 'uuid', 'n': h, 'u': u})

    def g_attr(self):
        r = self.rng
        h = self.pick('attributes')
        if h is None:
            return False
        m = r.choice(['set', 'set', 'set', 'set', 'del', 'get', 'getitem',
                      'pop', 'setdefault', 'update', 'clear', 'items',
                      'popitem', 'touch', 'append', 'reset'])
        op = {'k': 'attr', 'n': h, 'm': m}
        attrs = self.m.nodes[h].attrs or {}
        if attrs and r.random() < 0.6:
            op['key'] = r.choice(list(attrs))
        else:
            op['key'] = r.choice(self.keys + ['children', 'title'])
        if m == 'append':
            lists = [k for k, v in attrs.items()
                     if v[0] == 'p' and isinstance(v[1], list)]
            if not lists:
                return False
            op['key'] = r.choice(lists)
        if m in ('set', 'setdefault'):
            if r.random() < 0.12 and self.free(h) is not None:
                op['v'] = ['n', self.free(h)]
            elif self.fragile and r.random() < 0.3:
                op['v'] = ['F', r.randrange(100)]
            elif r.random() < 0.08:
                op['v'] = ['U']
            else:
                op['v'] = ['p', r.choice(self.plain)]
        if m in ('get', 'pop') and r.random() < 0.5:
            op['d'] = r.choice([0, 'default'] + (
                ['__odd__'] if m == 'pop' else []))
        if m == 'update':
            op['items'] = [[r.choice(self.keys), ['p', r.choice(self.plain)]]
                           for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < 0.5:
            op['aa'] = 1
        return self.add(op)

    def g_space(self):
        r = self.rng
        h = self.pick('spaces')
        if h is None:
            return False
        m = r.choice(['set', 'set', 'set', 'get', 'del', 'in', 'pop'])
        op = {'k': 'space', 'n': h, 'm': m, 'key': r.choice(M.RESERVED)}
        if m == 'set' and r.random() < 0.1:
            op['v'] = ['p', r.choice(PLAIN)]
        elif m == 'set':
            v = self.free(h)
            if v is None:
                return False
            op['v'] = ['n', v]
        return self.add(op)

    def g_copy(self):
        r = self.rng
        h = self.pick()
        if h is None:
            return False
        how = r.choice(['copy', 'copymod', 'deepcopy', 'deepcopy',
                        'deepcopy', 'deepcopymod', 'pickle', 'pickle'])
        op = {'k': 'copy', 'n': h, 'how': how}
        if how == 'pickle':
            op['proto'] = r.choice([2, 3, 4, 5])
        return self.add(op)

    def g_lock(self):
        h = self.pick()
        return h is not None and self.add({'k': 'lock', 'n': h})


def tree_case(rng, weights, profiles, faults=True, nops=(8, 14, 22),
              kinds=WRITE_FAULTS, raw=0.12, **kw):
    """A complete case from profile choices."""
    classes = rng.choice(profiles)
    big = rng.random() < 0.03
    if big:
        kw['maxnodes'] = 40
    g = Gen(rng, weights, classes, **kw)
    if big:
        g.grow(rng.choice(['wide', 'deep', 'mixed']),
               rng.choice([12, 18, 24]))
        nops = (8, 14)
    else:
        g.seed(rng.choice([2, 3, 5]))
        # a grown tree to start with
        for _ in range(rng.choice([0, 3, 6])):
            g.g_set()
    grown = len(g.ops)
    g.build(rng.choice(nops))
    case = {'ops': g.ops, 'raw': rng.random() < raw,
            'multi': g.multi}
    watch = rng.choice([1, 1, 1, 0.6, 0.3, 0.1])
    for i, op in enumerate(g.ops):
        if rng.random() >= watch or big and i < grown:
            op['blind'] = 1
    ids = [op['id'] for i, op in enumerate(g.ops)
           if i >= grown or rng.random() < 0.1]
    case['faults'] = gen_faults(rng, ids, kinds=kinds) if faults else []
    return case


def fact(name, key):
    return FACTS[name][key]
