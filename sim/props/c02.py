"""C02 Locked operations on a shared tree are linearizable."""
from sim.core import Cancelled
from sim.core import EndRun
from sim.core import Violation
from sim.core import WRITE_FAULTS
from sim.core import gen_faults
from sim.core import gen_sched
from sim import model as M
from sim.gen import FACTS
from sim.gen import Gen
from sim.sched import Sched
from sim.world import World
from node.locking import TreeLock
from node.locking import locktree

ID = 'C02'
RUNS = {'quick': 14000, 'thorough': 200000}
RULE = (
    'A case is 1-3 trees of seeded classes and 2-4 threads performing tree '
    'lock sections (with statement, explicit, locked function; taken from '
    'varying nodes; nested; left normally or by an exception) of 1-5 '
    'operations each, with faults planned at (operation, n-th storage or '
    'factory call), under a seeded schedule with preemption at every bytecode '
    'of src/node. Some trees belong to one thread and are used without lock. '
    'Every operation is compared with the reference model, which '
    'applies the operations in the order in which the sections were entered. '
    'Non-trivial: a preemption, lock contention or fault happened; distinct: '
    'different event log.')
STATE_MEASURE = 'hash of (class, keys, parent, name) of all nodes after an ' \
    'operation'
REAL = ['node.locking', 'node.base', 'node.behaviors.*', 'node.utils',
        'odict', 'plumber', 'zope.interface', 'CPython threads']
STUB = ['threading.Lock/RLock (simulated primitives)',
        'thread scheduler (one thread at a time, chosen by the seed)',
        'storage: the shipped storage behind a proxy that fails on demand',
        'uuid.uuid4 (seeded)']
PROBES = ['preemptions', 'lock_contended', 'section_failed', 'refused',
          'sections', 'private', 'handover', 'wait_interrupted']
ASSUMPTIONS = [
    'a storage call that fails has had no effect (failed before it was '
    'applied)',
    'preemption granularity is one bytecode of src/node and one line of '
    'odict; C implemented builtins are atomic, as under the GIL',
    'locks are taken from nodes that stay in the tree; nodes that are not '
    'part of the tree are only used inside sections too',
]
AREAS = ['children', 'ptr', 'attrs', 'index', 'nav']
WEIGHTS = {'new': 2, 'set': 8, 'del': 3, 'pop': 2, 'popitem': 1, 'detach': 2,
           'clear': 0.5, 'setdefault': 2, 'update': 2, 'read': 3, 'attr': 4,
           'space': 1, 'ins': 4, 'swap': 2, 'uuid': 1.5, 'copy': 0.7,
           'lock': 0.5, 'walk': 2}
PROFILES = [
    ['base'], ['ordered'], ['node'], ['attributed'], ['refdict'],
    ['refodict'], ['refodict', 'refdict'], ['orderonly'], ['uuidodict'],
    ['spacedict'], ['spaceodict'], ['spaceaccess'], ['stack'], ['stackdict'],
    ['custom'], ['base', 'ordered', 'orderonly'], ['adoptdict'],
    ['looseordered'], ['node'], ['refodict'],
    ['oddordered'], ['oddnode'], ['falsynode'], ['oddbase', 'base'],
]
# what a class must have for an operation
NEEDS = {'ins': 'order', 'swap': 'order', 'uuid': 'reference',
         'attr': 'attributes', 'space': 'spaces'}
STYLES = ['with', 'with', 'explicit', 'function']


@locktree
def locked(node, fn):
    return fn()


class SharedWorld(World):

    def fail(self, props, kind, msg):
        raise Violation(kind, msg)


class Linearizable(object):
    name = 'shared-tree'
    weight = 1

    def generate(self, rng, tier):
        trees = []
        ntasks = rng.choice([2, 2, 2, 3, 3, 4])
        ntrees = rng.choice([1, 1, 1, 2, 2, 3])
        tasks = [[] for _ in range(ntasks)]
        ids = []
        secid = iter(range(100000, 200000))
        same = rng.choice(PROFILES) if rng.random() < 0.5 else None
        weights = WEIGHTS
        if rng.random() < 0.35:
            # few kinds of operations, the same for all
            same = rng.choice(PROFILES)
            if rng.random() < 0.3:
                same = rng.choice([['orderonly'], ['refodict'], ['node'],
                                   ['spaceaccess']])
            facts = [FACTS[c] for c in same]
            able = [k for k in sorted(WEIGHTS) if k not in NEEDS or any(
                f[NEEDS[k]] for f in facts)]
            kinds = rng.sample(able, rng.choice([1, 2, 3]))
            if 'ins' in able and rng.random() < 0.4:
                kinds.append('ins')
            weights = dict((k, WEIGHTS[k] if k in kinds else 0.1)
                           for k in able)
            weights['new'] = 2
            ntrees = rng.choice([1, 2, 2, 3])
        for ti in range(ntrees):
            g = Gen(rng, weights, same or rng.choice(PROFILES), maxnodes=9)
            g.nid = 200 * ti
            g.seed(rng.choice([2, 3, 4]))
            for _ in range(rng.choice([1, 3, 6])):
                g.g_set()
            nsetup = len(g.ops)
            hs = sorted(g.m.nodes, key=lambda h: (-len(g.m.subtree(h)), h))
            root = [h for h in hs if not g.m.containers(h)
                    and g.m.nodes[h].parent is None][:1]
            if not root:
                root = [h for h in hs if not g.m.containers(h)][:1]
            root = root[0]
            skel = [root]
            below = [h for h in g.m.subtree(root) if h != root]
            if below:
                h = rng.choice(below)
                if rng.random() < 0.7:
                    while h != root:
                        skel.append(h)
                        h = g.m.container(h)
            private = None
            if ti and rng.random() < 0.35:
                private = rng.randrange(ntasks)
            nops = rng.choice([4, 8, 12, 20]) // (1 if ti == 0 else 2)
            if tier == 'thorough':
                nops = nops * rng.choice([1, 1, 2])
            g.build(nops)
            for op in g.ops[nsetup:]:
                if op['k'] == 'copy' and op['how'] in ('copy', 'copymod'):
                    op['how'] = 'deepcopy'
            trees.append({'setup': g.ops[:nsetup], 'root': root,
                          'skel': skel, 'private': private})
            rest = g.ops[nsetup:]
            ids += [op['id'] for op in rest]
            while rest:
                n = rng.choice([1, 1, 2, 3, 5])
                part, rest = rest[:n], rest[n:]
                sec = self.section(rng, ti, part, secid, len(skel))
                if len(part) > 1 and rng.random() < 0.3:
                    cut = rng.randrange(1, len(part))
                    inner = self.section(
                        rng, ti, part[cut:], secid, len(skel))
                    sec['body'][cut:] = [inner]
                t = private if private is not None \
                    else rng.randrange(ntasks)
                tasks[t].append(sec)
        for t in tasks:
            # keep the order within a tree, mix the trees
            mixed = []
            queues = [[s for s in t if s['t'] == ti]
                      for ti in range(ntrees)]
            while any(queues):
                q = rng.choice([q for q in queues if q])
                mixed.append(q.pop(0))
            t[:] = mixed
        return {'trees': trees, 'tasks': tasks,
                'faults': gen_faults(rng, ids, kinds=WRITE_FAULTS),
                'sched': gen_sched(rng)}

    def section(self, rng, ti, ops, secid, nskel):
        for op in ops:
            op['t'] = ti
        return {'id': next(secid), 't': ti, 'lock': rng.randrange(nskel),
                'style': rng.choice(STYLES), 'body': list(ops),
                'raise': rng.choice([None] * 5 + ['cancel', 'backend']),
                'intr': rng.random() < 0.08}

    def execute(self, case, ctx):
        trees = []
        for spec in case['trees']:
            w = SharedWorld(ctx, {}, ID, frozenset(AREAS))
            for op in spec['setup']:
                w.run(op)
            pins = {h: w.m.nodes[h].parent for h in spec['skel']}
            trees.append({'w': w, 'spec': spec, 'inside': None,
                          'pins': pins, 'last': None})
        sched = Sched(ctx, case['sched'])
        for i, secs in enumerate(case['tasks']):
            sched.spawn('t%d' % i, self.task(ctx, sched, i, secs, trees))
        sched.run()
        if sched.deadlock:
            raise Violation('deadlock', 'threads block for ever: %s'
                            % sched.deadlock)
        for i, t in enumerate(trees):
            w = t['w']
            mm = w.compare(w.m, w.m)
            if mm is not None:
                raise Violation('final-' + mm.area, 'tree %d in the end: %s'
                                % (i, mm.msg))
        if sched.preempted or sched.contended:
            ctx.nontrivial = True

    def stable(self, t, pred, op):
        """The nodes locks are taken from stay where they are."""
        w = t['w']
        if op['k'] == 'popitem' and any(
                p == op['c'] for p in t['pins'].values()):
            return False
        vals = [op['v']] if 'v' in op else []
        vals += [v for k, v in op.get('items', ())]
        if op['k'] == 'ins':
            vals.append(['n', op['n']])
        if any(v[0] == 'n' and v[1] in t['pins'] for v in vals):
            # even if it is refused it may be adopted for a moment
            return False
        for m in pred.models:
            for h, parent in t['pins'].items():
                n = m.nodes[h]
                if n.parent != parent or n.stale != w.m.nodes[h].stale:
                    return False
                if parent is not None and m.container(h) != parent:
                    return False
        return True

    def task(self, ctx, sched, tid, secs, trees):

        def perform(op):
            t = trees[op['t']]
            w = t['w']
            if 'n' in op or 'c' not in op or w.m.has(op['c']):
                pred = M.predict(w.m, op, False)
                if pred is None or not self.stable(t, pred, op):
                    return
                try:
                    w.run(op)
                except (Violation, EndRun) as e:
                    # before a lock is released and another thread goes on
                    sched.stop(e)
                    raise

        def contents(sec):
            t = trees[sec['t']]
            sched.interrupts.pop(tid, None)
            outer = t['inside']
            if outer not in (None, tid):
                raise Violation('overlap', 'threads %s and %s are both in a '
                                'section of tree %s' % (
                                    outer, tid, sec['t']))
            t['inside'] = tid
            if t['last'] not in (None, tid):
                ctx.probe('handover')
            t['last'] = tid
            ctx.probe('sections')
            ctx.ev(tid, 'enter', sec['id'])
            try:
                for item in sec['body']:
                    if 'body' in item:
                        section(item)
                    else:
                        sched.point()
                        perform(item)
                if sec['raise'] == 'cancel':
                    raise Cancelled('section')
                if sec['raise'] == 'backend':
                    raise Leave('section')
            finally:
                ctx.ev(tid, 'leave', sec['id'])
                t['inside'] = outer

        def enter(sec):
            t = trees[sec['t']]
            if t['spec']['private'] is not None:
                ctx.probe('private')
                return contents(sec)
            skel = t['spec']['skel']
            node = t['w'].real[skel[sec['lock'] % len(skel)]]
            style = sec['style']
            if style == 'function':
                locked(node, lambda: contents(sec))
            elif style == 'with':
                with TreeLock(node):
                    contents(sec)
            else:
                lock = TreeLock(node)
                lock.acquire()
                try:
                    contents(sec)
                finally:
                    lock.release()

        def section(sec):
            if sec.get('intr'):
                sched.interrupts[tid] = 'cancel'
            try:
                enter(sec)
            except (Leave, Cancelled) as e:
                ctx.probe('section_failed' if getattr(
                    e, 'sim_site', '') != 'lock.wait' else 'wait_interrupted')
            finally:
                sched.interrupts.pop(tid, None)

        def main():
            for sec in secs:
                sched.point()
                if 'body' not in sec:
                    sec = {'id': -1, 't': sec['t'], 'lock': 0,
                           'style': 'with', 'body': [sec], 'raise': None}
                section(sec)
        return main


class Leave(Exception):
    """Leaves a section."""


SCENARIOS = [Linearizable()]
