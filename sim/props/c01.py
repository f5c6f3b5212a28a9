"""C01 Tree lock: mutual exclusion over the whole tree."""
from sim.core import EndRun
from sim.core import FAULT_KINDS
from sim.core import Violation
from sim.core import gen_faults
from sim.core import gen_sched
from sim.core import CALL_FAULTS
from sim.sched import Sched
from node import base
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import GetattrChildren
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.locking import TreeLock
from node.locking import locktree
from plumber import plumbing

ID = 'C01'
RUNS = {'quick': 20000, 'thorough': 400000}
RULE = (
    'A case is a forest of 1-3 trees of random shape and node classes, put '
    'together and taken apart in a history that uses the locks in between, and 2-4 '
    'threads performing random lock sections (with statement, explicit, '
    'locked method, shared lock object; nested through any node of the tree; '
    'left normally or by an injected exception), run under a seeded schedule '
    'with preemption at every bytecode of src/node. Non-trivial: at least one '
    'preemption or lock contention happened; distinct: different event log.')
STATE_MEASURE = 'hash of (per tree owner, depth, waiting tasks) at entries'
REAL = ['node.locking', 'node.base', 'node.behaviors.*', 'odict', 'plumber',
        'zope.interface', 'CPython threads and thread locals']
STUB = ['threading.Lock/RLock (simulated primitives)',
        'thread scheduler (one thread at a time, chosen by the seed)']
PROBES = ['preemptions', 'lock_contended', 'first_use_race', 'nested',
          'section_failed', 'rendezvous', 'grown', 'locked_before', 'taken_apart',
          'graft', 'prune', 'wait_interrupted', 'shallow_copy']
ASSUMPTIONS = [
    'preemption granularity is one bytecode of src/node and one line of '
    'odict; C implemented builtins are atomic, as under the GIL',
    'a tree is not attached to or detached from another tree while its lock '
    'is held or waited for by another thread',
]


class LockNode(base.BaseNode):

    @locktree
    def locked(self, fn, *args, **kw):
        return fn(self, *args, **kw)


class LockOrdered(base.OrderedNode):

    @locktree
    def locked(self, fn, *args, **kw):
        return fn(self, *args, **kw)


class LockFull(base.Node):

    @locktree
    def locked(self, fn, *args, **kw):
        return fn(self, *args, **kw)


@plumbing(Adopt, GetattrChildren, DefaultInit, Nodify, OdictStorage)
class LockGetattr(object):

    @locktree
    def locked(self, fn, *args, **kw):
        return fn(self, *args, **kw)


CLASSES = {'base': LockNode, 'ordered': LockOrdered, 'full': LockFull,
           'getattr': LockGetattr}
STYLES = ['with', 'explicit', 'method', 'shared']


def gen_section(rng, nhandles, tree, ids, depth):
    sec = {'id': next(ids), 'k': 'sec', 'tree': tree,
           'node': rng.randrange(nhandles), 'style': rng.choice(STYLES),
           'grow': rng.choice([False] * 11 + [True, 'locked', 'graft', 'prune']),
           'by': rng.choice(['with', 'explicit', 'method']), 'body': []}
    if depth == 0 and rng.random() < 0.15:
        sec['intr'] = rng.choice(['cancel', 'interrupt', 'exit', 'memory'])
    if depth < 3 and rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            sec['body'].append(
                gen_section(rng, nhandles, tree, ids, depth + 1))
    return sec


def flat(op):
    yield op['id']
    for b in op.get('body', ()):
        for i in flat(b):
            yield i


ANSWERS = [None, 0, '', [], (), False, NotImplemented, StopIteration()]


class LockScenario(object):
    name = 'sections'
    weight = 1

    def generate(self, rng, tier):
        # how the trees came into being: nodes that have been trees of their
        # own, and locked as such, are put together and taken apart again
        ntrees = rng.choice([1, 1, 2, 2, 3])
        history = []
        nodes = []
        clss = [rng.choice(sorted(CLASSES)) for _ in range(ntrees)]
        home = []
        for t in range(ntrees):
            for i in range(rng.choice([1, 2, 3, 5])):
                home.append(t)
                nodes.append({'cls': clss[t], 'parent': None})
        busy = rng.random() < 0.6
        lock = rng.choice([0, 0.3, 0.7])

        def used():
            if busy and rng.random() < lock:
                history.append([rng.choice(['lock', 'method']),
                                rng.randrange(len(nodes))])

        first = [home.index(t) for t in range(ntrees)]
        todo = [i for i in range(len(nodes)) if i not in first]
        if busy:
            rng.shuffle(todo)
        for i in todo:
            used()
            cand = [j for j in range(len(nodes)) if home[j] == home[i]
                    and j < i]
            history.append(['attach', i, rng.choice(cand)])
        for _ in range(rng.choice([0, 0, 1, 2]) if busy else 0):
            used()
            i = rng.randrange(len(nodes))
            history.append(['detach', i])
            used()
            if rng.random() < 0.6:
                history.append(['attach', i, rng.randrange(len(nodes))])
        used()
        if busy and rng.random() < 0.25:
            history.append(['copy', rng.randrange(len(nodes)),
                            rng.choice(['deep', 'deep', 'shallow'])])
        ids = iter(range(1000))
        ntasks = rng.choice([2, 2, 3, 4])
        tasks = []
        for t in range(ntasks):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                tree = rng.randrange(ntrees)
                ops.append(gen_section(rng, 7, tree, ids, 0))
            tasks.append(ops)
        if ntrees > 1 and rng.random() < 0.4:
            # a section that lasts until another thread went through a
            # section of a different tree
            a, b = rng.sample(range(ntasks), 2)
            ta, tb = rng.sample(range(ntrees), 2)
            sec = gen_section(rng, 1, ta, ids, 9)
            sec['wait'] = True
            tasks[a].insert(rng.randrange(len(tasks[a]) + 1), sec)
            tasks[b] = [s for s in tasks[b] if s['tree'] != ta]
            sig = gen_section(rng, 1, tb, ids, 9)
            sig['signal'] = True
            tasks[b].insert(rng.randrange(len(tasks[b]) + 1), sig)
        allids = [i for ops in tasks for op in ops for i in flat(op)]
        return {'nodes': [n['cls'] for n in nodes], 'ops': history,
                'tasks': tasks,
                'faults': gen_faults(rng, allids, rate=rng.choice(
                    [0, 0, 0.1, 0.3]), kinds=CALL_FAULTS, maxcall=3),
                'sched': gen_sched(rng)}

    def execute(self, case, ctx):
        sched = Sched(ctx, case['sched'])
        trees = [
            {'nodes': nodes, 'owner': None, 'depth': 0, 'shared': {},
             'grown': 0, 'creating': 0, 'used': False, 'left': []}
            for nodes in self.forest(case, ctx)]
        flag = []
        # different trees, unless the history made one of them
        want_signal = any(
            s.get('signal') for ops in case['tasks'] for s in ops) and all(
            s['tree'] < len(trees) for ops in case['tasks'] for s in ops)
        for t, ops in enumerate(case['tasks']):
            sched.spawn('t%d' % t, self.task(
                ctx, sched, t, ops, trees, flag, want_signal))
        sched.run()
        if sched.deadlock:
            raise Violation('deadlock', 'threads block for ever: %s; %s' % (
                sched.deadlock, [(i, t['owner'], t['depth'])
                                 for i, t in enumerate(trees)]))
        # everything was left: every tree must be free for anybody
        for i, t in enumerate(trees):
            for node in t['nodes']:
                lock = TreeLock(node)
                try:
                    lock.acquire()
                except Violation:
                    raise Violation(
                        'not-released',
                        'tree %d is still locked after all sections were '
                        'left' % i)
                lock.release()
            for lock, how in t['left']:
                # the lock of what was a tree of its own
                try:
                    lock.acquire()
                except Violation:
                    raise Violation(
                        'not-released', 'the lock used before the %s in '
                        'tree %d is still held' % (how, i))
                lock.release()
        ctx.nontrivial = bool(sched.preempted or sched.contended)

    def forest(self, case, ctx):
        """Nodes of the trees the history leads to."""
        nodes = [CLASSES[c](name='n%d' % i)
                 for i, c in enumerate(case['nodes'])]
        parent = [None] * len(nodes)
        self.shallow = []

        def root(i):
            while parent[i] is not None:
                i = parent[i]
            return i

        for op in case['ops']:
            i = op[1]
            if op[0] == 'lock':
                ctx.probe('locked_before')
                with TreeLock(nodes[i]):
                    pass
            elif op[0] == 'method':
                ctx.probe('locked_before')
                nodes[i].locked(lambda me: None)
            elif op[0] == 'attach':
                kinds = set([case['nodes'][i], case['nodes'][op[2]]])
                if parent[i] is None and root(op[2]) != i and (
                        len(kinds) == 1 or 'full' not in kinds):
                    nodes[op[2]]['k%d' % i] = nodes[i]
                    parent[i] = op[2]
            elif op[0] == 'detach':
                if parent[i] is not None:
                    ctx.probe('taken_apart')
                    nodes[parent[i]].detach('k%d' % i)
                    # what an application has to do
                    nodes[i].__parent__ = None
                    parent[i] = None
            elif op[0] == 'copy':
                i = root(i)
                if op[2:] == ['shallow']:
                    # same children, they are not below it
                    ctx.probe('shallow_copy')
                    nodes.append(nodes[i].copy())
                    parent.append(None)
                    self.shallow.append(nodes[-1])
                    continue
                known = dict((id(n), None) for n in nodes)
                copied = nodes[i].deepcopy()
                todo = [(copied, None)]
                while todo:
                    node, up = todo.pop(0)
                    if id(node) in known:
                        raise Violation('copy', 'copies are not complete')
                    nodes.append(node)
                    parent.append(up)
                    todo += [(c, len(nodes) - 1) for c in node.values()]
        trees = {}
        for i, node in enumerate(nodes):
            trees.setdefault(root(i), []).append(node)
        return [trees[i] for i in sorted(trees)]

    def task(self, ctx, sched, tid, ops, trees, flag, want_signal):

        def enter(t, ti):
            if t['owner'] not in (None, tid):
                raise Violation('overlap', (
                    'thread %d is inside a section of tree %d together with '
                    'thread %d' % (tid, ti, t['owner'])))
            t['owner'] = tid
            t['depth'] += 1
            if t['depth'] > 1:
                ctx.probe('nested')
            ctx.ev(tid, 'enter', ti, t['depth'])
            ctx.state([(x['owner'], x['depth']) for x in trees],
                      [x[3] for x in sched.tasks])

        def leave(t, ti):
            ctx.ev(tid, 'leave', ti, t['depth'])
            t['depth'] -= 1
            if t['depth'] == 0:
                t['owner'] = None

        def still(t, ti):
            if t['owner'] != tid:
                raise Violation('overlap', (
                    'thread %s entered tree %d while thread %d was inside'
                    % (t['owner'], ti, tid)))

        def body(sec, t, ti):
            """Contents of a section."""
            sched.interrupts.pop(tid, None)
            enter(t, ti)
            if sec.get('signal'):
                flag.append(1)
            try:
                ctx.begin(sec['id'])
                try:
                    ctx.gate('body')
                    sched.point()
                    still(t, ti)
                    if sec['grow'] and not any(
                            t['nodes'][0] is x for x in self.shallow):
                        grow(sec, t, ti)
                    if sec.get('wait') and want_signal:
                        ctx.probe('rendezvous')
                        if not flag:
                            sched.block(lambda: bool(flag))
                        still(t, ti)
                    ctx.gate('body')
                finally:
                    ctx.end()
                for sub in sec['body']:
                    run(sub)
                    still(t, ti)
                    sched.point()
                    still(t, ti)
            finally:
                leave(t, ti)
            return sec['id']

        def grow(sec, t, ti):
            """The thread holds the lock of the tree."""
            t['grown'] += 1
            ctx.probe('grown')
            parent = t['nodes'][sec['node'] % len(t['nodes'])]
            child = type(parent)()
            key = 'g%d' % t['grown']
            how = sec['grow']
            if how == 'locked':
                with TreeLock(child):
                    sched.point()
            if how in (True, 'locked'):
                parent[key] = child
                t['nodes'].append(child)
                return
            # a tree nobody else knows, locked as such, which becomes part of
            # this tree - or of itself again - in a section of it
            low = child['low'] = type(parent)()
            t['left'].append((TreeLock(low), how))
            if how == 'prune':
                with TreeLock(child):
                    sched.point()
                parent[key] = child

            def change(me=None):
                if how == 'graft':
                    parent[key] = child
                else:
                    parent.detach(key)
                    child.__parent__ = None
                sched.point()
                still(t, ti)
                with TreeLock(low):
                    sched.point()
                    still(t, ti)

            ctx.probe(how)
            if sec['by'] == 'method':
                low.locked(change)
            elif sec['by'] == 'with':
                with TreeLock(low):
                    change()
            else:
                lock = TreeLock(low)
                lock.acquire()
                try:
                    change()
                finally:
                    lock.release()
            still(t, ti)
            if how == 'graft':
                t['nodes'] += [child, low]

        def section(sec, t, ti):
            node = t['nodes'][sec['node'] % len(t['nodes'])]
            style = sec['style']
            if not t['used']:
                t['creating'] += 1
                if t['creating'] > 1:
                    ctx.probe('first_use_race')
            try:
                if style == 'method':
                    token = object()
                    # also nothing at all
                    answer = token if sec['id'] % 3 else \
                        ANSWERS[sec['id'] % len(ANSWERS)]
                    kept = []

                    def fn(self_, *args, **kw):
                        t['used'] = True
                        if self_ is not node or args != (token,) \
                                or kw != {'opt': tid}:
                            raise Violation(
                                'arguments', 'locked method got %r %r' % (
                                    args, kw))
                        try:
                            body(sec, t, ti)
                        except Violation:
                            raise
                        except BaseException as e:
                            kept.append(e)
                            raise
                        return answer

                    try:
                        res = node.locked(fn, token, opt=tid)
                    except BaseException as e:
                        if kept and e is not kept[0]:
                            raise Violation(
                                'exception', 'locked method raised %r, caller '
                                'got %r' % (kept[0], e))
                        raise
                    if kept:
                        raise Violation(
                            'exception', 'exception %r of locked method did '
                            'not reach the caller' % kept[0])
                    if res is not answer:
                        raise Violation(
                            'result', 'locked method returned something else')
                elif style == 'with':
                    with TreeLock(node):
                        t['used'] = True
                        body(sec, t, ti)
                else:
                    if style == 'shared':
                        lock = t['shared'].get(sec['node'])
                        if lock is None:
                            lock = t['shared'][sec['node']] = TreeLock(node)
                    else:
                        lock = TreeLock(node)
                    lock.acquire()
                    try:
                        t['used'] = True
                        body(sec, t, ti)
                    finally:
                        lock.release()
            finally:
                t['creating'] -= 0 if t['used'] else 1

        def run(sec):
            ti = sec['tree'] % len(trees)
            t = trees[ti]
            depth = t['depth'] if t['owner'] == tid else 0
            if sec.get('intr') and not sec.get('signal'):
                sched.interrupts[tid] = sec['intr']
            try:
                section(sec, t, ti)
            except BaseException as e:
                if not hasattr(e, 'sim_site'):
                    raise
                ctx.probe('section_failed' if e.sim_site != 'lock.wait'
                          else 'wait_interrupted')
                ctx.ev(tid, 'failed', sec['id'], type(e).__name__)
            sched.interrupts.pop(tid, None)
            now = t['depth'] if t['owner'] == tid else 0
            if now != depth:
                raise Violation('overlap', 'depth %d -> %d' % (depth, now))

        def main():
            for sec in ops:
                sched.point()
                try:
                    run(sec)
                except (Violation, EndRun):
                    raise
                except Exception as e:
                    raise Violation(
                        'error', 'lock section failed with %s: %s' % (
                            type(e).__name__, e))
        return main


SCENARIOS = [LockScenario()]
