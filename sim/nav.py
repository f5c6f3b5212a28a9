"""Navigation oracle: answers of every node are those of the current tree."""
from node.interfaces import INode
from node.utils import node_by_path
from sim.zoo import IOne
from sim.zoo import ITwo
from sim.zoo import ZOO


def chain(w, h):
    """Handles from the top to h, or None if pointers leave the tree."""
    m = w.m
    res = [h]
    while True:
        n = m.nodes[res[0]]
        if n.stale:
            if w.baseline[res[0]][1] is None:
                return res
            return None
        if n.parent is None:
            return res
        if isinstance(n.parent, tuple) or not m.has(n.parent) \
                or m.nodes[n.parent].kids.get(n.name) != ['n', res[0]]:
            return None
        res.insert(0, n.parent)


def check(w):
    m = w.m
    for h in m.nodes:
        ch = chain(w, h)
        if ch is None:
            continue
        try:
            msg = check_node(w, h, ch)
        except Exception as e:
            msg = 'navigation from node %s fails with %s: %s' % (
                h, type(e).__name__, e)
        if msg:
            return msg
    return None


def check_node(w, h, ch):
    m = w.m
    node = w.real[h]
    names = [m.nodes[x].name for x in ch]
    root = w.real[ch[0]]
    if node.path != names:
        return 'path of node %s is %r, should be %r' % (h, node.path, names)
    if node.root is not root:
        return 'root of node %s is %s, should be %s' % (
            h, w.show(node.root), ch[0])
    # by path
    for i, x in enumerate(ch):
        sub = names[i + 1:]
        if node_by_path(w.real[x], list(sub)) is not node:
            return 'node_by_path(%r) from node %s is not node %s' % (
                sub, x, h)
        if node_by_path(w.real[x], tuple(sub)) is not node:
            return 'node_by_path(%r) from node %s is not node %s' % (
                tuple(sub), x, h)
        if all(s and isinstance(s, str) and '/' not in s for s in sub):
            text = '/'.join(sub)
            for p in (text, '/' + text, text + '/'):
                if node_by_path(w.real[x], p) is not node:
                    return 'node_by_path(%r) from node %s is not node %s' % (
                        p, x, h)
    # acquire
    for what in (IOne, ITwo, INode, ZOO['ordered'].raw, ZOO['base'].raw,
                 ZOO['node'].raw, dict):
        want = None
        for x in reversed(ch[:-1]):
            if isinstance(what, type):
                hit = isinstance(w.real[x], what)
            else:
                hit = what.providedBy(w.real[x])
            if hit:
                want = w.real[x]
                break
        got = node.acquire(what)
        if got is not want:
            return 'acquire(%s) of node %s is %s, should be %s' % (
                what.__name__, h, w.show(got), w.show(want))
    # filters
    kids = [k for k in node]
    for what in (IOne, ITwo, INode):
        want = [node[k] for k in kids if what.providedBy(node[k])]
        for got in (node.filteredvalues(what),
                    list(node.filtereditervalues(what)),
                    list(node.filtereditems(what))):
            if len(got) != len(want) or any(
                    a is not b for a, b in zip(got, want)):
                return 'children of node %s filtered by %s' % (
                    h, what.__name__)
    # printed tree
    want = printed(w, h, 0, ' ')
    got = node.treerepr()
    if got != want:
        return 'printed tree of node %s is\n%sshould be\n%s' % (
            h, got, want)
    for indent, prefix in ((4, '_'), (1, '. '), (0, '')):
        want = printed(w, h, indent, prefix)
        got = node.treerepr(indent=indent, prefix=prefix)
        if got != want:
            return 'printed tree of node %s is\n%sshould be\n%s' % (
                h, got, want)
    return None


def printed(w, h, indent, prefix):
    n = w.m.nodes[h]
    node = w.real[h]
    res = '%s%s: %s\n' % (indent * prefix, type(node), n.name)
    keys = list(n.kids)
    if not n.f['ordered']:
        keys = sorted(keys, key=str)
    for k in keys:
        v = n.kids[k]
        if v[0] == 'n':
            res += printed(w, v[1], indent + 2, prefix)
        else:
            res += '%s%s: %r\n' % ((indent + 2) * prefix, k, w.val(v))
    return res
