"""Mutation campaign: which small changes of src/node survive the existing
tests and are not noticed by the checks either?

  mutation.py gen OUT.json            all mutants of src/node
  mutation.py test IN.json OUT.json   those that pass the stable tests
  mutation.py check IN.json OUT.json [RUNS]   those no check notices

Works on copies of /repo under /tmp/mut, mounted over /repo in a user
namespace of its own for the tests; /repo itself is not touched.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue
import difflib

REPO = '/repo'
W = '/tmp/mut/w'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SKIP = ('compat.py', 'parts.py', 'interfaces.py', 'testing', 'tests')
ORDER = {
    'locking.py': ['C01', 'C02'], 'events.py': ['C03', 'C04'],
    'behaviors/events.py': ['C03', 'C04'],
    'behaviors/fallback.py': ['C05'], 'behaviors/common.py': [
        'C06', 'C12', 'C16', 'C18', 'C07'],
    'behaviors/storage.py': ['C07', 'C09', 'C06'],
    'behaviors/mapping.py': ['C07', 'C16', 'C06', 'C14'],
    'behaviors/reference.py': ['C08', 'C09', 'C16'],
    'behaviors/order.py': ['C09'], 'behaviors/lifecycle.py': ['C10'],
    'behaviors/cache.py': ['C11', 'C12'],
    'behaviors/nodespace.py': ['C13', 'C07'], 'behaviors/attributes.py': ['C13'],
    'behaviors/alias.py': ['C14'], 'serializer.py': ['C15'],
    'behaviors/nodify.py': ['C19', 'C16', 'C07'], 'utils.py': [
        'C17', 'C18', 'C20', 'C21', 'C19', 'C14'], 'base.py': ['C06', 'C07', 'C19'],
}
ALL = ['C%02d' % i for i in range(1, 22)]


def muts(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()
    res = []

    def put(n, new, op):
        a, b = pos(n)
        res.append((a, b, new, op))

    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<',
           ast.Gt: '>=', ast.GtE: '>'}

    def ind(n):
        return ' ' * n.col_offset

    def body_text(stmts):
        a = offs[stmts[0].lineno - 1]
        b = pos(stmts[-1])[1]
        return raw[a:b].decode()

    def dedent(text, by):
        return '\n'.join(l[by:] if l[:by].strip() == '' else l
                         for l in text.split('\n'))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            o = type(n.ops[0])
            put(n, '(%s %s %s)' % (l, CMP[o], r), 'cmp')
            if r == 'None':
                put(n, ('(not %s)' if o is ast.Is else '(%s)') % l, 'truth')
            if o in (ast.Is, ast.IsNot) and r != 'None':
                put(n, '(%s %s %s)' % (l, '==' if o is ast.Is else '!=', r),
                    'is-eq')
            if o is ast.Lt:
                put(n, '(%s > %s)' % (l, r), 'cmp')
        elif isinstance(n, ast.BoolOp):
            vals = [seg(v) for v in n.values]
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            rop = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(%s)' % rop.join('(%s)' % v for v in vals), 'boolop')
            for i in range(len(vals)):
                rest = vals[:i] + vals[i + 1:]
                put(n, '(%s)' % op.join('(%s)' % v for v in rest), 'booldrop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, '(not (%s))' % seg(n.test), 'negate')
            put(n.test, 'True' if isinstance(n, ast.If) else 'False', 'const')
            if isinstance(n, ast.If):
                put(n.test, 'False', 'const')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % seg(n.body), 'ifexp')
            put(n, '(%s)' % seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, repr(not v), 'bool')
            elif isinstance(v, int):
                put(n, repr(v + 1), 'int')
                put(n, repr(v - 1) if v else '-1', 'int')
            elif v is None:
                put(n, '()', 'none')
            elif isinstance(v, str) and '\n' not in v and len(v) < 40:
                put(n, repr(v[:-1] if v else 'x'), 'str')
        elif isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Add, ast.Sub)):
            l, r = seg(n.left), seg(n.right)
            put(n, '(%s)' % l, 'binop')
            put(n, '(%s)' % r, 'binop')
        elif isinstance(n, ast.Call):
            args = n.args
            if len(args) == 1 and not n.keywords and isinstance(
                    n.func, ast.Name) and not isinstance(
                    args[0], ast.Starred):
                put(n, '(%s)' % seg(args[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute) and not args \
                    and not n.keywords:
                put(n, '(%s)' % seg(n.func.value), 'unwrap')
            for i in range(len(args) - 1):
                a, b = args[i], args[i + 1]
                x = pos(a)
                y = pos(b)
                res.append((x[0], y[1], seg(b) + ', ' + seg(a), 'argswap'))
            for i, k in enumerate(n.keywords):
                parts = [seg(a) for a in args] + [
                    ('%s=%s' % (q.arg, seg(q.value))) if q.arg
                    else '**' + seg(q.value)
                    for q in n.keywords if q is not k]
                put(n, '%s(%s)' % (seg(n.func), ', '.join(parts)), 'kwdrop')
            if len(args) > 1:
                parts = [seg(a) for a in args[:-1]] + [
                    ('%s=%s' % (q.arg, seg(q.value))) if q.arg
                    else '**' + seg(q.value) for q in n.keywords]
                put(n, '%s(%s)' % (seg(n.func), ', '.join(parts)), 'argdrop')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, '(%s)' % seg(n.value), 'slice')
        elif isinstance(n, ast.Try):
            if n.finalbody:
                # runs if nothing failed only
                b = body_text(n.body)
                f = body_text(n.finalbody)
                if not n.handlers and not n.orelse:
                    put(n, ('if True:\n' + b + '\n' + dedent(f, 4)),
                        'nofinally')
                    put(n, ('try:\n' + b + '\n' + ind(n) +
                            'except Exception:\n' + f + '\n' + ' ' * (
                                n.col_offset + 4) + 'raise\n' + dedent(f, 4)),
                        'finally-exc')
            for h in n.handlers:
                t = seg(h.type) if h.type else None
                for new in ('Exception', 'BaseException', 'KeyError',
                            'AttributeError', '(KeyError, AttributeError)',
                            'LookupError', 'ZeroDivisionError'):
                    if t and new != t:
                        put(h.type, new, 'except')
                last = h.body[-1]
                if isinstance(last, ast.Raise):
                    pass
        elif isinstance(n, ast.With):
            b = body_text(n.body)
            pre = ''
            v = n.items[0].optional_vars
            if v is None:
                put(n, 'if True:\n' + b, 'nowith')
            else:
                put(n, '%s = 0\n%sif True:\n%s' % (seg(v), ind(n), b),
                    'nowith')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'loop')
        elif isinstance(n, ast.Break):
            put(n, 'continue', 'loop')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'return')
        elif isinstance(n, ast.For):
            put(n.iter, '[%s for _x in [0]][:0]' % seg(n.iter)
                if False else '()', 'forempty')
            put(n.iter, 'list(%s)[:1]' % seg(n.iter), 'forone')
            put(n.iter, 'list(%s)[::-1]' % seg(n.iter), 'forrev')
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(n, field, None)
            if not isinstance(stmts, list) or isinstance(
                    n, (ast.Module, ast.ClassDef)):
                continue
            for i, s in enumerate(stmts):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                                  ast.Delete, ast.Raise)):
                    if isinstance(s, ast.Expr) and isinstance(
                            s.value, ast.Constant):
                        continue
                    put(s, 'pass', 'drop')
                if i + 1 < len(stmts):
                    t = stmts[i + 1]
                    ok = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                          ast.If, ast.For, ast.With, ast.Try)
                    if isinstance(s, ok) and isinstance(t, ok) and not (
                            isinstance(s, ast.Expr) and isinstance(
                                s.value, ast.Constant)):
                        a, b = pos(s)
                        c, d = pos(t)
                        if raw[b:c].strip() == b'' or True:
                            res.append((
                                a, d, seg(t) + raw[b:c].decode() + seg(s),
                                'swap'))
    out = []
    seen = set()
    for a, b, new, op in res:
        text = (raw[:a] + new.encode() + raw[b:]).decode()
        if text == src or text in seen:
            continue
        seen.add(text)
        try:
            t2 = ast.parse(text)
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(tree):
            continue
        out.append((op, text))
    return out


def gen(out):
    res = []
    base = REPO + '/src/node'
    for d, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if not f.endswith('.py') or rel.startswith(SKIP) or \
                    f == '__init__.py':
                continue
            src = open(p).read()
            for op, text in muts(src):
                diff = ''.join(difflib.unified_diff(
                    src.splitlines(True), text.splitlines(True),
                    rel, rel, n=2))
                res.append({'id': len(res), 'file': rel, 'op': op,
                            'text': text, 'diff': diff})
    json.dump(res, open(out, 'w'))
    print(len(res), 'mutants')


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True,
                         start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', '', ''
    return p.returncode, out, err


def slots(n):
    q = queue.Queue()
    for i in range(n):
        d = '%s/s%d' % (W, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(
            'git -C %s archive HEAD | tar x -C %s' % (REPO, d), shell=True)
        q.put(d)
    return q


def apply_(d, m):
    p = os.path.join(d, 'src/node', m['file'])
    orig = open(os.path.join(REPO, 'src/node', m['file'])).read()
    open(p, 'w').write(m['text'])
    return p, orig


def test(inp, out):
    ms = json.load(open(inp))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = slots(12)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    alive = []

    def one(m):
        d = q.get()
        try:
            p, orig = apply_(d, m)
            o = d + '.json'
            rc, so, se = sh(
                "unshare -Urm bash -c 'mount --bind %s /repo; cd /repo; "
                "bash /opt/vp/test.sh %s'" % (d, o), timeout=60, env=env)
            open(p, 'w').write(orig)
            if rc == 'timeout' or not os.path.exists(o):
                return m, False
            r = json.load(open(o))
            os.unlink(o)
            ok = stable <= set(r.get('passed', r.get('pass', [])))
            return m, ok
        finally:
            q.put(d)
    with ThreadPoolExecutor(12) as ex:
        for i, (m, ok) in enumerate(ex.map(one, ms)):
            if ok:
                alive.append(m)
            if i % 200 == 0:
                print(i, len(alive), flush=True)
    json.dump(alive, open(out, 'w'))
    print(len(ms), 'mutants,', len(alive), 'pass the tests')


def check(inp, out, frac=0.2):
    ms = json.load(open(inp))
    q = slots(8)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=VERIF)
    runs = {}
    for p in ALL:
        meta = json.loads(sh('%s -W ignore -m sim.meta %s' % (PY, p), cwd=VERIF,
                             env=env)[1])
        runs[p] = int(meta['runs']['quick'] * frac)

    def one(m):
        d = q.get()
        try:
            p, orig = apply_(d, m)
            e = dict(env, SIM_SRC=d + '/src')
            first = ORDER.get(m['file'], [])
            by = None
            for prop in first or ALL:
                n = runs[prop]
                rc, so, se = sh('%s -W ignore -m sim.worker %s quick 1 0 1 %d '
                                '120' % (PY, prop, n), timeout=240, cwd=VERIF,
                                env=e)
                if rc == 'timeout':
                    by = prop + ' timeout'
                    break
                ls = [json.loads(x) for x in so.splitlines() if x.strip()]
                bad = [x for x in ls if x['t'] != 'done']
                if not ls or bad:
                    by = '%s %s %s' % (prop, bad[0]['t'] if bad else 'died',
                                       repr(bad[0].get('msg') if bad
                                            else se[-200:])[:150])
                    break
            open(p, 'w').write(orig)
            return m, by
        finally:
            q.put(d)
    log = open(out + '.log', 'w')
    left = []
    with ThreadPoolExecutor(8) as ex:
        for m, by in ex.map(one, ms):
            log.write('%s %s %s %s\n' % (m['id'], m['file'], m['op'], by))
            log.flush()
            if by is None:
                left.append(m)
                json.dump(left, open(out, 'w'))
    json.dump(left, open(out, 'w'))
    print(len(ms), 'mutants,', len(left), 'not noticed')


if __name__ == '__main__':
    a = sys.argv[1:]
    {'gen': gen, 'test': test, 'check': check}[a[0]](
        *(a[1:3] + [float(x) for x in a[3:]]))
