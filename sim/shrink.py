"""Minimises a failing case: operations, faults, preemptions, configuration.

A candidate is kept if it fails with the same kind of violation."""
import copy
import json
import os
import sys
import time


class Shrinker(object):

    def __init__(self, doc, path, limit=90.0):
        from sim.registry import load, scenario_by_name
        self.doc = doc
        self.path = path
        self.mod = load(doc['property'])
        self.by_name = scenario_by_name
        self.kind = doc['kind']
        self.t0 = time.monotonic()
        self.limit = limit
        self.tried = 0
        self.best = doc['cases'][-1]

    def late(self):
        return time.monotonic() - self.t0 > self.limit

    def fails(self, case):
        from sim.execute import execute
        if self.late():
            return None
        self.tried += 1
        o = execute(self.by_name(self.mod, case['scenario']), case)
        if o.stuck:
            # thread lost: stop here with what we have
            self.limit = 0
            return None
        if o.status == 'violation' and o.kind == self.kind:
            return o
        return None

    def keep(self, case, o):
        self.best = case
        doc = dict(self.doc, cases=[case], message=o.msg,
                   digest=o.ctx.digest(),
                   trace=[repr(e) for e in o.ctx.log][-400:],
                   minimised=True)
        tmp = self.path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1, sort_keys=True)
            f.write('\n')
        os.rename(tmp, self.path)

    def search(self, case):
        """Fails as is or, if it is scheduled, under some other schedule."""
        o = self.fails(case)
        if o is not None or not case.get('sched'):
            return case, o
        for i in range(12):
            for gap in (4, 20, 80):
                c = dict(case, sched={'mode': 'random', 'seed': i,
                                      'gap': gap})
                o = self.fails(c)
                if o is not None:
                    return c, o
                if self.late():
                    return case, None
        return case, None

    def ddmin(self, get, put, search=False):
        """Remove chunks of a list as long as the case keeps failing."""
        n = 2
        while True:
            items = get(self.best)
            if not items:
                return
            size = max(1, len(items) // n)
            i = 0
            changed = False
            while i < len(get(self.best)):
                items = get(self.best)
                cand = put(copy.deepcopy(self.best),
                           items[:i] + items[i + size:])
                if search:
                    cand, o = self.search(cand)
                else:
                    o = self.fails(cand)
                if o is not None:
                    self.keep(cand, o)
                    changed = True
                else:
                    i += size
                if self.late():
                    return
            if size == 1 and not changed:
                return
            n = min(n * 2, max(2, len(get(self.best))))

    def explicit(self):
        """Replace the policy by the list of its decisions."""
        case = self.best
        if not case.get('sched') or case['sched']['mode'] == 'explicit':
            return
        o = self.fails(case)
        if o is None:
            return
        sw = None
        for e in reversed(o.ctx.log):
            if e[0] == 'sched':
                sw = [list(s) for s in e[2]]
                break
        if sw is None:
            return
        cand = dict(copy.deepcopy(case),
                    sched={'mode': 'explicit', 'switches': sw})
        o = self.fails(cand)
        if o is not None:
            self.keep(cand, o)

    def run(self):
        o = self.fails(self.best)
        if o is None:
            return
        self.keep(self.best, o)

        def lists():
            if 'ops' in self.best:
                yield ('ops',)
            for i in range(len(self.best.get('tasks', ()))):
                yield ('tasks', i)

        def getter(path):
            def get(case):
                for p in path:
                    case = case[p]
                return case
            return get

        def putter(path):
            def put(case, val):
                c = case
                for p in path[:-1]:
                    c = c[p]
                c[path[-1]] = val
                return case
            return put

        def hoist():
            # replace nested operations by their contents
            for path in list(lists()):
                i = 0
                while i < len(getter(path)(self.best)) and not self.late():
                    items = getter(path)(self.best)
                    op = items[i]
                    body = op.get('body') if isinstance(op, dict) else None
                    if body:
                        tries = [items[:i] + body + items[i + 1:]]
                        tries += [items[:i] + [dict(op, body=body[:j]
                                                    + body[j + 1:])]
                                  + items[i + 1:] for j in range(len(body))]
                        done = False
                        for t in tries:
                            cand = putter(path)(
                                copy.deepcopy(self.best), copy.deepcopy(t))
                            cand, o = self.search(cand)
                            if o is not None:
                                self.keep(cand, o)
                                done = True
                                break
                        if done:
                            continue
                    i += 1

        for _ in range(3):
            hoist()
            before = json.dumps(self.best, sort_keys=True)
            for path in list(lists()):
                self.ddmin(getter(path), putter(path), search=True)
            self.ddmin(getter(('faults',)), putter(('faults',))) \
                if self.best.get('faults') else None
            if self.late() or json.dumps(
                    self.best, sort_keys=True) == before:
                break
        self.explicit()
        if (self.best.get('sched') or {}).get('mode') == 'explicit':
            self.ddmin(getter(('sched', 'switches')),
                       putter(('sched', 'switches')))
            for path in list(lists()):
                self.ddmin(getter(path), putter(path))


def main(src, dst):
    from sim import env
    env.up()
    doc = json.load(open(src))
    if 'prefix' in doc:
        return
    Shrinker(doc, dst).run()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
