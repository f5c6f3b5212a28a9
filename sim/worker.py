"""Worker process: runs the cases of its indices, reports JSON lines."""
import json
import os
import sys
import time


def main(argv):
    prop, tier, seed, w, nw, runs, deadline = argv[:7]
    w, nw, runs = int(w), int(nw), int(runs)
    deadline = float(deadline)
    from sim import env
    env.up()
    from sim.registry import load, pick
    from sim.execute import execute
    mod = load(prop)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    t0 = time.monotonic()
    stats = {'runs': 0, 'steps': 0, 'simtime': 0.0, 'ops': 0, 'faults': {},
             'probes': {}, 'by_scenario': {}, 'ended': 0, 'violations': 0}
    digests = set()
    states = set()
    inter = set()
    nontrivial = 0
    samples = []
    ends = []
    full = os.environ.get('SIM_DIGESTS')
    import random  # noqa
    for idx in range(w, runs, nw):
        if time.monotonic() - t0 > deadline:
            stats['stopped_at'] = idx
            break
        scenario, case = pick(mod, seed, tier, idx)
        o = execute(scenario, case)
        ctx = o.ctx
        if o.status == 'violation':
            stats['violations'] += 1
            out.write(json.dumps({
                't': 'violation', 'idx': idx, 'case': case, 'kind': o.kind,
                'msg': o.msg, 'stuck': o.stuck}) + '\n')
            out.flush()
            if o.stuck:
                os._exit(0)
            stats['runs'] += 1
            break
        if o.status == 'error':
            out.write(json.dumps({
                't': 'error', 'idx': idx, 'case': case, 'kind': o.kind,
                'msg': o.msg, 'trace': o.trace}) + '\n')
            out.flush()
            os._exit(0)
        d = ctx.digest()
        if full:
            out.write(json.dumps({'t': 'd', 'idx': idx, 'd': d}) + '\n')
        stats['runs'] += 1
        stats['ended'] += o.status == 'end'
        if o.status == 'end' and len(ends) < 3:
            ends.append('run %d: %s' % (idx, o.msg))
        stats['steps'] += ctx.steps
        stats['simtime'] += ctx.simtime
        stats['ops'] += ctx.ops_done
        s = stats['by_scenario']
        s[scenario.name] = s.get(scenario.name, 0) + 1
        for src, dst in ((ctx.faults_fired, stats['faults']),
                         (ctx.probes, stats['probes'])):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        if ctx.interleaving is not None:
            inter.add(ctx.interleaving)
        states |= ctx.states
        if (ctx.nontrivial or ctx.faults_fired) and d not in digests:
            nontrivial += 1
            if len(samples) < 2 and len(json.dumps(case)) < 3000:
                samples.append({'idx': idx, 'case': case,
                                'log_tail': [repr(e) for e in ctx.log[-6:]]})
        digests.add(d)
    stats.update({
        't': 'done', 'nontrivial': nontrivial, 'samples': samples, 'ends': ends,
        'digests': sorted(int(d[:14], 16) for d in digests),
        'states': sorted(states), 'interleavings': sorted(inter),
        'wall': time.monotonic() - t0})
    out.write(json.dumps(stats) + '\n')
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1:])
