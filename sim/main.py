"""Campaign driver: python -m sim.main C01 [--tier quick|thorough]

Explores seeded simulated runs in worker processes, minimises the first
violation and writes its replay file.  ``--replay FILE`` re-executes one.
``--determinism`` runs the same seeds repeatedly and compares event logs.
"""
import argparse
import ctypes
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')


def child_env(hashseed='0'):
    env = dict(os.environ)
    env.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': hashseed,
                'PYTHONPATH': VERIF, 'PYTHONUNBUFFERED': '1'})
    env.pop('PYTHONSTARTUP', None)
    return env


def fixed_addresses():
    """Child processes lay out their memory alike, so even code depending on
    addresses of objects repeats itself."""
    try:
        libc = ctypes.CDLL(None)
        libc.personality(libc.personality(0xffffffff) | 0x0040000)
    except Exception:
        pass


def spawn(args, hashseed='0', **kw):
    return subprocess.Popen(
        [PY, '-W', 'ignore', '-X', 'faulthandler'] + args, cwd=VERIF,
        env=dict(child_env(hashseed), **kw.pop('extra', {})),
        stdout=subprocess.PIPE, text=True, **kw)


def campaign(prop, tier, seed, runs, nworkers, deadline, hashseed='0',
             extra=None):
    procs = []
    for w in range(nworkers):
        procs.append(spawn(['-m', 'sim.worker', prop, tier, str(seed), str(w),
                            str(nworkers), str(runs), str(deadline)],
                           hashseed, extra=extra or {}))
    results = []
    hard = time.monotonic() + deadline + 90
    for p in procs:
        try:
            out, _ = p.communicate(timeout=max(5, hard - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            results.append([{'t': 'error', 'kind': 'harness',
                             'msg': 'worker did not end', 'trace': ''}])
            continue
        lines = [json.loads(x) for x in out.splitlines() if x.strip()]
        if not lines or lines[-1]['t'] not in ('done', 'violation', 'error'):
            lines.append({'t': 'error', 'kind': 'harness',
                          'msg': 'worker died rc=%s' % p.returncode,
                          'trace': ''})
        results.append(lines)
    return results


def fresh(path, timeout=120):
    """Execute a replay file in a fresh process."""
    doc = json.load(open(path))
    if 'campaign' in doc:
        return recampaign(doc)
    p = spawn(['-m', 'sim.replay', path])
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'status': 'violation', 'kind': 'hang', 'msg': 'timeout',
                'digest': 'timeout'}
    try:
        return json.loads(out.splitlines()[-1])
    except Exception:
        return {'status': 'error', 'kind': 'harness', 'msg': out[-2000:],
                'digest': None}


def recampaign(doc):
    """All runs of the worker up to the violation."""
    c = doc['campaign']
    p = spawn(['-m', 'sim.worker', doc['property'], doc['tier'],
               str(doc['seed']), str(c['worker']), str(c['workers']),
               str(c['runs']), str(c['deadline'])])
    try:
        out, _ = p.communicate(timeout=c['deadline'] + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    for line in out.splitlines():
        line = json.loads(line)
        if line['t'] == 'violation' and line['idx'] == doc['index'] \
                and line['kind'] == doc['kind']:
            return {'status': 'violation', 'kind': line['kind'],
                    'msg': line['msg'], 'digest': None}
    return {'status': 'ok', 'kind': None, 'msg': 'no violation',
            'digest': None}


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, path)


def reproduce(prop, viols, tier, seed, nworkers, runs, deadline):
    """-> (violation, replay document, path, verdict of a fresh process)."""
    base = os.path.join(VERIF, 'replays')
    first = None
    for v in viols[:6]:
        raw = os.path.join(base, '%s-seed%s-%s-raw.json' % (
            prop, seed, v['idx']))
        doc = {'property': prop, 'kind': v['kind'], 'message': v['msg'],
               'seed': seed, 'tier': tier, 'index': v['idx'],
               'cases': [v['case']]}
        first = first or (v, doc, raw)
        write_json(raw, doc)
        for _ in range(2):
            res = fresh(raw)
            if res['status'] == 'violation':
                return v, doc, raw, res
        if v is not viols[0]:
            os.unlink(raw)
    # state left behind by earlier runs of the same process, or by its heap?
    v, doc, raw = first
    worker = {'worker': v['idx'] % nworkers, 'workers': nworkers}
    doc['prefix'] = worker
    write_json(raw, doc)
    res = fresh(raw, timeout=600)
    if res['status'] != 'violation':
        del doc['prefix']
        doc['campaign'] = dict(worker, runs=runs, deadline=deadline)
        write_json(raw, doc)
        res = fresh(raw)
    return v, doc, raw, res


def minimise(prop, viols, tier, seed, nworkers, runs, deadline):
    """Shrink in a separate process; returns path of the replay file."""
    v, doc, raw, res = reproduce(
        prop, viols, tier, seed, nworkers, runs, deadline)
    path = raw.replace('-raw', '')
    if res['status'] != 'violation':
        return None, res
    if v['kind'] == 'hang' and v.get('stuck') or 'campaign' in doc:
        os.rename(raw, path)
        return path, res
    p = spawn(['-m', 'sim.shrink', raw, path])
    try:
        p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
    if os.path.exists(path):
        res2 = fresh(path)
        if res2['status'] == 'violation':
            os.unlink(raw)
            return path, res2
        os.unlink(path)
    os.rename(raw, path)
    return path, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(
        8, len(os.sched_getaffinity(0)) or 1))
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--determinism', action='store_true')
    a = ap.parse_args()
    fixed_addresses()
    prop = a.property.upper()
    seed = int(a.seed)
    if a.replay:
        res = fresh(a.replay)
        print(json.dumps(res, indent=1))
        if res['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0 if res['status'] in ('ok', 'end') else 3
    meta = json.loads(subprocess.run(
        [PY, '-W', 'ignore', '-m', 'sim.meta', prop], cwd=VERIF,
        env=child_env(), stdout=subprocess.PIPE, text=True,
        check=True).stdout)
    runs = a.runs or meta['runs'][a.tier]
    deadline = a.deadline or {'quick': 240, 'thorough': 780}[a.tier]
    if a.determinism:
        return determinism(prop, a, seed, runs)
    t0 = time.monotonic()
    results = campaign(prop, a.tier, seed, runs, a.workers, deadline)
    errors = [l for r in results for l in r if l['t'] == 'error']
    viols = [l for r in results for l in r if l['t'] == 'violation']
    wall = time.monotonic() - t0
    dones = [l for r in results for l in r if l['t'] == 'done']
    path = None
    if viols:
        viols.sort(key=lambda v: (v.get('stuck', False), v['idx']))
        v = viols[0]
        path, res = minimise(prop, viols, a.tier, seed, a.workers, runs,
                             deadline)
        if path is None:
            errors.append({'kind': 'unreproducible', 'msg': '%s: %s' % (
                v['kind'], v['msg']), 'trace': json.dumps(v['case'])})
    evidence(prop, a, seed, runs, meta, dones, viols, wall,
             time.monotonic() - t0)
    if path:
        print('property %s: %s: %s' % (prop, res['kind'], res['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR %s %s\n%s' % (
                e['kind'], e['msg'], e.get('trace', '')), file=sys.stderr)
            if 'case' in e:
                print(json.dumps(e['case']), file=sys.stderr)
        return 3
    n = sum(d['runs'] for d in dones)
    print('property %s held in %d simulated runs (seed %d, %.1f s)' % (
        prop, n, seed, wall))
    for line in meta.get('known', ()):
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    return 0


def merge(dones, key):
    res = {}
    for d in dones:
        for k, v in d[key].items():
            res[k] = res.get(k, 0) + v
    return dict(sorted(res.items()))


def evidence(prop, a, seed, runs, meta, dones, viols, wall, total):
    n = sum(d['runs'] for d in dones)
    probes = merge(dones, 'probes')
    samples = []
    for d in dones:
        samples.extend(d['samples'])
    samples = sorted(samples, key=lambda s: s['idx'])[:3]
    if not samples:
        samples = [{'violation': v['case']} for v in viols[:1]]
    digests = set()
    states = set()
    inter = set()
    for d in dones:
        digests.update(d['digests'])
        states.update(d['states'])
        inter.update(d['interleavings'])
    cov = {
        'evaluations': n,
        'distinct_nontrivial': sum(d['nontrivial'] for d in dones),
        'rule': meta['rule'],
        'samples': samples,
        'runs_planned': runs,
        'workers': a.workers,
        'distinct_event_logs': len(digests),
        'distinct_states': len(states),
        'state_measure': meta['state_measure'],
        'runs_per_hour': int(n / wall * 3600) if wall else 0,
        'seeds_per_hour': int(n / wall * 3600) if wall else 0,
        'operations_executed': sum(d['ops'] for d in dones),
        'seam_calls': sum(d['steps'] for d in dones),
        'simulated_seconds': round(sum(d['simtime'] for d in dones), 3),
        'faults_injected': merge(dones, 'faults'),
        'faults_injected_total': sum(merge(dones, 'faults').values()),
        'probes': probes,
        'probes_never_hit': [p for p in meta['probes'] if p not in probes],
        'runs_by_scenario': merge(dones, 'by_scenario'),
        'runs_without_verdict_after_divergence': sum(
            d['ended'] for d in dones),
        'divergences_sample': sorted(
            e for d in dones for e in d['ends'])[:5],
        'components': {'real': meta['real'], 'stub': meta['stub']},
    }
    if inter:
        cov['distinct_interleavings'] = len(inter)
    write_json(os.path.join(VERIF, 'evidence', prop + '.json'), {
        'property': prop, 'tier': a.tier, 'seed': seed,
        'level': 'exploration', 'coverage': cov,
        'assumptions': meta['assumptions'], 'wall_s': round(total, 2),
        'violations': len(viols)})


def determinism(prop, a, seed, runs):
    """Event logs of the same seeds in other processes, with other worker
    counts and hash seeds must be identical."""
    runs = min(runs, a.runs or 1600)
    ref = None
    bad = 0
    for nw, hs in ((8, '0'), (8, '0'), (5, '0'), (8, '1'), (3, '4711'),
                   (8, 'random'), (16, '99')):
        res = campaign(prop, a.tier, seed, runs, nw, 600, hs,
                       extra={'SIM_DIGESTS': '1'})
        d = {}
        for r in res:
            for l in r:
                if l['t'] == 'd':
                    d[l['idx']] = l['d']
                elif l['t'] != 'done':
                    print(nw, hs, {k: l[k] for k in ('t', 'kind', 'msg')})
        if ref is None:
            ref = d
            continue
        diff = [i for i in ref if d.get(i) != ref[i]]
        print('%s workers=%d hashseed=%s runs=%d differing=%d %s' % (
            prop, nw, hs, len(d), len(diff), diff[:5]))
        bad += len(diff)
    return 3 if bad else 0


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
