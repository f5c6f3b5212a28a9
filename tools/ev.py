import json, sys
for p in sys.argv[1:]:
    d = json.load(open('evidence/%s.json' % p)); c = d['coverage']
    print(p, {k: c.get(k) for k in ('evaluations','distinct_nontrivial','distinct_states','operations_executed','seam_calls','faults_injected_total','probes','probes_never_hit','runs_by_scenario','runs_without_verdict_after_divergence','runs_per_hour','distinct_interleavings')}, d['wall_s'])
    for e in c['divergences_sample']: print('   ', e[:300])
    sites = {}
    for k, v in c['faults_injected'].items():
        a, b = k.split('@'); sites[b] = sites.get(b, 0) + v
    print('   ', sites)
