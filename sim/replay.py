"""Re-executes a replay file; last line of output is a JSON verdict."""
import json
import os
import sys


def run_doc(doc, wall=40.0):
    from sim import env
    env.up()
    from sim.registry import load, pick, scenario_by_name
    from sim.execute import execute
    mod = load(doc['property'])
    if 'prefix' in doc:
        p = doc['prefix']
        for idx in range(p['worker'], doc['index'], p['workers']):
            scenario, case = pick(mod, doc['seed'], doc['tier'], idx)
            execute(scenario, case)
    o = None
    for case in doc['cases']:
        o = execute(scenario_by_name(mod, case['scenario']), case, wall)
        if o.status != 'ok':
            break
    return o


def main(path):
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    doc = json.load(open(path))
    o = run_doc(doc)
    if os.environ.get('SIM_SHOWLOG'):
        for e in o.ctx.log:
            out.write(repr(e) + '\n')
    out.write(json.dumps({
        'status': o.status, 'kind': o.kind, 'msg': o.msg,
        'digest': o.ctx.digest() if not o.stuck else 'stuck',
        'trace': o.trace}) + '\n')
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])
