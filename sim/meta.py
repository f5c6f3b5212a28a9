"""Static facts of a property module, as JSON."""
import json
import sys


def main(prop):
    from sim import env
    env.up()
    from sim.registry import load
    m = load(prop)
    print(json.dumps({
        'runs': m.RUNS, 'rule': m.RULE, 'real': m.REAL, 'stub': m.STUB,
        'probes': m.PROBES, 'assumptions': m.ASSUMPTIONS,
        'state_measure': m.STATE_MEASURE}))


if __name__ == '__main__':
    main(sys.argv[1])
