"""show.py REPLAY: prints a replay compactly."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d['kind'], d['message'])
for c in d['cases']:
    for k, v in c.items():
        if k in ('ops', 'tasks'):
            for o in v:
                print('   ', json.dumps(o))
        else:
            print('  ', k, json.dumps(v))
