"""Replay a reported violation on the unmodified library: replay.py FILE.json"""
import json
import os
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import worker

if __name__ == '__main__':
    v = json.load(open(sys.argv[1]))
    r = worker.run_conc(dict(pid=v['property'], tier=v['tier'], bits=v['bits'], items=[dict(case=v['case'], env=v['env'], seed=v['seed'], tight=v.get('tight'))]))[0]
    for f in r['fails']:
        print("FAILS %s: %s" % (f['label'], f['what']))
    if r['status'] == 'exception':
        print("FAILS completes: %s" % r['error'])
        print(r['tb'])
    bad = bool(r['fails']) or r['status'] == 'exception'
    print("reproduced" if bad else "not reproduced")
    sys.stdout.flush()
    os._exit(1 if bad else 0)
