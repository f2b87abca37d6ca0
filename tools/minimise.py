"""minimise one run: tools/minimise.py <check> <seed> <index> [budget_s] (development aid)"""
import json
import sys
import tempfile

from sim import boot, core, runner

boot.load()
check = runner.get_check(sys.argv[1])
if hasattr(check, 'prepare'):
    check.prepare()
rec = core.make_record(check, int(sys.argv[2]), int(sys.argv[3]), 'quick')
with tempfile.TemporaryDirectory() as d:
    r = runner.run_sequence(check, [rec], d)
    print(r['status'], r['kind'], r['msg'])
    if r['status'] == 'violation':
        m = runner.Minimiser(check, [rec], r['kind'], d, float(sys.argv[4]) if len(sys.argv) > 4 else 40)
        r = m.go()
        print(m.tried, r['kind'], r['msg'])
        print(json.dumps(m.records[-1]))
