"""python3-vt -m sf.replay FILE: runs the recorded counterexample on the real binary built from /repo"""
import json, sys
from . import build, check

if __name__ == '__main__':
    r = json.load(open(sys.argv[1]))
    tools = build.build()
    _, scs = check.load(r['property'], r['tier'])
    sc = {s.name: s for s in scs}[r['scenario']]
    p, bad = check.native_verdict(sc, r['choice'], tools)
    for x in p.runs:
        print('--', x.end)
        print(x.out)
        print(x.err, file=sys.stderr)
    print('BROKEN: %s' % bad if bad else 'holds')
    sys.exit(1 if bad else 0)
