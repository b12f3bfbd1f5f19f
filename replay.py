#!/usr/bin/env python3
"""replay.py FILE - run a recorded counterexample against the real code (needs no solver)"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
v = json.load(open(sys.argv[1]))
py = '/opt/venv/bin/python'
p = subprocess.Popen([py, os.path.join(HERE, 'symx', 'real_run.py'), v['property']], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
p.stdout.readline()
p.stdin.write(json.dumps(dict(harness=v['harness'], cfg=v['cfg'], inputs=v['inputs'])) + '\n')
p.stdin.close()
r = json.loads(p.stdout.readline())
print(json.dumps(r, indent=1))
sys.exit(1 if any(x[1] is False for x in r['checks']) or (r['exc'] and (r['in_repo'] or r.get('in_harness'))) else 0)
