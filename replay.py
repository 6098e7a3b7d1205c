#!/usr/bin/env python3-vt
"""replay.py FILE: run the failing inputs of a replay file on the current /repo (build first: tools/setup.sh)."""
import json
import subprocess
import sys
d = json.load(open(sys.argv[1]))
for f in d.get('failing_inputs', []):
    print(f['case'])
    print('observed before:', *f['observed'], sep='\n  ')
    print(subprocess.run(['/verif/.build/harness/debug/glmharness'], input=f['case'], capture_output=True, text=True).stdout)
for o in d.get('failed_obligations', []):
    print(json.dumps(o, indent=1))
