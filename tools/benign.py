#!/usr/bin/env python3
"""benign.py [NAME...]: apply each behaviour-preserving edit to /repo, run every quick check, undo."""
import os, subprocess, sys
only = sys.argv[1:]
edits_of = []
def benign(name, edits): edits_of.append((name, edits))
exec(open('/verif/tools/bugs/benign.py').read())
env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
for name, edits in edits_of:
    if only and name not in only: continue
    print("...", name, flush=True)
    try:
        for f, old, new in edits:
            p = f'/repo/mlx9064x/src/{f}'; s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/benign.json'], capture_output=True, text=True)
        import json
        ok = not [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in json.load(open('/tmp/benign.json'))['passed']]
        loud = []
        for i in [*range(1, 18), 19, 20]:
            r = subprocess.run(['./check.sh', f'C{i:02}'], cwd='/verif', env=env, capture_output=True, text=True)
            if r.returncode: loud.append((f'C{i:02}', r.returncode, (r.stdout + r.stderr)[-400:]))
        print(name, 'tests pass' if ok else 'TESTS FAIL', 'quiet' if not loud else 'LOUD', flush=True)
        for l in loud: print('   ', *l, flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
