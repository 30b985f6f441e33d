#!/usr/bin/env python3
"""catch.py [ID...]: apply each planted bug to /repo, run all quick checks (or its own: --own), undo;
prints which checks report it."""
import json, os, re, subprocess, sys, time
args = sys.argv[1:]
own = '--own' in args
args = [a for a in args if not a.startswith('--')]
root = '/verif/seeded'
props = [f'C{i:02}' for i in [*range(1, 18), 19, 20]]
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
def git(*a): subprocess.run(['git', '-C', '/repo', *a], check=True)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
missed = []
table = {}
for id in sorted(os.listdir(root)):
    if args and id not in args: continue
    prop = json.load(open(f'{root}/{id}/meta.json'))['property']
    git('apply', f'{root}/{id}/patch.diff')
    hit, found, odd, t0 = [], [], [], time.time()
    try:
        for p in ([prop] if own else props):
            r = subprocess.run(['./check.sh', p], cwd='/verif', env=env, capture_output=True, text=True)
            if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout: hit.append(p); found += re.findall(r': (run \d+) ', r.stdout)[:1]
            elif r.returncode != 0: odd.append((p, r.returncode, (r.stdout + r.stderr)[-300:]))
    finally:
        git('checkout', '--', '.')
    table[id] = hit
    print(f'{id:28} {prop} {"caught" if prop in hit else "MISSED"} by {" ".join(hit)} {" ".join(found) if own else ""} ({time.time()-t0:.0f}s) {odd or ""}', flush=True)
    if prop not in hit: missed.append(id)
print('missed:', missed)
if not own: json.dump({**(json.load(open('/tmp/catch.json')) if os.path.exists('/tmp/catch.json') else {}), **table}, open('/tmp/catch.json', 'w'), indent=1)
