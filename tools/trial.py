#!/usr/bin/env python3
"""trial.py SPECFILE [ID...]: apply each bug of a specification to /repo (run it in a lane), see whether
its stable tests pass and whether the check of its property catches it. Demonstrations are not used."""
import json, os, subprocess, sys, time
bugs = []
def bug(id, prop, needs, breaks, edits, main=''): bugs.append((id, prop, edits))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
missed = []
for id, prop, edits in bugs:
    if only and id not in only: continue
    try:
        for f, old, new, *nth in edits:
            p = f'/repo/mlx9064x/src/{f}'; s = open(p).read()
            assert old in s, (id, f, old)
            if nth:
                parts = s.split(old); k = nth[0] + 1
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/trial.json'], capture_output=True, text=True)
        try:
            ok = not [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in json.load(open('/tmp/trial.json'))['passed']]
        except Exception: ok = False
        t0 = time.time()
        r = subprocess.run(['./check.sh', prop], cwd='/verif', env=env, capture_output=True, text=True)
        res = 'caught' if r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout else 'MISSED' if r.returncode == 0 else f'ERROR {r.returncode} {(r.stdout + r.stderr)[-600:]}'
        if res != 'caught': missed.append(id)
        first = [l for l in r.stdout.splitlines() if 'breaks the property' in l]
        print(f'{id:28} {prop} {"tests pass" if ok else "TESTS FAIL"} {res} ({time.time()-t0:.0f}s) {first[0][:90] if first else ""}', flush=True)
    except AssertionError as e:
        print(id, 'does not apply', e, flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
print('missed:', missed)
