#!/usr/bin/env python3
"""matrix.py N: apply N planted bugs (spread over seeded/) to /repo one at a time (run it in a lane) and list every
check that reports each within a short search, to compare with what the statements say."""
import json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
N = int(sys.argv[1]); START = int(sys.argv[2]) if len(sys.argv) > 2 else 0
RUNS = dict(C01=4000, C02=4000, C03=4000, C04=4000, C05=12000, C06=4000, C07=4000, C08=4000, C09=4000, C10=6000, C11=4000, C12=1500, C13=4000, C14=4000,
            C15=1500, C16=1500, C17=4000, C19=4000, C20=12000)
bugs = sorted(os.path.dirname(p) for p in glob.glob('/verif/seeded/*/meta.json'))
step = max(1, len(bugs) // N)
for b in bugs[START::step]:
    meta = json.load(open(b + '/meta.json'))
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', b + '/patch.diff'], check=True)
        r = subprocess.run(['./build.sh', 'std'], capture_output=True, text=True)
        binary = r.stdout.strip()
        def one(p):
            n = RUNS[p]
            r = subprocess.run([binary, 'work', p, '--seed', '5', '--lo', '0', '--hi', str(n), '--known', '/verif/known_findings.txt'], capture_output=True, text=True, timeout=900)
            return p if 'fail\t' in r.stdout else p + '!' if 'hang' in r.stdout or not r.stdout.endswith('done\n') else ''
        with ThreadPoolExecutor(8) as ex: hit = [x for x in ex.map(one, RUNS) if x]
        print(f"{os.path.basename(b):32} {meta['property']}{'' if meta['property'] in hit else ' (NOT)'}: {' '.join(hit)} -- {meta['what_it_breaks'][:150]}", flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
