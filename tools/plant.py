#!/usr/bin/env python3
"""plant.py SPECFILE [ID...]: turn bug specifications into /verif/seeded/<id>/ after validating them.

A specification file is Python: bug(id, prop, needs, breaks, [(file, old, new)...], main_rs). A bug is
kept only if the patched crate builds, its stable tests pass, and the demonstration passes without
and fails with the patch. Everything happens in a scratch copy."""
import json, os, shutil, subprocess, sys
SCRATCH = '/tmp/plant/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', PATH='/root/.cargo/bin:' + os.environ['PATH'])
here = os.path.dirname(os.path.abspath(__file__))
bugs = []
def bug(id, prop, needs, breaks, edits, main): bugs.append((id, prop, needs, breaks, edits, main))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
if os.path.exists(SCRATCH): sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq -e target -e Cargo.lock', SCRATCH)
else:
    os.makedirs('/tmp/plant', exist_ok=True); sh('cp -a /repo /tmp/plant/repo')
baseline = json.load(open('/opt/vp/BASELINE.json'))
stable = baseline.get('stable') or baseline.get('passed') or baseline.get('tests')
bad = 0
for id, prop, needs, breaks, edits, main in bugs:
    if only and id not in only: continue
    sh('git checkout -q -- .', SCRATCH)
    d = f'/tmp/plant/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ('cam.rs', 'demo.sh'): shutil.copy(f'{here}/demo/{f}', d)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(main.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    clean = sh(f'bash {d}/demo.sh', SCRATCH)
    ok = clean.returncode == 0
    if not ok: print(f"{id}: demo fails on the unchanged tree ({clean.returncode})\n{clean.stdout[-1200:]}"); bad += 1; continue
    for f, old, new, *nth in edits:
        p = f'{SCRATCH}/mlx9064x/src/{f}'
        s = open(p).read()
        if nth and s.count(old) > nth[0]:  # the n-th occurrence
            parts = s.split(old); k = nth[0] + 1
            open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:])); continue
        if s.count(old) != 1: print(f'{id}: {s.count(old)} matches in {f} for:\n{old}'); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: bad += 1; continue
    open(f'{d}/patch.diff', 'w').write(sh('git diff', SCRATCH).stdout)
    t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant/test.log 2>&1; python3 /opt/vp/results.py /tmp/plant/out.json cargo:/tmp/plant/test.log', SCRATCH)
    out = json.load(open('/tmp/plant/out.json'))
    failed = [x for x in stable if x not in out['passed']]
    if failed: print(f'{id}: tests fail: {failed[:5]}', t.stdout[-500:], open('/tmp/plant/test.log').read()[-1500:] if len(failed) > 20 else ''); bad += 1; continue
    dirty = sh(f'bash {d}/demo.sh', SCRATCH)
    if dirty.returncode == 0: print(f'{id}: demo does not notice the patch'); bad += 1; continue
    if 'could not compile' in dirty.stdout: print(f'{id}: does not compile\n{dirty.stdout[-2000:]}'); bad += 1; continue
    dst = f'/verif/seeded/{id}'
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(f'{id}: planted ({prop}); demo says: {[l[:150] for l in dirty.stdout.splitlines() if l.strip() and 'RUST_BACKTRACE' not in l][-2:]}')
sh('git checkout -q -- .', SCRATCH)
sys.exit(bad > 0)
