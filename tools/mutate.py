#!/usr/bin/env python3
"""mutate.py K N LOG [FILE...]: mutation analysis of the code under test. Takes every N-th mutant starting with
the K-th, builds the simulator against it and runs the properties' searches (short) until one reports it;
survivors are run against the existing tests. Run it in a lane (tools/lane.sh), it edits /repo."""
import json, os, re, subprocess, sys, time
K, N, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SRC = '/repo/mlx9064x/src/'
FILES = sys.argv[4:] or ['calculations.rs', 'common.rs', 'driver.rs', 'register.rs', 'util.rs', 'error.rs', 'mlx90640/address.rs', 'mlx90640/eeprom.rs',
         'mlx90640/mod.rs', 'mlx90641/address.rs', 'mlx90641/eeprom.rs', 'mlx90641/hamming.rs', 'mlx90641/mod.rs']
RUNS = dict(C01=4000, C10=6000, C05=12000, C03=4000, C08=4000, C02=4000, C04=4000, C06=4000, C07=4000, C09=4000, C11=4000, C12=1500, C13=4000, C14=4000,
            C15=2000, C16=1500, C17=4000, C19=4000, C20=12000)

def code_lines(text):
    """Lines of shipped code: not comments, not the test module."""
    out, test = [], False
    for i, l in enumerate(text.split('\n')):
        if re.match(r'\s*#\[cfg\(test\)\]', l): test = True
        if test and re.match(r'^(pub )?(pub\(crate\) )?mod \w+ \{', l): break
        if test and not l.startswith('#'): test = False if l.startswith('}') else test
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('#!['): continue
        if test: continue
        out.append(i)
    return out

PAIRS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' << ', ' >> '), (r' >> ', ' << '), (r' & ', ' | '), (r' \| ', ' & '),
         (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r' % ', ' / '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'!(?=[a-z(])(?<!\w!)', ''), (r'\bi8\b', 'u8'), (r'\bi16\b', 'u16'), (r'\bu8\b', 'i8'), (r'\bu16\b', 'i16'), (r'\.\.=', '..'),
         (r'\bSubpage::Zero\b', 'Subpage::One'), (r'\bSubpage::One\b', 'Subpage::Zero'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min(')]

def mutants(f):
    text = open(SRC + f).read(); lines = text.split('\n')
    for i in code_lines(text):
        l = lines[i]; body = l.split('//')[0]
        seen = set()
        def emit(new, what):
            if new != l and new not in seen:
                seen.add(new); return [(f, i, new, what)]
            return []
        for pat, rep in PAIRS:
            for m in re.finditer(pat, body):
                if pat == r' \* ' and False: continue
                yield from emit(l[:m.start()] + rep + l[m.end():], f'{m.group()}->{rep}')
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.\d+(?:e-?\d+)?)(?:f32|f64)?\b', body):
            yield from emit(l[:m.start(1)] + repr(float(m.group(1).replace('_', '')) * 1.01 + 0.001) + l[m.end(1):], 'float')
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?![\w.])', body):
            v = int(m.group(1).replace('_', ''), 0)
            for d in (1, -1):
                if v + d >= 0: yield from emit(l[:m.start(1)] + (hex(v + d) if v > 15 else str(v + d)) + l[m.end(1):], f'int{d:+}')
            if v > 15: yield from emit(l[:m.start(1)] + hex(v >> 1) + l[m.end(1):], 'int>>1')
        if re.match(r'\s*[\w.\[\]]+(\(.*\))?(\.\w+\(.*\))*\??;\s*$', body) or re.match(r'\s*\*?[\w.\[\]]+ [+\-*/|&]?= .*;\s*$', body):
            if not re.match(r'\s*(return|break|continue)\b', body): yield from emit(re.match(r'\s*', l).group() + ';', 'deleted')
        if re.match(r'\s*return\b.*;', body): yield from emit(re.match(r'\s*', l).group() + ';', 'no return')

allm = [m for f in FILES for m in mutants(f)]
if LOG == '-': print(len(allm)); sys.exit()
env = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
done = {json.loads(l)['n'] for l in open(LOG)} if os.path.exists(LOG) else set()
out = open(LOG, 'a')
only = {int(x) for x in os.environ.get('ONLY', '').split(',') if x}
for n, (f, i, new, what) in enumerate(allm):
    if n % N != K or n in done or only and n not in only: continue
    p = SRC + f; orig = open(p).read(); lines = orig.split('\n'); old = lines[i]; lines[i] = new
    res = '?'; t0 = time.time()
    try:
        open(p, 'w').write('\n'.join(lines))
        b = subprocess.run(['cargo', 'build', '--release', '--offline', '-j3'], cwd='/verif/sim', env=env, capture_output=True, text=True)
        if b.returncode: res = 'NOBUILD'
        else:
            for prop, runs in RUNS.items():
                r = subprocess.run(['/verif/sim/target/release/camsim', 'check', prop, '--runs', str(runs), '--root', '/verif', '--replays', '/verif/replays', '--workers', '4'],
                                   capture_output=True, text=True, env=env, timeout=600)
                if r.returncode == 1: res = 'killed ' + prop; break
                if r.returncode: res = f'ODD {prop} {r.returncode}'; break
            else:
                subprocess.run(['bash', '/opt/vp/test.sh', f'/tmp/mut{K}.json'], capture_output=True)
                try:
                    ok = set(json.load(open(f'/tmp/mut{K}.json'))['passed'])
                    res = 'SURVIVED' if all(s in ok for s in stable) else 'survived, tests fail'
                except Exception as e: res = f'survived, tests broken {e}'
    except subprocess.TimeoutExpired: res = 'timeout'
    finally: open(p, 'w').write(orig)
    out.write(json.dumps(dict(n=n, file=f, line=i + 1, what=what, old=old.strip(), new=new.strip(), res=res, s=round(time.time() - t0))) + '\n'); out.flush()
