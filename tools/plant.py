#!/usr/bin/env python3
"""Tries a planted bug end to end in scratch copies below /tmp/plant: applies it to a copy of /repo,
runs the existing tests, rebuilds the simulator on the copy, runs the property's quick check, and,
when a replay file comes out, turns it into a demonstration under /verif/seeded/<id>.
plant.py SLOT SPEC.json [--secs N] [--nodemo] [--also P01,P02]
SPEC: {"id","property","needs","what_it_breaks","edits":[[file, old, new, nth?],...]}"""
import sys, os, json, subprocess, shutil, re
slot, specf = sys.argv[1], sys.argv[2]
def opt(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
spec = json.load(open(specf))
W = f'/tmp/plant/s{slot}'
REPO = f'{W}/repo'
VB = os.environ.get('PLANT_VERIF', '/verif')
RB = os.environ.get('PLANT_REPO', '/repo')
def sh(c, cwd='/', t=900, env=None, **k):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout ' + (e.stdout or b'').decode(errors='replace')[-500:]
def say(*a):
    print(spec['id'], *a, flush=True)
def die(*a):
    say(*a); sys.exit(1)
os.makedirs(W, exist_ok=True)
if not os.path.isdir(REPO):
    sh(f'cp -a {RB} {REPO}')
sh(f'git checkout -q -- . && git fetch -q {RB} HEAD && git reset -q --hard FETCH_HEAD', REPO)
for e in spec['edits']:
    f, old, new = e[0], e[1], e[2]
    nth = e[3] if len(e) > 3 else None
    p = f'{REPO}/programs/core/src/{f}'
    s = open(p).read()
    n = s.count(old)
    if n == 0 or (n > 1 and nth is None):
        die('EDIT: pattern found', n, 'times:', old)
    if nth is None: nth = 1
    i = -1
    for _ in range(nth): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, 'w').write(s)
rc, patch = sh('git diff', REPO)
D = f'{W}/out'
shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
open(f'{D}/patch.diff', 'w').write(patch)
json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{D}/meta.json', 'w'), indent=1)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
rc, out = sh('cargo build --workspace --offline --locked && cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 4', REPO, 1200, env)
open(f'{W}/test.log', 'w').write(out)
rc, _ = sh(f'python3 /opt/vp/results.py {W}/res.json cargo:{W}/test.log')
res = json.load(open(f'{W}/res.json'))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
passed = set(res.get('passed', res.get('pass', [])))
bad = [t for t in stable if t not in passed]
if bad:
    die('TESTS FAIL', len(bad), bad[:4])
SIM = f'{W}/sim'
shutil.rmtree(SIM, ignore_errors=True)
sh(f'cp -a {VB}/sim {SIM}'); shutil.rmtree(f'{SIM}/target', ignore_errors=True)
sh(f"sed -i 's#{RB}/programs/core#{REPO}/programs/core#' {SIM}/Cargo.toml")
if not os.path.isdir(f'{W}/target'): sh(f'cp -a {VB}/target {W}/target')
benv = dict(os.environ, CARGO_TARGET_DIR=f'{W}/target', CARGO_NET_OFFLINE='true')
rc, out = sh('cargo build --release --offline', SIM, 1200, benv)
if rc: die('SIM BUILD', out[-500:])
root = f'{W}/root'
def check(p, secs):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root + '/evidence'); os.makedirs(root + '/replays')
    shutil.copy(VB + '/known-findings.json', root)
    if os.path.isdir(VB + '/known'): shutil.copytree(VB + '/known', root + '/known')
    rc, out = sh(f'VERIF_SEED=1 VERIF_TIER=quick {W}/target/release/cysim check --prop {p} --root {root} --secs {secs}', root, 900)
    v = re.findall(r'^VIOLATION property=(\S+) replay=(\S+)', out, re.M)
    return rc, v, out
secs = opt('--secs', '200')
rc, v, out = check(spec['property'], secs)
ok = rc == 1 and any(x[0] == spec['property'] for x in v)
open(f'{W}/check.log', 'w').write(out)
why = [l for l in out.splitlines() if 'num ticks' not in l][-8:]
say('CAUGHT' if ok else f'MISSED rc={rc}', spec['property'], v[:3]); print('   ' + '\n   '.join(why))
if opt('--also'):
    for p in opt('--also').split(','):
        r2, v2, o2 = check(p, secs); say('also', p, r2, v2[:1])
    rc, v, out = check(spec['property'], secs)
if '--nodemo' in sys.argv: sys.exit(0 if ok else 1)
if not ok: sys.exit(1)
rep = v[0][1]
rep = rep if os.path.isabs(rep) else f'{root}/{rep}'
S = f'/verif/seeded/{spec["id"]}'
def kit(repo, d, tag):
    shutil.rmtree(f'{W}/kit', ignore_errors=True); os.makedirs(f'{W}/kit/src')
    sh(f'cp {d}/kit/*.rs {W}/kit/src/')
    t = open(f'{d}/kit/Cargo.toml.in').read().replace('@REPO@', repo)
    open(f'{W}/kit/Cargo.toml', 'w').write(t); shutil.copy(f'{d}/kit/Cargo.lock.in', f'{W}/kit/Cargo.lock')
    rc, out = sh(f'cargo build --release --offline --manifest-path {W}/kit/Cargo.toml', '/', 900, dict(os.environ, CARGO_TARGET_DIR=f'{W}/kt-{tag}', CARGO_NET_OFFLINE='true'))
    if rc: die('KIT', tag, out[-600:])
    return f'{W}/kt-{tag}/release/demo'
os.makedirs(f'{D}/kit')
for f in ('bank', 'progs', 'abi', 'layout', 'world'): shutil.copy(f'{VB}/sim/src/{f}.rs', f'{D}/kit/')
shutil.copy(VB + '/tools/demokit/src/main.rs', f'{D}/kit/main.rs')
for f in ('Cargo.toml.in', 'Cargo.lock.in'): shutil.copy(VB + f'/tools/demokit/{f}', f'{D}/kit/')
rc, out = sh(f'{VB}/target/release/cysim export {rep} --out {D}/demo.json')
if rc: die('EXPORT', out[-400:])
clean, bugged = kit(RB, D, 'clean'), kit(REPO, D, 'bug')
for flags in ('', '--snapshots', '--snapshots --why'):
    rc1, o1 = sh(f'timeout 120 {clean} {D}/demo.json {D}/expected.txt {flags}')
    rc2, o2 = sh(f'timeout 120 {bugged} {D}/demo.json {W}/bug.txt {flags}')
    if rc1: die('DEMO on clean', rc1, o1[-300:])
    if rc2 or open(f'{D}/expected.txt').read() != open(f'{W}/bug.txt').read(): break
else:
    die('DEMO shows no difference')
t = open(VB + '/tools/demokit/demo.sh').read().replace('@FLAGS@', flags)
open(f'{D}/demo.sh', 'w').write(t); os.chmod(f'{D}/demo.sh', 0o755)
r1, o1 = sh(f'bash {D}/demo.sh', RB, 300)
r2, o2 = sh(f'bash {D}/demo.sh', REPO, 300)
say('demo clean', r1, 'bug', r2, 'flags', flags, os.path.getsize(f'{D}/demo.json'), 'bytes')
if r1 == 0 and r2 not in (0, 3):
    shutil.rmtree(S, ignore_errors=True); shutil.copytree(D, S); say('SAVED')
else:
    say('DEMO BAD', o1[-300:], o2[-300:])
