#!/usr/bin/env python3
"""Tries an edit that keeps the behaviour, in a scratch copy of /repo below WORK: builds, runs the existing
tests, builds the simulator on the copy (with build.sh's fall-backs) and runs all profiles on it;
nothing may be reported.  refactor.py WORK SPEC.json [--secs N]
SPEC: {"id", "edits": [[file, old, new, nth?], ...], "sed": [[pattern, replacement], ...]}"""
import sys, os, json, re, subprocess, shutil
W, specf = sys.argv[1], sys.argv[2]
secs = sys.argv[sys.argv.index('--secs') + 1] if '--secs' in sys.argv else '120'
VB, RB = os.environ.get('PLANT_VERIF', '/verif'), os.environ.get('PLANT_REPO', '/repo')
spec = json.load(open(specf)); REPO = f'{W}/repo'
def sh(c, cwd='/', t=1500, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode(errors='replace')
def die(*a):
    print(spec['id'], *a, flush=True); sys.exit(1)
os.makedirs(W, exist_ok=True)
if not os.path.isdir(REPO): sh(f'cp -a {RB} {REPO}')
sh(f'git checkout -q -- . && git fetch -q {RB} HEAD && git reset -q --hard FETCH_HEAD', REPO)
for e in spec['edits']:
    p = f'{REPO}/programs/core/src/{e[0]}'; s = open(p).read(); n = s.count(e[1])
    if n == 0 or (n > 1 and len(e) < 4): die('EDIT', n, e[1])
    i = -1
    for _ in range(e[3] if len(e) > 3 else 1): i = s.index(e[1], i + 1)
    open(p, 'w').write(s[:i] + e[2] + s[i + len(e[1]):])
for pat, rep in spec['sed']:
    n = 0
    for d, _, fs in os.walk(f'{REPO}/programs/core/src'):
        for f in fs:
            p = f'{d}/{f}'; s = open(p).read(); t, k = re.subn(pat if '^' in pat else r'\b' + pat + r'\b', rep, s, flags=re.M); n += k
            if k: open(p, 'w').write(t)
    if not n: die('SED matches nothing', pat)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
rc, out = sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 4', REPO, env=env)
open(f'{W}/test.log', 'w').write(out)
sh(f'python3 /opt/vp/results.py {W}/res.json cargo:{W}/test.log')
res = json.load(open(f'{W}/res.json')); passed = set(res.get('passed', res.get('pass', [])))
bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
if bad: die('TESTS FAIL', len(bad), bad[:3], out[-600:] if len(bad) > 100 else '')
shutil.rmtree(f'{W}/sim', ignore_errors=True); sh(f'cp -a {VB}/sim {W}/sim')
sh(f"sed -i 's#path = \"[^\"]*/programs/core\"#path = \"{REPO}/programs/core\"#' {W}/sim/Cargo.toml")
benv = dict(os.environ, CARGO_TARGET_DIR=f'{W}/target', CARGO_NET_OFFLINE='true')
for f in ('', 'fixed', 'nosnap', 'fixed,nosnap'):
    rc, out = sh(f'cargo build --release --offline --features "{f}"', f'{W}/sim', env=benv)
    if rc == 0: break
else: die('SIM BUILD', out[-800:])
rc, out = sh(f'{W}/target/release/cysim survey --seed 7 --runs 100000 --secs {secs} --out {W}/out.json >/dev/null', W, int(secs) + 300)
if rc: die('SURVEY', rc)
r = json.load(open(f'{W}/out.json'))
kf = json.load(open(f'{VB}/known-findings.json'))
bad = {k: (c['n'], c['props'], c['detail'][:200]) for k, c in r['classes'].items()}
print(spec['id'], 'features', repr(f), r['runs'], 'runs', 'QUIET' if not bad and not r['broke'] else 'ALARM', bad or '', r.get('broke0') or '', flush=True)
