#!/usr/bin/env python3
"""Mutation survey: plants small random changes in scratch copies of /repo, runs every focus of the
simulator on each, and records which properties each one is attributed to.  Usage:
mutate.py WORKDIR SEED COUNT [SLOTS] [SECS].  Writes only below WORKDIR."""
import sys, os, re, random, subprocess, shutil, json, threading, queue
work, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
slots = int(sys.argv[4]) if len(sys.argv) > 4 else 4
secs = int(sys.argv[5]) if len(sys.argv) > 5 else 40
R = 'programs/core/src'
files = []
for d, _, fs in os.walk('/repo/' + R):
    for f in fs:
        if f.endswith('.rs') and f not in ('test_utils.rs', 'error.rs', 'mod.rs'):
            files.append(os.path.relpath(os.path.join(d, f), '/repo'))
files.sort()
SW = [
 (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
 (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'_0\b', ['_1']), (r'_1\b', ['_0']), (r'lower', ['upper']), (r'upper', ['lower']),
 (r'wrapping_add', ['wrapping_sub']), (r'wrapping_sub', ['wrapping_add']), (r'checked_add', ['checked_sub']), (r'checked_sub', ['checked_add']),
 (r'mul_div_rounding_up', ['mul_div_floor']), (r'mul_div_floor', ['mul_div_rounding_up', 'mul_div_ceil']), (r'mul_div_ceil', ['mul_div_floor']),
 (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b14\b', ['15']), (r'\b64\b', ['63']), (r'\b32\b', ['31']), (r'\b255\b', ['254']), (r'\b256\b', ['255']),
 (r'if !', ['if ']), (r'if (?!let|!)', ['if !']), (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']), (r'-', ['']), (r'<< ', ['>> ']), (r'>> ', ['<< ']),
]
def body(src):
    i = src.find('#[cfg(test)]')
    # keep everything before the test module
    return src if i < 0 else src[:i]
def candidates():
    out = []
    for f in files:
        src = open('/repo/' + f).read()
        b = body(src)
        pos = 0
        for ln, line in enumerate(b.split('\n'), 1):
            s = line.strip()
            code = not (s.startswith('//') or s.startswith('use ') or s.startswith('#!') or s.startswith('pub mod') or s.startswith('mod ') or s.startswith('///') or not s)
            if code:
                for pat, reps in SW:
                    for m in re.finditer(pat, line):
                        if '//' in line[:m.start()] or line.strip().startswith('pub fn') or line.strip().startswith('fn '):
                            continue
                        for r in reps:
                            out.append((f, ln, pat, pos + m.start(), pos + m.end(), r))
                if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and not s.startswith('pub ') and s.count('(') == s.count(')') and not s.startswith('}'):
                    out.append((f, ln, 'delete', pos, pos + len(line), ''))
                if s.endswith(',') and re.match(r'(constraint|address|has_one|seeds)\b', s) :
                    out.append((f, ln, 'delete', pos, pos + len(line), ''))
                if re.match(r'(constraint|address)\b', s) and not s.endswith(','):
                    out.append((f, ln, 'delete', pos, pos + len(line), ''))
            pos += len(line) + 1
        # multi-line statements: require!(...), emit!(...), calls
        for m in re.finditer(r'^[ \t]+(require!|emit!|require_[a-z]+!)\([^;]*?\);', b, re.M | re.S):
            out.append((f, b.count('\n', 0, m.start()) + 1, 'delete-stmt', m.start(), m.end(), ''))
        for m in re.finditer(r'^[ \t]+[a-z_.:]+\([^;{}]*?\)\??;', b, re.M | re.S):
            out.append((f, b.count('\n', 0, m.start()) + 1, 'delete-stmt', m.start(), m.end(), ''))
    return sorted(set(out))
def sh(cmd, cwd, t, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=t, env=env)
        return p.returncode, p.stderr.decode(errors='replace')[-300:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''
def prepare(k):
    d = f'{work}/slot{k}'
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f'cp -a /verif/sim {d}/sim', '/', 60)
        sh(f"sed -i 's#/repo/programs/core#{d}/repo/programs/core#' {d}/sim/Cargo.toml", '/', 10)
        if k > 0 and os.path.isdir(f'{work}/slot0/target'):
            sh(f'cp -a {work}/slot0/target {d}/target', '/', 300)
    else:
        sh(f'cp -a /verif/sim/src/. {d}/sim/src/', '/', 60)
    shutil.rmtree(f'{d}/repo', ignore_errors=True)
    os.makedirs(f'{d}/repo')
    sh(f'cp -a /repo/programs /repo/Cargo.toml /repo/Cargo.lock {d}/repo/', '/', 60)
    env = dict(os.environ, CARGO_TARGET_DIR=f'{d}/target', CARGO_NET_OFFLINE='true')
    print(k, sh('cargo build --release --offline -j 2', f'{d}/sim', 1200, env))
    return d, env
cs = candidates()
rng = random.Random(seed)
rng.shuffle(cs)
# spread over lines: at most 2 per line
seen, pick = {}, []
for c in cs:
    k = (c[0], c[1])
    if seen.get(k, 0) < 1:
        seen[k] = seen.get(k, 0) + 1
        pick.append(c)
pick = pick[:count]
print(len(cs), 'candidates,', len(pick), 'picked')
q = queue.Queue()
for i, c in enumerate(pick):
    q.put((i, c))
lock = threading.Lock()
res = open(f'{work}/results-{seed}.jsonl', 'a')
def run(k, d, env):
    while True:
        try:
            i, (f, ln, pat, a, b, r) = q.get_nowait()
        except queue.Empty:
            return
        src = open('/repo/' + f).read()
        new = src[:a] + r + src[b:]
        open(f'{d}/repo/{f}', 'w').write(new)
        rc, err = sh('cargo build --release --offline -j 2', f'{d}/sim', 300, env)
        o = dict(i=i, file=f, line=ln, pat=pat, rep=r, old=src[a:b], text=src.split('\n')[ln - 1].strip())
        if rc != 0:
            o['result'] = 'nobuild'
        else:
            try:
                os.remove(f'{d}/sv.json')
            except OSError:
                pass
            rc, err = sh(f'ulimit -v 6000000; {d}/target/release/cysim survey --seed 1 --runs 100000 --secs {secs} --out {d}/sv.json', d, secs * 2 + 40)
            if os.path.exists(f'{d}/sv.json'):
                o['survey'] = json.load(open(f'{d}/sv.json'))
                o['result'] = 'caught' if o['survey']['classes'] else 'missed'
            else:
                o['result'] = 'hang' if rc == 'timeout' else 'died'
        open(f'{d}/repo/{f}', 'w').write(src)
        with lock:
            res.write(json.dumps(o) + '\n')
            res.flush()
ds = []
ds.append(prepare(0))
for k in range(1, slots):
    ds.append(prepare(k))
ts = [threading.Thread(target=run, args=(k, *ds[k])) for k in range(slots)]
[t.start() for t in ts]
[t.join() for t in ts]
print('done')
