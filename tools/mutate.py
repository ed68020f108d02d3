#!/usr/bin/env python3
"""Systematic mutants of /repo/src in scratch copies: which survive the stable tests, and which of
those no check notices.  mutate.py N SEED [WORKERS]  -> /tmp/mut/results.jsonl (resumes by key)."""
import sys, os, re, random, subprocess, json, shutil, threading, queue
N = int(sys.argv[1]); SEED = int(sys.argv[2]); W = int(sys.argv[3]) if len(sys.argv) > 3 else 4
ONLY = sys.argv[4] if len(sys.argv) > 4 else None
ROOT = '/tmp/mut'; SRC = '/repo/src'
os.makedirs(ROOT, exist_ok=True)
FILES = ['common.rs', 'date.rs', 'interval.rs', 'parse.rs', 'serde.rs', 'time.rs', 'timestamp.rs', 'token.rs']
BASE = {}
def code_lines(f):
    t = open(f'{SRC}/{f}').read(); BASE[f] = t
    lines = t.split('\n'); out = []
    for i, l in enumerate(lines):
        if l.strip().startswith('#[cfg(test)]'): break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('///'): continue
        out.append(i)
    return lines, out
OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']),
       (r' == ', [' != ']), (r' != ', [' == ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
       (r' % ', [' / ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ', ' = ']), (r' \*= ', [' = ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bi64\b', ['i32']), (r'\.floor\(\)', ['.ceil()']), (r'\.ceil\(\)', ['.floor()']),
       (r'\.round\(\)', ['.trunc()', '.floor()']), (r'\.trunc\(\)', ['.round()', '.floor()']), (r'\bchecked_add\b', ['checked_sub']), (r'\bchecked_sub\b', ['checked_add']),
       (r'rem_euclid\((.*?)\)', [r'rem(\1)'])]
def mutants():
    out = []
    for f in FILES:
        lines, idx = code_lines(f)
        for i in idx:
            l = lines[i]; code = l.split(' // ')[0]
            if 'TZ,' in code or 'debug_assert' in code or 'panic' in code or 'format!' in code or '"' in code and not 'b"' in code: continue
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        new = l[:m.start()] + m.expand(r) + l[m.end():]
                        out.append((f, i, 'op', l, new))
            for m in re.finditer(r'(?<![\w."\'\[x])(\d[\d_]*)(?![\w.]|\.\d)', code):
                v = int(m.group(1).replace('_', ''))
                for nv in {v + 1, max(v - 1, 0), 0 if v > 1 else v + 1}:
                    if nv != v: out.append((f, i, 'const', l, l[:m.start()] + str(nv) + l[m.end():]))
            for m in re.finditer(r"b'([A-Za-z:.\- +])'", code):
                c = m.group(1); n = {':': '.', '.': ':', '-': '+', '+': '-', ' ': '_'}.get(c, chr(ord(c) + 1))
                out.append((f, i, 'byte', l, l[:m.start(1)] + n + l[m.end(1):]))
            m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*) \{$', code)
            if m:
                for k in ('false && ', 'true || '): out.append((f, i, 'cond', l, f'{m.group(1)}{k}({m.group(2)}) {{'))
                out.append((f, i, 'cond', l, f'{m.group(1)}!({m.group(2)}) {{'))
            if re.match(r'^\s*(?!let|return|break|continue|pub|const|static|type|\}|\)|\])[\w.*\[\]]+.*;$', code) and code.count('(') == code.count(')'):
                out.append((f, i, 'del', l, re.match(r'\s*', l).group(0) + '{}'))
            if re.match(r'^\s*(break|continue);$', code): out.append((f, i, 'del', l, ''))
            if re.search(r'\w\?;$', code) and False: pass
            m = re.search(r'\bDTK_M!?\((.*)\)', code)
    seen = set(); u = []
    for x in out:
        k = (x[0], x[1], x[4])
        if k not in seen and x[3] != x[4]: seen.add(k); u.append(x)
    return u
ms = mutants(); random.Random(SEED).shuffle(ms)
if ONLY: ms = [m for m in ms if m[0] in ONLY.split(',')]
print(len(ms), 'mutants in all', flush=True)
ms = ms[:N]
RES = f'{ROOT}/results.jsonl'; done = set()
if os.path.exists(RES):
    for l in open(RES):
        r = json.loads(l); done.add((r['file'], r['line'], r['new']))
q = queue.Queue()
for m in ms:
    if (m[0], m[1] + 1, m[4]) not in done: q.put(m)
print(q.qsize(), 'to do', flush=True)
lock = threading.Lock()
ORDER = {'common.rs': 'C01 C06 C26 C28 C02 C08', 'date.rs': 'C18 C02 C06 C30 C31 C08 C12', 'interval.rs': 'C07 C05 C22 C23 C24 C16 C33 C25 C27 C29 C31 C32', 'parse.rs': 'C14 C08 C09 C10 C11 C12 C13 C16',
  'serde.rs': 'C32', 'time.rs': 'C09 C21 C04 C06 C16 C33 C27 C29 C30', 'timestamp.rs': 'C17 C26 C28 C20 C19 C06 C03 C33 C31 C16', 'token.rs': 'C08 C10 C14'}
ALL = [f'C{i:02d}' for i in range(1, 34)]
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
def sh(cmd, cwd, t, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env or ENV, start_new_session=True, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -9 -f {cwd}/", shell=True)
        return 124, ''
def work(k):
    d = f'{ROOT}/w{k}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(f'mkdir {d}/repo && cd /repo && cp -a Cargo.toml Cargo.lock src {d}/repo/ 2>/dev/null; ls -A /repo | grep -v -e target -e .git -e src | xargs -I{{}} cp -a /repo/{{}} {d}/repo/', shell=True)
    subprocess.run(f'mkdir -p {d}/harness && cp -a /verif/harness/Cargo.toml /verif/harness/Cargo.lock /verif/harness/src {d}/harness/ && cp /verif/known-findings.txt {d}/', shell=True)
    subprocess.run(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/harness/Cargo.toml", shell=True)
    if os.path.isdir('/verif/harness/.cargo'): shutil.copytree('/verif/harness/.cargo', f'{d}/harness/.cargo')
    env = dict(ENV, VERIF_DIR=d, PGDT_REPO='/repo', PGDT_THREADS='2', PGDT_DIV='20', VERIF_SEED='1')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f, i, kind, old, new = m
        lines = BASE[f].split('\n'); lines[i] = new
        open(f'{d}/repo/src/{f}', 'w').write('\n'.join(lines))
        r = {'file': f, 'line': i + 1, 'kind': kind, 'old': old.strip(), 'new': new}
        rc, out = sh('RUST_BACKTRACE=0 cargo test --offline --features serde --lib -j2 -- --test-threads=2 --skip test_try_from_ymwd_hms 2>&1', f'{d}/repo', 120)
        if rc != 0:
            r['result'] = 'nobuild' if 'could not compile' in out else 'tests'
        else:
            rc, out = sh('cargo build --release --offline -j2 2>&1', f'{d}/harness', 300)
            if rc != 0: r['result'] = 'harness-nobuild'; r['out'] = out[-500:]
            else:
                first = ORDER[f].split(); r['result'] = 'SURVIVED'; r['other'] = []
                for c in first + [x for x in ALL if x not in first]:
                    rc, out = sh(f'{d}/harness/target/release/pgdt-check {c} quick', d, 120, env)
                    if rc == 1: r['result'] = 'caught'; r['by'] = c; r['why'] = [l for l in out.split('\n') if l.startswith('fails:')][:1]; break
                    if rc != 0: r['other'].append((c, rc))
        open(f'{d}/repo/src/{f}', 'w').write(BASE[f])
        with lock:
            open(RES, 'a').write(json.dumps(r) + '\n')
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done')
