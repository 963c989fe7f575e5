#!/usr/bin/env python3
"""Development aid: which lines of /repo/include do the monitors never execute?
coverage.py [Cnn ...] [--frac 0.1]   prints per file the lines with count 0 that some part compiled."""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run as R
frac, ids, a = 0.05, [], sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '--frac': frac = float(a.pop(0))
    else: ids.append(x)
ids = ids or [c for c in R.CHECKS if c != 'C10']
W = tempfile.mkdtemp(prefix='vzcov')
def one(job):
    pid, part = job
    tag = f"{pid}-{part['name']}"
    exe, prof = f'{W}/{tag}', f'{W}/{tag}.profraw'
    cmd = ['clang++'] + R.BASE + R.SAN[part.get('san', 'asan')] + ['-fprofile-instr-generate', '-fcoverage-mapping'] + part.get('flags', []) + part.get('defs', []) + \
          [f'{V}/checks/{part["src"]}', '-lmsgpackc', '-lflatbuffers', '-lpthread', '-ldl', '-o', exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: return tag, None, 'no build ' + R.first_error(p.stderr)
    n = part['count']['quick']; step = max(1, int(1 / frac)) if n > 100 else 1
    env = R.part_env(part); env['LLVM_PROFILE_FILE'] = prof; env['VZ_SCRATCH'] = W
    q = subprocess.run([exe, '--seed', '1', '--start', '0', '--step', str(step), '--count', str(n), '--tier', 'quick', '--out', f'{W}/{tag}.json', '--hang', '200', '--cur', f'{W}/{tag}.cur'], capture_output=True, text=True, env=env)
    if q.returncode: return tag, None, f'rc {q.returncode} {q.stderr[-300:]}'
    subprocess.run(['llvm-profdata', 'merge', '-sparse', prof, '-o', exe + '.pd'], check=True)
    t = subprocess.run(['llvm-cov', 'export', '-format=lcov', exe, '-instr-profile', exe + '.pd', R.REPO + '/include'], capture_output=True, text=True)
    os.unlink(exe)
    return tag, t.stdout, ''
hits = {}
jobs = [(p, q) for p in ids for q in R.CHECKS[p]['parts'] if q.get('san') != 'plain']
with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for tag, out, err in ex.map(one, jobs):
        print(tag, err or 'ok', flush=True)
        f = None
        for l in (out or '').splitlines():
            if l.startswith('SF:'): f = l[3:]
            elif l.startswith('DA:'):
                n, c = l[3:].split(',')[:2]
                d = hits.setdefault(f, {}); d[int(n)] = d.get(int(n), 0) + int(c)
for f in sorted(hits):
    src = open(f).read().split('\n'); z = sorted(n for n, c in hits[f].items() if c == 0)
    print(f'== {f}: {len(hits[f]) - len(z)}/{len(hits[f])}')
    for n in z: print(f'{n:5} {src[n-1]}')
shutil.rmtree(W)
