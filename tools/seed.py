#!/usr/bin/env python3
"""Author and confirm planted bugs (development aid; no check uses it).
  seed.py make SPEC.py     write seeded/<id>/ from a spec (BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ source, flags)])
  seed.py confirm [ID..]   in a scratch copy: patch applies, builds, tests pass, demo passes without it and fails with it
  seed.py try [ID..]       run the property's check against a scratch copy with the bug
"""
import json, os, shutil, subprocess, sys
V = '/verif'; S = '/tmp/seedwork'
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
def fresh(name):
    d = f'{S}/{name}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f'git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base')
    return d
def build_test(d):
    if not os.path.isdir(f'{d}/_build'):
        r = sh(f'CC=gcc CXX=g++ cmake -S {d}/test -B {d}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_test_zerialize_INCLUDE=/opt/vp/cmake/deps.cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DZERIALIZE_ENABLE_JSON=OFF -DZERIALIZE_ENABLE_CBOR=OFF')
        if r.returncode: return 'cmake: ' + r.stderr[-500:]
    r = sh(f'ninja -C {d}/_build test_zerialize')
    if r.returncode: return 'build: ' + r.stdout[-1500:]
    r = sh('timeout 100 ./test_zerialize', cwd=f'{d}/_build')
    p = subprocess.run(['python3', '/opt/vp/parse.py', str(r.returncode)], input=r.stdout, capture_output=True, text=True)
    open(f'{d}/_build/test_results.txt', 'w').write(p.stdout)
    sh(f'python3 /opt/vp/results.py {d}/out.json lines:{d}/_build/test_results.txt')
    got = set(json.load(open(f'{d}/out.json'))['passed']); base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('stable') or base.get('passed') or base
    want = set(want if isinstance(want, list) else want.get('passed', want))
    miss = want - got
    return f'tests failing: {sorted(miss)[:5]}' if miss else ''
def ids(args): return args or sorted(os.listdir(f'{V}/seeded'))
def main():
    if sys.argv[1] == 'make':
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        d = fresh('make')
        for b in ns['BUGS']:
            sh('git checkout -q -- .', cwd=d)
            for f, old, new in b['edits']:
                p = f'{d}/{f}'; s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            o = f"{V}/seeded/{b['id']}"; os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(sh('git diff', cwd=d).stdout)
            open(o + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
            open(o + '/demo.sh', 'w').write(f'''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -r -f "$work"' EXIT
g++ -std=c++20 -w -g -O0 {b.get('flags', '')} -I "$PWD/include" -isystem /opt/vp/compat -isystem /usr/include/eigen3 -include memory -o "$work/demo" "$here/demo.cpp" -lmsgpackc -lflatbuffers -lpthread || exit 2
{b.get('env', '')}timeout 120 "$work/demo"
''')
            os.chmod(o + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(o + '/meta.json', 'w'), indent=1)
            print('made', b['id'])
    elif sys.argv[1] == 'confirm':
        d = fresh('confirm'); e = build_test(d)
        if e: sys.exit('base: ' + e)
        for i in ids(sys.argv[2:]):
            o = f'{V}/seeded/{i}'; sh('git checkout -q -- .', cwd=d)
            a = sh(f'bash {o}/demo.sh', cwd=d)
            if a.returncode: print(i, 'BAD: demo fails on the clean tree', a.returncode, (a.stderr + a.stdout)[-600:]); continue
            r = sh(f'git apply {o}/patch.diff', cwd=d)
            if r.returncode: print(i, 'BAD: does not apply', r.stderr[-300:]); continue
            e = build_test(d)
            if e: print(i, 'BAD:', e); continue
            r = sh(f'bash {o}/demo.sh', cwd=d)
            print(i, 'ok' if r.returncode not in (0, 2) else 'BAD: demo does not fail', r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:], flush=True)
    else:
        res = {}
        for i in ids(sys.argv[2:]):
            o = f'{V}/seeded/{i}'; d = fresh('try'); sh(f'git apply {o}/patch.diff', cwd=d)
            pid = json.load(open(o + '/meta.json'))['property']
            r = sh(f'VZ_REPO={d} python3 {V}/run.py {pid}')
            out = (r.stdout + r.stderr).strip().splitlines()
            v = next((out[k + 1] for k, l in enumerate(out) if l.startswith('VIOLATION')), None)
            print(i, pid, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', (v or (out[-1] if out else ''))[:220], flush=True)
if __name__ == "__main__": main()
