#!/usr/bin/env python3
"""Mutation campaign over /repo/include (development aid; no check uses it).
  mutate.py gen OUT.json SEED N [FILE..]   generate N random mutants, keep those that build and pass the tests (8 at a time)
  mutate.py run OUT.json [SCALE]           run the checks against each kept mutant until one reports; append results to OUT.json.res
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = '/verif'; S = '/tmp/mutwork'; INC = 'include/zerialize'
FILES = ['protocols/zera.hpp', 'protocols/msgpack.hpp', 'protocols/flex.hpp', 'protocols/json.hpp', 'protocols/cbor.hpp', 'translate.hpp', 'zbuffer.hpp', 'zbuilders.hpp', 'serialize.hpp', 'dynamic.hpp',
         'internals/base64.hpp', 'internals/serializers.hpp', 'internals/fixed_string.hpp', 'internals/tuple_for_each.hpp', 'tensor/utils.hpp', 'tensor/eigen.hpp', 'tensor/xtensor.hpp', 'tensor/view_info.hpp', 'concepts.hpp']
CHK = {'zera': 'C01 C03 C06 C05 C12 C13 C16 C04 C11 C19 C18 C09 C17 C02 C14 C10 C07 C08', 'msgpack': 'C01 C03 C06 C05 C13 C12 C16 C04 C11 C19 C18 C17 C02 C09 C14 C10 C07 C08', 'flex': 'C01 C06 C05 C13 C12 C16 C04 C11 C17 C02 C09 C14 C10 C07 C08',
       'json': 'C01 C03 C06 C05 C13 C15 C12 C16 C11 C04 C17 C02 C14 C10', 'cbor': 'C01 C03 C06 C05 C13 C12 C16 C04 C11 C17 C02 C14 C10', 'translate': 'C02 C20 C03 C19 C16 C13 C10', 'zbuffer': 'C11 C17 C16 C01', 'zbuilders': 'C14 C11 C01 C16',
       'serialize': 'C14 C11 C01 C16', 'dynamic': 'C14 C20 C19 C11 C07 C01 C16 C10', 'base64': 'C15 C03 C01', 'serializers': 'C14 C01 C11 C16', 'fixed_string': 'C14 C01', 'tuple_for_each': 'C14', 'utils': 'C07 C08 C09 C20 C18 C11 C10', 'eigen': 'C07 C08 C09 C20 C18 C11 C10',
       'cppm': 'C21', 'xtensor': 'C07 C08 C09 C20 C18 C11 C10', 'view_info': 'C09 C07', 'concepts': 'C14 C01'}
ONLY = {'zera': 'Zera', 'msgpack': 'MsgPack', 'flex': 'Flex', 'json': 'JSON', 'cbor': 'CBOR'}
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
def code_spans(line): # parts of the line outside strings and comments
    out, i, n, start = [], 0, len(line), 0
    while i < n:
        if line.startswith('//', i): break
        if line[i] in '"\'' and not (line[i] == "'" and i and line[i - 1].isalnum()):
            q = line[i]; out.append((start, i)); i += 1
            while i < n and line[i] != q: i += 2 if line[i] == '\\' else 1
            start = i + 1
        i += 1
    out.append((start, min(i, n))); return out
SUB = [(r'(?<![<>=\-])<=', ['<']), (r'(?<![<>=\-])>=', ['>']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', ['+1', '-1']), (r'(?<![=!])!(?![=])', ['']), (r'\+\+', ['--']), (r'\+=', ['-=']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']),
       (r' % ', [' / ']), (r'\bint8_t\b', ['int16_t']), (r'uint32_t', ['uint16_t']), (r'size_t', ['uint32_t']), (r'\bconst auto&', ['auto']), (r'std::move\((\w+)\)', ['\\1'])]
def mutants(f, text):
    lines = text.split('\n'); res = []; block = False
    for k, l in enumerate(lines):
        st = l.strip()
        if block:
            if '*/' in l: block = False
            continue
        if st.startswith('/*'): block = '*/' not in l; continue
        if not st or st.startswith(('//', '#', 'template', 'namespace', 'using', 'static_assert', 'requires', '*', 'concept')): continue
        for a, b in code_spans(l):
            for pat, reps in SUB:
                for m in re.finditer(pat, l[a:b]):
                    for rep in reps:
                        if rep in ('+1', '-1'):
                            v = int(m.group(0), 0) + int(rep)
                            if v < 0: continue
                            new = str(v)
                        else: new = m.expand(rep)
                        res.append((f, k, l[:a + m.start()] + new + l[a + m.end():]))
        if st.endswith(';') and not re.match(r'(return|break|continue|using|public|private|const|auto|std::|size_t|bool|int|char|static|inline|template|friend|explicit|virtual|constexpr|\}|case|default|T |typename|Z|uint|union|struct|class)', st): res.append((f, k, ''))
        if re.match(r'(if|else if) ?\(.*\) (throw|return|continue|break).*;$', st): res.append((f, k, ''))
        if re.match(r'return .*;$', st) and False: pass
    return res
def main():
    if sys.argv[1] == 'gen':
        out, seed, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); files = sys.argv[5:] or FILES
        allm = []
        for f in files: allm += mutants(f, open(f'/repo/{INC}/{f}').read())
        rnd = random.Random(seed); rnd.shuffle(allm); print(len(allm), 'possible mutants'); allm = allm[:n]
        sys.argv = ['x', 'none']; import importlib.util
        spec = importlib.util.spec_from_file_location('seedmod', f'{V}/tools/seed.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); m.S = S; ns = vars(m)
        dirs = [ns['fresh'](f'g{i}') for i in range(8)]; free = list(dirs); lock = threading.Lock(); keep = []; stats = {}
        for d in dirs: pass
        def work(m):
            f, k, new = m
            with lock: d = free.pop()
            p = f'{d}/{INC}/{f}'; orig = open(p).read(); ls = orig.split('\n'); old = ls[k]; ls[k] = new
            try:
                open(p, 'w').write('\n'.join(ls))
                e = '' if f.split('/')[-1] in ('json.hpp', 'cbor.hpp') else ns['build_test'](d)
            finally:
                open(p, 'w').write(orig)
                with lock: free.append(d)
            with lock:
                r = e.split(':')[0] or 'viable'; stats[r] = stats.get(r, 0) + 1
                if not e: keep.append(dict(file=f, line=k, old=old, new=new))
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(work, allm))
        for d in dirs: shutil.rmtree(d)
        json.dump(keep, open(out, 'w'), indent=0); print(stats)
    else:
        ms = json.load(open(sys.argv[2])); scale = sys.argv[3] if len(sys.argv) > 3 else '0.3'; resf = sys.argv[2] + '.res'
        done = set()
        if os.path.exists(resf): done = {json.loads(l)['i'] for l in open(resf)}
        import queue
        K = 5; q = queue.Queue(); lock = threading.Lock()
        for w in range(K):
            d = f'{S}/run{w}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/repo'); os.makedirs(d + '/v')
            sh(f'git -C /repo archive HEAD | tar x -C {d}/repo; git -C {V} archive HEAD | tar x -C {d}/v'); q.put(d)
        def work(i):
            m = ms[i]; d = q.get()
            p = f"{d}/repo/{INC}/{m['file']}"; orig = open(p).read(); ls = orig.split('\n'); assert ls[m['line']] == m['old']; ls[m['line']] = m['new']; open(p, 'w').write('\n'.join(ls))
            stem = m['file'].split('/')[-1][:-4]; hit = ''; notes = []
            try:
                for c in CHK[stem].split():
                    env = f'VZ_REPO={d}/repo VZ_SCALE={scale}'; o_ = ONLY.get(stem)
                    if o_ and c != 'C02': env += f' VZ_ONLY={o_},{o_}-mem,{o_}-xt,{o_}-eigen'
                    r = sh(f'{env} timeout 900 python3 {d}/v/run.py {c}')
                    o = (r.stdout + r.stderr).strip().splitlines()
                    if any(l.startswith('VIOLATION') for l in o): hit = c; notes = [next(o[k + 1] for k, l in enumerate(o) if l.startswith('VIOLATION'))[:160]]; break
                    nb = [l for l in o if 'not built' in l]
                    if nb: notes += nb[:1]; hit = hit or 'NOBUILD'; break
                    if r.returncode not in (0, 2): notes.append(f'{c} rc={r.returncode} ' + ' '.join(o)[-200:])
            finally: open(p, 'w').write(orig); q.put(d)
            with lock:
                with open(resf, 'a') as fh: fh.write(json.dumps(dict(i=i, hit=hit, notes=notes, **m)) + '\n')
                print(i, m['file'], m['line'] + 1, hit or 'SURVIVED', '|', m['old'].strip()[:90], '=>', m['new'].strip()[:90], '|', notes[:1], flush=True)
        with cf.ThreadPoolExecutor(K) as ex: list(ex.map(work, [i for i in range(len(ms)) if i not in done]))
        for w in range(K): shutil.rmtree(f'{S}/run{w}')
main()
