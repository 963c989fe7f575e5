#!/usr/bin/env python3
"""Build and run the monitors of one property: run.py C01 [--replay FILE].

Builds from /repo's working tree, runs the shards, writes evidence/<id>.json, and exits
0 (held on everything observed), 1 with a VIOLATION line, or 2 (no answer).
VERIF_SEED and VERIF_TIER come from the environment.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VZ_REPO', '/repo')
sys.path.insert(0, V)
from checks.config import CHECKS, PROTOS  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
OK, VIOL, HANG, HARNESS = 0, 41, 42, 43
BASE = ['-std=c++20', f'-I{REPO}/include', f'-I{V}/shims', '-isystem', '/opt/vp/compat', '-isystem', '/usr/include/eigen3',
        '-include', 'memory', '-g1', '-DZERIALIZE_HAS_ZERA=1', '-DZERIALIZE_HAS_FLEXBUFFERS=1', '-DZERIALIZE_HAS_MSGPACK=1', '-w']
SAN = {
    'asan': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
    'release': ['-O2', '-DNDEBUG'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:handle_abort=1:hard_rss_limit_mb=6000:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_thread_leaks=0:report_signal_unsafe=0',
}


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.pyc'):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


class NoAnswer(Exception):
    pass


class Refused(Exception):
    """The library does not compile with a type that satisfies its concepts."""
    def __init__(self, part, err):
        self.part, self.err = part, err


class Modules:
    """The C++20 module, compiled once per run from the working tree, kept until the run has built its drivers."""
    lock, done, flags, dir = threading.Lock(), False, None, None

    @classmethod
    def get(cls, pid, san, notes):
        with cls.lock:
            if not cls.done:
                cls.build(pid, san, notes)
                cls.done = True
        if isinstance(cls.flags, str):
            raise Refused('module', cls.flags)
        return cls.flags

    @classmethod
    def build(cls, pid, san, notes):
        cls.dir = os.path.join(V, 'build', pid, f'pcm-{os.getpid()}')
        os.makedirs(cls.dir, exist_ok=True)
        base = [f for f in BASE if f not in ('-include', 'memory')] + SAN[san] + ['-DZERIALIZE_USE_XTENSOR=1', '-DZERIALIZE_USE_EIGEN=1']
        for name, hdr in (('JSON', 'json'), ('CBOR', 'cbor')):  # their libraries are not here; are our stand-ins enough?
            p = subprocess.run(['clang++'] + BASE + ['-fsyntax-only', '-x', 'c++', '-'], input=f'#include <zerialize/protocols/{hdr}.hpp>\n', capture_output=True, text=True)
            if p.returncode == 0:
                base.append(f'-DZERIALIZE_HAS_{name}=1')
            else:
                notes.append(f'module built without {name}: ' + first_error(p.stderr))
        root = os.path.join(REPO, 'modules')
        units, main = [], None
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith('.cppm'):
                    m = re.search(r'^export\s+module\s+([\w.]+)(?::([\w.]+))?\s*;', open(os.path.join(d, f)).read(), re.M)
                    if m and m.group(2):
                        units.append((os.path.join(d, f), f'{m.group(1)}-{m.group(2)}'))
                    elif m:
                        main = (os.path.join(d, f), m.group(1))
        if not main:
            cls.flags = 'error: no primary module interface under modules/'
            return

        def one(u):
            p = subprocess.run(['clang++'] + base + [f'-fprebuilt-module-path={cls.dir}', '--precompile', u[0], '-o', os.path.join(cls.dir, u[1] + '.pcm')], capture_output=True, text=True, timeout=600)
            return '' if p.returncode == 0 else p.stderr
        with cf.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, units) if e]
        errs = errs or [e for e in [one(main)] if e]
        cls.flags = errs[0] if errs else [f for f in base if f.startswith('-DZERIALIZE')] + [f'-fprebuilt-module-path={cls.dir}'] + [os.path.join(cls.dir, n + '.pcm') for _, n in units + [main]]

    @classmethod
    def clean(cls):
        if cls.dir:
            subprocess.run(['rm', '-rf', cls.dir])


def compile_part(pid, part, srchash, notes):
    """Returns the binary, or None when an optional part does not build."""
    out_dir = os.path.join(V, 'build', pid)
    os.makedirs(out_dir, exist_ok=True)
    variants = [part.get('defs', [])]
    if part.get('fallback'):
        variants += [part['defs'] + ['-DVZ_NOJSON'], part['defs'] + ['-DVZ_NOCBOR'], part['defs'] + ['-DVZ_NOJSON', '-DVZ_NOCBOR']]
    err = ''
    for defs in variants:
        cmd0 = [part.get('cxx', 'clang++')] + BASE + SAN[part.get('san', 'asan')] + part.get('flags', []) + defs + \
              [os.path.join(V, 'checks', part['src'])] + ['-lmsgpackc', '-lflatbuffers', '-lpthread', '-ldl']
        cmd = cmd0
        h = hashlib.sha256((srchash + json.dumps(cmd)).encode()).hexdigest()[:16]
        exe = os.path.join(out_dir, f"{part['name']}-{h}")
        if os.path.exists(exe):
            return exe
        for f in os.listdir(out_dir):  # stale builds of this part
            if re.fullmatch(re.escape(part['name']) + r'-[0-9a-f]{16}(\.tmp)?', f):
                try:
                    os.unlink(os.path.join(out_dir, f))
                except OSError:
                    pass
        if part.get('module') and '-DVZ_MODULE' in defs:
            try:
                cmd = cmd0 + Modules.get(pid, part.get('san', 'asan'), notes)
            except Refused as e:
                err = e.err
                break
        try:
            p = subprocess.run(cmd + ['-o', exe + '.tmp'], capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise NoAnswer(f"compiling {part['name']} timed out")
        if p.returncode == 0:
            os.rename(exe + '.tmp', exe)
            if defs is not variants[0]:
                notes.append(f"part {part['name']} built without {[d for d in defs if d.startswith('-DVZ_NO')]}")
            return exe
        err = p.stderr
    if part.get('reduced'):  # does it compile without the types in question?
        exe = compile_part(pid, {**part, 'reduced': None, 'defs': part['defs'] + part['reduced']}, srchash, [])
        if exe:
            raise Refused(part['name'], err)
    if part.get('module') and '-DVZ_MODULE' in part['defs']:  # does it compile with the headers instead?
        if compile_part(pid, {**part, 'defs': [d for d in part['defs'] if d != '-DVZ_MODULE'] + ['-DVZ_TENSOR_HEADERS']}, srchash, []):
            raise Refused(part['name'], err)
    if part.get('optional'):
        notes.append(f"part {part['name']} not built (protocol without its library here): " + first_error(err))
        return None
    raise NoAnswer(f"part {part['name']} does not compile: " + first_error(err))


def first_error(err):
    m = re.search(r'.*error:.*', err)
    return (m.group(0) if m else err[-300:])[:400]


class Violation:
    def __init__(self, part, key, case, msg, seed, exe):
        self.part, self.key, self.case, self.msg, self.seed, self.exe = part, key, case, msg, seed, exe


def summary_of(stderr):
    for pat in (r'SUMMARY: .*', r'.*runtime error:.*', r'ERROR: .*Sanitizer.*', r'WARNING: ThreadSanitizer.*', r'terminate called.*', r'libc\+\+abi.*', r'Assertion.*', r'.*Assertion.*failed.*'):
        m = re.search(pat, stderr)
        if m:
            s = m.group(0).strip()
            fr = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', stderr)]
            zs = [f for f in fr if 'zerialize' in f][:2]
            return s[:300] + (' in ' + ' <- '.join(x[:120] for x in zs) if zs else '')
    return stderr.strip()[-300:]


def read_current(path):
    try:
        with open(path, 'rb') as f:
            b = f.read()
        cur = int.from_bytes(b[:8], 'little')
        nt = b[8:].split(b'\0', 1)[0].decode('latin1')
        return (None if cur == 2**64 - 1 else cur), nt
    except OSError:
        return None, ''


def part_env(part):
    env = dict(os.environ, **ENV)
    if part.get('asan_options'):
        env['ASAN_OPTIONS'] += ':' + part['asan_options']
    return env


def launch(part, exe, args, cur, timeout):
    env = part_env(part)
    env['VZ_SCRATCH'] = os.path.dirname(cur)
    p = subprocess.Popen([exe] + args + ['--cur', cur], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', ''
    return p.returncode, err.decode('latin1', 'replace')


def run_shard(pid, part, exe, shard, nshards, count, seed, tier, known, stop, results, scratch, deadline):
    tag = f"{part['name']}-{shard}"
    cur = os.path.join(scratch, tag + '.cur')
    start, outs = shard, []
    retries = 0
    while True:
        if stop.is_set():
            return
        out = os.path.join(scratch, f'{tag}-{len(outs)}-{start}.json')
        args = ['--seed', str(seed), '--start', str(start), '--step', str(nshards), '--count', str(count), '--tier', tier, '--out', out,
                '--hang', str(part.get('hang', 25))]
        rc, err = launch(part, exe, args, cur, max(30, deadline - time.time()))
        case, nt = read_current(cur)
        if rc == OK:
            with results['lock']:
                results['outs'].append((part['name'], out))
            return
        if rc == 'timeout':
            raise NoAnswer(f"{tag}: wall-clock limit reached at case {case}")
        if rc == HARNESS:
            raise NoAnswer(f"{tag}: harness error: " + err.strip()[-500:])
        if rc in (-signal.SIGKILL,) and retries < 1:
            retries += 1
            continue
        if rc == -signal.SIGKILL:
            raise NoAnswer(f"{tag}: killed (out of memory?) at case {case}")
        if case is None and rc != VIOL:
            raise NoAnswer(f"{tag}: failed outside a case, rc={rc}: " + summary_of(err))
        if rc == HANG:  # repeat the case alone with a larger limit before believing it
            a2 = ['--seed', str(seed), '--start', str(case), '--step', '1', '--count', str(case + 1), '--tier', tier, '--hang', str(3 * part.get('hang', 25))]
            rc2, err2 = launch(part, exe, a2, cur + '2', 900)
            if rc2 == OK:
                start = case + nshards
                continue
            if rc2 == HANG:
                v = Violation(part['name'], 'hang', case, f"no progress: the case did not end within {3 * part.get('hang', 25)} s of CPU time, twice [{nt[:300]}]", seed, exe)
            elif rc2 == VIOL:
                rc, err = rc2, err2
            else:
                v = Violation(part['name'], 'crash', case, summary_of(err2) + f' [{nt[:300]}]', seed, exe)
        if rc == VIOL:
            m = re.search(r'VZ-VIOLATION case=(\d+) key=(\S+) :: (.*)', err)
            if not m:
                raise NoAnswer(f'{tag}: violation without a report: ' + err[-300:])
            v = Violation(part['name'], m.group(2), int(m.group(1)), m.group(3)[:1500], seed, exe)
        elif rc != HANG:
            v = Violation(part['name'], 'crash', case, summary_of(err) + f' [{nt[:300]}]', seed, exe)
            v.stderr = err[-6000:]
        hit = next((k for k in known if k['key'] == v.key and k['match'] in v.msg), None)
        if hit:
            with results['lock']:
                results['known'].add(hit['text'])
            start = v.case + nshards
            outs.append(out)
            continue
        with results['lock']:
            results['violations'].append(v)
        stop.set()
        return


def load_known(pid):
    """known-findings.txt: 'finding: property=C00 key=<key> match=<text in the message> :: <what fails>'.
    'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) match="(.*?)" :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append({'key': m.group(2), 'match': m.group(3), 'text': m.group(4)})
    return out


def main():
    pid = sys.argv[1]
    if pid == '--setup':  # everything is built by the checks themselves; only look at the tools
        for c in ('clang++', 'g++'):
            subprocess.run([c, '--version'], check=True, stdout=subprocess.DEVNULL)
        return 0
    cfg = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    notes = []
    srchash = tree_hash(os.path.join(REPO, 'include'), os.path.join(REPO, 'modules'), os.path.join(V, 'lib'), os.path.join(V, 'shims')) + tree_hash(os.path.join(V, 'checks'))
    only = os.environ.get('VZ_ONLY')
    parts = [p for p in cfg['parts'] if (not only or p['name'] in only.split(',')) and (tier == 'thorough' or not p.get('thorough_only'))]

    if '--replay' in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        part = next(p for p in cfg['parts'] if p['name'] == rep['part'])
        exe = compile_part(pid, part, srchash, notes)
        Modules.clean()
        env = part_env(part)
        p = subprocess.run([exe, '--seed', str(rep['seed']), '--start', str(rep['case']), '--step', '1', '--count', str(rep['case'] + 1), '--tier', rep['tier'], '--hang', '75'], env=env)
        print('replay exit', p.returncode, '(0 = property held on this case)')
        sys.exit(0 if p.returncode == 0 else 1)

    # longest compiles first
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {p['name']: ex.submit(compile_part, pid, p, srchash, notes) for p in sorted(parts, key=lambda p: -p.get('weight', 1))}
        exes, refused = {}, []
        for n, f in futs.items():
            try:
                exes[n] = f.result()
            except Refused as e:
                refused.append(e)
                exes[n] = None
    Modules.clean()
    t_build = time.time() - t0
    if '--build-only' in sys.argv:
        return 0

    scratch = os.path.join(V, 'build', pid, f'run-{os.getpid()}')
    os.makedirs(scratch, exist_ok=True)
    results = {'outs': [], 'violations': [Violation(e.part, 'does-not-compile', 0, cfg.get('refused', 'a type that satisfies the concepts is refused: ') + first_error(e.err), seed, None) for e in refused], 'known': set(), 'lock': threading.Lock()}
    stop = threading.Event()
    known = load_known(pid)
    deadline = time.time() + (820 - t_build if tier == 'quick' else 6 * 3600)
    jobs = []
    for p in parts:
        if exes[p['name']] is None:
            continue
        n = int(p['count'][tier] * float(os.environ.get('VZ_SCALE', '1'))) or 1
        sh = min(p.get('shards', NCPU), n)
        for s in range(sh):
            jobs.append((p, s, sh, n))
    jobs.sort(key=lambda j: (-j[0].get('weight', 1), j[1]))
    err = None
    try:
        with cf.ThreadPoolExecutor(cfg.get('jobs', NCPU)) as ex:
            fs = [ex.submit(run_shard, pid, p, exes[p['name']], s, sh, n, seed, tier, known, stop, results, scratch, deadline) for p, s, sh, n in jobs]
            for f in cf.as_completed(fs):
                try:
                    f.result()
                except NoAnswer as e:
                    err = err or e
        counters, samples, dig, evals, per_part, slow = {}, [], set(), 0, {}, {}
        for name, o in results['outs']:
            d = json.load(open(o))
            evals += d['evaluations']
            a = slow.get(name, (0, 0, 0))
            slow[name] = (a[0] + d['total_ms'],) + max(a[1:], (d['slow_ms'], d['slow_case']))
            per_part[name] = per_part.get(name, 0) + d['evaluations']
            for k, v in d['counters'].items():
                counters[k] = counters.get(k, 0) + v
            if sum(1 for s in samples if s.startswith(name)) < 2:
                samples += [f'{name}: {s}' for s in d['samples'][:1]]
            b = open(o + '.dig', 'rb').read()
            dig.update(b[i:i + 8] + name.encode() for i in range(0, len(b), 8))
    finally:
        subprocess.run(['rm', '-rf', scratch])

    if results['violations']:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for v in results['violations']:
        path = os.path.join(V, 'replays', f'{pid}-{v.part}-{v.case}.json')
        json.dump({'property': pid, 'part': v.part, 'case': v.case, 'seed': v.seed, 'tier': tier, 'key': v.key, 'message': v.msg,
                   'stderr': getattr(v, 'stderr', ''), 'replay': f'python3 run.py {pid} --replay {path}'}, open(path, 'w'), indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  {v.part} case {v.case} [{v.key}] {v.msg[:900]}')
    for t in sorted(results['known']):
        print(f'KNOWN-FINDING: property={pid} {t}')
    missing = [c for c in cfg.get('must_observe', []) if not counters.get(c)]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg['level'],
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(dig), 'rule': cfg['rule'], 'samples': samples[:8],
                       'observed': counters, 'cases_per_part': per_part, 'cpu_s_per_part': {k: round(v[0] / 1000, 1) for k, v in slow.items()}, 'notes': notes, 'build_s': round(t_build, 1)},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(results['violations'])}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if results['violations']:
        return 1
    if err:
        print(f'NO ANSWER for {pid}: {err}')
        return 2
    if not only and (missing or not evals):
        print(f'NO ANSWER for {pid}: nothing observed for {missing}')
        return 2
    if os.environ.get('VZ_TIMES'):
        for k, v in sorted(slow.items()):
            print(f'  {k}: {v[0] / 1000:.1f} s CPU, slowest case {v[2]} {v[1]:.0f} ms')
    for n in notes:
        print('note:', n)
    print(f'{pid}: held on {evals} cases ({len(dig)} distinct non-trivial) in {time.time() - t0:.1f} s (build {t_build:.1f} s)')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoAnswer as e:
        print(f'NO ANSWER: {e}')
        sys.exit(2)
