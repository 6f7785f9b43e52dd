#!/usr/bin/env python3
"""Runner: builds the monitors against /repo's working tree, runs them, reports.

  run.py check <ID> [--tier quick|thorough]     exit 0 held / 1 VIOLATION / 2 no answer
  run.py replay <file>                          re-runs one recorded violation
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, struct, threading, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
NCPU = min(8, os.cpu_count() or 8)

# The library forces inlining; compilers then need minutes per harness. The attribute has no meaning for behaviour, so
# harnesses neutralise it (one C25 configuration keeps it).
COMMON = ['-Dalways_inline=__unused__', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS]
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-O1', '-g1', '-fsanitize=thread']
NX = ['-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS']
CFG = {
    'g20san': ['g++', '-std=c++20'] + SAN,
    'c17san': ['clang++', '-std=c++17'] + SAN,
    'g11': ['g++', '-std=c++11', '-O2'],
    'c14nx': ['clang++', '-std=c++14', '-O1'] + NX,
    # thorough
    'g11san': ['g++', '-std=c++11'] + SAN,
    'c20san': ['clang++', '-std=c++20'] + SAN,
    'c23': ['clang++', '-std=c++2b', '-O2'],
    'g17': ['g++', '-std=c++17', '-O3'],
    'g20nx': ['g++', '-std=c++20', '-O2'] + NX,
    'g14': ['g++', '-std=c++14', '-O0'],
    # options
    'g17scope0': ['g++', '-std=c++17', '-O1', '-DIPADDRESS_NO_IPV6_SCOPE', '-DH_SCOPE_MAX=0'],
    'c20scope64': ['clang++', '-std=c++20', '-O1', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64', '-DH_SCOPE_MAX=64'],
    'g11scope5': ['g++', '-std=c++11', '-O1', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=5', '-DH_SCOPE_MAX=5'],
    'c17spaces': ['clang++', '-std=c++17', '-O1', '-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'],
    'g20utf8': ['g++', '-std=c++20', '-O1', '-DIPADDRESS_CHAR_IS_UTF8'],
    'c14utf8san': ['clang++', '-std=c++14', '-DIPADDRESS_CHAR_IS_UTF8'] + SAN,
    'g20nospace': ['g++', '-std=c++20', '-O1', '-DIPADDRESS_NO_SPACESHIP_OPERATOR'],
    # other monitors of C26
    'ptrpair': ['g++', '-std=c++20', '-O1', '-g1', '-fsanitize=address,undefined,pointer-compare,pointer-subtract,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-DC26_HEAP'],
    'msan': ['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DIPADDRESS_NO_OVERLOAD_STD', '-DC26_PLAIN', '-DC26_MSAN'] + NX,
    'memcheck': ['g++', '-std=c++17', '-O1', '-g1', '-DC26_PLAIN'],
    'memcheck-c': ['clang++', '-std=c++11', '-O0', '-g1', '-DC26_PLAIN'],
    'g23scope5san': ['g++', '-std=c++23', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=5', '-DH_SCOPE_MAX=5'] + SAN,
    'c20spacessan': ['clang++', '-std=c++20', '-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'] + SAN,
    # C27: every access watched by ThreadSanitizer
    'c17tsan': ['clang++', '-std=c++17'] + TSAN,
    'g20tsan': ['g++', '-std=c++20'] + TSAN,
    'c11tsan': ['clang++', '-std=c++11'] + TSAN,
    'g14nxtsan': ['g++', '-std=c++14'] + TSAN + NX,
    'c23tsan': ['clang++', '-std=c++2b', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64', '-DH_SCOPE_MAX=64'] + TSAN,
    # coverage-guided: libFuzzer proposes, the harness's oracle and the sanitizers judge
    'fuzz': ['clang++', '-std=c++20', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DH_FUZZ'] + NX,
    'fuzz11': ['clang++', '-std=c++11', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DH_FUZZ'],
    'c17ns': ['clang++', '-std=c++17', '-O1', '-DIPADDRESS_NAMESPACE=my::net', '-DIPADDRESS_NO_OVERLOAD_STD'],
}
RUNENV = {'ptrpair': {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:detect_invalid_pointer_pairs=2:hard_rss_limit_mb=6000'},
          'msan': {'MSAN_OPTIONS': 'exitcode=99:poison_in_malloc=0:poison_in_free=0:intercept_memcmp=0'}}
VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--expensive-definedness-checks=yes', '--partial-loads-ok=no']
WRAP = {'memcheck': VALGRIND, 'memcheck-c': VALGRIND}
RELSCALE = {'ptrpair': 0.5, 'msan': 1.0, 'memcheck': 0.015, 'memcheck-c': 0.01, 'c17tsan': 0.5, 'g20tsan': 0.5, 'c11tsan': 0.5, 'g14nxtsan': 0.5, 'c23tsan': 0.5}      # of the plain scale
def is_san(c):
    return any(x.startswith('-fsanitize') for x in CFG[c])

QUICK = ['g20san', 'c17san', 'g11', 'c14nx']
THOROUGH = QUICK + ['g11san', 'c20san', 'c23', 'g17', 'g20nx', 'g14']
from checks import CHECKS   # noqa

ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:strict_string_checks=1:abort_on_error=0',
    'UBSAN_OPTIONS': 'exitcode=99:print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=1:second_deadlock_stack=1',
    'LC_ALL': 'C',
})

class Report:
    """collects violations, coverage and writes the evidence file"""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.viol = []          # dict(key, detail, replay-info)
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.notes = []
        self.answered = True
        self.lock = threading.Lock()
    def violation(self, key, detail, replay):
        with self.lock:
            self.viol.append({'key': key, 'detail': detail, 'replay': replay})
    def note(self, s):
        with self.lock:
            self.notes.append(s)
    def finish(self):
        known = []
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r'known: property=(\S+) key=(\S+) match=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3), m.group(4)))
        new, seen_known, bykey = [], set(), {}
        for v in self.viol:
            k = next((k for k in known if k[0] == v['key'] and k[1] in v['detail'].replace(' ', '')), None)
            if k:
                seen_known.add(k)
            else:
                new.append(v)
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[2]))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        shown = 0
        for v in new:
            bykey.setdefault(v['key'], []).append(v)
        for key, vs in bykey.items():
            if shown >= 6:
                break
            shown += 1
            os.makedirs(rdir, exist_ok=True)
            name = '%s-%s.json' % (self.pid, re.sub(r'[^A-Za-z0-9_-]+', '_', key)[:60])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'tier': self.tier, 'seed': self.seed, 'cases': vs[:6]}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            for v in vs[:2]:
                print('  %s: %s' % (key, ''.join(x if ' ' <= x <= '~' else '?' for x in v['detail'][:600])))
        c = CHECKS[self.pid]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': c.get('level', 'exploration'),
              'coverage': self.cov, 'assumptions': c.get('assumptions', []) + self.notes,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            print('note:', n)
        print('%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' % (
            self.pid, self.tier, self.cov.get('evaluations', 0), self.cov.get('distinct_nontrivial', 0), len(new), ev['wall_s']))
        if new:
            return 1
        if not self.answered or not self.cov.get('evaluations'):
            print('no answer: nothing could be run')
            return 2
        return 0

def limit(san):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not san:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f

def run_proc(cmd, timeout, san=True, env=None, cwd=None, stdin=None):
    """returns (rc, stdout, stderr); rc 'timeout' if it ran out of time"""
    with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env or ENV, preexec_fn=limit(san), cwd=cwd)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        def rd(f):
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - (1 << 22)))
            return f.read().decode('utf-8', 'replace')
        return rc, rd(so), rd(se)

def compile_cmd(cfg, srcs, out, extra=()):
    return CFG[cfg] + COMMON + list(extra) + list(srcs) + ['-o', out, '-lpthread']

def build(cfg, srcs, out, extra=(), timeout=600):
    cmd = compile_cmd(cfg, srcs, out, extra)
    rc, so, se = run_proc(cmd, timeout, san=True)
    err = '' if rc == 0 else '\n'.join([l for l in se.splitlines() if 'error' in l or 'Error' in l][:3]) or se[-500:] or str(rc)
    return rc, err

CUR = struct.Struct('QQ64s1024s')
def read_cur(path):
    try:
        d = open(path, 'rb').read(CUR.size)
        ph, idx, name, note = CUR.unpack(d)
        return name.split(b'\0')[0].decode('latin1'), idx, note.split(b'\0')[0].decode('latin1')
    except Exception:
        return '', 0, ''

def san_summary(se):
    for l in se.splitlines():
        if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l or 'WARNING: MemorySanitizer' in l or re.match(r'==\d+== (Invalid|Conditional|Use of uninit|Syscall|Mismatched|Process terminating)', l) or 'Assertion' in l or 'terminate called' in l or 'H-WATCHDOG' in l:
            return l.strip()[:400]
    return se.strip()[-300:]

def crash_key(rc, se):
    s = san_summary(se)
    if rc == 77:
        return 'hang'
    m = re.search(r'runtime error: (.{0,40})', s)
    if m:
        return 'undefined-behaviour'
    m = re.search(r'AddressSanitizer: (\S+)', s)
    if m:
        return 'asan-' + m.group(1)
    if 'MemorySanitizer' in s or 'uninit' in s:
        return 'uninitialised-value'
    if 'Invalid read' in s or 'Invalid write' in s:
        return 'invalid-access'
    if 'terminate called' in s:
        return 'terminate'
    return 'crash'

def run_fuzz(rep, tmp, cfg, binp, seed, runs, secs, max_len, tag, merged):
    """one libFuzzer process from an empty corpus; the harness inside judges every input"""
    pre = os.path.join(tmp, tag + '.')
    env = dict(ENV, H_FUZZ_ARGS='--out %sjson --cur %scur' % (pre, pre))
    cmd = [binp, '-seed=%d' % seed, '-runs=%d' % runs, '-max_total_time=%d' % secs, '-max_len=%d' % max_len, '-artifact_prefix=' + pre, '-print_final_stats=0', '-timeout=60', '-rss_limit_mb=4000']
    rc, so, se = run_proc(cmd, secs * 2 + 120, True, env)
    m = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', se)
    if m:
        with rep.lock:
            merged.setdefault('fuzz', []).append({'run': tag, 'edges': int(m[-1][0]), 'features': int(m[-1][1]), 'corpus': int(m[-1][2])})
    arts = [f for f in os.listdir(tmp) if f.startswith(tag + '.') and re.search(r'(crash|leak|timeout|oom|slow-unit)-', f)]
    data = open(os.path.join(tmp, arts[0]), 'rb').read().hex() if arts else ''
    return rc, so, se, {'cfg': cfg, 'args': [], 'fuzz': cmd[1:5], 'input': data}

def run_binary(rep, tmp, cfg, binp, args, tag, timeout, merged, fuzz=None, env=None):
    """one shard; crashes, sanitizer reports and hangs become violations"""
    out = os.path.join(tmp, tag + '.json')
    cur = os.path.join(tmp, tag + '.cur')
    cmd = [binp, '--out', out, '--cur', cur] + args
    rinfo = {'cfg': cfg, 'args': args}
    if cfg in RUNENV:
        env = dict(ENV, **RUNENV[cfg])
    cmd = WRAP.get(cfg, []) + cmd
    if fuzz:
        rc, so, se, rinfo = run_fuzz(rep, tmp, cfg, binp, fuzz[0], fuzz[1], fuzz[2], fuzz[3], tag, merged)
    else:
        for attempt in (0, 1):
            rc, so, se = run_proc(cmd, timeout, is_san(cfg), env)
            if rc == 77 and attempt == 0:
                continue            # confirm a hang once
            break
    if rc == 'timeout':
        rep.note('%s: stopped after %d s, not a verdict' % (tag, timeout))
        return
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    if d is not None:
        with rep.lock:
            merged['evals'] += d['evals']
            merged['checks'] += d['checks']
            for k in ('phases', 'hits'):
                for a, b in d[k].items():
                    merged[k][a] = merged[k].get(a, 0) + b
            merged['dropped'] += d['dropped']
            merged['truncated'] += bool(d.get('truncated'))
            if len(merged['samples']) < 60:
                merged['samples'] += d['samples'][:6 if merged['samples'] else 40]
            merged['percfg'][cfg] = merged['percfg'].get(cfg, 0) + d['evals']
        hf = out + '.h'
        if os.path.exists(hf):
            b = open(hf, 'rb').read()
            with rep.lock:
                merged['hashes'].update(struct.unpack('%dQ' % (len(b) // 8), b))
            os.unlink(hf)
        for v in d['violations']:
            rep.violation(v['key'], '[%s] %s' % (cfg, v['detail']), dict(rinfo, phase=v['phase'], idx=v['idx'], detail=v['detail']))
    if rc not in (0, 1) or d is None:
        name, idx, nt = read_cur(cur)
        s = san_summary(se)
        if rc == -9 and not s:
            rep.note('%s: killed (memory?), not a verdict' % tag)
            rep.answered = rep.answered and d is not None
            return
        rep.violation(crash_key(rc, se), '[%s] rc=%s in phase %s case %d (%s): %s' % (cfg, rc, name, idx, nt, s),
                      dict(rinfo, phase=name, idx=idx, note=nt, stderr=se[-4000:]))

def new_merged():
    return {'evals': 0, 'checks': 0, 'phases': {}, 'hits': {}, 'dropped': 0, 'truncated': 0, 'samples': [], 'percfg': {}, 'hashes': set()}

def put_coverage(rep, merged, rule):
    rep.cov.update({
        'evaluations': merged['evals'],
        'distinct_nontrivial': len(merged['hashes']),
        'rule': rule,
        'samples': merged['samples'][:40],
        'monitor_checks': merged['checks'],
        'cases_per_phase': merged['phases'],
        'monitor_events': merged['hits'],
        'cases_per_configuration': merged['percfg'],
        'shards_cut_by_time_budget': merged['truncated'],
    })
    if merged.get('fuzz'):
        rep.cov['coverage_guided_runs'] = merged['fuzz']

def scales(c, tier, cfg):
    """(stride, scale, shards) for a configuration"""
    san = is_san(cfg)
    if cfg in RELSCALE:
        return 1, (c.get('fast_scale', 1.0) if tier == 'quick' else c.get('thorough_scale', 25.0)) * RELSCALE[cfg], 2 if tier == 'quick' else 4
    if tier == 'quick':
        d = {'san': (c.get('san_stride', 4), c.get('san_scale', 0.25), 3), 'fast': (c.get('fast_stride', 1), c.get('fast_scale', 1.0), 1)}
    else:
        d = {'san': (1, c.get('thorough_san_scale', 4.0), 4), 'fast': (1, c.get('thorough_scale', 25.0), 3)}
    return d['san' if san else 'fast']

def standard(rep, c, tier, seed, tmp):
    cfgs = list(c.get(tier, QUICK if tier == 'quick' else THOROUGH + c.get('extra', [])))
    if c.get('fuzz'):
        cfgs += ['fuzz'] if tier == 'quick' else ['fuzz', 'fuzz11']
    if tier == 'quick':
        cfgs = cfgs + c.get('quick_extra', [])
    srcs = [os.path.join(HARNESS, s) for s in c.get('src', [rep.pid.lower() + '.cpp'])]
    merged = new_merged()
    budget = c.get('budget', 150 if tier == 'quick' else 420)
    built = [0]
    with ThreadPoolExecutor(NCPU) as pool:
        def one(item):
            n, cfg = item
            binp = os.path.join(tmp, 'h_' + cfg)
            t = time.time()
            rc, err = build(cfg, srcs, binp, c.get('defs', []))
            if rc != 0:
                rep.note('configuration %s does not compile: %s' % (cfg, err))
                return []
            built[0] += 1
            if cfg.startswith('fuzz'):
                runs, max_len = c['fuzz']
                procs, runs, secs = (2, runs, 40) if tier == 'quick' else (2, runs * 40, 420)
                return [pool.submit(run_binary, rep, tmp, cfg, binp, [], '%s.%d' % (cfg, s), 0, merged, fuzz=(seed * 100 + n * 10 + s + 1, runs, secs, max_len)) for s in range(procs)]
            stride, scale, shards = scales(c, tier, cfg)
            jobs = []
            for s in range(shards):
                args = ['--seed', str(seed), '--salt', str(n), '--shard', str(s), '--nshards', str(shards), '--stride', str(stride),
                        '--scale', str(scale), '--budget', str(budget)] + (['--thorough'] if tier == 'thorough' else [])
                tag = '%s.%d' % (cfg, s)
                jobs.append(pool.submit(run_binary, rep, tmp, cfg, binp, args, tag, budget * 2 + 120, merged))
            return jobs
        futs = [pool.submit(one, x) for x in enumerate(cfgs)]
        for f in futs:
            for j in f.result():
                j.result()
    if built[0] == 0:
        rep.answered = False
    put_coverage(rep, merged, c['rule'])

def check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = CHECKS[pid]
    rep = Report(pid, tier, seed)
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        if 'plugin' in c:
            mod = __import__(c['plugin'])
            mod.run(sys.modules[__name__], rep, c, tier, seed, tmp)
        else:
            standard(rep, c, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rep.finish()

def replay(path):
    d = json.load(open(path))
    c = CHECKS[d['property']]
    if 'plugin' in c and hasattr(__import__(c['plugin']), 'replay'):
        r = __import__(c['plugin']).replay(sys.modules[__name__], d, c)
        if r is not None:
            return r
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    worst = 0
    try:
        for v in d['cases'][:3]:
            r = v['replay']
            if 'cfg' not in r:
                print(json.dumps(v, indent=1))
                continue
            binp = os.path.join(tmp, 'h_' + r['cfg'])
            srcs = [os.path.join(HARNESS, s) for s in r.get('src', c.get('src', [d['property'].lower() + '.cpp']))]
            if not os.path.exists(binp):
                rc, err = build(r['cfg'], srcs, binp, c.get('defs', []))
                if rc:
                    print('does not compile:', err)
                    return 2
            if r.get('fuzz'):
                art = os.path.join(tmp, 'input')
                if r.get('input'):
                    open(art, 'wb').write(bytes.fromhex(r['input']))
                outf = os.path.join(tmp, 'fuzz.json')
                rc, so, se = run_proc([binp] + ([art] if r.get('input') else r['fuzz']), 900, True, dict(ENV, H_FUZZ_ARGS='--out ' + outf))
                print('replay %s %s: rc=%s' % (r['cfg'], 'input ' + r['input'] if r.get('input') else ' '.join(r['fuzz']), rc))
                print(open(outf).read()[-3000:] if os.path.exists(outf) else '', se[-3000:])
                worst = max(worst, 0 if rc == 0 else 1)
                continue
            rc, so, se = run_proc(WRAP.get(r['cfg'], []) + [binp] + r['args'] + ['--phase', r['phase'], '--idx', str(r['idx'])], 200, is_san(r['cfg']), dict(ENV, **RUNENV.get(r['cfg'], {})))
            print('replay %s phase %s case %d: rc=%s' % (r['cfg'], r['phase'], r['idx'], rc))
            print(so[-3000:])
            print(se[-3000:])
            worst = max(worst, 0 if rc == 0 else 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return worst

if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    if len(sys.argv) >= 3 and sys.argv[1] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        sys.stdout.reconfigure(errors='backslashreplace')
        sys.exit(check(sys.argv[2], tier))
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
