"""C24: generated cases are evaluated by the compilers' constant evaluators and by the compiled program; both must agree.
The constant evaluator is the monitor for undefined behaviour and for calls that are not constant; the comparison is made at run time."""
import os, re, shutil, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor

NX = '-fno-exceptions -DIPADDRESS_NO_EXCEPTIONS'
# name: (command, generator standard, exceptions)
CFGS = {
    'g14': ('g++ -std=c++14 -O0', 14, 1),
    'g17': ('g++ -std=c++17 -O2', 17, 1),
    'g20': ('g++ -std=c++20 -O0', 20, 1),
    'g23': ('g++ -std=c++23 -O1', 20, 1),
    'c14': ('clang++ -std=c++14 -O1', 14, 1),
    'c17': ('clang++ -std=c++17 -O0', 17, 1),
    'c20': ('clang++ -std=c++20 -O0', 20, 1),
    'c23': ('clang++ -std=c++2b -O2', 20, 1),
    'g20nx': ('g++ -std=c++20 -O0 ' + NX, 20, 0),
    'c17nx': ('clang++ -std=c++17 -O0 ' + NX, 17, 0),
    'c20nospace': ('clang++ -std=c++20 -O0 -DIPADDRESS_NO_SPACESHIP_OPERATOR', 20, 1),
}
CHUNK = 250

def flags(cmd):
    return ['-fconstexpr-steps=300000000', '-ferror-limit=0'] if 'clang' in cmd else ['-fconstexpr-ops-limit=300000000', '-fconstexpr-loop-limit=1000000']

def common(R):
    return ['-w', '-Dalways_inline=__unused__', '-I' + os.path.join(R.REPO, 'include'), '-I' + R.HARNESS]

def generator(R, tmp):
    g = os.path.join(tmp, 'gen')
    rc, so, se = R.run_proc(['g++', '-std=c++17', '-w', '-O1', '-I' + R.HARNESS, os.path.join(R.HARNESS, 'c24_gen.cpp'), '-o', g], 200)
    return g if rc == 0 else None

def texts(path):
    m = {}
    for i, l in enumerate(open(path, errors='replace'), 1):
        p = l.find('//CASE ')
        if p >= 0:
            n, _, what = l[p + 7:].strip().partition(' ')
            m[i] = (int(n), what)
    return m

def chunk(R, rep, gen, name, seed, n, tmp, st, only=None):
    cmd, std, exc = CFGS[name]
    base = os.path.join(tmp, '%s_%d%s' % (name, seed, '' if only is None else '_%d' % only))
    src, binp = base + '.cpp', base + '.bin'
    g = [gen, '--seed', str(seed), '--n', str(n), '--std', str(std), '--exc', str(exc), '--out', src]
    if only is not None:
        g += ['--only', str(only)]
    rc, so, se = R.run_proc(g, 60)
    if rc:
        rep.note('generator failed: ' + se[-200:])
        return None
    kinds = dict((l.split()[1], int(l.split()[2])) for l in se.splitlines() if l.startswith('KIND'))
    cases = texts(src)
    rc, so, se = R.run_proc(cmd.split() + flags(cmd) + common(R) + [src, '-o', binp], 400)
    res = {'cfg': name, 'seed': seed, 'bad': []}
    what = dict(cases.values())
    if rc == 'timeout':
        rep.note('%s seed %d: compiler did not finish, not a verdict' % (name, seed))
        return None
    if rc:
        seen, why = [], {}
        fn = os.path.basename(src)
        first = next((l for l in se.splitlines() if 'error' in l), se[-300:])
        lines = se.splitlines()
        for i, l in enumerate(lines):
            m = re.search(re.escape(fn) + r':(\d+)', l)
            if m and int(m.group(1)) in cases:
                c = cases[int(m.group(1))][0]
                if c not in why:
                    note = [x for x in lines[max(0, i - 2):i + 14] if re.search(r'error:|note:.*(not|cannot|outside|read|overflow|shift|division|non-constexpr|undefined)', x)]
                    why[c] = ' / '.join(re.sub(r'^\S*/', '', x) for x in note[:3])[:400]
                    seen.append(c)
        if not seen:
            res['bad'].append((None, 'does-not-compile', first[:400]))
        for c in seen[:3]:
            res['bad'].append((c, 'not-constant', '%s: %s' % (what[c], why[c] or first[:300])))
        return res
    rc, so, se = R.run_proc([binp], 120)
    if rc == 'timeout':
        rep.note('%s seed %d: not finished' % (name, seed))
        return None
    stat = None
    for l in so.splitlines():
        if l.startswith('BAD '):
            _, c, key, det = l.split(' ', 3)
            res['bad'].append((int(c), key, '%s: %s' % (what.get(int(c), ''), det)))
        elif l.startswith('STAT '):
            stat = [int(x) for x in l.split()[1:]]
    if stat is None:
        res['bad'].append((None, 'crash', 'rc=%s %s' % (rc, R.san_summary(se))))
    else:
        with rep.lock:
            for k in kinds:
                st['hits'][k] = st['hits'].get(k, 0) + kinds[k]
            st['evals'] += stat[0]
            st['const'] += stat[2]
            st['rejected'] += stat[3]
            st['percfg'][name] = st['percfg'].get(name, 0) + stat[0]
            st['hashes'].update(zlib.crc32((name + str(i) + l).encode()) | (seed << 32) & 0xffffffff00000000 for i, l in enumerate(so.splitlines()) if l.startswith('H '))
            if len(st['samples']) < 20:
                st['samples'] += [what[k] for k in sorted(what)[:3]]
    for f in (src, binp):
        try:
            os.remove(f)
        except OSError:
            pass
    return res

def run(R, rep, c, tier, seed, tmp):
    gen = generator(R, tmp)
    if not gen:
        rep.answered = False
        rep.note('generator does not compile')
        return
    per = 5 if tier == 'quick' else 60
    st = {'hits': {}, 'evals': 0, 'const': 0, 'rejected': 0, 'percfg': {}, 'hashes': set(), 'samples': []}
    done = []
    with ThreadPoolExecutor(R.NCPU) as pool:
        jobs = []
        for j in range(per):
            for i, name in enumerate(CFGS):
                s = seed * 100003 + j * 37 + i * 3 + 1
                jobs.append(pool.submit(chunk, R, rep, gen, name, s, CHUNK, tmp, st))
        for j in jobs:
            r = j.result()
            if r:
                done.append(r)
    shown = {}
    for r in done:
        for cid, key, det in r['bad']:
            shown[key] = shown.get(key, 0) + 1
            if shown[key] <= 4:
                rep.violation(key, '[%s] case %s: %s' % (r['cfg'], cid, det), {'cfg': r['cfg'], 'gseed': r['seed'], 'case': cid})
    if not done:
        rep.answered = False
    m = R.new_merged()
    m['evals'] = st['evals']; m['hits'] = dict(st['hits']); m['percfg'] = st['percfg']; m['hashes'] = st['hashes']; m['samples'] = st['samples']
    m['hits']['constant-evaluated'] = st['const']
    m['hits']['rejected-as-constant-and-thrown-at-run-time'] = st['rejected']
    R.put_coverage(rep, m, c['rule'])

def replay(R, d, c):
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        gen = generator(R, tmp)
        rc = 0
        class Rep:
            import threading
            lock = threading.Lock()
            def note(self, s): print(s)
        for v in d['cases'][:3]:
            r = v['replay']
            st = {'hits': {}, 'evals': 0, 'const': 0, 'rejected': 0, 'percfg': {}, 'hashes': set(), 'samples': []}
            res = chunk(R, Rep(), gen, r['cfg'], r['gseed'], CHUNK, tmp, st, r['case'])
            for b in (res or {}).get('bad', []):
                print(r['cfg'], b)
                rc = 1
            if res and not res['bad']:
                print(r['cfg'], 'case', r['case'], 'agrees')
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
