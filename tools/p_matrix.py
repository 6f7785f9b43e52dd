"""C25: the catalogue of operations (harness/ops.hpp) is recorded in every build of a matrix; an offline checker compares the records.
A build that does not compile, a header that does not compile on its own, or a result that differs from the other builds is a violation."""
import os, glob, json, struct, collections, shutil
from concurrent.futures import ThreadPoolExecutor

FULL, SHORT, NONE = 0, 1, 2
PNAME = {0: 'all inputs', 1: 'short plain scopes', 2: 'no scopes'}
NX = ['-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS']
INLINE = 'real always_inline'      # the library's own forced inlining, which the other builds neutralise
# name: (command, profiles, extra flags, library limit of scopes)
M = {
    'g11': ('g++ -std=c++11 -O2', [FULL]),
    'g17-O3': ('g++ -std=c++17 -O3', [FULL]),
    'g20': ('g++ -std=c++20 -O1', [FULL, SHORT, NONE]),
    'g23': ('g++ -std=c++23 -O2', [FULL]),
    'c11': ('clang++ -std=c++11 -O1', [FULL]),
    'c14': ('clang++ -std=c++14 -Os', [FULL]),
    'c20': ('clang++ -std=c++20 -O0', [FULL]),
    'c23': ('clang++ -std=c++2b -O2', [FULL]),
    'g20-nx': ('g++ -std=c++20 -O2 -fno-rtti ' + ' '.join(NX), [FULL]),
    'c14-nx': ('clang++ -std=c++14 -O1 ' + ' '.join(NX), [FULL]),
    'g20-nospace': ('g++ -std=c++20 -O1 -DIPADDRESS_NO_SPACESHIP_OPERATOR -DIPADDRESS_NO_NODISCARD', [FULL]),
    'c17-ns': ('clang++ -std=c++17 -O1 -DIPADDRESS_NAMESPACE=my::net -DIPADDRESS_NO_OVERLOAD_STD', [FULL]),
    'g17-scope0': ('g++ -std=c++17 -O1 -DIPADDRESS_NO_IPV6_SCOPE', [NONE]),
    'g11-scope5': ('g++ -std=c++11 -O1 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=5', [SHORT]),
    'c20-scope64': ('clang++ -std=c++20 -O1 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64', [SHORT]),
    'c17-spaces': ('clang++ -std=c++17 -O1 -DIPADDRESS_SCOPE_ID_SUPPORT_SPACES', [SHORT]),
    'g20-utf8': ('g++ -std=c++20 -O1 -DIPADDRESS_CHAR_IS_UTF8', [SHORT]),
    'g17-uchar': ('g++ -std=c++17 -O1 -funsigned-char', [SHORT]),
    'c20-module': ('clang++ -std=c++20 -O1', [FULL]),
    'c20-inline': ('clang++ -std=c++20 -O0', [FULL]),
    'g17-inline': ('g++ -std=c++17 -O0', [FULL]),
}
THOROUGH = {
    'g26-fast': ('g++ -std=gnu++20 -Ofast', [FULL]),
    'c20-nospace': ('clang++ -std=c++20 -O1 -DIPADDRESS_NO_SPACESHIP_OPERATOR', [FULL]),
    'c20-scope0': ('clang++ -std=c++20 -O1 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=0', [NONE]),
    'g11-nx': ('g++ -std=c++11 -O1 ' + ' '.join(NX), [FULL]),
    'g14-O0': ('g++ -std=c++14 -O0', [FULL]),
    'c17-O3': ('clang++ -std=c++17 -O3', [FULL]),
    'g20-O1-inline': ('g++ -std=c++20 -O1', [FULL]),
    'c17-O2-inline': ('clang++ -std=c++17 -O2', [FULL]),
    'g11-O3': ('g++ -std=c++11 -O3', [FULL]),
    'c11-O3': ('clang++ -std=c++11 -O3', [FULL]),
    'g23-O0': ('g++ -std=c++23 -O0', [FULL]),
    'g14-scope1': ('g++ -std=c++14 -O2 -DIPADDRESS_NO_EXCEPTIONS -fno-exceptions -DIPADDRESS_NO_IPV6_SCOPE', [NONE]),
    'g23-scope65': ('g++ -std=c++23 -O1 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=65', [SHORT]),
    'c14-utf8': ('clang++ -std=c++14 -O1 -DIPADDRESS_CHAR_IS_UTF8', [SHORT]),
    'c23-nx-ns': ('clang++ -std=c++2b -O1 -DIPADDRESS_NAMESPACE=my::net -DIPADDRESS_NO_OVERLOAD_STD ' + ' '.join(NX), [FULL]),
    'g17-debug': ('g++ -std=c++17 -O1 -D_GLIBCXX_DEBUG', [FULL]),
}
GEN = {FULL: 16, SHORT: 5, NONE: 0}
MODULE_INCLUDES = '#include <cstdint>\n#include <string>\n#include <sstream>\n#include <iostream>\n#include <iterator>\n#include <stdexcept>\n#include <compare>\n#include <limits>\n#include <vector>\n#include <functional>\n#include <map>\n#include <type_traits>\n#include <memory>\n#include <string.h>\nimport ipaddress;\n#define H_LIB_INCLUDED\n'
QUICK_SYNTAX = ['g++ -std=c++11', 'g++ -std=c++17', 'g++ -std=c++20', 'clang++ -std=c++14', 'clang++ -std=c++2b']
QUICK_PROBES = ['g11', 'c14', 'g17-O3', 'g20', 'c23', 'g20-nx', 'c17-ns']
SYNTAX = ['g++ -std=c++11', 'g++ -std=c++14', 'g++ -std=c++17', 'g++ -std=c++20', 'g++ -std=c++23', 'clang++ -std=c++11', 'clang++ -std=c++14', 'clang++ -std=c++17', 'clang++ -std=c++20', 'clang++ -std=c++2b']
PROBE_ONLY = {   # more option combinations, for the probe program only
    'g14-nx-scope0': 'g++ -std=c++14 ' + ' '.join(NX) + ' -DIPADDRESS_NO_IPV6_SCOPE',
    'c23-nospace-ns': 'clang++ -std=c++2b -DIPADDRESS_NO_SPACESHIP_OPERATOR -DIPADDRESS_NAMESPACE=a::b::c',
    'c11-nodiscard': 'clang++ -std=c++11 -DIPADDRESS_NO_NODISCARD -DIPADDRESS_SCOPE_ID_SUPPORT_SPACES',
    'g23-utf8': 'g++ -std=c++23 -DIPADDRESS_CHAR_IS_UTF8 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=1',
}

def flags(R, name):
    f = [x for x in R.COMMON if not x.startswith('-Dalways_inline') or 'inline' not in name]
    return f

def errors(se):
    l = [x for x in se.splitlines() if 'error' in x or 'undefined reference' in x or 'multiple definition' in x]
    return ' / '.join(l[:3])[:500] or se[-300:]

def build(R, name, cmd, profile, tmp, seed):
    """returns (binary or None, error)"""
    d = os.path.join(tmp, '%s.%d' % (name, profile))
    os.makedirs(d, exist_ok=True)
    binp = os.path.join(d, 'bin')
    base = cmd.split() + flags(R, name) + ['-DH_SCOPE_MAX=%d' % (0 if profile == NONE else 16), '-DGEN_SCOPE_MAX=%d' % GEN[profile], '-DC25_PROFILE=%d' % profile]
    main = os.path.join(R.HARNESS, 'c25.cpp')
    if 'module' in name:
        pcm = os.path.join(d, 'ipaddress.pcm')
        rc, so, se = R.run_proc(base + ['-Wno-include-angled-in-module-purview', '-x', 'c++-module', os.path.join(R.REPO, 'src/ipaddress.ixx'), '--precompile', '-o', pcm], 300)
        if rc:
            return None, 'module interface: ' + errors(se)
        base += ['-fmodule-file=ipaddress=' + pcm]
        a, b = os.path.join(d, 'a.cpp'), os.path.join(d, 'b.cpp')
        for path, pre in ((a, ''), (b, '#define C25_SECOND_UNIT\n#define C25_MODULE\n#ifndef IPADDRESS_NAMESPACE\n#define IPADDRESS_NAMESPACE ipaddress\n#endif\n')):
            open(path, 'w').write(MODULE_INCLUDES + pre + '#include "c25.cpp"\n')
        cmds = [base + [a, b, pcm, '-o', binp]]
    else:
        cmds = [base + ['-c', main, '-o', d + '/a.o'], base + ['-DC25_SECOND_UNIT', '-c', main, '-o', d + '/b.o'], cmd.split() + [d + '/a.o', d + '/b.o', '-o', binp]]
    for c in cmds:
        rc, so, se = R.run_proc(c, 600)
        if rc == 'timeout':
            return None, 'timeout'
        if rc:
            return None, errors(se)
    return binp, ''

def record(R, rep, name, binp, profile, n_scale, seed, tmp, merged):
    out = os.path.join(tmp, '%s.%d.json' % (name, profile))
    cur = out + '.cur'
    args = ['--seed', str(seed), '--scale', str(n_scale)]
    for attempt in (0, 1):
        rc, so, se = R.run_proc([binp, '--out', out, '--cur', cur] + args, 600)
        if rc != 77:
            break
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    if rc not in (0, 1) or d is None:
        if rc == 'timeout' or rc == -9:
            rep.note('%s: not finished, not a verdict' % name)
            return None
        ph, idx, note = R.read_cur(cur)
        rep.violation(R.crash_key(rc, se), '[%s] rc=%s in case %d (%s): %s' % (name, rc, idx, note, R.san_summary(se)), {'builds': [name], 'profile': profile, 'idx': idx, 'scale': n_scale})
        return None
    for v in d['violations']:
        rep.violation(v['key'], '[%s] %s' % (name, v['detail']), {'builds': [name], 'profile': profile, 'idx': v['idx'], 'scale': n_scale})
    b = open(out + '.d', 'rb').read()
    with rep.lock:
        merged['evals'] += d['evals']
        for k, v in d['hits'].items():
            merged['hits'][k] = merged['hits'].get(k, 0) + v
        if len(merged['samples']) < 30:
            merged['samples'] += d['samples'][:8]
        merged['percfg']['%s (%s)' % (name, PNAME[profile])] = len(b) // 8
        merged['hashes'].update(struct.unpack('%dQ' % (len(b) // 8), b))
    return struct.unpack('%dQ' % (len(b) // 8), b)

def headers(R, rep, tier, pool, tmp):
    hs = sorted(glob.glob(os.path.join(R.REPO, 'include/ipaddress/*.hpp')))
    jobs = []
    n = [0]
    def one(std, h):
        src = os.path.join(tmp, 'hdr_%s_%s.cpp' % (std.replace('+', 'x').replace(' ', '_'), os.path.basename(h)))
        open(src, 'w').write('#include <ipaddress/%s>\n#include <ipaddress/%s>\n#include <ipaddress/ipaddress.hpp>\nint main() {}\n' % (os.path.basename(h), os.path.basename(h)))
        rc, so, se = R.run_proc(std.split() + ['-fsyntax-only', '-w', '-I' + os.path.join(R.REPO, 'include'), src], 120)
        with rep.lock:
            n[0] += 1
        if rc and rc != 'timeout':
            rep.violation('header-alone', '[%s] %s included first: %s' % (std, os.path.basename(h), errors(se)), {'header': os.path.basename(h), 'std': std})
    for h in hs:
        for std in SYNTAX if tier == 'thorough' else QUICK_SYNTAX:
            jobs.append(pool.submit(one, std, h))
    return jobs, n

def probe(R, rep, name, cmd, tmp):
    binp = os.path.join(tmp, 'probe_' + name)
    rc, so, se = R.run_proc(cmd.split() + flags(R, name) + [os.path.join(R.HARNESS, 'c25_probe.cpp'), '-o', binp], 400)
    if rc == 'timeout':
        rep.note('probe %s: not finished' % name)
        return None
    if rc:
        rep.violation('does-not-compile', '[%s] program using every public template: %s' % (name, errors(se)), {'probe': name})
        return None
    rc, so, se = R.run_proc([binp], 60)
    return so.strip() if rc == 0 else 'rc=%s %s' % (rc, se[-200:])

def run(R, rep, c, tier, seed, tmp):
    mat = dict(M)
    if tier == 'thorough':
        mat.update(THOROUGH)
    scale = 1.5 if tier == 'quick' else 40.0
    merged = R.new_merged()
    recs = {FULL: {}, SHORT: {}, NONE: {}}
    probes = {}
    with ThreadPoolExecutor(R.NCPU) as pool:
        def one(name, cmd, p):
            binp, err = build(R, name, cmd, p, tmp, seed)
            if not binp:
                if err == 'timeout':
                    rep.note('%s: compiler did not finish, not a verdict' % name)
                else:
                    rep.violation('does-not-compile', '[%s] %s' % (name, err), {'builds': [name], 'profile': p})
                return
            r = record(R, rep, name, binp, p, scale, seed, tmp, merged)
            if r is not None:
                with rep.lock:
                    recs[p][name] = r
            shutil.rmtree(os.path.dirname(binp), ignore_errors=True)
        order = sorted(mat.items(), key=lambda x: 0 if 'inline' in x[0] else 1)
        jobs = [pool.submit(one, n, v[0], p) for n, v in order for p in v[1]]
        def pr(name, cmd):
            s = probe(R, rep, name, cmd, tmp)
            if s is not None:
                with rep.lock:
                    probes[name] = s
        for n, v in order:
            if n in QUICK_PROBES or tier == 'thorough' and 'module' not in n and 'inline' not in n:
                jobs.append(pool.submit(pr, n, v[0].replace('-O3', '-O1').replace('-O2', '-O1')))
        for n, v in PROBE_ONLY.items():
            jobs.append(pool.submit(pr, n, v))
        hj, nh = headers(R, rep, tier, pool, tmp)
        for j in jobs + hj:
            j.result()
    # offline comparison of the records
    compared = 0
    for p, by in recs.items():
        if len(by) < 2:
            continue
        names = sorted(by)
        n = min(len(by[x]) for x in names)
        compared += n
        for i in range(n):
            vals = [by[x][i] for x in names]
            if vals.count(vals[0]) == len(vals):
                continue
            common = collections.Counter(vals).most_common(1)[0][0]
            odd = [x for x in names if by[x][i] != common]
            ok = next(x for x in names if by[x][i] == common)
            rep.violation('differs', 'case %d (%s): %s disagree with %s and %d others' % (i, PNAME[p], ', '.join(odd[:6]), ok, vals.count(common) - 1),
                          {'builds': [odd[0], ok], 'profile': p, 'idx': i, 'scale': scale})
            if len(rep.viol) > 12:
                break
    if len(set(probes.values())) > 1:
        common = collections.Counter(probes.values()).most_common(1)[0][0]
        for n, s in probes.items():
            if s != common:
                rep.violation('probe-differs', '[%s] %s instead of %s' % (n, s, common), {'probe': n})
    # show what differed
    shown = 0
    for v in rep.viol:
        if v['key'] == 'differs' and shown < 2:
            shown += 1
            v['detail'] += '; ' + ' '.join('%s: %s' % (n, s) for n, s in show(R, v['replay'], seed, tmp).items())
    if not any(recs[p] for p in recs):
        rep.answered = False
    R.put_coverage(rep, merged, c['rule'])
    rep.cov['builds_compared'] = {PNAME[p]: sorted(recs[p]) for p in recs}
    rep.cov['cases_compared_across_builds'] = compared
    rep.cov['headers_compiled_alone'] = nh[0]
    rep.cov['probe_builds'] = sorted(probes)

def show(R, r, seed, tmp):
    mat = dict(M); mat.update(THOROUGH)
    res = {}
    for n in r['builds']:
        binp, err = build(R, n, mat[n][0], r['profile'], tmp, seed)
        if not binp:
            res[n] = 'does not compile: ' + err
            continue
        rc, so, se = R.run_proc([binp, '--seed', str(seed), '--scale', str(r.get('scale', 1)), '--phase', 'ops', '--idx', str(r['idx'])], 100)
        res[n] = '\n'.join([l for l in so.splitlines() if l.startswith('RESULT')])[:1500] or 'rc=%s %s' % (rc, se[-300:])
    return res

def replay(R, d, c):
    import tempfile
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        for v in d['cases'][:3]:
            print(v['detail'][:800])
            if 'builds' in v['replay'] and 'idx' in v['replay']:
                for n, s in show(R, v['replay'], d['seed'], tmp).items():
                    print(n, s)
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
