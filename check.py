#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] : decide one property by symbolic execution of the real code."""
import sys, os, re, glob, json, time, subprocess, shutil, tempfile, hashlib, argparse
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, wait, FIRST_COMPLETED, as_completed
from concurrent.futures.process import BrokenProcessPool
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = '/repo'
CLANG = '/usr/bin/clang++'
GXX = '/usr/bin/g++'
IRFLAGS = ['-std=gnu++17', '-w', '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-ffp-contract=off', '-fno-finite-loops', '-gline-tables-only', '-D_GLIBCXX_ASSERTIONS', '-DVF_SYMBOLIC']
INC = ['-I' + HERE + '/harness/shim', '-I' + REPO + '/include', '-I' + HERE + '/harness']
NINC = ['-I' + REPO + '/include', '-I' + HERE + '/harness']
NPROC = 8


def clean_env():
    e = dict(os.environ)
    for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS', 'LDFLAGS', 'C_INCLUDE_PATH'):
        e.pop(k, None)
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    return e


ENV = clean_env()


class TU:
    pass


def find_tus(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', prop + '*.cpp'))):
        t = TU()
        t.src = f
        t.name = os.path.basename(f)[:-4]
        txt = open(f).read()
        t.harnesses = re.findall(r'^HARNESS\((\w+)\)', txt, re.M)
        t.cfg = {}
        t.bounds = {}
        t.tonly = set()
        t.units = []
        for m in re.finditer(r'^// @cfg (\w+) (.*)$', txt, re.M):
            t.cfg[m.group(1)] = dict(x.split('=') for x in m.group(2).split())
        for m in re.finditer(r'^// @bound (\w+):? (.*)$', txt, re.M):
            t.bounds[m.group(1)] = m.group(2)
        for m in re.finditer(r'^// @thorough (\w+)', txt, re.M):
            t.tonly.add(m.group(1))
        t.text = txt
        out.append(t)
    return out


def compile_ir(t, tmp, tier, opt='-O1'):
    out = os.path.join(tmp, t.name + opt + '.ll')
    dep = out + '.d'
    cmd = [CLANG] + IRFLAGS + [opt] + (['-DVF_THOROUGH'] if tier == 'thorough' else []) + INC + ['-MD', '-MF', dep] + [t.src, '-o', out]
    t0 = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=400)
    t.compile_s = time.time() - t0
    if p.returncode != 0:
        i = max(0, p.stderr.find('error:') - 200)
        return None, p.stderr[i:i + 3000]
    deps = open(dep).read()
    if '/usr/include/boost/accumulators/' in deps:
        return None, 'system copy of Boost.Accumulators was included'
    return out, ''


def harness_cfg(t, h):
    d = {'select': 'fork', 'round': 0, 'narrow': 0 if 'float' in h else 1}
    for k, v in t.cfg.get(h, {}).items():
        d[k] = v if k in ('select', 'mode') else int(v)
    return d


G = {}


def worker_explore(tui, h, pending, tslice, cfgd, maxviol):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from engine import explore
    prog = G['progs'].get(tui)
    if prog is None:
        from engine import codegen
        prog = G['progs'][tui] = codegen.Program(G['mods'][tui])
        prog.rounding = G['rounding'][tui]
    try:
        return explore.explore(prog, h, pending, tslice, cfgd, maxviol)
    except MemoryError:
        from engine import machine as mc
        st = mc.ST
        st.unsupported[h + ': out of memory'] = 1
        return st.dump(), []


def run_all(tus, tier, budget):
    """explore every harness; returns {(tu,h): Stats}, set of incomplete"""
    from engine import llparse, machine as mc, codegen
    G['mods'] = {}
    G['progs'] = {}
    G['rounding'] = {i: any('round' in c for c in t.cfg.values()) for i, t in enumerate(tus)}
    res = {}
    queue = []
    for i, t in enumerate(tus):
        if t.ll is None:
            continue
        G['mods'][i] = llparse.parse_module(open(t.ll).read())
        for h in t.harnesses:
            if h in t.tonly and tier != 'thorough':
                continue
            if '@' + h not in G['mods'][i].raw:
                continue
            res[(i, h)] = mc.Stats()
            res[(i, h)].wall = 0.0
            queue.append((i, h, [([], None)], 1.5))
    incomplete = {}
    deadline = time.time() + budget
    ctx = mp.get_context('fork')
    pool = ProcessPoolExecutor(NPROC, mp_context=ctx)
    running = {}
    nv = {}
    try:
        while queue or running:
            while queue and len(running) < NPROC:
                i, h, pend, sl = queue.pop(0)
                if time.time() > deadline or nv.get((i, h), 0) >= 3:
                    if nv.get((i, h), 0) < 3:
                        incomplete[(i, h)] = incomplete.get((i, h), 0) + len(pend)
                    continue
                left = max(0.5, deadline - time.time())
                try:
                    f = pool.submit(worker_explore, i, h, pend, min(sl, left), harness_cfg(tus[i], h), 3)
                except BrokenProcessPool:
                    pool = ProcessPoolExecutor(NPROC, mp_context=ctx)
                    queue.append((i, h, pend, sl))
                    continue
                running[f] = (i, h, sl, pend, time.time())
            if not running:
                break
            done, _ = wait(running, timeout=1.0, return_when=FIRST_COMPLETED)
            for f in done:
                i, h, sl, pend, t0 = running.pop(f)
                try:
                    st, rem = f.result()
                except BrokenProcessPool:
                    res[(i, h)].unsupported['%s: worker died' % h] = 1
                    continue
                res[(i, h)].merge(st)
                res[(i, h)].wall += time.time() - t0
                nv[(i, h)] = nv.get((i, h), 0) + len(st['violations'])
                if rem:
                    # split the rest among idle workers
                    k = max(1, min(len(rem), NPROC - len(running) - len(queue)))
                    if len(rem) > 1:
                        k = max(k, 2)
                    for j in range(k):
                        part = rem[j::k]
                        if part:
                            queue.append((i, h, part, min(12.0, sl * 1.7)))
            if time.time() > deadline + 90:
                for f, (i, h, sl, pend, t0) in running.items():
                    incomplete[(i, h)] = incomplete.get((i, h), 0) + 1
                for p in list(getattr(pool, '_processes', {}).values()):
                    p.kill()
                break
    finally:
        procs = list((getattr(pool, '_processes', None) or {}).values())    # shutdown() forgets them
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    return res, incomplete


# ------------------------------------------------------------------ native replay
def start_native(t, tmp, tier):
    exe = os.path.join(tmp, t.name + '.plain')
    return subprocess.Popen(native_cmd(t, tier, 'plain', exe), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)


def build_native(t, tmp, tier, kind):
    exe = os.path.join(tmp, t.name + '.' + kind)
    if os.path.exists(exe):
        return exe
    p = subprocess.run(native_cmd(t, tier, kind, exe), capture_output=True, text=True, env=ENV, timeout=600)
    if p.returncode:
        sys.stderr.write('native build failed: %s\n' % p.stderr[-2000:])
        return None
    return exe


def native_cmd(t, tier, kind, exe):
    base = ['-std=gnu++17', '-w', '-g1', '-rdynamic', '-ffp-contract=off'] + (['-DVF_THOROUGH'] if tier == 'thorough' else []) + NINC
    if kind == 'asan':
        cmd = [CLANG, '-O1', '-fsanitize=address', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1'] + base
    elif kind == 'ubsan':
        cmd = [CLANG, '-O1', '-fsanitize=undefined,float-divide-by-zero,float-cast-overflow', '-fno-sanitize=float-divide-by-zero',
               '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] + base
    elif kind == 'vg':
        cmd = [GXX, '-O0', '-D_GLIBCXX_ASSERTIONS'] + base
    else:
        cmd = [GXX, '-O0'] + base
    return cmd + [t.src, os.path.join(HERE, 'harness', 'vf_native.cpp'), '-ldl', '-o', exe]


def run_native(exe, h, inputs, tmp, kind, timeout=30, tol=None):
    f = tempfile.NamedTemporaryFile('w', dir=tmp, delete=False, suffix='.in')
    for k, v in inputs:
        f.write('%r\n' % float(v) if k == 'r' else '%d\n' % int(v))
    f.close()
    cmd = [exe, h, f.name] + ([tol] if tol else [])
    if kind == 'vg':
        cmd = ['valgrind', '-q', '--error-exitcode=9'] + cmd
        timeout = 120
    env = dict(ENV)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=9'
    env['UBSAN_OPTIONS'] = 'exitcode=9'
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def replay(t, v, tmp, tier):
    """returns (reproduced, kind, inputs, output)"""
    kinds = {'assert': ['plain'], 'throw': ['plain'], 'mem': ['asan', 'vg', 'plain'], 'undef': ['vg', 'plain'], 'hang': ['plain'],
             'assert_fail': ['vg', 'plain'], 'abort': ['plain'], 'ub': ['ubsan', 'plain']}.get(v['kind'], ['plain'])
    for kind in kinds:
        exe = build_native(t, tmp, tier, kind)
        if exe is None:
            continue
        for inp in v['inputs']:
            rc, out = run_native(exe, v['harness'], inp, tmp, kind, tol='3e-9' if v.get('narrow') else None)
            bad = False
            if rc == 'timeout':
                bad = kind == 'plain'   # no termination on an input the property covers
                out = 'no termination within the replay time limit'
            elif rc == 1 and 'VF-FAIL' in out:
                bad = True
            elif rc == 9 and kind in ('asan', 'vg', 'ubsan'):
                bad = True
            elif isinstance(rc, int) and (rc < 0 or rc in (134, 139)):
                bad = True
            if bad:
                return True, kind, inp, out
    return False, None, None, ''


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\w+) harness=(\S+) tag=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.strip().split('\n')


def shorten(s):
    # strip template arguments
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r'<[^<>]*>', '', s)
    s = re.sub(r'\((?:[^()]|\([^()]*\))*\).*$', '', s)
    return s.split()[-1] if s.split() else s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t00 = time.time()
    budget = a.budget or (1500 if tier == 'thorough' else 170)
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % a.prop)
    try:
        rc = run(a, tier, seed, budget, tmp, t00)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, tier, seed, budget, tmp, t00):
    prop = a.prop
    tus = find_tus(prop)
    if a.only:
        for t in tus:
            t.harnesses = [h for h in t.harnesses if re.search(a.only, h)]
        tus = [t for t in tus if t.harnesses]
    if not tus:
        print('no harness for', prop)
        return 2
    compile_err = []
    for t in tus:
        t.native = start_native(t, tmp, tier)
    with ThreadPoolExecutor(NPROC) as ex:
        fs = {ex.submit(compile_ir, t, tmp, tier): t for t in tus}
        for f in as_completed(fs):
            t = fs[f]
            t.ll, err = f.result()
            if t.ll is None:
                compile_err.append((t.name, err))
    tc = time.time() - t00
    if compile_err:
        for n, e in compile_err:
            print('ERROR: harness %s does not compile against the current tree:\n%s' % (n, e))
    broken = []
    for n, e in compile_err:
        # the harnesses use the public interface only: a use that two compilers reject is a use that no longer works
        t = [x for x in tus if x.name == n][0]
        p = subprocess.run(native_cmd(t, tier, 'plain', os.path.join(tmp, 'cc')), capture_output=True, text=True, env=ENV, timeout=600)
        if p.returncode == 1 and 'error:' in p.stderr and REPO + '/include/boost/accumulators' in p.stderr and 'error:' in e:
            os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
            rp = os.path.join(HERE, 'evidence', 'replay', '%s-%s-compile.json' % (prop, n))
            json.dump({'property': prop, 'tu': t.src, 'kind': 'compile', 'command': native_cmd(t, tier, 'plain', '/dev/null'),
                       'message': p.stderr[:3000]}, open(rp, 'w'), indent=1)
            broken.append((n, rp))
    if all(t.ll is None for t in tus) and not broken:
        return 2
    res, incomplete = run_all(tus, tier, budget)
    for t in tus:
        if t.native is not None:
            try:
                t.native.wait(timeout=200)
            except subprocess.TimeoutExpired:
                t.native.kill()
    te = time.time() - t00 - tc
    known = load_known(prop)
    viol = []
    unconf = []
    knownhit = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    for (i, h), st in sorted(res.items()):
        seen = set()
        for v in st.violations:
            key = (v['harness'], v['tag'] if v['kind'] == 'assert' else v['kind'] + v['msg'])
            if key in seen:
                continue
            if len(viol) >= 12 or (viol and time.time() - t00 > 500) or time.time() - t00 > 780:
                continue
            ok, kind, inp, out = replay(tus[i], v, tmp, tier)
            if not ok:
                unconf.append((v, tus[i]))
                continue
            seen.add(key)
            k = [x for x in known if x[0] == v['harness'] and x[1] == (v['tag'] or '-')]
            if k:
                knownhit.append(k[0])
                continue
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%s-%d.json' % (prop, v['harness'], len(viol)))
            json.dump({'property': prop, 'tu': tus[i].src, 'harness': v['harness'], 'kind': v['kind'], 'tag': v['tag'],
                       'message': v['msg'], 'inputs': [[x, str(y), float(y) if x == 'r' else int(y)] for x, y in inp], 'native_output': out[-2000:],
                       'replay_build': kind, 'tier': tier, 'tol': '3e-9' if v.get('narrow') else None,
                       'how': '/verif/replay.sh %s' % rp}, open(rp, 'w'), indent=1)
            viol.append((v, rp, inp, out))
    # summary
    tot = {}
    for k in ('paths', 'queries', 'solver_s', 'unknown_feas', 'asserts', 'discharged_nf', 'discharged_solver', 'infeasible', 'decisions', 'nf_confirmed'):
        tot[k] = sum(getattr(s, k) for s in res.values())
    undec = {}
    unsup = {}
    covers = {}
    for s in res.values():
        for u in s.undecided:
            undec[u] = undec.get(u, 0) + 1
        unsup.update(s.unsupported)
        covers.update(s.covers)
    funcs = set()
    files = set()
    for (i, h), s in res.items():
        meta = G['mods'][i].meta
        for d in s.funcs:
            m = meta.get(d, '')
            fm = re.search(r'file: !(\d+)', m)
            fn = meta.get(fm.group(1), '') if fm else ''
            f2 = re.search(r'filename: "([^"]*)"', fn)
            if f2 and REPO + '/include/' in f2.group(1):
                files.add(f2.group(1).split(REPO + '/')[1])
                l = re.search(r'linkageName: "([^"]*)"', m)
                n = re.search(r'name: "([^"]*)"', m)
                if l:
                    funcs.add(l.group(1))
                elif n:
                    funcs.add(n.group(1))
    fnames = sorted(set(shorten(x) for x in demangle(sorted(funcs))))
    vac = [h for (i, h), s in res.items() if s.paths > 0 and not any(c.startswith(h + ':') for c in s.covers)
           and not s.violations]
    nopath = [h for (i, h), s in res.items() if s.paths == 0 and not s.violations]
    # engine fidelity: one witness per harness replayed against the natively compiled code
    wit = {'replayed': 0, 'agree': 0}
    if True:
        def wj(x):
            (i, h), s = x
            w = (s.witness or {}).get(h)
            if w is None:
                return None
            exe = os.path.join(tmp, tus[i].name + '.plain')
            if not os.path.exists(exe):
                return None
            rc, out = run_native(exe, h, w, tmp, 'plain')
            return rc == 0, h, rc, out
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(wj, list(res.items())):
                if r:
                    wit['replayed'] += 1
                    wit['agree'] += r[0]
                    if not r[0]:
                        wit.setdefault('disagree', []).append('%s: %s %s' % (r[1], r[2], r[3][:200]))
    samples = []
    for (i, h), s in sorted(res.items(), key=lambda x: x[0][1])[:6]:
        w = (s.witness or {}).get(h)
        if w:
            samples.append({'harness': h, 'inputs': [float(y) for _, y in w[:40]]})
    per = {}
    for (i, h), s in sorted(res.items(), key=lambda x: x[0][1]):
        per[tus[i].name + '/' + h if len(tus) > 1 else h] = {'bound': tus[i].bounds.get(h, ''), 'paths': s.paths, 'assertions': s.asserts, 'queries': s.queries,
                  'solver_s': round(s.solver_s, 2), 'cpu_s': round(s.wall, 1), 'complete': (i, h) not in incomplete,
                  'inputs_max': s.max_inputs}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'technique': 'symbolic execution of LLVM IR regenerated from /repo, assertions decided by z3 (cvc5 as second opinion)',
              'states': tot['paths'], 'transitions': tot['decisions'], 'traces_validated_against_impl': wit['agree'],
              'samples': samples,
              'functions_encoded': fnames, 'functions_encoded_count': len(funcs), 'source_files': sorted(files),
              'harnesses': per, 'assertions': tot['asserts'],
              'normal_form_closures_reconfirmed_by_z3': tot['nf_confirmed'],
              'assertions_closed_by_normal_form': tot['discharged_nf'], 'assertions_closed_by_solver': tot['discharged_solver'],
              'queries_discharged': tot['queries'], 'solver_time_s': round(tot['solver_s'], 2),
              'feasibility_unknown_treated_as_feasible': tot['unknown_feas'],
              'undecided_assertions': undec, 'unsupported': unsup,
              'incomplete_harnesses': {h: n for (i, h), n in incomplete.items()},
              'reachability_witnesses': covers, 'vacuous': vac + nopath,
              'unconfirmed_candidates': ['%s/%s %s %s' % (v['harness'], v['tag'], v['kind'], v['msg']) for v, _ in unconf],
              'native_witness_replay': wit,
              'compile_s': round(tc, 1), 'explore_s': round(te, 1)},
          'assumptions': ['real-number semantics for float/double arithmetic (rounding, overflow and signed zero are outside the claim) unless a harness says otherwise',
                          'allocation never fails', 'bounds per harness as listed'],
          'wall_s': round(time.time() - t00, 1),
          'violations': len(viol) + len(broken)}
    ev['coverage']['violations_found'] = [{'harness': v['harness'], 'tag': v['tag'], 'kind': v['kind'], 'message': v['msg'],
                                           'replay': rp} for v, rp, _, _ in viol]
    ev['coverage']['exhaustive'] = not incomplete and not unsup and not undec
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d assertions (%d by normal form, %d by solver), %d queries, solver %.1fs, '
          'compile %.1fs explore %.1fs wall %.1fs' % (prop, tier, len(res), tot['paths'], tot['asserts'], tot['discharged_nf'],
           tot['discharged_solver'], tot['queries'], tot['solver_s'], tc, te, time.time() - t00))
    if a.v:
        for h, d in per.items():
            print('   ', h, d)
        print('    functions', len(funcs), 'files', sorted(files))
        print('    witness', wit)
    for d in wit.get('disagree', []):
        print('  witness disagrees natively:', d)
    for u, n in undec.items():
        print('  undecided:', u, n)
    for u, n in unsup.items():
        print('  unsupported:', u, n)
    for (i, h), n in incomplete.items():
        print('  incomplete:', h, n)
    for h in vac + nopath:
        print('  vacuous:', h)
    for v, t in unconf:
        print('  unconfirmed candidate: %s/%s %s %s %s' % (v['harness'], v['tag'], v['kind'], v['msg'],
              [[float(y) for _, y in x] for x in v['inputs'][:1]]))
    for k in sorted(set(knownhit)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    for v, rp, inp, out in viol:
        print('  violated: %s/%s %s %s' % (v['harness'], v['tag'], v['kind'], v['msg']))
        print('    inputs:', [float(y) for _, y in inp])
        print('    native:', out.strip()[:300].replace('\n', ' | '))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for n, rp in broken:
        print('  violated: the uses of the library in %s are rejected by both compilers' % n)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    if viol or broken:
        return 1
    decided = sum(1 for s in res.values() if s.paths)
    if compile_err or not decided:
        return 2
    if vac and len(vac) == len(res):
        return 2
    return 0


if __name__ == '__main__':
    main()
