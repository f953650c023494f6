#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property by symbolic execution of the code in /repo.

For every harness run registered for the property: compile the harness and the sources it exercises to LLVM IR,
execute them symbolically with build/gsym (z3 decides), build the same harness natively with g++, replay every
counterexample (only reproduced ones are reported) and cross-check sampled paths against the native run."""
import sys, os, json, time, subprocess, hashlib, shutil, glob, re, threading, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('GSYM_REPO', '/repo'); B = os.path.join(V, 'build')
sys.path.insert(0, V)
from registry import PROPS
DEFS = ['-DGANDALF_DOUBLE_PRECISION', '-DGANDALF_GSL', '-DDEBUG1']
INC = ['-I' + REPO + '/src/Headers', '-I' + V + '/engine', '-I' + V + '/harness', '-I' + REPO + '/src/Common', '-I' + REPO + '/src']
CLANG = ['clang++'] + DEFS + INC + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-rtti', '-fno-access-control', '-fno-math-errno', '-emit-llvm', '-c', '-w']
GXX = ['g++'] + DEFS + INC + ['-O1', '-fno-access-control', '-fPIC', '-ftrivial-auto-var-init=pattern', '-w']
log = lambda *a: print(*a, flush=True)

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-j4', '-C', V + '/engine', 'B=' + B], capture_output=True, text=True)
        if r.returncode or not os.path.exists(B + '/gsym'):
            log(r.stdout[-2000:], r.stderr[-4000:]); raise SystemExit(2)

def src_index():
    idx = {}
    for root, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.cpp') or f.endswith('.cc') or f.endswith('.c'): idx[f] = os.path.join(root, f)
    return idx
def tree_hash():
    h = hashlib.sha1()
    for root, ds, fs in sorted(os.walk(REPO + '/src')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.i')): h.update(f.encode()); h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()
CC_ERR = {}
def compile_one(kind, path, thash, extra, workdir):
    """kind: bc or obj; cached by content of the file, of all headers and the flags"""
    data = open(path, 'rb').read()
    eng = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(V + '/engine/gsym.h') + glob.glob(V + '/harness/*.h')))
    incl = b''.join(open(f, 'rb').read() for f in sorted(glob.glob(REPO + '/src/Common/*.hpp')))
    exc = path.startswith(REPO) and b'throw' in data
    flags = list(extra)
    cmd = (CLANG if kind == 'bc' else GXX + ['-c']) + (['-fno-exceptions'] if kind == 'bc' and not exc else []) + flags
    if path.endswith('.c'): cmd = ['clang' if kind == 'bc' else 'gcc'] + [c for c in cmd[1:] if c not in ('-fno-rtti', '-fno-access-control')]
    key = hashlib.sha1(b'|'.join([' '.join(cmd).encode(), path.encode(), thash.encode(), data, eng, incl])).hexdigest()
    cdir = os.path.join(B, 'cache'); os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, os.path.basename(path) + '.' + key[:20] + ('.bc' if kind == 'bc' else '.o'))
    if os.path.exists(out): return out
    tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + [path, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        CC_ERR[path] = ' | '.join(l for l in r.stderr.split('\n') if 'error:' in l)[:1500]; return None
    os.replace(tmp, out); return out

def parse_exp(fn):
    out = []
    for l in open(fn):
        p = l.rsplit(' ', 1); out.append((p[0], float(p[1])))
    return out
def run_native(exe, infile, timeout=30, env=None):
    e = dict(os.environ); e.update(env or {}); e['MALLOC_PERTURB_'] = '1'; e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=254'
    d = infile + '.run'; os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([exe, infile], capture_output=True, text=True, timeout=timeout, env=e, cwd=d, errors='replace'); return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b''; return 'timeout', o.decode(errors='replace') if isinstance(o, bytes) else o, ''
    finally: shutil.rmtree(d, ignore_errors=True)

def known_findings():
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) harness=(\S+) arg=(\S+) label=(\S+)\s*(.*)', l)
                if m: r.append(m.groups())
    return r

class Run:
    def __init__(s, prop, spec, tier, idx, workdir, ctx):
        s.p = prop; s.spec = spec; s.tier = tier; s.ctx = ctx
        s.harness = spec['harness']; s.arg = spec.get('arg', '-'); s.dir = os.path.join(workdir, '%s_%s' % (s.harness, re.sub(r'[^A-Za-z0-9_.-]', '_', s.arg)))
        os.makedirs(s.dir, exist_ok=True); s.res = None

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only', default=None); ap.add_argument('--keep', action='store_true'); ap.add_argument('--debug', action='store_true')
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop; P = PROPS[prop]; build_engine()
    work = os.path.join(V, 'out', prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep = os.path.join(V, 'replays', prop); shutil.rmtree(rep, ignore_errors=True)
    idx = src_index(); th = tree_hash()
    specs = []
    for h in P['runs']:
        if a.tier == 'quick' and h.get('tier') == 'thorough': continue
        if a.tier == 'thorough' and h.get('tier') == 'quick': continue
        for arg in h.get('args', ['-']):
            d = dict(h); d['arg'] = arg; specs.append(d)
    if a.only: specs = [s for s in specs if re.search(a.only, s['harness'] + ' ' + s['arg'])]
    # ---- compile
    files = {}
    for s in specs:
        s['_h'] = os.path.join(V, 'harness', s['harness'] + '.cpp'); fl = tuple(s.get('flags', []))
        s['_src'] = [idx[x] for x in s.get('srcs', []) if x in idx]
        for f in [s['_h']] + s['_src']: files[('bc', f, fl)] = None
        for f in [s['_h'], V + '/engine/native.cpp'] + s['_src']: files[('obj', f, fl)] = None
    ex = ThreadPoolExecutor(max_workers=8)
    fut = {k: ex.submit(compile_one, k[0], k[1], th, list(k[2]), work) for k in sorted(files, key=lambda k: k[0])}
    problems = []; violations = []; knowns = []; results = []; traces_ok = traces_bad = 0; samples = []; unrepro = 0
    kf = known_findings()
    native_cache = {}; nlock = threading.Lock()
    def native_exe(s, asan=False):
        key = (s['harness'], tuple(s.get('flags', [])), asan, tuple(s['_src']))
        with nlock:
            if key in native_cache: return native_cache[key]
            exe = os.path.join(work, s['harness'] + ('_asan' if asan else '') + hashlib.sha1(repr(key).encode()).hexdigest()[:6])
            fl = list(s.get('flags', []))
            if asan:
                objs = list(ex.map(lambda f: compile_one('obj', f, th, fl + ['-fsanitize=address'], work), [s['_h'], V + '/engine/native.cpp'] + s['_src']))
            else: objs = [fut[('obj', f, tuple(fl))].result() for f in [s['_h'], V + '/engine/native.cpp'] + s['_src']]
            if any(o is None for o in objs): native_cache[key] = None; problems.append('native compile failed: %s' % list(CC_ERR.items())[:1]); return None
            r = subprocess.run(['g++', '-no-pie', '-o', exe] + objs + (['-fsanitize=address'] if asan else []) + ['-Wl,--unresolved-symbols=ignore-all', '-lgsl', '-lgslcblas', '-lm'], capture_output=True, text=True)
            native_cache[key] = exe if r.returncode == 0 else None
            if r.returncode: problems.append('native link failed: ' + r.stderr[-500:])
            return native_cache[key]
    budget = P.get('budget', {}).get(a.tier, 200 if a.tier == 'quick' else 780); n_par = P.get('par', 1)
    def engine_run(s):
        fl = tuple(s.get('flags', [])); d = os.path.join(work, '%s%s_%s' % (s['harness'], re.sub(r'[^A-Za-z0-9_]', '', ''.join(fl)), re.sub(r'[^A-Za-z0-9_.-]', '_', s['arg']))); os.makedirs(d, exist_ok=True); s['_dir'] = d
        bcs = [fut[('bc', f, fl)].result() for f in [s['_h']] + s['_src']]
        if any(b is None for b in bcs):
            problems.append('compile failed: %s' % list(CC_ERR.items())[:1]); s['_res'] = None; return s
        wall = s.get('wall', {}).get(a.tier, 60 if a.tier == 'quick' else 240); wall = max(5, min(wall, budget - (time.time() - t0)))
        q = s.get('qms', {}).get(a.tier, 3000 if a.tier == 'quick' else 15000)
        def go(bcl):
            for f in glob.glob(d + '/*'): 
                if os.path.isfile(f): os.unlink(f)
            try:
                r = subprocess.run([B + '/gsym'] + bcl + ['-arg', '' if s['arg'] == '-' else s['arg'], '-o', d, '-t', str(wall), '-q', str(q), '-b', str(s.get('bms', 700)), '-j', str(s.get('j', 8 if n_par == 1 else max(2, 12 // min(n_par, len(specs))))), '-seed', str(seed), '-m', str(s.get('minstr', 60))], capture_output=True, text=True, timeout=wall + 60, cwd=d, errors='replace')
                if a.debug and r.stderr: log(r.stderr[-6000:])
                if not os.path.exists(d + '/result.json'): problems.append('engine failed (%s): %s' % (r.returncode, r.stderr[-400:])); return None
            except subprocess.TimeoutExpired: problems.append('engine timeout'); return None
            return json.load(open(d + '/result.json'))
        res = go(bcs)
        if res and a.debug: log('    messages', s['arg'], res['messages'][:6])
        if res and any('undefined function' in m or 'undefined data' in m for m in res['messages']) and not s.get('nofallback'):
            # a refactoring may have moved code to a file that is not on the list: add every other source file
            allsrc = [p for f, p in sorted(idx.items()) if f not in ('gandalf.cpp', 'Render.cpp', 'MpiControl.cpp', 'MpiTree.cpp') and not f.endswith('_wrap.cxx') and '/Mpi/' not in p and '/unittests/' not in p]
            more = [p for p in allsrc if p not in s['_src']]
            ob = list(ex.map(lambda f: compile_one('bc', f, th, list(fl), work), more)); bl = [b for b in ob if b]
            und = set(subprocess.run([B + '/gsym', '-undef'] + bcs, capture_output=True, text=True).stdout.split())
            strong = lambda b: set(l.split()[-1] for l in subprocess.run(['llvm-nm-18', '--defined-only', b], capture_output=True, text=True).stdout.splitlines() if ' T ' in l or ' D ' in l or ' B ' in l)
            taken = set().union(*[strong(b) for b in bcs])
            need = []; cur = set(und)
            for _ in range(6):
                add = []
                for p, b in zip(more, ob):
                    if not b or b in need: continue
                    nm = subprocess.run(['llvm-nm-18', '--defined-only', '-j', b], capture_output=True, text=True).stdout.split()
                    if cur & set(nm) and not taken & strong(b): add.append((p, b)); taken |= strong(b)
                if not add: break
                need += [b for _, b in add]; s['_src'] += [p for p, _ in add]
                for p, _ in add: fut.setdefault(('obj', p, fl), ex.submit(compile_one, 'obj', p, th, list(fl), work))
                cur = set(subprocess.run([B + '/gsym', '-undef'] + bcs + need, capture_output=True, text=True).stdout.split()) - und if False else set(subprocess.run([B + '/gsym', '-undef'] + bcs + need, capture_output=True, text=True).stdout.split())
                break
            if need: res = go(bcs + need) or res
        s['_res'] = res; return s
    def post(s):
        nonlocal traces_ok, traces_bad, unrepro
        r = s['_res']
        if not r: return
        d = s['_dir']
        # ---- counterexamples
        for fn in sorted(glob.glob(d + '/cex_*.in')):
            txt = open(fn).read(); lab = re.search(r'^label (.*)$', txt, re.M).group(1); kind = re.search(r'^kind (.*)$', txt, re.M).group(1)
            hit = [k for k in kf if k[0] == prop and k[1] == s['harness'] and (k[2] == '*' or re.fullmatch(k[2], s['arg'])) and re.fullmatch(k[3], lab.replace(' ', '_'))]
            if not hit and any(v[0] == lab and v[3] is s for v in violations): continue
            rep_ok = False; detail = ''
            if kind == 'memory':
                exe = native_exe(s, True)
                if exe:
                    rc, so, se = run_native(exe, fn, 60); rep_ok = (('AddressSanitizer' in se) or (rc not in (0, 1) and 'DONE' not in so)) and 'pc 0x000000000000' not in se and rc != 'timeout'; detail = se[:300]
            else:
                exe = native_exe(s)
                if exe:
                    rc, so, se = run_native(exe, fn)
                    if kind == 'check': rep_ok = ('CHECK-FAIL ' + lab + '\n') in so
                    elif kind == 'hang': rep_ok = rc == 'timeout'
                    elif kind == 'arith': rep_ok = 'CHECK-FAIL' in so
                    else: rep_ok = 'DONE' not in so and rc != 'timeout' and rc != -11
                    detail = so[-300:] + se[-200:]
            if not rep_ok:
                unrepro += 1; s.setdefault('_unrepro', []).append((lab, fn))
                if a.debug: log('  not reproduced:', lab, fn, detail[-300:])
                continue
            if hit: knowns.append((hit[0], fn)); continue
            os.makedirs(rep, exist_ok=True); dst = os.path.join(rep, '%s%s_%s_%s' % (s['harness'], re.sub(r'[^A-Za-z0-9_]', '', ''.join(s.get('flags', []))), re.sub(r'[^A-Za-z0-9_.-]', '_', s['arg']), os.path.basename(fn))); shutil.copy(fn, dst)
            violations.append((lab, dst, detail, s))
        # ---- path traces against the implementation
        tf = sorted(glob.glob(d + '/trace_*.in'))[:s.get('ntraces', 8)]
        exe = native_exe(s) if tf else None
        if exe:
            for fn in tf:
                rc, so, se = run_native(exe, fn); exp = parse_exp(fn[:-3] + '.exp') if os.path.exists(fn[:-3] + '.exp') else []
                got = [(m[0], float(m[1])) for m in re.findall(r'^TRACE (\S.*?) (\S+)$', so, re.M)]
                sc = 0; bad = None; n = min(len(exp), len(got))
                for i in range(n):
                    (l1, v1), (l2, v2) = exp[i], got[i]
                    m = max(abs(v1), abs(v2))
                    if l1 != l2 or not (abs(v1 - v2) <= 1e-5 * m + 1e-9 * max(1, sc) or v1 == v2):
                        if v1 != v1 and v2 != v2: continue
                        bad = (l1, v1, l2, v2); break
                    if m < 1e30: sc = max(sc, m if m < 1e6 else 0)
                if bad is None and len(exp) == len(got) and exp: traces_ok += 1
                else: traces_bad += 1; s.setdefault('_badtr', []).append((fn, bad, len(exp), len(got)))
                if len(samples) < 4: samples.append({'harness': s['harness'], 'arg': s['arg'], 'path_witness': open(fn).read().split('\n')[1:14], 'check_operands': [list(x) for x in exp[:6]]})
    # runs: at most n_par engines at a time
    order = specs
    with ThreadPoolExecutor(max_workers=n_par) as pool:
        for s in pool.map(engine_run, order): pass
    for s in order: post(s)
    ex.shutdown(wait=False)
    tot = {k: sum((s['_res'] or {}).get(k, 0) for s in specs) for k in ('paths', 'forks', 'branches', 'instrs', 'truncated', 'unsupported', 'infeasible', 'div0_excluded', 'domain_excluded', 'queries', 'q_sat', 'q_unsat', 'q_unknown', 'unknown_feasible', 'solver_s')}
    labs = {}; funcs = set(); msgs = []
    for s in specs:
        r = s['_res']
        if not r: continue
        funcs |= set(f for f in r['functions'] if not f.startswith('_ZNSt') and not f.startswith('_ZSt') and not f.startswith('_ZN9__gnu') and not f.startswith('_ZNKSt'))
        msgs += ['%s[%s]: %s' % (s['harness'], s['arg'], m) for m in r['messages']]
        for l in r['labels']:
            e = labs.setdefault(l['name'], dict(reached=0, concrete=0, identity=0, interval=0, smt=0, cex=0, unknown=0, kind=l['kind']))
            for k in ('reached', 'concrete', 'identity', 'interval', 'smt', 'cex', 'unknown'): e[k] += l[k]
    checks = {k: v for k, v in labs.items() if v['kind'] != 2}; covers = {k[6:]: v['reached'] for k, v in labs.items() if v['kind'] == 2}
    want = set(c for s in specs for c in s.get('cover', [])); missing = sorted(c for c in want if not covers.get(c))
    dem = sorted(funcs)
    try: dem = sorted(set(subprocess.run(['c++filt'], input='\n'.join(dem), capture_output=True, text=True).stdout.split('\n')))
    except Exception: pass
    reached = sum(v['reached'] for v in checks.values()); disc = sum(v['smt'] + v['identity'] + v['interval'] + v['concrete'] for v in checks.values())
    inconc = sum(v['unknown'] for v in checks.values())
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'coverage': {'states': tot['paths'], 'transitions': tot['branches'] + tot['forks'], 'traces_validated_against_impl': traces_ok, 'traces_mismatching': traces_bad,
             'samples': samples or [{'note': 'no path completed'}], 'technique': 'symbolic execution of LLVM IR compiled from /repo, z3 verdict per obligation',
             'obligations': reached, 'discharged': disc, 'discharged_by': {k: sum(v[k] for v in checks.values()) for k in ('smt', 'identity', 'interval', 'concrete')}, 'inconclusive_obligations': inconc,
             'paths': tot['paths'], 'truncated_paths': tot['truncated'], 'unsupported_paths': tot['unsupported'], 'infeasible_paths': tot['infeasible'], 'zero_divisor_sides_excluded': tot['div0_excluded'], 'domain_sides_excluded': tot['domain_excluded'], 'instructions': tot['instrs'],
             'smt_queries': tot['queries'], 'smt_unsat': tot['q_unsat'], 'smt_sat': tot['q_sat'], 'smt_unknown': tot['q_unknown'], 'branch_feasibility_unknown': tot['unknown_feasible'], 'solver_s': round(tot['solver_s'], 3),
             'counterexamples_not_reproduced': unrepro, 'checks': {k: {x: v[x] for x in v if x != 'kind' and v[x]} for k, v in sorted(checks.items())}, 'reachability_witnesses': covers, 'reachability_missing': missing,
             'functions_encoded': dem[:400], 'bounds': P.get('bounds', ''), 'runs': [{'harness': s['harness'], 'arg': s['arg'], 'wall': (s['_res'] or {}).get('wall')} for s in specs], 'messages': (msgs + problems)[:40]},
          'assumptions': P.get('assumptions', []) + ['floating point is interpreted over the real numbers (rounding, overflow, NaN outside the claim); symbolic tolerance 1e-6 relative to the stated scale', 'regularising constants of magnitude below 1e-17 added to a symbolic term are taken as zero', 'libm functions are uninterpreted apart from the axioms in engine/solver.cpp', 'paths on the excluded side of a division by zero or of a root/log domain error are counted, not explored']}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    c = ev['coverage']
    log('%s %s: %d paths, %d obligations (%d discharged: smt %d identity %d interval %d concrete %d), %d inconclusive, %d truncated, %d unsupported, queries %d (%.1fs), traces ok %d bad %d, unreproduced %d, %.1fs' % (prop, a.tier, c['paths'], reached, disc, *[c['discharged_by'][k] for k in ('smt', 'identity', 'interval', 'concrete')], inconc, c['truncated_paths'], c['unsupported_paths'], c['smt_queries'], c['solver_s'], traces_ok, traces_bad, unrepro, ev['wall_s']))
    if a.debug or os.environ.get('GSYM_VERBOSE'):
        for k, v in sorted(checks.items()):
            if v['cex'] or v['unknown'] or os.environ.get('GSYM_VERBOSE') == '2': log('   ', k, {x: y for x, y in v.items() if y and x != 'kind'})
        log('   ok:', ' '.join('%s:%d' % (k, v['reached']) for k, v in sorted(checks.items()) if not v['cex'] and not v['unknown']))
        log('    covers', covers)
        for s in specs:
            for b in s.get('_badtr', [])[:3]: log('    trace mismatch', s['harness'], s['arg'], b)
            for b in s.get('_unrepro', [])[:6]: log('    unreproduced', b)
    if missing: log('  not reached:', missing)
    for m in list(dict.fromkeys(msgs + problems))[:12]: log('  note:', m[:500])
    seen = set()
    for k, fn in knowns:
        if k in seen: continue
        seen.add(k); log('KNOWN-FINDING: property=%s %s %s[%s] %s' % (prop, k[3], k[1], k[2], k[4]))
    if not a.keep and not a.debug:
        for d in glob.glob(work + '/*'):
            if os.path.isdir(d): shutil.rmtree(d, ignore_errors=True)
            else: os.unlink(d)
    if violations:
        for lab, dst, detail, s in violations[:10]: log('  counterexample %s: %s' % (lab, detail.strip().replace('\n', ' | ')[-160:]))
        for lab, dst, detail, s in violations[:10]: log('VIOLATION property=%s replay=%s' % (prop, dst))
        sys.exit(1)
    if reached == 0:
        log('ERROR: nothing could be checked'); sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
