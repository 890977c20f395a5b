#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current source.
usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]      check.py --setup
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed."""
import sys, os, json, subprocess, hashlib, shutil, time, fcntl, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
sys.path.insert(0, V)
NP = os.cpu_count() or 4
WRAP = ['read', 'write', 'select', 'isatty', 'ioctl', 'tcgetattr', 'tcsetattr', 'fgetc', 'kill', 'fork', 'vfork', 'socketpair', 'dup2',
        'close', 'waitpid', 'wait', 'shutdown', 'exit', '_exit', '_Exit', 'sigprocmask', 'sigaction', 'signal', 'send', 'recv', 'poll', 'getc', 'ferror', 'fread', 'fgets']
WRAPF = ['-D%s=h_%s' % (w, w) for w in WRAP]
COMMON = ['-DHAVE_CONFIG_H', '-DYY_NO_INPUT', '-D__NO_CTYPE', '-Disblank=isblank', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w']
BCF = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-gline-tables-only', '-fno-stack-protector', '-emit-llvm', '-c']
NATF = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-builtin', '-c']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse)'

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def sources():
    ex = {'cligen_file.c', 'cligen_hello.c', 'cligen_tutorial.c', 'cligen_parse.tab.c', 'lex.cligen_parse.c', 'build.c'}
    c = sorted(f for f in os.listdir(REPO) if f.endswith('.c') and f not in ex and (f.startswith('cligen')))
    return c

def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def tree(d, exts):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]

def fresh(out, key):
    k = out + '.key'
    return os.path.exists(out) and os.path.exists(k) and open(k).read() == key

def mark(out, key):
    open(out + '.key', 'w').write(key)

def build_symex():
    out = os.path.join(B, 'symex')
    d = os.path.join(V, 'symex')
    key = digest(tree(d, ('.cpp', '.h')))
    if not fresh(out, key):
        fl = [x for x in sh(['llvm-config', '--cxxflags']).split() if x[:2] in ('-I', '-D')]
        lib = sh(['llvm-config', '--libdir']).strip()
        sh(['clang++', '-O2', '-std=c++17'] + fl + ['-w', os.path.join(d, 'symex.cpp'), '-o', out + '.tmp', '-L' + lib, '-lLLVM-18', '-lz3', '-lpthread'])
        os.rename(out + '.tmp', out)
        mark(out, key)
    return out

def prep_src():
    """copy the sources, generate the parser"""
    src = os.path.join(B, 'src')
    key = hashlib.sha256(repr((COMMON, BCF, NATF, WRAP)).encode()).hexdigest()[:8] + digest([os.path.join(REPO, f) for f in sources()] + tree(REPO, ('.h', '.y', '.l')) + tree(os.path.join(V, 'models/config'), '.h'))
    if not fresh(src, key):
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(os.path.join(src, 'cligen'))
        for f in os.listdir(REPO):
            if (f.endswith('.h') and f not in ('cligen_config.h', 'cligen_parse.tab.h')) or f in sources() or f in ('cligen_parse.y', 'cligen_parse.l'):
                shutil.copy(os.path.join(REPO, f), os.path.join(src, f))
        shutil.copy(os.path.join(V, 'models/config/cligen_config.h'), src)
        for f in os.listdir(src):
            if f.endswith('.h'):
                os.symlink(os.path.join('..', f), os.path.join(src, 'cligen', f))
        open(os.path.join(src, 'build.c'), 'w').write('const char CLIGEN_BUILDSTR[]="check";\nconst char CLIGEN_VERSION[]="check";\n')
        sh(['flex', '-Pcligen_parse', 'cligen_parse.l'], cwd=src)
        sh(['bison', '-y', '-l', '-d', '-b', 'cligen_parse', '-p', 'cligen_parse', 'cligen_parse.y'], cwd=src)
        mark(src, key)
    return src, key

def build(pid, hsrc):
    """returns (symex, bitcode, native exe)"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ex = ThreadPoolExecutor(NP)
    fsym = ex.submit(build_symex)
    src, skey = prep_src()
    H, M = os.path.join(V, 'harness'), os.path.join(V, 'models')
    inc = ['-I' + src, '-I' + H]
    files = [os.path.join(src, f) for f in sources() + ['cligen_parse.tab.c', 'lex.cligen_parse.c', 'build.c']]
    jobs = []
    def cc(cc_, flags, f, out, key):
        if not fresh(out, key):
            sh([cc_] + flags + COMMON + inc + [f, '-o', out])
            mark(out, key)
        return out
    bd, nd = os.path.join(B, 'bc'), os.path.join(B, 'nat')
    os.makedirs(bd, exist_ok=True)
    os.makedirs(nd, exist_ok=True)
    hk = digest(tree(H, '.h'))
    bcs, nats = [], []
    for f in files:
        b = os.path.basename(f)
        bcs.append(ex.submit(cc, 'clang', BCF + WRAPF, f, os.path.join(bd, b + '.bc'), skey))
        nats.append(ex.submit(cc, 'gcc', NATF + WRAPF, f, os.path.join(nd, b + '.o'), skey))
    k = digest([os.path.join(M, 'libc.c')]) + hk
    bcs.append(ex.submit(cc, 'clang', BCF, os.path.join(M, 'libc.c'), os.path.join(bd, 'libc.bc'), k))
    k = digest([os.path.join(H, 'env.c')]) + hk
    bcs.append(ex.submit(cc, 'clang', BCF, os.path.join(H, 'env.c'), os.path.join(bd, 'env.bc'), k))
    nats.append(ex.submit(cc, 'gcc', NATF, os.path.join(H, 'env.c'), os.path.join(nd, 'env.o'), k))
    k = digest([os.path.join(H, 'rt_native.c')]) + hk
    nats.append(ex.submit(cc, 'gcc', NATF, os.path.join(H, 'rt_native.c'), os.path.join(nd, 'rt_native.o'), k))
    hf = os.path.join(H, hsrc)
    k = digest([hf]) + hk + skey
    bcs.append(ex.submit(cc, 'clang', BCF + WRAPF, hf, os.path.join(bd, hsrc + '.bc'), k))
    nats.append(ex.submit(cc, 'gcc', NATF + WRAPF, hf, os.path.join(nd, hsrc + '.o'), k))
    bcs = [f.result() for f in bcs]
    out = os.path.join(B, hsrc[:-2] + '.bc')
    exe = os.path.join(B, hsrc[:-2] + '.exe')
    key = skey + k + digest([os.path.join(M, 'libc.c'), os.path.join(H, 'env.c'), os.path.join(H, 'rt_native.c')]) + PASSES
    def link_bc():
        if not fresh(out, key):
            sh(['llvm-link'] + bcs + ['-o', out + '.l'])
            sh(['opt', '-passes=' + PASSES, out + '.l', '-o', out + '.t'])
            os.unlink(out + '.l')
            os.rename(out + '.t', out)
            mark(out, key)
    fl = ex.submit(link_bc)
    nats = [f.result() for f in nats]
    if not fresh(exe, key):
        sh(['gcc', '-fsanitize=address', '-rdynamic'] + nats + ['-o', exe, '-ldl'])
        mark(exe, key)
    fl.result()
    sym = fsym.result()
    return sym, out, exe

# ------------------------------------------------------------------ replay
def write_inputs(path, ins):
    with open(path, 'w') as f:
        for n, h in ins:
            if n.startswith('_'):
                continue
            f.write('%s %d %s\n' % (n, len(h) // 2, h))

def run_native(exe, entry, args, ins, tag, timeout=20):
    d = os.path.join(B, 'run')
    os.makedirs(d, exist_ok=True)
    pi, po = os.path.join(d, tag + '.in'), os.path.join(d, tag + '.obs')
    write_inputs(pi, ins)
    env = dict(os.environ, TZ='UTC', LC_ALL='C')
    try:
        r = subprocess.run([exe, pi, po, entry] + ['%s=%s' % kv for kv in args.items()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d)
        rc, err = r.returncode, r.stderr.decode('latin1')
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    obs = []
    try:
        obs = open(po).read().split()
    except OSError:
        pass
    for p in (pi, po):
        try: os.unlink(p)
        except OSError: pass
    return rc, err, obs

def failed(rc):
    return rc == 'timeout' or rc in (70, 71) or (isinstance(rc, int) and (rc < 0 or rc not in (0, 2, 72, 73)))

def summary(rc, err):
    if rc == 'timeout': return 'does not terminate'
    m = re.search(r'REPLAY-ASSERT (.*)', err)
    if m: return 'assertion: ' + m.group(1)
    m = re.search(r'AddressSanitizer:? ([^\n]*)', err)
    if m: return 'memory error: ' + m.group(1)[:120]
    return 'exit %s %s' % (rc, err.strip()[-200:])

def show(ins):
    r = {}
    for n, h in ins:
        if n.startswith('_'): continue
        k = n
        i = 1
        while k in r:
            i += 1
            k = '%s#%d' % (n, i)
        r[k] = h
    return r

def main():
    a = sys.argv[1:]
    import jobs as J
    if a and a[0] == '--setup':
        for pid in J.JOBS:
            build(pid, J.JOBS[pid]['src'])
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--job' in a: only = a[a.index('--job') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = J.JOBS[pid]
    t0 = time.time()
    sym, bc, exe = build(pid, spec['src'])
    tb = time.time() - t0
    budget = J.BUDGET[tier]
    deadline = t0 + budget
    known = []
    kp = os.path.join(V, 'known_findings.json')
    if os.path.exists(kp):
        known = [k for k in json.load(open(kp))['findings'] if k['property'] == pid]
    jl = []
    for j in spec['jobs']:
        if tier not in j['tiers']: continue
        if only and not re.search(only, j['name']): continue
        jl.append(j)
    outd = os.path.join(B, 'out')
    os.makedirs(outd, exist_ok=True)
    def run(j):
        now = time.time()
        left = deadline - now
        if left < 3:
            return j, None, 'not started: time budget of the tier used up'
        mt = min(left - 2, j.get('time', 1e9))
        of = os.path.join(outd, '%s-%s.json' % (pid, j['name']))
        if os.path.exists(of): os.unlink(of)
        cmd = [sym, bc, j['entry'], '--out', of, '--max-time', '%.0f' % mt, '--seed', str(seed), '--max-errors', '3', '--samples', str(j.get('samples', 12)), '--max-instr', str(j.get('max_instr', 30000000))]
        for k, v in j['args'].items(): cmd += ['--arg', '%s=%s' % (k, v)]
        try:
            if failfast:      # development only: stop after the first job with an error
                if found: return j, None, 'stopped'
                with subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) as r:
                    procs.append(r)
                    r.wait(mt + 40)
                    procs.remove(r)
                    if found: return j, None, 'stopped'
            else:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=mt + 40)
        except subprocess.TimeoutExpired:
            return j, None, 'engine timeout'
        if verbose and not failfast and r.stderr: sys.stderr.write('[%s] %s\n' % (j['name'], r.stderr.decode('latin1')[-2000:]))
        try:
            res = json.load(open(of))
        except Exception as e:
            return j, None, 'engine failed rc=%s %s' % (r.returncode, r.stderr.decode('latin1')[-300:])
        if failfast and res['errors'] and not any(k['job'] and re.fullmatch(k['job'], j['name']) for k in known):
            found.append(j)
            for q in list(procs): q.kill()
        return j, res, None
    failfast, found, procs = os.environ.get('VERIF_FAILFAST'), [], []
    order = sorted(jl, key=lambda j: j.get('weight', 1) * (1 if failfast else -1))
    with ThreadPoolExecutor(NP) as ex:
        results = list(ex.map(run, order))
    # ---- evaluate
    viol, knownhit, unrepro = [], [], []
    tot = dict(paths=0, error_paths=0, forks=0, instructions=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_cache_hits=0, domain_decided=0, asserts_symbolic=0, asserts_concrete=0, final_path_checks=0)
    solver_s = 0.0
    funcs, inconc, notrun, perjob, samples, mism = set(), {}, {}, [], [], []
    checks = []
    for j, res, err in results:
        if res is None:
            notrun[j['name']] = err
            if verbose: print('%-28s NOT RUN %s' % (j['name'], err))
            continue
        for k in tot: tot[k] += res[k]
        solver_s += res['solver_s']
        funcs.update(res['functions'])
        for k, n in res['inconclusive'].items(): inconc[k] = inconc.get(k, 0) + n
        perjob.append(dict(job=j['name'], entry=j['entry'], bounds=j['args'], paths=res['paths'], complete=res['complete'], wall_s=round(res['wall_s'], 2), solver_s=round(res['solver_s'], 2), queries=res['z3_queries'], assertions=sum(res['asserts'].values()), reached=res['reach'], errors=len(res['errors'])))
        if verbose:
            print('%-28s paths %-7d complete %-5s %.1fs (z3 %.1fs, %d q) instr %.1fM errs %d inconcl %s' % (j['name'], res['paths'], res['complete'], res['wall_s'], res['solver_s'], res['z3_queries'], res['instructions'] / 1e6, len(res['errors']), sum(res['inconclusive'].values())))
            for k in res['inconclusive']: print('      inconclusive:', k)
        for i, e in enumerate(res['errors']): checks.append((j, 'err', i, e))
        for i, s in enumerate(res['samples']): checks.append((j, 'smp', i, s))
    def nat(c):
        j, kind, i, e = c
        return run_native(exe, j['entry'], j['args'], e['ins'], '%s-%s-%s%d' % (pid, j['name'], kind, i), 20 if kind == 'err' else 30)
    with ThreadPoolExecutor(NP) as ex:
        nr = list(ex.map(nat, checks))
    nval = 0
    for (j, kind, i, e), (rc, err, obs) in zip(checks, nr):
        rep = dict(property=pid, job=j['name'], entry=j['entry'], args=j['args'], inputs=e['ins'], native=summary(rc, err) if failed(rc) else 'exit %s' % rc)
        if kind == 'err':
            rep['engine'] = dict(kind=e['kind'], msg=e['msg'], loc=e['loc'], stack=e['stack'])
            if not failed(rc):
                unrepro.append(rep)
                if verbose: print('  UNREPRODUCED', j['name'], e['kind'], e['msg'], e['loc'], e['stack'], show(e['ins']), rc, err[-300:])
                continue
        else:
            if failed(rc):
                rep['engine'] = dict(kind='native run of an explored path fails', msg=summary(rc, err), loc='', stack=[])
            elif rc != 0 or obs != e['obs']:
                mism.append(dict(job=j['name'], inputs=show(e['ins']), rc=rc, native=obs[:60], engine=e['obs'][:60], err=err[-200:]))
                continue
            else:
                nval += 1
                if len(samples) < 8: samples.append(dict(job=j['name'], inputs=show(e['ins']), observed=obs[:24]))
                continue
        rep['stderr'] = err[-1500:]
        kf = None
        for k in known:
            if k['job'] and not re.fullmatch(k['job'], j['name']): continue
            text = '%s | %s | %s' % (rep['engine']['kind'], rep['engine']['msg'], rep['engine']['loc'])
            if re.search(k['match'], text): kf = k; break
        if kf: knownhit.append((kf, rep))
        else: viol.append(rep)
    rd = os.path.join(V, 'evidence', 'replay')
    lines = []
    for k in {id(k): k for k, _ in knownhit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = set()
    for rep in viol:
        h = hashlib.sha256(json.dumps([rep['job'], rep['inputs']]).encode()).hexdigest()[:10]
        key = (rep['engine']['msg'], rep['engine']['loc'])
        if key in seen: continue
        seen.add(key)
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s.json' % (pid, h))
        json.dump(rep, open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s: %s' % (rep['job'], rep['engine']['kind']), '|', rep['engine']['msg'], '|', rep['engine']['loc'], '|', rep['native'])
        print('  inputs:', show(rep['inputs']))
        if verbose: print('  stack:', rep['engine']['stack'])
    if verbose:
        for m in mism[:6]: print('  TRACE-MISMATCH', m)
    complete = bool(perjob) and all(p['complete'] for p in perjob) and not notrun
    repo_funcs = sorted(f for f in funcs)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=J.ASSUME + spec.get('assume', []),
              coverage=dict(
                  states=tot['paths'] + tot['error_paths'], transitions=tot['forks'], traces_validated_against_impl=nval, samples=samples or [dict(note='no completed path')],
                  exhaustive=complete, bounds=spec['bounds'], jobs=perjob, jobs_not_run=notrun,
                  explanation='states: path conditions explored to the end, each checked by z3; transitions: two-sided branch decisions; every path covers all inputs satisfying its condition',
                  functions_encoded=repo_funcs, instructions_executed=tot['instructions'],
                  queries=dict(z3=tot['z3_queries'], sat=tot['z3_sat'], unsat=tot['z3_unsat'], unknown=tot['z3_unknown'], cached=tot['z3_cache_hits'], path_conditions=tot['final_path_checks'], single_byte_domain=tot['domain_decided']),
                  assertions=dict(symbolic=tot['asserts_symbolic'], concrete=tot['asserts_concrete']),
                  solver_s=round(solver_s, 2), build_s=round(tb, 2), inconclusive=inconc, unreproduced_counterexamples=unrepro, trace_mismatches=mism[:20], trace_mismatch_count=len(mism),
                  known_findings=[k['what'] for k in {id(k): k for k, _ in knownhit}.values()]))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d z3 queries, %d traces validated, %d mismatches, %d unreproduced, %d inconclusive, complete=%s, %.1fs (build %.1fs)' % (pid, tier, tot['paths'], tot['z3_queries'], nval, len(mism), len(unrepro), sum(inconc.values()), complete, time.time() - t0, tb))
    if not perjob:
        print('no job ran:', notrun)
        return 2
    return 1 if viol else 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
