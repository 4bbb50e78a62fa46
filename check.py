#!/usr/bin/env python3
"""Decides one property: compiles its harnesses together with /repo's current sources to LLVM bitcode, runs the
symbolic executor (Z3) on every entry, replays counterexamples natively against the real code, writes evidence."""
import sys, os, re, json, subprocess, hashlib, time, glob, shutil, signal, threading, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SV_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
SX = os.path.join(BUILD, 'sx')
CXX = 'clang++-18'
BASE = ['-stdlib=libc++', '-std=gnu++14', '-w', '-pthread', '-fms-extensions', '-fms-compatibility', '-fms-compatibility-version=19.30',
        '-U_MSC_VER', '-fno-delayed-template-parsing', '-include', os.path.join(HERE, 'rt/gnuc_macros.h'), '-include', 'utility',
        '-I' + REPO + '/include', '-I' + REPO + '/experimental/include', '-I' + HERE + '/harness', '-ftrivial-auto-var-init=pattern']
IRFLAGS = BASE + ['-O2', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-threadsafe-statics', '-D_LIBCPP_DISABLE_AVAILABILITY', '-emit-llvm', '-c']
NATFLAGS = BASE + ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
NPROC = int(os.environ.get('SV_JOBS', '8'))


def sh(cmd, timeout=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 124, o.decode(errors='replace'), e.decode(errors='replace')


def repo_hash():
    h = hashlib.sha256()
    for d in ('include', 'experimental', 'src'):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cpp', '.hpp', '.inl')):
                    p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in sorted(glob.glob(HERE + '/harness/*.h')) + sorted(glob.glob(HERE + '/rt/*')):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(' '.join(IRFLAGS + NATFLAGS).encode())
    return h.hexdigest()[:16]


def parse_entries(prop, tier):
    """directives in harness/*.cpp:  //@ PROP entry [key=val ...]   keys: t,T (seconds quick/thorough), q:PARAM, Q:PARAM (thorough), tier, steps"""
    res = []
    for f in sorted(glob.glob(HERE + '/harness/*.cpp')):
        for line in open(f):
            m = re.match(r'\s*//@\s+([A-Z]\d+)\s+(\w+)\s*(.*)', line)
            if not m or m.group(1) != prop: continue
            e = {'file': f, 'entry': m.group(2), 't': 60.0, 'T': 300.0, 'params': {}, 'qp': {}, 'tp': {}, 'tier': 'both', 'automerge': 0, 'steps': 20000000, 'lia': 0, 'note': ''}
            rest = m.group(3)
            if '--' in rest: rest, e['note'] = rest.split('--', 1); e['note'] = e['note'].strip()
            for kv in rest.split():
                k, v = kv.split('=', 1)
                if k in ('t', 'T'): e[k] = float(v)
                elif k == 'tier': e['tier'] = v
                elif k in ('automerge', 'steps', 'lia'): e[k] = int(v)
                elif k.startswith('q:'): e['qp'][k[2:]] = int(v)
                elif k.startswith('Q:'): e['tp'][k[2:]] = int(v)
                else: e['params'][k] = int(v)
            if e['tier'] not in ('both', tier): continue
            p = dict(e['params']); p.update(e['qp'])
            if tier == 'thorough': p.update(e['tp'])
            e['p'] = p; e['time'] = e['t'] if tier == 'quick' else e['T']
            e['name'] = e['entry'] + (''.join(',%s=%d' % kv for kv in sorted(p.items())) if p else '')
            res.append(e)
    return res


class Ctx:
    pass


def build_engine():
    rc, o, e = sh([os.path.join(HERE, 'build.sh')], timeout=600)
    if rc: print('engine build failed\n' + o + e); sys.exit(2)


def cached(path, make):
    if os.path.exists(path): return None
    tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident())
    err = make(tmp)
    if err is None: os.replace(tmp, path)
    elif os.path.exists(tmp): os.unlink(tmp)
    return err


def compile_bc(src, out):
    def mk(t):
        rc, o, e = sh(['clang-18', '-O2', '-ffreestanding', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', src, '-o', t] if src.endswith('.c') else [CXX] + IRFLAGS + [src, '-o', t], timeout=400)
        return None if rc == 0 else e[:4000] or 'failed'
    return cached(out, mk)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=''); ap.add_argument('--verbose', action='store_true'); ap.add_argument('--cap', type=float, default=0)
    a = ap.parse_args()
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cap = a.cap or (560 if tier == 'quick' else 3000)
    os.makedirs(BUILD, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    build_engine()
    entries = parse_entries(prop, tier)
    if a.only: entries = [e for e in entries if a.only in e['entry']]
    if not entries: print('no entries for ' + prop); sys.exit(2)
    known = [k for k in json.load(open(HERE + '/known_findings.json'))['findings'] if k['property'] == prop]
    files = sorted(set(e['file'] for e in entries))
    wd = os.path.join(BUILD, 'w_' + repo_hash()); os.makedirs(wd, exist_ok=True); os.utime(wd)
    olds = sorted(glob.glob(BUILD + '/w_*'), key=lambda p: os.path.getmtime(p))
    for o in olds[:-3]:
        if time.time() - os.path.getmtime(o) > 1800: shutil.rmtree(o, ignore_errors=True)
    hsh = {f: hashlib.sha256(open(f, 'rb').read()).hexdigest()[:10] for f in files}
    bc = {f: os.path.join(wd, os.path.basename(f)[:-4] + '_' + hsh[f] + '.bc') for f in files}
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    srcs = [s for s in srcs if 'iostream_overloads' not in s]
    sbc = {s: os.path.join(wd, 'src_' + os.path.relpath(s, REPO).replace('/', '_') + '.bc') for s in srcs}
    rtbc = os.path.join(wd, 'rt.bc'); rtcbc = os.path.join(wd, 'rtc.bc')
    natobj = {f: os.path.join(wd, os.path.basename(f)[:-4] + '_' + hsh[f] + '.o') for f in files}
    snat = {s: os.path.join(wd, 'src_' + os.path.relpath(s, REPO).replace('/', '_') + '.o') for s in srcs}
    pool = ThreadPoolExecutor(NPROC)

    def nat(src, out, extra=[]):
        def mk(t):
            rc, o, e = sh([CXX] + NATFLAGS + extra + ['-c', src, '-o', t], timeout=500)
            return None if rc == 0 else e[:4000] or 'failed'
        return cached(out, mk)
    jobs = {pool.submit(compile_bc, f, bc[f]): f for f in files}
    jobs.update({pool.submit(compile_bc, s, sbc[s]): s for s in srcs})
    jobs[pool.submit(compile_bc, HERE + '/rt/rt.cpp', rtbc)] = 'rt'; jobs[pool.submit(compile_bc, HERE + '/rt/rt_c.c', rtcbc)] = 'rtc'
    natjobs = {f: pool.submit(nat, f, natobj[f]) for f in files}
    natjobs.update({s: pool.submit(nat, s, snat[s]) for s in srcs})
    for j in as_completed(jobs):
        if j.result(): print('compile error in %s:\n%s' % (jobs[j], j.result())); sys.exit(2)
    lk = {f: bc[f][:-3] + '.l.bc' for f in files}
    for f in files:
        def mk(t):
            rc, o, e = sh(['llvm-link-18', bc[f], '--only-needed'] + [sbc[s] for s in srcs] + [sbc[s] for s in srcs] + [rtbc, rtcbc, '-o', t], timeout=120)
            return None if rc == 0 else e[:2000]
        er = cached(lk[f], mk)
        if er: print('link error ' + f + er); sys.exit(2)
    tcomp = time.time() - t0

    nlock = threading.Lock(); nbin = {}

    def native_bin(e):
        with nlock:
            key = (e['file'], e['entry'])
            if key in nbin: return nbin[key]
            for f in [e['file']] + srcs:
                er = natjobs[f].result()
                if er: raise RuntimeError('native compile of %s failed: %s' % (f, er))
            out = natobj[e['file']][:-2] + '_' + e['entry'] + '.exe'
            def mk(t):
                rc, o, er = sh([CXX] + NATFLAGS + ['-DSV_ENTRY=' + e['entry'], HERE + '/rt/native.cpp', natobj[e['file']]] + [snat[s] for s in srcs] + ['-o', t], timeout=300)
                return None if rc == 0 else er[:2000]
            er = cached(out, mk)
            if er: raise RuntimeError('native link failed: ' + er)
            nbin[key] = out
            return out

    def replay(e, vals, path, timeout=20):
        with open(path, 'w') as fp:
            for n, v in vals: fp.write('%s %s\n' % (n, v))
        env = dict(os.environ); env['SV_REPLAY'] = path; env['SV_PARAMS'] = ','.join('%s=%d' % kv for kv in e['p'].items())
        env['ASAN_OPTIONS'] = 'detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=1000000000:malloc_fill_byte=190:exitcode=67:allocator_may_return_null=0:detect_stack_use_after_return=0'
        rc, o, er = sh(['setpriv', '--pdeathsig', 'KILL', native_bin(e)] if False else [native_bin(e)], timeout=timeout, env=env)
        if rc == 66: return 'assert', er
        if rc == 67: return 'asan', er
        if rc == 124: return 'hang', er
        if rc == 77: return 'assume', er
        if rc < 0: return 'signal %d' % -rc, er
        if rc == 0: return 'ok', er
        return 'rc %d' % rc, er

    results = {}; procs = {}; stop = threading.Event(); confirmed = []; unconf = []
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + '_*')): os.unlink(old)

    def run_entry(e):
        if stop.is_set(): return e, None
        left = cap - (time.time() - t0)
        if left < 3: return e, {'skipped': True}
        outf = tempfile.mktemp(prefix='sx_', suffix='.json', dir=wd)
        cmd = [SX, lk[e['file']], '--entry', e['entry'], '--out', outf, '--max-time', str(min(e['time'], left)), '--max-steps', str(e['steps']), '--automerge', str(e['automerge'])] + (['--lia', '1'] if e['lia'] else [])
        for k, v in e['p'].items(): cmd += ['--param', '%s=%d' % (k, v)]
        for k in known:
            if k.get('region'): cmd += ['--known', k['id']]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        procs[e['name']] = p
        try: _, err = p.communicate(timeout=min(e['time'], left) + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); _, err = p.communicate()
        r = None
        if os.path.exists(outf):
            try: r = json.load(open(outf))
            except Exception as x: r = None
            os.unlink(outf)
        if r is None: r = {'crashed': True, 'rc': p.returncode, 'stderr': err.decode(errors='replace')[-600:]}
        else: r['stderr'] = err.decode(errors='replace')[-600:]
        seen = set(); n = 0
        for v in r.get('violations', []):
            key = (v['kind'], v['msg'], v['loc'])
            if key in seen or stop.is_set() and False: continue
            seen.add(key); n += 1
            path = os.path.join(rdir, '%s_%s_%d.txt' % (prop, e['name'].replace(',', '_').replace('=', ''), n))
            try: k, er = replay(e, v['vals'], path)
            except RuntimeError as x: k, er = 'nobuild', str(x)
            v['replay'] = k; v['replay_path'] = path; v['entry'] = e['name']; v['replay_err'] = er[-500:]
            if k in ('assert', 'asan', 'hang') or k.startswith('signal') or k.startswith('rc 1'):
                confirmed.append(v)
                with open(path + '.info', 'w') as fp: fp.write('entry=%s params=%s\nkind=%s msg=%s loc=%s\nnative replay: %s\n%s\n' % (e['entry'], e['p'], v['kind'], v['msg'], v['loc'], k, er[-3000:]))
                stop.set()
            else: unconf.append(v)
        # validate the encoding: path witnesses must behave natively as the engine predicted
        nv = 0; bad = []
        if not r.get('violations'):
            for i, w in enumerate(r.get('witnesses', [])[:3]):
                path = os.path.join(wd, 'wit_%s_%s_%d.txt' % (prop, e['name'].replace(',', '_').replace('=', ''), i))
                try: k, er = replay(e, w, path)
                except RuntimeError as x: bad.append(str(x)[:200]); break
                if k == 'hang': k, er = replay(e, w, path, 90)
                if k == 'ok': nv += 1
                elif k in ('assert', 'asan', 'hang') or k.startswith('signal'):
                    # the real code fails on the solver's own input for this path (compiled differently, e.g. undefined behaviour): a concrete counterexample
                    keep = os.path.join(rdir, '%s_%s_w%d.txt' % (prop, e['name'].replace(',', '_').replace('=', ''), i)); shutil.copy(path, keep)
                    v = {'kind': 'native', 'msg': 'the native run of a path witness fails', 'loc': '', 'vals': w, 'replay': k, 'replay_path': keep, 'entry': e['name'], 'replay_err': er[-500:]}
                    r.setdefault('violations', []).append(v); confirmed.append(v); stop.set()
                    with open(keep + '.info', 'w') as fp: fp.write('entry=%s params=%s\nnative run of a path witness: %s\n%s\n' % (e['entry'], e['p'], k, er[-3000:]))
                    break
                else: bad.append('witness %d: %s %s' % (i, k, er[-200:]))
        r['witness_ok'] = nv; r['witness_bad'] = bad
        return e, r

    order = sorted(entries, key=lambda e: -e['time'])
    futs = [pool.submit(run_entry, e) for e in order]
    def killer():
        stop.wait()
        time.sleep(0.2)
        while not done.is_set():
            for p in list(procs.values()):
                if p.poll() is None:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except Exception: pass
            time.sleep(0.3)
    done = threading.Event(); th = threading.Thread(target=killer, daemon=True); th.start()
    for f in as_completed(futs):
        e, r = f.result(); results[e['name']] = (e, r)
        if a.verbose and r:
            s = r.get('solver', {})
            print('%-40s %s paths=%s asserts=%s/%s q=%s z3=%s st=%.1f wall=%.1f viol=%d wit=%s %s %s' % (e['name'], 'CRASH ' + str(r.get('rc')) + r.get('stderr', '') if r.get('crashed') else ('complete' if r.get('complete') else 'INCOMPLETE'),
                  r.get('paths'), r.get('asserts_proved'), r.get('asserts'), s.get('queries'), s.get('z3'), s.get('time', 0), r.get('wall', 0), len(r.get('violations', [])), r.get('witness_ok'), r.get('witness_bad') or '', json.dumps(r.get('inconclusive', {}))[:600]), flush=True)
    done.set(); stop.set()

    # recorded findings: re-confirm natively
    for k in known:
        ee = [e for e in entries if e['entry'] == k['entry']]
        if not ee: continue
        path = os.path.join(wd, 'known_%s.txt' % k['id'])
        kk, er = replay(ee[0], k['witness'], path)
        if kk in ('assert', 'asan', 'hang') or kk.startswith('signal'):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    agg = dict(states=0, transitions=0, asserts=0, asserts_proved=0, queries=0, z3=0, sat=0, unsat=0, unknown=0, wit=0); stime = 0.0; fns = set(); samples = []; per = []; inc = []
    for nme, (e, r) in sorted(results.items()):
        if not r: continue
        s = r.get('solver', {})
        agg['states'] += r.get('paths', 0); agg['transitions'] += r.get('steps', 0); agg['asserts'] += r.get('asserts', 0); agg['asserts_proved'] += r.get('asserts_proved', 0)
        for q in ('queries', 'z3', 'sat', 'unsat', 'unknown'): agg[q] += s.get(q, 0)
        agg['wit'] += r.get('witness_ok', 0); stime += s.get('time', 0); fns.update(r.get('functions', []))
        for x in r.get('samples', [])[:1]: samples.append('%s: %s' % (nme, x))
        ok = bool(r.get('complete')) and r.get('paths', 0) > 0 and r.get('asserts', 0) > 0
        if not ok: inc.append('%s: %s' % (nme, 'crashed' if r.get('crashed') else 'skipped (time cap)' if r.get('skipped') else json.dumps(r.get('inconclusive', {}))[:300] + (' time budget reached, %d states pending' % r.get('pending', 0) if r.get('budget_out') else '') + ('' if r.get('asserts', 0) else ' no assertion reached')))
        per.append({'entry': nme, 'what': e['note'], 'bounds': e['p'], 'exhaustive_within_bounds': ok, 'paths': r.get('paths', 0), 'forks': r.get('forks', 0), 'merges': r.get('merges', 0), 'ir_steps': r.get('steps', 0),
                    'asserts': r.get('asserts', 0), 'asserts_proved': r.get('asserts_proved', 0), 'queries': s.get('queries', 0), 'z3_calls': s.get('z3', 0), 'unsat': s.get('unsat', 0), 'solver_s': round(s.get('time', 0), 2), 'wall_s': round(r.get('wall', 0), 2),
                    'witness_replays_ok': r.get('witness_ok', 0), 'witness_mismatch': r.get('witness_bad', [])})
    repo_fns = sorted(x for x in fns if 'altruct' in x)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
          'coverage': {'states': agg['states'], 'transitions': agg['transitions'], 'traces_validated_against_impl': agg['wit'], 'samples': samples[:12] or ['none'], 'exhaustive': not inc and not confirmed,
                       'explanation': 'states = symbolic paths explored to the end, transitions = LLVM IR instructions executed symbolically, each path standing for every input that follows it; assertions are decided by Z3 for all inputs on the path',
                       'assertions_checked': agg['asserts'], 'assertions_proved': agg['asserts_proved'], 'queries': agg['queries'], 'z3_queries': agg['z3'], 'sat': agg['sat'], 'unsat': agg['unsat'], 'unknown': agg['unknown'], 'solver_time_s': round(stime, 2), 'compile_s': round(tcomp, 2),
                       'functions_encoded': repo_fns[:400], 'functions_encoded_count': len(repo_fns), 'entries': per, 'incomplete': inc, 'unconfirmed_counterexamples': [{k: v[k] for k in ('entry', 'kind', 'msg', 'loc', 'replay')} for v in unconf]},
          'assumptions': ['bounds of each entry as listed; inputs outside them are not covered', 'LLVM IR at -O2 of the harness plus the current /repo sources; clang-18, libc++ 18 and Z3 are trusted', 'uninitialised memory is a fixed pattern; allocation never fails', 'integer arithmetic wraps (as compiled)']}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for v in confirmed:
        print('counterexample: %s: %s %s at %s -> native replay: %s; inputs %s' % (v['entry'], v['kind'], v['msg'], v['loc'], v['replay'], ' '.join('%s=%s' % tuple(x) for x in v['vals'])[:400]))
    for v in unconf: print('unconfirmed (not reported): %s: %s %s at %s -> native replay: %s' % (v['entry'], v['kind'], v['msg'], v['loc'], v['replay']))
    for x in inc: print('incomplete: ' + x)
    print('%s %s: %d entries, %d paths, %d assertions (%d proved), %d solver queries, %.1fs solver, %.1fs wall' % (prop, tier, len(results), agg['states'], agg['asserts'], agg['asserts_proved'], agg['queries'], stime, time.time() - t0))
    sys.stdout.flush()
    if confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, confirmed[0]['replay_path'])); sys.stdout.flush(); os._exit(1)
    os._exit(0)


if __name__ == '__main__': main()
