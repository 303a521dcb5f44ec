#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] : solver-based check of one property against /repo's current tree.
run.py --build builds the engine, the native driver and the harness only."""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile, time, hashlib
D = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(D, 'build')
sys.path.insert(0, D)

def newer(out, srcs):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs)

def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        eng = [os.path.join(D, 'engine', f) for f in ('expr.h', 'smt.h', 'int.h', 'junosym.cpp', 'build.sh')]
        if not newer(B + '/junosym', eng): jobs.append(('engine', [D + '/engine/build.sh', B + '/junosym']))
        if not newer(B + '/driver', [D + '/engine/driver.c']): jobs.append(('driver', ['gcc', '-O1', '-rdynamic', D + '/engine/driver.c', '-o', B + '/driver', '-ldl', '-lm']))
        # the harness is always rebuilt by cargo (its fingerprints follow /repo); a copied sandbox may carry stale
        # fingerprints with equal mtimes, so the juno sources are hashed and a change forces a rebuild
        h = hashlib.sha256()
        for d in ('juno', 'juno_derive', 'juno_axum'):
            for r, ds, fs in sorted(os.walk('/repo/' + d)):
                for f in sorted(fs):
                    if f.endswith(('.rs', '.toml')): h.update(f.encode() + open(os.path.join(r, f), 'rb').read())
        hf = B + '/srchash'
        if not os.path.exists(hf) or open(hf).read() != h.hexdigest():
            for n in ('juno', 'svc', 'vharness'):
                for f in glob.glob(B + '/target/release/.fingerprint/' + n + '-*') + glob.glob(B + '/target/release/.fingerprint/' + n + '_*'): shutil.rmtree(f, ignore_errors=True)
        open(hf, 'w').write(h.hexdigest())
        jobs.append(('harness', [D + '/harness/build.sh', B + '/target']))
        ps = []
        for n, c in jobs:
            log = open(os.path.join(B, n + '.log'), 'w')
            ps.append((n, subprocess.Popen(c, stdout=log, stderr=subprocess.STDOUT)))
        ok = True
        for n, p in ps:
            if p.wait():
                ok = False
                print('BUILD FAILED:', n); print(open(os.path.join(B, n + '.log')).read()[-3000:])
        if not ok: sys.exit(2)
        # private copies so that a concurrent build cannot change them under a running check
        t = tempfile.mkdtemp(prefix='run', dir=B)
        shutil.copy(B + '/target/release/deps/vharness.bc', t); shutil.copy(B + '/target/release/libvharness.so', t)
        return t

def known():
    r = []
    p = os.path.join(D, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, rest = l[len('finding: property='):].split(' ', 1)
                r.append((pid, rest))  # rest = "<violated assertion>"
    return r

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--build' in sys.argv:
        t0 = time.time(); shutil.rmtree(build()); print('built in %.1fs' % (time.time() - t0)); return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]; args = [a for a in args if a != tier] 
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    strict = '--strict' in sys.argv
    import props
    P = props.PROPS[pid]
    t0 = time.time()
    tmp = build()
    tb = time.time() - t0
    try:
        out = os.path.join(tmp, 'out'); os.makedirs(out)
        jobs = list(P['quick']) + (list(P.get('thorough', [])) if tier == 'thorough' else [])
        seen = set(); jobs = [j for j in jobs if not (tuple(j[:2]) in seen or seen.add(tuple(j[:2])))]
        if tier == 'thorough':
            jobs = [(j[0], j[1], j[2] * P.get('thorough_mult', 4)) for j in jobs]
        budget = (900 if tier == 'quick' else 36000) - tb - 60
        cap = min(P.get('budget', 150 if tier == 'quick' else 7200), budget)
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i][2])
        with open(tmp + '/jobs', 'w') as f:
            for i in order: f.write('%s %d %d\n' % jobs[i][:3])
        r = subprocess.run([B + '/junosym', '--bc', tmp + '/vharness.bc', '--so', tmp + '/libvharness.so', '--driver', B + '/driver',
                            '--jobs', tmp + '/jobs', '--out', out, '-j', '8', '--budget', str(int(cap))] + ([] if any(p == pid for p, _ in known()) else ['--stop']), env=dict(os.environ, VF_SEED=str(seed)))
        if r.returncode: print('engine failed', r.returncode); return 2
        res = []
        killed = [i for i in range(len(jobs)) if not os.path.exists(out + '/job%d.json' % i)]
        for f in sorted(glob.glob(out + '/job*.json')):
            try: res.append(json.load(open(f)))
            except Exception as e: res.append({'entry': f, 'cfg': 0, 'err': 'unreadable result: %s' % e})
        S = lambda k: sum(x.get(k) or 0 for x in res)
        viol = []; kf = []; kn = known()
        rep = os.path.join(D, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
        for f in glob.glob(os.path.join(rep, pid + '_*')): os.unlink(f)
        for x in res:
            for v in x.get('violations', []):
                ff = next((k for p, k in kn if p == pid and k == v['what']), None)
                if ff: kf.append(ff); continue
                dst = os.path.join(rep, '%s_%d.vec' % (pid, len(viol)))
                if os.path.exists(v['vec']): shutil.copy(v['vec'], dst)
                viol.append((v, dst, x))
        covers = set(c for x in res for c in x.get('covers', []))
        missing = [c for c in P.get('covers', []) if c not in covers]
        errs = [(x.get('entry'), x.get('cfg'), x['err']) for x in res if x.get('err')]
        uns = sorted(set(u for x in res for u in x.get('unsupported', [])))
        timeouts = ['%s(%s)' % (x['entry'], x['cfg']) for x in res if x.get('timeout')]
        und = sorted(set(u for x in res for u in x.get('undec', [])))
        samples = [s for x in res for s in x.get('samples', [])][:6]
        fns = sorted(set(f for x in res for f in x.get('functions', [])))
        msgs = {}
        for x in res:
            for k, n in x.get('msgs', {}).items(): msgs[k] = msgs.get(k, 0) + n
        wall = time.time() - t0
        cov = {
            'states': S('paths'), 'transitions': S('steps'), 'traces_validated_against_impl': S('concordant') + S('replays'),
            'samples': [{'path_inputs': s} for s in samples] or [{'assertions': list(msgs)[:5]}],
            'states_meaning': 'completed symbolic paths (each stands for every input that takes it)',
            'transitions_meaning': 'LLVM instructions executed symbolically',
            'traces_meaning': 'solver models executed natively against the compiled code (path concordance and counterexample replays)',
            'symbolic_forks': S('forks'),
            'assertions_checked': S('checks'), 'closed_by_rewriting': S('trivial'), 'closed_unsat_bit_precise': S('by_uf'),
            'closed_unsat_linear_reals': S('by_lin'), 'closed_unsat_nonlinear_reals': S('by_nra'), 'closed_unsat_ieee754': S('by_fp'),
            'undecided': S('undecided'), 'undecided_what': und[:20],
            'solver_queries': S('queries'), 'solver_s': round(S('solver_s'), 2),
            'paths_cut_by_bounds': S('bound_pruned'), 'paths_ended_by_assumption': S('assume_pruned'), 'allowed_panics': S('panic_allowed'),
            'jobs': len(res), 'jobs_timed_out': timeouts, 'unsupported': uns[:20], 'errors': errs[:10],
            'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''), 'assertions': msgs, 'functions_encoded': fns,
            'covers_reached': sorted(covers), 'covers_missing': missing, 'build_s': round(tb, 1),
            'exhaustive': not timeouts and not uns and not errs and S('undecided') == 0 and S('bound_pruned') == 0,
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': props.COMMON_ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(D, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(D, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d jobs, %d paths, %d assertions (%d undecided), %d queries, %.1fs solver, %.1fs wall (%.1fs build)' %
              (pid, len(res), S('paths'), S('checks'), S('undecided'), S('queries'), S('solver_s'), wall, tb))
        if timeouts: print('  bound not exhausted in time:', ', '.join(timeouts[:12]))
        for u in und[:8]: print('  UNDECIDED:', u)
        for u in uns[:8]: print('  UNSUPPORTED:', u)
        for e in errs[:8]: print('  ERROR:', e)
        for c in missing: print('  NOT REACHED:', c)
        if strict:
            for x in sorted(res, key=lambda x: -(x.get('wall') or 0))[:8]: print('   ', x.get('entry'), x.get('cfg'), 'wall %.1f paths %s' % (x.get('wall') or 0, x.get('paths')))
        for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for v, dst, x in viol[:20]:
            print('  violated: %s [%s cfg %s]\n  inputs: %s\n  native: %s' % (v['what'], x['entry'], x['cfg'], json.dumps(v['inputs'])[:800], v['native'].strip().replace('\n', ' | ')[:300]))
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        if viol: return 1
        if S('checks') == 0: print('no assertion was reached'); return 2
        if strict and (timeouts or uns or errs or missing or und): return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
