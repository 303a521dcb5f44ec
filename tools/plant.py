#!/usr/bin/env python3
"""plant.py ID... : validates planted bugs in a scratch copy (applies, builds, stable tests pass, demo 0 -> nonzero) and runs
the property's check with the change applied to /repo (then undone). --nocheck / --nodemo skip parts."""
import json, os, subprocess, sys, time
V = '/verif/seeded/'; S = '/tmp/scratch_repo'
env = dict(os.environ, RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR='/tmp/scratch_target', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def sh(c, cwd=None, e=None, t=1200): return subprocess.run(c, shell=True, cwd=cwd, env=e or env, capture_output=True, text=True, timeout=t)
def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/scratch_log 2>&1; python3 /opt/vp/results.py /tmp/scratch_res.json cargo:/tmp/scratch_log', S)
    base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open('/tmp/scratch_res.json'))
    return base, res
for i in [a for a in sys.argv[1:] if not a.startswith('-')]:
    d = V + i
    if not os.path.exists(d + '/demo.sh'): sh('cp /verif/tools/demo_template.sh %s/demo.sh; chmod +x %s/demo.sh' % (d, d))
    if '--nodemo' not in sys.argv:
        if not os.path.exists(S): sh('git -C /repo worktree prune; git clone -q /repo %s' % S)
        sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq', S)
        de = dict(os.environ, DEMO_TARGET='/tmp/demo_target')
        a = sh(d + '/demo.sh', S, de)
        ap = sh('git apply %s/patch.diff' % d, S)
        if ap.returncode: print(i, 'PATCH FAILS', ap.stderr); continue
        sh('find juno -name "*.rs" -newer /nonexistent 2>/dev/null; touch juno/src/lib.rs', S)
        b = sh('cargo build --workspace --all-targets --offline', S)
        base, res = tests()
        def names(x): return set(x.get('stable') or x.get('passed') or x.get('pass') or [])
        lost = names(base) - names(res)
        c = sh(d + '/demo.sh', S, de)
        print(i, 'demo clean rc', a.returncode, '| build', b.returncode, '| lost tests', sorted(lost)[:4], '(of %d)' % len(names(base)), '| demo patched rc', c.returncode, (c.stdout + c.stderr).strip()[-150:].replace('\n', ' / '))
        if a.returncode: print('   clean demo:', (a.stdout + a.stderr)[-800:])
    if '--nocheck' not in sys.argv:
        m = json.load(open(d + '/meta.json'))
        assert not sh('git status --porcelain', '/repo').stdout.strip()
        sh('git apply %s/patch.diff' % d, '/repo')
        t = time.time()
        try: r = sh('./run.py %s' % m['property'], '/verif', os.environ)
        finally: sh('git checkout -- .', '/repo')
        vs = [l for l in r.stdout.split('\n') if 'violated' in l]
        print(i, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % m['property'] in r.stdout else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), (vs or [r.stdout[-300:]])[0])
