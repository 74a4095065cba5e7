#!/usr/bin/env python3
"""seed.py <id>... [--checks-only] [--all-checks]: try planted changes in a scratch copy (never in /repo).
Confirms: applies, builds, stable tests pass, demo 0 without / nonzero with; then runs the property's check on it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
REPO = S + '/repo'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', DEMO_TARGET='/tmp/seedwork/demotarget',
           PATH='/root/.cargo/bin:' + os.environ['PATH'])
FEAT = 'bevy,gizmo,nalgebra,netsci,fonts,svg,wgpu'


def sh(cmd, cwd, env=ENV, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def prepare():
    if not os.path.exists(REPO):
        os.makedirs(S)
        sh('cp -a /repo %s' % REPO, '/')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', REPO)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = '--checks-only' in sys.argv
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        prepare()
        res = {}
        if not only:
            rc, o = sh('bash %s/demo.sh' % d, REPO)
            res['demo_clean'] = rc
            if rc: print(o[-1500:])
        rc, o = sh('git apply %s/patch.diff' % d, REPO)
        if rc:
            print(i, 'DOES NOT APPLY', o)
            continue
        if not only:
            rc, o = sh('cargo test -p procedural_modelling --no-fail-fast --offline --features %s -- --test-threads 8' % FEAT, REPO)
            base = json.load(open('/opt/vp/BASELINE.json'))
            want = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
            ok = [w for w in want if ('test %s ... ok' % w.split('cargo:')[-1].split()[-1]) in o or w.split('::', 1)[-1] + ' ... ok' in o]
            res['tests'] = '%d/%d' % (len(ok), len(want))
            if len(ok) < len(want): print(o[-1500:])
            rc, o = sh('bash %s/demo.sh' % d, REPO)
            res['demo_bug'] = rc
            res['demo_out'] = o.strip().split('\n')[-1][:200]
        e = dict(os.environ, VERIF_REPO=REPO, VERIF_CACHE=S + '/cache')
        e.pop('RUSTUP_TOOLCHAIN', None)
        pids = [meta['property']]
        if '--all-checks' in sys.argv:
            sys.path[:0] = [V + '/rules', V + '/engine']
            import registry
            pids = sorted(registry.PROPS)
        for p in pids:
            rc, o = sh('python3 check.py %s' % p, V, env=e)
            res[p] = rc
            if rc == 1:
                res[p + '_what'] = [l.strip()[:230] for l in o.split('\n') if l.startswith('  ')][:3]
            elif rc:
                res[p + '_err'] = o[-600:]
        sh('git checkout -q -- .', REPO)
        print(i, json.dumps(res, indent=1))


main()
