#!/usr/bin/env python3
"""seedtest.py ID... [--check]  : confirm planted changes in scratch copies: patch applies to HEAD, builds, stable tests pass, demo is 0 without
and non-zero with the change; with --check also run the property's check against the changed tree.
If /tmp/w/edits/ID.py exists (list of (file, old, new)), patch.diff is regenerated from it first."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
def one(i, check):
    d = V + '/seeded/' + i
    t = '/tmp/seed_' + i
    shutil.rmtree(t, ignore_errors=True)
    sh('cp -a /repo %s' % t)
    e = '/tmp/w/edits/%s.py' % i
    if os.path.exists(e):
        for f, a, b in eval(open(e).read()):
            s = open(t + '/' + f).read()
            if s.count(a) != 1: return i, 'edit matches %d times: %r' % (s.count(a), a)
            open(t + '/' + f, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=t).stdout)
        sh('git checkout -- .', cwd=t)
    r = {}
    # unchanged: /repo itself must have been built
    # run in scratch: the build script works on /repo, so mimic with make
    dd = '/tmp/seeddemo_' + i
    shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    for x in os.listdir(dd):
        if x.endswith('.diff') or x == 'meta.json': os.remove(dd + '/' + x)
    sh('sed "s#/repo#%s#g" /opt/vp/build.sh > %s/out/.vpbuild.sh; sed "s#/repo#%s#g;s#/opt/vp/build.sh#%s/out/.vpbuild.sh#g" /opt/vp/test.sh > %s/out/.vptest.sh' % (t, t, t, t, t))
    b = sh('bash out/.vpbuild.sh', cwd=t)
    r['demo_clean'] = sh('bash %s/demo.sh' % dd, cwd=t, timeout=300).returncode
    a = sh('git apply %s/patch.diff' % d, cwd=t)
    if a.returncode: return i, 'apply: ' + a.stderr
    b = sh('bash out/.vpbuild.sh 2>&1', cwd=t)
    if b.returncode: return i, 'build: ' + b.stdout[-800:]
    x = sh('bash %s/demo.sh' % dd, cwd=t, timeout=300)
    r['demo_bug'] = x.returncode
    r['demo_out'] = (x.stdout + x.stderr)[-300:]
    if check:
        p = json.load(open(d + '/meta.json'))['property']
        ps = [p] + [a[2:] for a in sys.argv if a.startswith('+')]
        for p in [p] + [a[1:] for a in sys.argv if a.startswith('+')]:
            c = sh('python3 %s/tools/vp.py %s' % (V, p), env=dict(os.environ, VP_REPO=t), timeout=900)
            r['check ' + p] = (c.returncode, [l[:230] for l in c.stdout.splitlines() if 'VIOLATION' in l or (l.startswith('  ') and ':' in l)][:6])
    if '--notest' not in sys.argv:
        # tests: swap into /repo is not wanted; run the repo's own runners in the copy
        x = sh('bash %s/out/.vptest.sh %s/out/.out.json' % (t, t))
        try:
            p = set(json.load(open(t + '/out/.out.json'))['passed'])
            r['stable_failing'] = [q for q in stable if q not in p][:5]
        except Exception as ex:
            r['stable_failing'] = 'ERR %s %s' % (ex, x.stdout[-300:] + x.stderr[-300:])
    shutil.rmtree(t, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
    ok = r['demo_clean'] == 0 and r['demo_bug'] != 0 and not r.get('stable_failing')
    return i, ('OK ' if ok else 'BAD ') + str(r)
ids = [a for a in sys.argv[1:] if a[0] not in '-+'] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    print(*one(i, '--check' in sys.argv), flush=True)
