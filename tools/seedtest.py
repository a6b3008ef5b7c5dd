"""seedtest.py ID [build,test,demo,check]: tries a seeded change in a scratch copy of /repo (/tmp/wt)."""
import sys, os, json, subprocess, time
i = sys.argv[1]
what = (sys.argv[2] if len(sys.argv) > 2 else 'build,test,demo,check').split(',')
S = '/verif/seeded/' + i
WT, WB, VP = '/tmp/wt', '/tmp/wb', '/tmp/vp'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


if not os.path.isdir(WT):
    sh('cp -a /repo /tmp/wt')
if not os.path.isdir(WB):
    sh('cp -a /verif/build /tmp/wb')
sh('mkdir -p /tmp/vp; cp -r /opt/vp/. /tmp/vp/; sed -i "s,/repo\\b,/tmp/wt,g; s,/opt/vp,/tmp/vp,g" /tmp/vp/*.sh /tmp/vp/*.py')
sh('cd /tmp/wt && git checkout -q -- . && git fetch -q /tmp/dev && git reset -q --hard FETCH_HEAD')
r = sh('cd /tmp/wt && git apply %s/patch.diff' % S)
if r.returncode:
    print('DOES NOT APPLY', r.stdout); sys.exit(1)
prop = json.load(open(S + '/meta.json'))['property']
ok = True
if 'build' in what:
    t = time.time()
    r = sh('bash /tmp/vp/build.sh')
    print('build', r.returncode, '%.0fs' % (time.time() - t), '' if r.returncode == 0 else r.stdout[-1500:]); ok &= r.returncode == 0
if 'test' in what and ok:
    r = sh('bash /tmp/vp/test.sh /tmp/vp_out.json')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/vp_out.json'))
    base = b['stable']
    miss = sorted(set(map(str, base)) - set(map(str, o['passed'])))
    print('tests', len(o['passed']), 'passed; baseline tests lost:', miss[:5]); ok &= not miss
if 'demo' in what and ok:
    for d, want in (('/tmp/wt', False), ('/repo', True)):
        r = sh('bash %s/demo.sh' % S, cwd=d)
        print('demo in', d, r.returncode, r.stdout[-700:].strip()); ok &= (r.returncode == 0) == want
if 'check' in what:
    t = time.time()
    r = sh('python3 /verif/check.py %s' % prop, env=dict(os.environ, VERIF_REPO=WT, VERIF_BUILD=WB, VERIF_SEED='1'))
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('check %s: exit %d %.0fs %s' % (prop, r.returncode, time.time() - t, v[:1]))
    w = [l for l in r.stdout.split('\n') if l.startswith('---')]
    print('\n'.join(x[:700] for x in w[:2]) if w else r.stdout[-800:])
sh('cd /tmp/wt && git checkout -q -- .')
print('RESULT', i, 'ok' if ok else 'NOT OK')
