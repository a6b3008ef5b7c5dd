"""mkseed.py ID: makes /verif/seeded/ID from /tmp/seed/ID.{diff,cpp,json}; json: property, needs, what_it_breaks, ndim, arch, np, args"""
import sys, json, os, shutil
i = sys.argv[1]
m = json.load(open('/tmp/seed/%s.json' % i))
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
t = open('/verif/tools/demo_template.sh').read()
for k, v in (('NDIM', m.pop('ndim', 3)), ('ARCH', m.pop('arch', 'vanilla')), ('NP', m.pop('np', 2)), ('ARGS', m.pop('args', ''))):
    t = t.replace('@%s@' % k, str(v))
open(d + '/demo.sh', 'w').write(t)
os.chmod(d + '/demo.sh', 0o755)
shutil.copy('/tmp/seed/%s.cpp' % i, d + '/demo.cpp')
shutil.copy('/tmp/seed/%s.diff' % i, d + '/patch.diff')
json.dump(m, open(d + '/meta.json', 'w'), indent=1)
