"""mkdiff.mk(id, file, old, new): /tmp/seed/id.diff of one replacement in /repo (restored afterwards)"""
import subprocess


def mk(i, *edits):
    for f, a, b in edits:
        p = '/tmp/dev/' + f
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    d = subprocess.run(['git', '-C', '/tmp/dev', 'diff'], capture_output=True, text=True).stdout
    open('/tmp/seed/%s.diff' % i, 'w').write(d)
    subprocess.run(['git', '-C', '/tmp/dev', 'checkout', '-q', '--', '.'])
