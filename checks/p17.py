"""P17: parameter files."""
from vlib import inp

SIZE = {'v1': (8,), 'v2': (4, 4), 'v3': (4, 4, 4), 'v4': (2, 2, 2, 2)}


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4'], ['v1', 'v2', 'v3', 'v4'])
    exes = ctx.build([(v, 'inp') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(220, 4000)):
        v = rng.choice(W)
        over = rng.random() < 0.25
        files, recs, ov = inp.program(rng, len(SIZE[v]), over)
        s = inp.Scenario(v, rng.choice([1, 1, 2, 3]), '-', SIZE[v], recs)
        s.files, s.over = files, ov
        if over and rng.random() < 0.3:         # the file is given on the command line, too
            s.files = ['x 0\n', None, None] + files[:1] + files[4:]
            s.ifile = 3
        if over and rng.random() < 0.15:        # one that is not used
            s.over = ov + [('not there', '5')]
        sc.append(s)
    ctx.conform(sc, 'InputTrace', exes)
    ctx.assumptions = ['what is read after a value of the wrong type (get_value returned false) is not specified', 'numbers of at most '
                       '9 digits and 3 decimals; keys and files in ASCII']
