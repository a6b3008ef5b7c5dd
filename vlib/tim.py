"""The machine of the time limit: harness tim, trace specification TimeTrace."""
from . import machine

TM = machine.Machine('tim', {'adv': 'd', 'limit': 'q', 'limits': '$w', 'sig': 'r', 'check': '', 'now': ''},
                     ['limit', 'limits', 'sig', 'check', 'now'], blocks=['sig', 'check', 'now'], stops={'limits': 'INVALID TIMELIMIT'})
op = TM.op


class Scenario(machine.Scenario):
    M = TM
    rc0 = True
    t = ''

    def start(self):
        return dict(op='start', np=self.np, t=[ord(c) for c in self.t])

    def args(self, d):
        return machine.Scenario.args(self, d) + (['-t', self.t] if self.t else [])


def text(r, bad=0.12):
    z = r.random()
    n = r.choice([1, 2, 3, 4])
    v = [r.choice(['0', '5', '07', str(r.randrange(60)), str(r.randrange(200)), '00']) for _ in range(n)]
    if n == 4:
        v[0] = str(r.randrange(3))
        s = v[0] + '-' + ':'.join(v[1:])
    else:
        s = ':'.join(v)
    if z < bad:
        return r.choice([s + 'x', s + ':', ':' + s, s + ' ', '-' + s, '1-2', '1-2:3', '1:2:3:4', s.replace('0', 'o') + '!', '1.5', '', '1:-2', '+5',
                         '1:2-3', '1-2:3:4:5', s + ':5s'])
    if z < bad + 0.05:
        return ' ' * r.choice([1, 3]) + s
    return s


def program(rng, np):
    r = rng
    recs = []
    now, lim, seen = 0, 0, [0]
    for _ in range(r.choice([5, 15, 40])):
        z = r.random()
        if z < 0.35:
            # often just at the edge
            if lim and r.random() < 0.5:
                big = max([b - a for a, b in zip(seen, seen[1:])] or [0])
                d = lim - now - max(big, 0) - 480 + r.choice([-1, 0, 1, 2])
                if r.random() < 0.3:        # this step is the longest
                    d = (lim - now - 480) // 2 + r.choice([-1, 0, 1])
                if d < 0 or d > 100000:
                    d = r.randrange(100)
            else:
                d = r.choice([0, 1, 3, r.randrange(100), r.randrange(1000)])
            recs.append(op('adv', d))
            now += d
        elif z < 0.37:      # a limit so that the next check is at the edge
            d = r.choice([0, 1, 3, r.randrange(100)])
            big = max([b - a for a, b in zip(seen, seen[1:])] + [now + d - seen[-1]])
            lim = now + d + 480 + big + r.choice([-1, 0, 1])
            recs += [op('limit', lim), op('adv', d), op('check')]
            now += d
            seen.append(now)
        elif z < 0.42:
            lim = r.choice([0, 1, now + 480 + r.randrange(1000), r.randrange(4000), now + 480 + r.randrange(5)])
            recs.append(op('limit', lim))
        elif z < 0.5:
            t = text(r)
            recs.append(op('limits', [ord(c) for c in t]))
            lim = 1000
        elif z < 0.51:
            recs.append(op('sig', r.randrange(-1, np)))
        elif z < 0.53 and np > 1:
            recs.append(op('sig', r.randrange(1, np)))
        elif z < 0.95:
            recs.append(op('check'))
            seen.append(now)
        else:
            recs.append(op('now'))
    s = Scenario('v2', np, '-', (4, 4), recs)
    if r.random() < 0.3:
        s.t = text(r, 0).strip()
    return s
