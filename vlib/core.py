"""The frame of every check: seeds, tiers, evidence, verdicts, confirmation of rejections, known findings."""
import os, sys, json, time, random, traceback, re, threading
from . import build, tlc, run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = max(2, min(8, os.cpu_count() or 8))


class Violation(Exception):
    pass


def known_findings():
    """[(property, regular expression on the signature, description)]; lines 'fixed:' suppress nothing"""
    r = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) sig=/(.*)/ (.*)', l.strip())
            if m:
                r.append(m.groups())
    except OSError:
        pass
    return r


class Ctx:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = []
        self.notes = []
        self.distinct = set()
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def log(self, s):
        print('[%s %6.1fs] %s' % (self.pid, self.elapsed(), s), flush=True)

    def build(self, wanted):
        t = time.time()
        r = build.build(wanted)
        self.log('built %d programs in %.1fs' % (len(r), time.time() - t))
        return r

    # ------------------------------------------------------------------ models
    def model(self, module, cfg, what, **kw):
        """exhaustive model check; records the size of the state space"""
        r = tlc.model_check(module, cfg, **kw)
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov.setdefault('models', []).append('%s: %s: %d states generated, %d distinct, depth %s' %
                                                 (module, what, r.generated, r.distinct, r.depth))
        self.log('model %s (%s): %d distinct states' % (module, what, r.distinct))
        return r

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, replay, sig=None):
        sig = sig or what
        for p, rx, desc in known_findings():
            if p == self.pid and re.search(rx, sig):
                with self.lock:
                    if desc not in self.known:
                        self.known.append(desc)
                return False
        with self.lock:
            self.violations.append(what)
            n = len(self.violations)
            d = VERIF + '/replay'
            os.makedirs(d, exist_ok=True)
            path = '%s/%s-%d.json' % (d, self.pid, n)
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, what=what, replay=replay), f,
                          indent=1, default=str)
        print('--- %s' % what[:4000], flush=True)
        print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
        return True

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.cov['samples']) < limit:
                self.cov['samples'].append(s if len(str(s)) < 1500 else str(s)[:1500] + ' ...')

    # ------------------------------------------------------------------ conformance
    def conform(self, scens, module, exes, constants='', jobs=None, chunk=None, tlc_jobs=4, timeout=25, batch=None):
        """executes the scenarios on the real code and validates the traces against the trace specification"""
        batch = batch or max(64, 12 * NCPU)
        for i in range(0, len(scens), batch):
            self._conform(scens[i:i + batch], module, exes, constants, jobs, chunk, tlc_jobs, timeout)
            if len(self.violations) >= 2:
                break

    def _conform(self, scens, module, exes, constants, jobs, chunk, tlc_jobs, timeout):
        jobs = jobs or max(2, NCPU // max(1, max(s.np for s in scens) // 2))
        t = time.time()

        def ex(s):
            return s.execute(exes, timeout=timeout)
        res = run.parallel(ex, scens, jobs)
        t1 = time.time()
        retry = []
        for k, (s, (tr, p)) in enumerate(zip(scens, res)):
            if p:
                retry.append(k)
        for k in retry:         # crashed, hung or incomplete: once more, alone
            if len(self.violations) >= 2:
                return
            s = scens[k]
            tr, p = s.execute(exes, timeout=2 * timeout)
            if p and getattr(s, 'may_refuse', None) and s.may_refuse(p):
                p = None
                self.notes.append('refused: ' + s.name())
                res[k] = (tr, None)
                continue
            if p:
                v = tlc.validate(module, tr, constants)[0]
                if v < len(tr):
                    self.reject(s, tr, v, module)
                else:
                    self.violation('%s: %s' % (s.name(), p), self.replay(s, tr, None), sig=s.name() + ': ' + p)
                res[k] = None
            else:
                self.notes.append('not repeated: %s: %s' % (s.name(), (res[k][1] or '')[:200]))
                res[k] = (tr, p)
        good = [(s, r[0]) for s, r in zip(scens, res) if r is not None]
        # group scenarios into TLC runs of about equal length
        def w(tr):
            return sum(len(json.dumps(r)) for r in tr)
        good.sort(key=lambda x: -w(x[1]))
        ng = max(1, min(tlc_jobs, len(good))) if chunk is None else max(1, (len(good) + chunk - 1) // chunk)
        groups = [[0, []] for _ in range(ng)]
        for s, tr in good:
            g = min(groups, key=lambda g: g[0])
            g[0] += w(tr) + 200
            g[1].append((s, tr))

        def val(g):
            todo = g[1]
            while todo and len(self.violations) < 2:
                recs = [r for s, tr in todo for r in tr]
                n, r = tlc.validate(module, recs, constants)
                with self.lock:
                    self.cov['states'] += r.distinct
                    self.cov['transitions'] += r.generated
                pos = 0
                bad = None
                for k, (s, tr) in enumerate(todo):
                    if pos + len(tr) <= n:
                        pos += len(tr)
                        with self.lock:
                            self.cov['traces_validated_against_impl'] += 1
                            self.distinct.add(s.script() + s.name())
                        self.sample(dict(run=s.name(), script=s.script().split('\n')[:12], steps=len(s.recs)))
                    else:
                        bad = k
                        break
                if bad is None:
                    return
                s, tr = todo[bad]
                # once more: execute and validate alone
                again = None
                for _ in range(3):
                    tr2, p2 = s.execute(exes, timeout=2 * timeout)
                    n2 = tlc.validate(module, tr2, constants)[0]
                    if n2 < len(tr2):
                        again = (tr2, n2)
                        break
                if again:
                    self.reject(s, again[0], again[1], module)
                else:
                    self.notes.append('rejection not repeated: ' + s.name() + ' at ' + str(tr[n - pos])[:200])
                todo = todo[bad + 1:]
        run.parallel(val, groups, tlc_jobs)
        self.log('%d scenarios on the real code (%.1fs), validated against %s (%.1fs)' %
                 (len(scens), t1 - t, module, time.time() - t1))

    def replay(self, s, tr, n):
        d = dict(scenario=s.name(), variant=s.variant, np=s.np, size=s.size, env=s.env, script=s.script(),
                 args=getattr(s, 'typ', None))
        if n is not None:
            d['accepted_steps'] = n
            d['first_rejected'] = tr[n]
        return d

    def reject(self, s, tr, n, module):
        sc = s.script().split('\n')
        prev = '; '.join(x[:90] for x in sc[max(0, n - 8):n])
        short = dict((k, v if len(str(v)) < 400 else str(v)[:400] + ' ..') for k, v in tr[n].items())
        what = '%s: step %d of the real code is no behaviour of %s: %s   (after: %s)' % \
               (s.name(), n, module, json.dumps(short)[:900], prev[:900])
        self.violation(what, self.replay(s, tr, n), sig=s.name() + ': ' + json.dumps(tr[n])[:300])

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        if self.level in ('exploration', 'fault_enumeration'):
            self.cov.setdefault('evaluations', self.cov['traces_validated_against_impl'])
            self.cov.setdefault('distinct_nontrivial', len(self.distinct))
        else:
            self.cov['distinct_traces'] = len(self.distinct)
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        if self.notes:
            self.cov['notes'] = [n[:400] for n in self.notes[:20]]
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k), flush=True)
        self.log('%s; %d traces validated, %d states' %
                 ('VIOLATED' if self.violations else 'held', self.cov['traces_validated_against_impl'],
                  self.cov['states']))
        return 1 if self.violations else 0


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier, seed, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.check(ctx)
        return ctx.finish()
    except (build.BuildError, tlc.TLCError) as e:
        if ctx.violations:          # the verdict stands
            return ctx.finish()
        print('ERROR of the check: %s: %s' % (type(e).__name__, (str(e)[:3000] + ' ... ' + str(e)[-3000:] if len(str(e)) > 6000 else str(e))), flush=True)
        return 3
    except Exception:
        if ctx.violations:
            return ctx.finish()
        traceback.print_exc()
        return 3
