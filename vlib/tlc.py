"""Running TLC: model checking, behaviour generation, trace validation."""
import os, re, subprocess, tempfile, shutil, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC could not do its work (parse error, model failure): an error of the check, not a verdict"""


class TLCResult:
    pass


def run(module, cfg, workers=1, heap='2g', timeout=600, extra=(), env=None, wd=None, deque=False, quick_jit=False):
    """module: name of a module in /verif/spec; cfg: text of the configuration.  Returns a TLCResult."""
    d = wd or tempfile.mkdtemp(prefix='tlc_', dir='/tmp')
    try:
        c = d + '/' + module + '.cfg'
        with open(c, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m']
        if quick_jit:
            cmd.append('-XX:TieredStopAtLevel=1')
        if deque:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-DTLA-Library=' + VERIF + '/spec', '-cp', JARS, 'tlc2.TLC', '-config', c, '-metadir', d + '/meta',
                '-workers', str(workers), '-noGenerateSpecTE', '-lncheck', 'final'] + list(extra) + \
               [VERIF + '/spec/' + module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            out, rc = p.stdout, p.returncode
            to = False
        except subprocess.TimeoutExpired as x:
            out = x.stdout.decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
            rc, to = -1, True
        r = TLCResult()
        out = '\n'.join(l for l in out.split('\n') if not re.match('(Parsing file|Semantic processing)', l))
        r.out, r.rc, r.timeout = out, rc, to
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        r.generated, r.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        r.depth = int(m[-1]) if m else None
        r.ok = (rc == 0 and 'No error has been found' in out)
        r.violated = rc in (12, 13) or 'is violated' in out or 'is false' in out and 'POSTCONDITION' in out.upper()
        return r
    finally:
        if wd is None:
            shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg, workers=8, heap='6g', timeout=600, extra=(), expect_ok=True):
    """exhaustive check; anything but success is an error of the model, never a verdict on the code"""
    r = run(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra)
    if expect_ok and not r.ok:
        raise TLCError('model %s: rc %s timeout %s\n%s' % (module, r.rc, r.timeout, r.out[-4000:]))
    return r


def validate(module, records, constants='', timeout=600, heap='3g'):
    """Trace validation.  records: list of dicts, one per line of the trace.
    Returns (accepted_prefix_length, TLCResult)."""
    d = tempfile.mkdtemp(prefix='tv_', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')
    try:
        tf = d + '/trace.ndjson'
        with open(tf, 'w') as f:
            for r in records:
                f.write(json.dumps(r, separators=(',', ':')) + '\n')
        cfg = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' + constants
        r = run(module, cfg, workers=1, heap=heap, timeout=timeout, env={'TRACE': tf}, wd=d)
        if r.timeout:
            raise TLCError('trace validation with %s timed out' % module)
        m = re.findall(r'TRACE_MATCHED (\d+)', r.out)
        r.mism = re.findall(r'^<<"MISMATCH".*$', r.out, re.M)
        if r.ok:
            return len(records), r
        ov = re.search(r'Overflow when computing', r.out)
        if ov and not m:
            # values of the trace far outside the range of the specification: the step is not one of it
            k = [int(x) for x in re.findall(r'^State (\d+):', r.out, re.M)]
            if k:
                return max(k) - 1, r
        if not m or 'Parsing or semantic analysis failed' in r.out:
            k = max(0, r.out.find('Error:'))
            raise TLCError('trace validation with %s failed:\n%s' % (module, r.out[k:k + 900] + " ... " + r.out[-2500:]))
        n = int(m[-1])
        bad = re.search(r'(TLC threw an unexpected exception|Attempted to|In evaluation|The exception was)', r.out)
        if bad:
            raise TLCError('trace validation with %s: evaluation error\n%s' % (module, r.out[bad.start():bad.start() + 900] + " ... " + r.out[-2500:]))
        return n, r
    finally:
        shutil.rmtree(d, ignore_errors=True)
