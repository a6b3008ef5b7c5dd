"""Builds hilapp, the HILA library and the conformance harnesses from /repo's working tree.

Everything lands in /verif/build (git-ignored).  Validity of a cached product is decided by the
content (comments stripped) of everything that went into it, never by time stamps.
"""
import os, re, sys, json, hashlib, subprocess, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('VERIF_BUILD', VERIF + '/build')
LIB = REPO + '/libraries'
NJ = 8
ENV = dict(os.environ)
ENV.update(OMPI_CXX='g++', OMPI_CC='gcc', LANG='C.UTF-8')
for k in ('MAKEFLAGS', 'MFLAGS', 'CXXFLAGS', 'CFLAGS', 'LLVM_VERSION', 'NDIM', 'ARCH', 'OPTS'):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


_tok = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*\'''', re.S)
_hashes = {}
_hl = threading.Lock()


def strip(txt):
    def rep(m):
        s = m.group(0)
        if s.startswith('//'):
            return ''
        if s.startswith('/*'):
            return ' '
        return s
    t = _tok.sub(rep, txt)
    return '\n'.join(l.rstrip() for l in t.split('\n') if l.strip())


def fhash(path):
    """content hash of a source file, comments stripped"""
    with _hl:
        if path in _hashes:
            return _hashes[path]
    try:
        with open(path, 'rb') as f:
            raw = f.read()
    except OSError:
        h = 'missing'
    else:
        if path.endswith(('.h', '.cpp', '.hpp', '.c')):
            raw = strip(raw.decode('latin1')).encode('latin1')
        h = hashlib.sha256(raw).hexdigest()[:24]
    with _hl:
        _hashes[path] = h
    return h


def reset_hashes():
    _hashes.clear()


def sh(cmd, cwd=None, timeout=1500, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    if log:
        with open(log, 'w') as f:
            f.write(' '.join(cmd) + '\n' + p.stdout)
    return p.returncode, p.stdout


# ---------------------------------------------------------------------------------- hilapp
def hilapp_key():
    src = REPO + '/hilapp/src'
    fs = sorted(f for f in os.listdir(src) if f.endswith(('.h', '.cpp')))
    s = ''.join(f + fhash(src + '/' + f) for f in fs) + fhash(REPO + '/hilapp/Makefile') + \
        fhash(LIB + '/hila_signatures.h')
    return hashlib.sha256(s.encode()).hexdigest()[:24]


_hilapp_key = None


def build_hilapp():
    """private incremental build of the preprocessor; returns its path"""
    global _hilapp_key
    d = B + '/hilapp'
    exe = d + '/bin/hilapp'
    key = hilapp_key()
    kf = d + '/key'
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        os.makedirs(d + '/src', exist_ok=True)
        os.makedirs(d + '/bin', exist_ok=True)
        src = REPO + '/hilapp/src'
        names = [f for f in os.listdir(src) if os.path.isfile(src + '/' + f)]
        for f in os.listdir(d + '/src'):
            if f not in names:
                os.unlink(d + '/src/' + f)
        hdr = False
        for f in names:
            a = open(src + '/' + f, 'rb').read()
            p = d + '/src/' + f
            b = open(p, 'rb').read() if os.path.exists(p) else None
            if a != b:
                with open(p, 'wb') as o:
                    o.write(a)
                if f == 'llvm_hilapp_compat.h':
                    hdr = True
        shutil.copy(REPO + '/hilapp/Makefile', d + '/Makefile')
        os.makedirs(B + '/libraries', exist_ok=True)
        sig = B + '/libraries/hila_signatures.h'
        if not os.path.exists(sig) or open(sig).read() != open(LIB + '/hila_signatures.h').read():
            shutil.copy(LIB + '/hila_signatures.h', sig)
        os.makedirs(d + '/build', exist_ok=True)
        if hdr:
            for f in os.listdir(d + '/build'):
                if f.endswith('.o'):
                    os.unlink(d + '/build/' + f)
        rc, out = sh(['make', '-C', d, '-j8', 'LLVM_VERSION=18', 'GIT_SHA=local', 'build/hilapp'],
                     log=d + '/make.log')
        if rc or not os.path.exists(d + '/build/hilapp'):
            raise BuildError('hilapp does not build:\n' + out[-3000:])
        shutil.copy(d + '/build/hilapp', exe)
        with open(kf, 'w') as f:
            f.write(key)
    # two hilapp builds that differ only in comments behave alike: the key stands for the binary
    _hilapp_key = key
    return exe


# ---------------------------------------------------------------------------------- variants
_stdinc = None


def std_include_dirs():
    global _stdinc
    if _stdinc is None:
        rc, out = sh(['mpic++', '-xc++', '--std=c++17', '-Wp,-v', '-E', '/dev/null'])
        _stdinc = ['-I' + l.strip() for l in out.split('\n') if l.startswith(' /')]
    return _stdinc


def variant(v):
    """v3 v2 v4 v1: plain CPU; aN: AVX2 vector layout; oN: OpenMP; suffix n: no compute/communication overlap"""
    arch, nd, rest = v[0], int(v[1]), v[2:]
    defs = ['-DNDIM=%d' % nd, '-DSPECIAL_BOUNDARY_CONDITIONS', '-DGIT_SHA_VALUE=local']
    hopt, copt, ld = [], ['-fno-rtti'], []
    libs = ['setup_layout_generic']
    if arch == 'a':
        hopt += ['-target:AVX']
        defs += ['-DAVX', '-DSUBNODE_LAYOUT']
        copt = ['-fabi-version=0', '-fomit-frame-pointer']
        libs = ['setup_layout_vector']
    elif arch == 'o':
        hopt += ['-target:openmp'] + std_include_dirs() + ['-DOPENMP']
        defs += ['-DOPENMP']
        copt += ['-fopenmp']
        ld += ['-lgomp']
    elif arch != 'v':
        raise BuildError('variant ' + v)
    if 'n' in rest:
        hopt += ['--no-interleave']
    return dict(defs=defs, hopt=hopt, copt=copt, ld=ld, libs=libs)


LIBSRC = ['initialize', 'input', 'cmdline', 'random', 'lattice', 'map_node_layout', 'memalloc', 'timing',
          'test_gathers', 'com_mpi', 'memory_pool', 'fft']
INC = ['-I' + LIB, '-I' + LIB + '/plumbing', '-I' + LIB + '/datatypes', '-I' + LIB + '/tools', '-I' + VERIF + '/harness']


def _deps(src, defs):
    rc, out = sh(['mpic++', '-MM', '-x', 'c++', '--std=c++17'] + defs + INC + ['-DHILA_DEPS', src])
    if rc:
        raise BuildError('dependencies of %s:\n%s' % (src, out[-2000:]))
    fs = out.replace('\\\n', ' ').split(':', 1)[1].split()
    return sorted(set(os.path.normpath(f) for f in fs))


def _valid(man, extra):
    try:
        with open(man) as f:
            m = json.load(f)
    except (OSError, ValueError):
        return False
    if m.get('extra') != extra:
        return False
    return all(fhash(f) == h for f, h in m['deps'].items())


def compile_tu(src, obj, v, hila=True, defs=(), tag=None):
    V = variant(v)
    defs = V['defs'] + list(defs)
    man = obj + '.man'
    copt = list(V['copt'])
    extra = json.dumps([REPO, src, defs, V['hopt'], copt, hila, _hilapp_key if hila else ''])
    if os.path.exists(obj) and _valid(man, extra):
        return False
    for f in (obj, man):
        if os.path.exists(f):
            os.unlink(f)
    deps = _deps(src, defs)
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    csrc = src
    if hila:
        csrc = obj[:-2] + '.cpt'
        rc, out = sh([B + '/hilapp/bin/hilapp'] + V['hopt'] + ['-std=c++17'] + defs + INC + [src, '-o', csrc],
                     log=obj + '.hilapp.log')
        if rc or not os.path.exists(csrc):
            raise BuildError('hilapp fails on %s (%s):\n%s' % (src, v, out[-3000:]))
    rc, out = sh(['mpic++'] + defs + INC + ['-x', 'c++', '--std=c++17', '-O1', '-mavx2', '-mfma', '-w'] + copt +
                 [csrc, '-c', '-o', obj], log=obj + '.log')
    if rc:
        raise BuildError('compilation of %s (%s) fails:\n%s' % (src, v, out[-3000:]))
    with open(man, 'w') as f:
        json.dump(dict(extra=extra, deps={d: fhash(d) for d in deps}), f)
    return True


# program -> hilapp'ed sources, plain sources (relative to harness/), extra repo sources
from .programs import PROGRAMS, program


def build(wanted, jobs=NJ):
    """wanted: iterable of (variant, program).  Returns {(variant, program): exe}"""
    wanted = list(dict.fromkeys(wanted))
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_hilapp()
        return _build(wanted, jobs)


def _build(wanted, jobs):
    H = VERIF + '/harness/'
    tasks = {}
    links = []
    for v, prog in wanted:
        V = variant(v)
        P = program(prog)
        vd = B + '/' + v
        objs = []
        for s in LIBSRC + V['libs']:
            o = '%s/lib/%s.o' % (vd, s)
            tasks[o] = (LIB + '/plumbing/' + s + '.cpp', o, v, True, ())
            objs.append(o)
        o = vd + '/lib/extended.o'
        tasks[o] = (LIB + '/datatypes/extended.cpp', o, v, True, ())
        objs.append(o)
        for s in P.get('repo', ()):
            o = '%s/%s/%s.o' % (vd, prog, os.path.basename(s)[:-4])
            tasks[o] = (REPO + '/' + s, o, v, True, ())
            objs.append(o)
        for s in P['hila']:
            d = ()
            name = os.path.basename(s)[:-4]
            if isinstance(s, tuple):
                pass
            o = '%s/%s/%s.o' % (vd, prog, name)
            tasks[o] = (H + s if not s.startswith('/') else s, o, v, True, tuple(P.get('defs', ())))
            objs.append(o)
        for s in P.get('gen', lambda v: ())(v):   # generated sources
            o = '%s/%s/%s.o' % (vd, prog, os.path.basename(s)[:-4])
            tasks[o] = (s, o, v, True, tuple(P.get('defs', ())))
            objs.append(o)
        for s in P.get('plain', ()):
            o = '%s/%s/%s.o' % (vd, prog, os.path.basename(s).rsplit('.', 1)[0])
            tasks[o] = (H + s, o, v, False, tuple(P.get('defs', ())))
            objs.append(o)
        links.append((v, prog, objs))
    changed = set()
    errs = []

    def one(t):
        try:
            if compile_tu(*t):
                changed.add(t[1])
        except BuildError as e:
            errs.append(str(e))
        except subprocess.TimeoutExpired as e:
            errs.append('timeout: %s' % (e.cmd,))
    # big harness units first
    order = sorted(tasks.values(), key=lambda t: 0 if t[0].startswith(VERIF) else 1)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, order))
    if errs:
        raise BuildError('\n'.join(errs[:3]))
    res = {}

    def link(l):
        v, prog, objs = l
        exe = '%s/%s/%s' % (B, v, prog + '.exe')
        key = json.dumps(objs)
        kf = exe + '.objs'
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key and
                not any(o in changed or os.path.getmtime(o) > os.path.getmtime(exe) for o in objs)):
            rc, out = sh(['mpic++', '-o', exe] + objs + list(program(prog).get('ld', ())) +
                         ['-lfftw3', '-lfftw3f', '-lm'] + variant(v)['ld'])
            if rc:
                errs.append('link of %s/%s:\n%s' % (v, prog, out[-3000:]))
                return
            with open(kf, 'w') as f:
                f.write(key)
        res[(v, prog)] = exe
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(link, links))
    if errs:
        raise BuildError('\n'.join(errs[:3]))
    return res
