"""Runs harness programs under MPI in scratch directories."""
import os, subprocess, tempfile, shutil, signal, time
from concurrent.futures import ThreadPoolExecutor

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_plm='isolated',
              OMPI_MCA_pml='ob1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
              OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
              OMPI_MCA_mpi_yield_when_idle='1',
              OMPI_MCA_odls_base_sigkill_timeout='0')


class Result:
    __slots__ = ('rc', 'out', 'dir', 'timeout', 'wall')


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='hv_', dir=base)


def mpirun(exe, np, args=(), cwd=None, env=None, timeout=120, np_dirs=None):
    """run to completion; the whole process group is ended on timeout"""
    e = dict(os.environ)
    e.update(MPIENV)
    e['OMP_NUM_THREADS'] = '1'
    # session directory of our own: parallel runs do not meet
    sess = tempfile.mkdtemp(prefix='ms_', dir='/tmp')
    e['TMPDIR'] = sess
    if env:
        e.update(env)
    cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(np)]
    for k in (env or {}):
        cmd += ['-x', k]
    cmd += [exe] + [str(a) for a in args]
    t0 = time.time()
    r = Result()
    outf = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=outf, stderr=subprocess.STDOUT,
                         start_new_session=True)
    r.timeout = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGTERM)
            p.wait(3)
        except (subprocess.TimeoutExpired, ProcessLookupError):
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.rc = p.returncode
    outf.seek(0)
    r.out = outf.read().decode('utf8', 'replace')
    outf.close()
    r.dir = cwd
    r.wall = time.time() - t0
    shutil.rmtree(sess, ignore_errors=True)
    return r


def parallel(fn, items, jobs):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))
