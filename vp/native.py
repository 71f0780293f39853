"""Concrete confirmation of memory, leak and threading findings of the C kernels:
the real extension (sanitised where needed) runs in a process of its own.

native.py asan|leak|threads  JOB.json  -> exit 0 fine, 99 the finding is real (reason on stdout)"""
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = {'displacements': 'atomic_displacements', 'mem': 'mem', 'correlation': 'correlation_par'}


def args_of(job):
    import numpy as np
    rng = np.random.RandomState(job.get('seed', 7))
    out = []
    for a in job['args']:
        if isinstance(a, dict):
            shape = tuple(a['shape'])
            v = rng.uniform(-1, 1, shape)
            if a['kind'] == 'c':
                v = v + 1j * rng.uniform(-1, 1, shape)
            if a['kind'] == 'zero':
                v = v * 0
            if a['kind'] == 'cell':
                v = np.eye(3) * 3 + 0.3 * v
            out.append(np.ascontiguousarray(v))
        else:
            out.append(a)
    return out


def load(short, extra=(), tag=''):
    import importlib.machinery
    import importlib.util
    from vp import build
    name = build.EXTS[short][0]
    path = build.build_ext(short, extra, tag)
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location(name, path, loader=loader))
    loader.exec_module(m)
    return m


def child(mode, job):
    import warnings
    warnings.simplefilter('ignore')
    short = job['ext']
    if mode == 'asan':
        m = load(short, ['-fsanitize=address', '-g', '-O1'], '_asan')
    else:
        m = load(short)
    f = getattr(m, FN[short])
    kw = job.get('kw', {})

    def run():
        try:
            return f(*args_of(job), **kw)
        except (ValueError, TypeError, MemoryError) as e:
            return repr(e)
    if mode == 'asan':
        run()
        return 0
    if mode == 'leak':
        import ctypes

        class MI(ctypes.Structure):
            _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                                       'uordblks', 'fordblks', 'keepcost')]
        libc = ctypes.CDLL(None)
        libc.mallinfo2.restype = MI
        used = lambda: libc.mallinfo2().uordblks + libc.mallinfo2().hblkhd
        import gc
        for _ in range(50):
            run()
        gc.collect()
        a = used()
        n = 400
        for _ in range(n):
            run()
        gc.collect()
        b = used()
        if (b - a) / n > 4:
            print('heap grows by %.1f bytes per call' % ((b - a) / n))
            return 99
        return 0
    if mode == 'threads':
        import numpy as np
        n = job['n']
        rng = np.random.RandomState(3)
        w = rng.uniform(0.1, 3, n)
        a = args_of(job)
        # the second build keeps every variable in memory, as the source says
        for g, times in ((f, 12), (getattr(load(short, ['-O0'], '_o0'), FN[short]), 4)):
            one = np.array([g(w[i:i + 1], *a[1:], **kw)[0] for i in range(n)])
            for _ in range(times):
                r = g(w, *a[1:], **kw)
                if not np.allclose(r, one, rtol=1e-9, atol=1e-12 * np.abs(one).max()):
                    i = int(np.argmax(np.abs(r - one)))
                    print('frequency %d of %d: %r in the parallel sweep, %r on its own' % (i, n, r[i], one[i]))
                    return 99
        return 0


def confirm(mode, ext, args, kw=None, seed=7, **more):
    """None when fine, otherwise the reason"""
    job = dict(ext=ext, args=args, kw=kw or {}, seed=seed, **more)
    env = dict(os.environ, PYTHONMALLOC='malloc', OMP_NUM_THREADS='8' if mode == 'threads' else '2', OMP_WAIT_POLICY='passive')
    if mode == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', OMP_NUM_THREADS='1')
        from . import build
        build.build_ext(ext, ['-fsanitize=address', '-g', '-O1'], '_asan')
    with tempfile.TemporaryDirectory(prefix='vpn_') as d:
        jf = os.path.join(d, 'job')
        with open(jf, 'w') as f:
            json.dump(job, f)
        try:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), mode, jf], env=env, cwd=d, capture_output=True,
                               text=True, timeout=300, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (60, 65)))
        except subprocess.TimeoutExpired:        # a loaded machine: nothing is concluded
            raise RuntimeError('native helper: no answer in 300 s')
    if p.returncode == -signal.SIGKILL:          # ended from outside (memory)
        raise RuntimeError('native helper: killed')
    if p.returncode == -signal.SIGXCPU:
        return 'no answer in 60 s of processor time'
    if p.returncode == 99:
        msg = [l for l in (p.stdout + p.stderr).splitlines() if 'ERROR' in l or 'bytes per call' in l or 'parallel' in l]
        return (msg or ['finding'])[0].strip()[:200]
    if p.returncode < 0:
        return 'the process died with signal %d' % -p.returncode
    if p.returncode:
        raise RuntimeError('native helper: ' + p.stderr[-500:])
    return None


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    with open(sys.argv[2]) as f:
        sys.exit(child(sys.argv[1], json.load(f)))
