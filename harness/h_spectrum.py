"""Power spectra: C kernels (C03-C06), segmentation and FFT backends (C07)"""
from vp.driver import case

CORR = 'dynaphopy.power_spectrum.correlation'
MEM = 'dynaphopy.power_spectrum.mem'


def corr_ref(env, w, v, dt, inc, method):
    """one-sided Fourier integral of the autocorrelation, summed over origins"""
    np = env.np
    n = len(v)
    out = []
    for f in w:
        om = 2 * np.pi * f
        tot = env.complex(0, 0)
        for i in range(0, n, inc):
            a = sum((np.conj(v[j]) * v[j + i] for j in range(n - i - inc)), env.complex(0, 0)) * np.exp(1j * om * (i * dt))
            if method == 1:
                tot = tot + a
            else:
                b = sum((np.conj(v[j]) * v[j + i + inc] for j in range(n - i - inc)), env.complex(0, 0)) \
                    * np.exp(1j * om * ((i + inc) * dt))
                tot = tot + (a + b) / 2
        out.append(np.real(tot) * dt * inc / n)
    return np.array(out)


@case('C04', quick=[dict(n=4, nf=2, inc=1), dict(n=6, nf=1, inc=2), dict(n=5, nf=1, inc=3)],
      thorough=[dict(n=8, nf=1, inc=1), dict(n=9, nf=1, inc=2), dict(n=10, nf=1, inc=4), dict(n=3, nf=1, inc=7)],
      tol=1e-9, funcs=['c/correlation.c'])
def direct(env):
    np = env.np
    n, nf, inc = env.p['n'], env.p['nf'], env.p['inc']
    f = env.mod(CORR).correlation_par
    v = env.carr('v', (n,), -2, 2)
    w = env.arr('w', (nf,), 0, 3)
    dt = env.real('dt', 0.05, 0.5)
    method = env.choice('method', [1, 0])
    r = f(w, v, dt, step=inc, integration_method=method)
    env.eq(r, corr_ref(env, w, v, dt, inc, method), 'spectrum')


@case('C04', name='refused', quick=[dict(n=2)], funcs=['c/correlation.c'])
def refused(env):
    """neither a method that does not exist nor an impossible step gives numbers"""
    f = env.mod(CORR).correlation_par
    v = env.carr('v', (env.p['n'],), -2, 2)
    w = env.arr('w', (1,), 0, 3)
    dt = env.real('dt', 0.05, 0.5)
    step, method = env.choice('call', [(1, -1), (1, 2), (1, 3), (2, 7), (0, 0), (0, 1), (-1, 1), (-2, 0), (-1, 4)])
    r, exc = env.run(lambda: f(w, v, dt, step=step, integration_method=method))
    exc = type(exc).__name__
    env.check(exc == 'ValueError', 'step %d, method %d: refused with a ValueError, not %s' % (step, method, exc))


def burg(env, x, m):
    """maximum-entropy prediction error and coefficients of the whole series"""
    n = len(x)
    p = sum(a * a for a in x) / n
    f, b = list(x[:n - 1]), list(x[1:])
    a = []
    dens = []
    for k in range(m):
        num = sum(f[j] * b[j] for j in range(len(f)))
        den = sum(f[j] * f[j] + b[j] * b[j] for j in range(len(f)))
        dens.append(den)
        env.assume(den >= 1e-3)
        c = 2 * num / den
        a = [a[i] - c * a[k - 1 - i] for i in range(k)] + [c]
        p = p * (1 - c * c)
        f, b = ([f[j] - c * b[j] for j in range(len(f) - 1)], [b[j + 1] - c * f[j + 1] for j in range(len(f) - 1)])
    return p, a


@case('C05', quick=[dict(n=4, nf=2, m=1, kind='complex'), dict(n=4, nf=1, m=2, kind='real'), dict(n=3, nf=1, m=0, kind='complex'),
                    dict(n=5, nf=1, m=3, kind='real')],
      thorough=[dict(n=6, nf=1, m=2, kind='real'), dict(n=5, nf=1, m=2, kind='complex'), dict(n=4, nf=1, m=3, kind='real')],
      funcs=['c/mem.c'], note='prediction denominators at least 1e-3, prediction error non-zero', tol=1e-5, opaque=2)
def burg_spectrum(env):
    np = env.np
    n, nf, m = env.p['n'], env.p['nf'], env.p['m']
    f = env.mod(MEM).mem
    x = env.arr('x', (n,), -2, 2)
    y = env.arr('y', (n,), -2, 2) if env.p['kind'] == 'complex' else None
    v = x + 1j * y if y is not None else env.array(x, 'c')
    w = env.arr('w', (nf,), 0, 3)
    dt = env.real('dt', 0.05, 0.5)
    ref = [env.num(0)] * nf
    for s in (x, y):
        if s is None:
            continue
        p, a = burg(env, [s[i] for i in range(n)], m)
        env.assume(abs(p) > 1e-6)
        for k in range(nf):
            z = 1 - sum((a[i] * np.exp(1j * 2 * np.pi * w[k] * dt * (i + 1)) for i in range(m)), env.complex(0, 0))
            env.assume(np.real(z * np.conj(z)) > 1e-4)
            ref[k] = ref[k] + p / np.real(z * np.conj(z))
    r = f(w, v, dt, coefficients=m)
    env.eq(r, np.array([q * dt for q in ref]), 'spectrum')


def _kernel_args(env, ext, z=False):
    """symbolic (or, concretely, only described) arguments of one kernel"""
    p = env.p
    n, nf = p['n'], p['nf']
    if ext == 'displacements':
        kinds = [('c', (n, 3)), ('f', (3,)), ('cell', (3, 3))]
    else:
        kinds = [('f', (nf,)), ('zero' if z else 'c', (n,)), None]
    desc = [dict(kind=k[0], shape=k[1]) if k else 0.1 for k in kinds]
    if not env.sym:
        return None, desc
    import numpy as onp
    a = []
    for i, k in enumerate(kinds):
        if k is None:
            a.append(env.real('dt', 0.05, 0.5))
        elif k[0] == 'zero':
            a.append(env.array(onp.zeros(k[1]), 'c'))
        elif k[0] == 'c':
            im = 0 if p.get('real') else 1
            a.append(env.carr('v%d' % i, k[1], -2, 2) if im else env.array(env.arr('v%d' % i, k[1], -2, 2), 'c'))
        elif k[0] == 'cell':
            a.append(env.cell('c', 'tri'))
        else:
            a.append(env.arr('w%d' % i, k[1], 0.1, 3))
    return a, desc


SEEN = {}


def _memory(env, ext, modname, fn, kw, z=False):
    from vp import native
    a, desc = _kernel_args(env, ext, z)
    if env.sym:
        from vp import ir
        f = getattr(env.mod(modname), fn)
        r, e = env.run(f, *a, **kw)
        if isinstance(e, ir.CError):
            env.fail('memory error: %s' % e)
            return
        m = ir.LAST[0]
        env.check(not m.leaks, 'every allocation is released')
        env.check(not m.pyleaks, 'every array reference is released')
        env.check(not m.writes_inputs, 'inputs are not written')
        env.check(e is None or isinstance(e, (ValueError, TypeError)), 'result or a Python exception')
    else:
        for mode in ('asan', 'leak'):
            key = (mode, ext, str(desc), str(kw))
            if key not in SEEN:
                SEEN[key] = native.confirm(mode, ext, desc, kw)
            why = SEEN[key]
            env.check(why is None, '%s: %s' % (mode, why))


@case('C03', quick=[dict(n=1, nf=1), dict(n=3, nf=1)], thorough=[dict(n=0, nf=1), dict(n=4, nf=1), dict(n=7, nf=1)],
      funcs=['c/displacements.c'])
def displacement_memory(env):
    _memory(env, 'displacements', 'dynaphopy.displacements', 'atomic_displacements', {})


@case('C03', quick=[dict(n=1, nf=1), dict(n=4, nf=2)], thorough=[dict(n=6, nf=0), dict(n=2, nf=1), dict(n=7, nf=2)],
      funcs=['c/correlation.c'])
def correlation_memory(env):
    kw = dict(step=env.choice('step', [1, 2, 5, 10, 0, -1]), integration_method=env.choice('method', [1, 0, 2]))
    _memory(env, 'correlation', CORR, 'correlation_par', kw)


@case('C03', quick=[dict(n=3, nf=1, m=[0, 1], real=0), dict(n=3, nf=1, m=[2, 3], real=1), dict(n=3, nf=1, m=[5], real=1),
                        dict(n=2, nf=2, m=[1, 4], real=1)],
      thorough=[dict(n=5, nf=1, m=[1, 2], real=1), dict(n=5, nf=1, m=[3], real=1), dict(n=4, nf=0, m=[2, 5], real=0), dict(n=8, nf=1, m=[2], real=1)],
      funcs=['c/mem.c'], opaque=2, max_paths=60, note='maximum-entropy kernel: at least two samples')
def mem_memory(env):
    z = env.flag('zero_signal')
    _memory(env, 'mem', MEM, 'mem', dict(coefficients=env.choice('m', env.p['m'])), z)


@case('C06', quick=[dict(ext='correlation', n=3, nf=3), dict(ext='mem', n=3, nf=3)],
      thorough=[dict(ext='correlation', n=5, nf=5), dict(ext='mem', n=4, nf=5)], opaque=2,
      funcs=['c/mem.c', 'c/correlation.c'])
def iterations(env):
    """every pair of loop iterations is free of conflicting accesses, and an entry does not
    depend on the other frequencies of the sweep"""
    np = env.np
    ext = env.p['ext']
    modname, fn = (CORR, 'correlation_par') if ext == 'correlation' else (MEM, 'mem')
    kws = [dict(step=1), dict(step=2, integration_method=0)] if ext == 'correlation' else [dict(coefficients=1), dict(coefficients=0)]
    kw = kws[env.choice('kw', [0, 1])]
    if not env.sym:
        from vp import native
        n = 200 if ext == 'mem' else 40
        kw = dict(kw, coefficients=20) if ext == 'mem' else kw
        why = native.confirm('threads', ext, [0, dict(kind='c', shape=(n,)), 0.1], kw, n=600)
        env.check(why is None, 'threads: %s' % why)
        return
    from vp import ir
    f = getattr(env.mod(modname), fn)
    v = env.carr('v', (env.p['n'],), -2, 2)
    w = env.arr('w', (env.p['nf'],), 0.1, 3)
    dt = env.real('dt', 0.05, 0.5)
    if ext == 'mem':
        for part in (np.real(v), np.imag(v)):
            env.assume(sum(part[j] * part[j] for j in range(1, env.p['n'] - 1)) > 1e-2)
    r = f(w, v, dt, **kw)
    env.check(not ir.LAST[0].races, 'no conflicting accesses: %s' % ir.LAST[0].races[:1])
    for i in range(env.p['nf']):
        env.eq(f(w[i:i + 1], v, dt, **kw), r[i:i + 1], 'frequency %d on its own' % i)


@case('C07', quick=[dict(n=(1, 9), ps=(2, 6)), dict(n=(10, 14), ps=(2, 9))],
      thorough=[dict(n=(15, 24), ps=(2, 25)), dict(n=(25, 40), ps=(7, 18))], max_paths=4000,
      note='segments: 1/(time step x resolution) within the listed range; the record within the listed lengths')
def segments(env):
    np = env.np
    f = env.mod('dynaphopy.power_spectrum')._division_of_data
    n = env.choice('n', range(env.p['n'][0], env.p['n'][1] + 1))
    dt, res = env.real('dt', 0.001, 0.5), env.real('res', 0.01, 5)
    k = env.choice('k', range(env.p['ps'][0], env.p['ps'][1] + 1))
    # a record of 1/resolution holds k steps to the nearest integer
    env.assume(dt * res * (k + 0.5) > 1.0001)
    env.assume(dt * res * (k - 0.5) < 0.9999)
    p = f(res, n, dt)
    size = k if k < n else n
    lo, hi = [int(x[0]) for x in p], [int(x[1]) for x in p]
    env.check(len(p) >= 1, 'at least one segment')
    for a, b in zip(lo, hi):
        env.check(0 <= a and b <= n, 'segment inside the record')
        env.check(b - a == size, 'segment length given by the resolution')
    env.check(lo[0] == 0, 'the first segment starts the record')
    env.check(hi[-1] >= n - (0 if env.sym else 1), 'the last segment ends the record')
    for i in range(1, len(p)):
        env.check(lo[i - 1] <= lo[i] <= hi[i - 1], 'no gap between segments')


def fft_ref(env, fr, data, dt, size):
    """average over the segments of |DFT of the circularly indexed autocorrelation| per unit time"""
    np = env.np
    f = env.mod('dynaphopy.power_spectrum')._division_of_data
    tot = None
    seg = f(fr[1] - fr[0], len(data), dt)
    for a, b in seg:
        x = data[a:b]
        m = b - a
        # autocorrelation around zero lag: lag l stored at l + m//2
        c = [sum((x[j + l] * np.conj(x[j]) for j in range(m) if 0 <= j + l < m), env.complex(0, 0)) / m
             for l in range(-(m // 2), m - m // 2)]
        ft = [sum((c[i] * np.exp(-2j * np.pi * ((i * q) % m) / m) for i in range(m)), env.complex(0, 0)) for q in range(m)]
        ft = [abs(z) * dt for z in ft]
        tot = ft if tot is None else [p + q for p, q in zip(tot, ft)]
    m = len(tot)
    pos = sorted((((q if q < (m + 1) // 2 else q - m) / (m * dt)), tot[q] / len(seg)) for q in range(m)) if True else None
    out = []
    for w in fr:
        if w <= pos[0][0]:
            out.append(pos[0][1])
        elif w >= pos[-1][0]:
            out.append(pos[-1][1])
        else:
            for (w0, y0), (w1, y1) in zip(pos, pos[1:]):
                if w0 <= w <= w1:
                    t = (w - w0) / (w1 - w0)
                    out.append(y0 + (y1 - y0) * env.num(float(t)))
                    break
    return out


@case('C07', quick=[dict(n=3, ps=4), dict(n=5, ps=2), dict(n=6, ps=3)], thorough=[dict(n=7, ps=4), dict(n=8, ps=5), dict(n=9, ps=4)],
      note='frequency grid and time step concrete; cupy, cuda_functions and pyfftw stand-ins follow their documented functions', tol=1e-5)
def fft_backends(env):
    np = env.np
    PS = env.mod('dynaphopy.power_spectrum')
    dt = env.choice('dt', [0.25, 0.1])
    res = 1.0 / (dt * env.p['ps'])
    k = env.choice('grid', [2, 4])
    fr = np.array([i * res for i in range(k)])
    n = env.p['n']
    cols = 2
    v = env.carr('v', (n, cols), -2, 2)
    back = env.choice('backend', ['numpy', 'fftw', 'cuda', 'cupy'])
    if back == 'cuda':
        env.module('cuda_functions', cuda_acorrelate=lambda x, mode='valid', safe_mode=True: np.correlate(x, x, mode=mode),
                   cuda_fft=lambda x, **k: np.fft.fft(x))
    if back == 'cupy':
        names = ['asarray', 'array', 'correlate', 'abs', 'average', 'mean', 'stack', 'argsort', 'interp', 'fft']
        env.module('cupy', asnumpy=lambda x: x, **{a: getattr(np, a) for a in names})
    traj = FakeTrajectory(dt)
    par = FakeParameters(frequency_range=fr, silent=env.flag('silent'), zero_padding=0)
    r = PS.power_spectrum_functions[{'numpy': 2, 'fftw': 3, 'cuda': 4, 'cupy': 5}[back]][0](v, traj, par)
    env.eq(np.array(r.shape), [k, cols], 'one column per signal, one row per frequency')
    for c in range(cols):
        ref = fft_ref(env, [i * res for i in range(k)], [v[i, c] for i in range(n)], dt, env.p['ps'])
        env.eq(r[:, c], np.array([x * PS.unit_conversion for x in ref]), '%s spectrum of signal %d' % (back, c), scale=1e-4)


class FakeTrajectory:
    def __init__(self, dt):
        self.dt = dt

    def get_time_step_average(self):
        return self.dt


class FakeParameters:
    def __init__(self, **k):
        self.__dict__.update(k)


@case('C07', quick=[dict(n=4, inc=2), dict(n=5, inc=1), dict(n=4, inc=3)], thorough=[dict(n=7, inc=3)], tol=1e-5)
def direct_wrapper(env):
    np = env.np
    PS = env.mod('dynaphopy.power_spectrum')
    n, inc = env.p['n'], env.p['inc']
    v = env.carr('v', (n, 2), -2, 2)
    w = env.arr('w', (2,), 0.1, 3)
    dt = env.real('dt', 0.05, 0.5)
    method = env.choice('method', [0, 1])
    par = FakeParameters(frequency_range=w, silent=env.flag('silent'), correlation_function_step=inc, integration_method=method)
    r = PS.power_spectrum_functions[0][0](v, FakeTrajectory(dt), par)
    env.eq(np.array(r.shape), [2, 2], 'one column per signal, one row per frequency')
    for c in range(2):
        ref = corr_ref(env, w, [v[i, c] for i in range(n)], dt, inc, method)
        env.eq(r[:, c], ref * PS.unit_conversion, 'direct spectrum of signal %d' % c, scale=1e-4)


@case('C07', quick=[dict(n=4, m=1)], thorough=[dict(n=5, m=2)], opaque=2, tol=1e-4, note='record longer than the number of coefficients plus one')
def mem_wrapper(env):
    np = env.np
    PS = env.mod('dynaphopy.power_spectrum')
    n, m = env.p['n'], env.p['m']
    x = env.arr('x', (n, 2), -2, 2)
    w = env.arr('w', (1,), 0.1, 3)
    dt = env.real('dt', 0.05, 0.5)
    par = FakeParameters(frequency_range=w, silent=env.flag('silent'), number_of_coefficients_mem=m)
    r = PS.power_spectrum_functions[1][0](env.array(x, 'c'), FakeTrajectory(dt), par)
    env.eq(np.array(r.shape), [1, 2], 'one column per signal, one row per frequency')
    for c in range(2):
        p, a = burg(env, [x[i, c] for i in range(n)], m)
        env.assume(abs(p) > 1e-6)
        z = 1 - sum((a[i] * np.exp(1j * 2 * np.pi * w[0] * dt * (i + 1)) for i in range(m)), env.complex(0, 0))
        env.assume(np.real(z * np.conj(z)) > 1e-4)
        env.eq(r[0, c], p / np.real(z * np.conj(z)) * dt * PS.unit_conversion, 'maximum-entropy spectrum of signal %d' % c, scale=1e-4)


@case('C07', quick=[dict()], opaque=2)
def mem_refused(env):
    """a record too short for the number of coefficients is refused"""
    PS = env.mod('dynaphopy.power_spectrum')
    n, m = env.choice('size', [(3, 3), (4, 4), (3, 5), (2, 2), (2, 9)])
    x = env.arr('x', (n, 1), -2, 2)
    par = FakeParameters(frequency_range=env.arr('w', (1,), 0.1, 3), silent=env.flag('silent'), number_of_coefficients_mem=m)
    r, exc = env.run(lambda: PS.power_spectrum_functions[1][0](env.array(x, 'c'), FakeTrajectory(env.real('dt', 0.05, 0.5)), par))
    exc = type(exc).__name__
    env.check(exc in ('Exit', 'SystemExit'), 'a record of %d with %d coefficients: refused, not %s' % (n, m, exc))
