"""Spectra read from a file for fitting (C41): the fitdata script"""
from fractions import Fraction

from vp.driver import case


class Fit:
    """the fitting records what it is given; figures go nowhere"""

    def __init__(self, env):
        self.env, self.asked = env, []
        self.F = env.mod('dynaphopy.analysis.fitting')
        env.patch(self.F, 'phonon_fitting_analysis', self.fit)
        from .h_plots import recorder
        self.plt = recorder(env, self.F)

    def fit(self, original, ps_frequencies, *a, **k):
        names = ['harmonic_frequencies', 'thermal_expansion_shift', 'fitting_function_type', 'show_plots', 'use_degeneracy', 'show_occupancy']
        k = dict(zip(names, a), **k)
        self.asked.append((original, ps_frequencies, k))


def spectra(env, rows, bands):
    """a file of spectra as the package saves it"""
    np = env.np
    x = [0.25 + 0.25 * i + 0.0625 * (i % 3 == 2) for i in range(rows)] if rows < 50 else [0.25 + 0.25 * i for i in range(rows)]
    y = env.arr('y', (rows, bands), 0.5, 9)
    name = env.path('SPECTRA')
    env.mod('dynaphopy.interface.iofile').write_curve_to_file(np.array(x), np.array(y), name)
    return x, y, name


def regression(env, x, y, f):
    """local linear regression of weights (1 - u^3)^3, u the distance over that of the r-th neighbour"""
    if env.sym:
        x, y = [Fraction(t) for t in x], [Fraction(t) if isinstance(t, float) else t for t in y]
    n = len(x)
    r = -int(-(f * n) // 1)
    out = []
    for xi in x:
        h = sorted(abs(t - xi) for t in x)[r]
        w = [(1 - min(abs(t - xi) / h, h / h) ** 3) ** 3 for t in x]
        s = sum(w)
        mx = sum(a * b for a, b in zip(w, x)) / s
        sxx = sum(a * (b - mx) ** 2 for a, b in zip(w, x))
        my = sum(a * b for a, b in zip(w, y)) * (1 / s)
        if sxx < 1e-12:
            out.append(my)
        else:
            out.append(my + sum(a * (b - mx) * c for a, b, c in zip(w, x, y)) * ((xi - mx) / sxx))
    return out


def ask(env, f, x, want, argv, silent, function):
    np = env.np
    out = env.path('OUT')
    save = env.flag('saved')
    argv = argv + (['--silent'] if silent else []) + (['--fitting_function', function] if function else []) + (['-s', out] if save else [])
    ns, exc = env.script('fitdata', *argv)
    if exc is not None:
        env.fail('fitting: ' + repr(exc))
        return
    if len(f.asked) != 1:
        env.fail('spectra fitted %d times' % len(f.asked))
        return
    data, freq, k = f.asked[0]
    if np.shape(data) != (len(x), len(want)) or len(freq) != len(x):
        env.fail('every row of the file and every set of bands: %r rows, %r spectra' % (len(freq), np.shape(data)))
        return
    env.eq(freq, np.array(x), 'frequencies')
    for i, w in enumerate(want):
        env.eq(data[:, i], np.array(w), 'spectrum %d' % i, scale=10)
    env.check(k.get('fitting_function_type', 0) == function, 'fitting function')
    env.check(bool(k.get('show_plots', True)) == (not silent), 'figures unless silent')
    env.check(not k.get('use_degeneracy', True), 'the bands are those of the file')
    if save:
        rows = env.load_text(out)
        if [len(r) for r in rows] != [len(want) + 1] * len(x):
            env.fail('saved: %r columns' % [len(r) for r in rows])
            return
        env.eq(np.array([r[0] for r in rows]), np.array(x), 'frequencies saved')
        for i, w in enumerate(want):
            env.eq(np.array([r[i + 1] for r in rows]), np.array(w), 'spectrum saved %d' % i, scale=10)


@case('C41', quick=[dict(rows=3, bands=3), dict(rows=4, bands=1)], thorough=[dict(rows=7, bands=3), dict(rows=2, bands=4)])
def rows(env):
    """every row of the file is fitted, for each band or the average of each set of bands, and saved"""
    env.reset()
    R, B = env.p['rows'], env.p['bands']
    f = Fit(env)
    x, y, name = spectra(env, R, B)
    sets = [(None, [[i] for i in range(B)])]
    if B > 2:
        sets += [(['1,2 3'], [[0], [1, 2]]), (['3,1', '2'], [[2], [0, 1]]), (['1 2 3'], [[0, 1, 2]]), (['2'], [[1]]), (['1,', '3,', '2'], [[0], [2], [1]])]
    i = env.choice('bands', list(range(len(sets))))
    bi, groups = sets[i]
    want = [[sum(y[r, j] for j in g) / len(g) for r in range(R)] for g in groups]
    ask(env, f, x, want, [name] + (['-bi'] + bi if bi else []), env.flag('silent'), env.choice('function', [0, 1, 2, 3]) if i == 0 else 0)


@case('C41', quick=[dict(rows=5, bands=2)], thorough=[dict(rows=8, bands=2)])
def smooth(env):
    """smoothing is the local linear regression of the spectra; a straight line is left as it is"""
    env.reset()
    R, B = env.p['rows'], env.p['bands']
    f = Fit(env)
    x, y, name = spectra(env, R, B)
    fac = env.choice('factor', [0.5, 0.75])
    groups = [[0], [1]] if env.flag('each') else [[0, 1]]
    want = [regression(env, x, [sum(y[r, j] for j in g) / len(g) for r in range(R)], fac or 0.02) for g in groups]
    bi = [] if len(groups) == 2 else ['-bi', '1 2']
    ask(env, f, x, want, [name, '-sm'] + bi + (['-f', fac] if fac else []), env.flag('silent'), 0)


@case('C41', quick=[dict(rows=5)], thorough=[dict(rows=8)])
def line(env):
    """a straight line is the same after smoothing"""
    np = env.np
    env.reset()
    R = env.p['rows']
    f = Fit(env)
    a, b = env.real('a', 1, 9), env.real('b', -0.25, 2)
    x = [0.25 + 0.25 * i for i in range(R)]
    y = [a + b * t for t in x]
    name = env.path('SPECTRA')
    env.mod('dynaphopy.interface.iofile').write_curve_to_file(np.array(x), np.array([[t] for t in y]), name)
    ask(env, f, x, [y], [name, '--smooth', '-f', env.choice('factor', [0.5, 0.75])], True, 0)


@case('C41', quick=[dict()])
def absent(env):
    """a file that is not there is told and nothing is fitted"""
    env.reset()
    f = Fit(env)
    (ns, exc), _, text = env.printed(lambda: env.script('fitdata', env.path('none'), '--silent'))
    env.check(exc is not None and type(exc).__name__ in ('SystemExit', 'Exit') and not f.asked, 'it stops')
    env.check('not found' in text, 'the file is told')


@case('C41', quick=[dict(rows=101)], thorough=[dict(rows=101), dict(rows=151)])
def default(env):
    """without a factor, each point is smoothed with the nearest 2 % of the points"""
    np = env.np
    env.reset()
    R = env.p['rows']
    f = Fit(env)
    free = [0, 1, 2, R // 2, R // 2 + 1, R - 1]
    v = env.arr('v', (len(free),), 0.5, 9)
    x = [0.25 * i for i in range(R)]
    y = [1.0] * R
    for i, r in enumerate(free):
        y[r] = v[i]
    name = env.path('SPECTRA')
    env.mod('dynaphopy.interface.iofile').write_curve_to_file(np.array(x), np.array([[t] for t in y]), name)
    ask(env, f, x, [regression(env, x, y, 0.02)], [name, '-sm'], True, 0)
