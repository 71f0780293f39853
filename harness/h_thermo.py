"""Thermodynamic functions (C18) and peak fitting (C21)"""
from vp.driver import case
from .h_quasi import Setup

NA, KB, H, EV = 6.022140857e23, 1.38064852e-23, 6.626070040e-22, 1.60217662e-19


def simpson(y, h):
    """composite Simpson rule on an odd number of equally spaced points"""
    n = len(y)
    assert n % 2 == 1
    s = y[0] + y[n - 1]
    for i in range(1, n - 1):
        s = s + y[i] * (4 if i % 2 else 2)
    return s * h / 3


def uneven(y, x):
    """parabolas through consecutive triples of points"""
    s = 0
    for i in range(0, len(y) - 2, 2):
        a, b = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        s = s + (a + b) / 6 * (y[i] * (2 - b / a) + y[i + 1] * (a + b) * (a + b) / (a * b) + y[i + 2] * (2 - a / b))
    return s


def grid(env, n):
    f0 = env.real('f0', 0.01, 40)
    h = env.real('h', 0.05, 2)
    return f0, h, env.np.array([f0 + h * i for i in range(n)])


def integrands(env, f, T):
    """energy, k ln Z, specific heat of one oscillator"""
    np = env.np
    x = H * f / (KB * T)
    e = np.exp(x)
    u = H * f * (env.num(0.5) + 1 / (e - 1))
    lnz = np.log(2 * np.sinh(H * f / (2 * KB * T)))
    return u, lnz, KB * x * x * e / (e - 1) ** 2


@case('C18', quick=[dict(n=3), dict(n=5)], thorough=[dict(n=7), dict(n=9)])
def functions(env):
    np = env.np
    thm = env.mod('dynaphopy.analysis.thermal_properties')
    n = env.p['n']
    T = env.real('T', 10, 3000)
    f0, h, f = grid(env, n)
    dos = env.arr('g', (n,), 0.01, 4)
    own = [integrands(env, f[i], T) for i in range(n)]
    U = simpson([dos[i] * own[i][0] for i in range(n)], h) * NA / 1000
    S = simpson([dos[i] * (own[i][0] / T - KB * own[i][1]) for i in range(n)], h) * NA
    C = simpson([dos[i] * own[i][2] for i in range(n)], h) * NA
    # the free energy leaves out the point at the lower limit
    Fr = simpson([dos[i] * KB * T * own[i][1] if i else env.num(0.0) for i in range(n)], h) * NA / 1000
    F0 = dos[0] * KB * T * own[0][1] * h / 3 * NA / 1000
    u = thm.get_total_energy(T, f, dos)
    s = thm.get_entropy(T, f, dos)
    c = thm.get_cv(T, f, dos)
    fr = thm.get_free_energy(T, f, dos)
    env.eq(u, U, 'total energy')
    env.eq(s, S, 'entropy')
    env.eq(c, C, 'specific heat')
    env.eq(fr, Fr, 'free energy')
    env.eq(fr + F0, u - T * s / 1000, 'free energy is energy minus T times entropy')


@case('C18', quick=[dict(n=3)], thorough=[dict(n=5)])
def any_grid(env):
    """frequencies at any distances from each other, weights of either sign"""
    np = env.np
    thm = env.mod('dynaphopy.analysis.thermal_properties')
    n = env.p['n']
    T = env.real('T', 10, 3000)
    d = env.vals('d', n, 0.2, 2)
    f = [d[0]]
    for x in d[1:]:
        f.append(f[-1] + x)
    f = np.array(f)
    dos = env.arr('g', (n,), -2, 2)
    other = env.arr('r', (n,), -2, 2)
    own = [integrands(env, f[i], T) for i in range(n)]
    env.eq(thm.get_total_energy(T, f, dos), uneven([dos[i] * own[i][0] for i in range(n)], f) * NA / 1000, 'total energy')
    env.eq(thm.get_entropy(T, f, dos), uneven([dos[i] * (own[i][0] / T - KB * own[i][1]) for i in range(n)], f) * NA, 'entropy')
    env.eq(thm.get_cv(T, f, dos), uneven([dos[i] * own[i][2] for i in range(n)], f) * NA, 'specific heat')
    env.eq(thm.get_free_energy(T, f, dos), uneven([dos[i] * KB * T * own[i][1] if i else env.num(0.0) for i in range(n)], f) * NA / 1000, 'free energy')
    env.eq(thm.get_free_energy_correction_dos(T, f, dos, other), uneven([(dos[i] - other[i]) * own[i][0] / 2 for i in range(n)], f) * NA / 1000,
           'correction from the change of the density of states')
    shift = env.real('shift', -1, 1)
    env.eq(thm.get_free_energy_correction_shift(T, f, dos, shift), uneven([dos[i] * own[i][0] / f[i] for i in range(n)], f) * (-shift / 2) * NA / 1000,
           'correction from a rigid shift')


@case('C18', quick=[dict(n=3)], thorough=[dict(n=5), dict(n=7)])
def corrections(env):
    np = env.np
    thm = env.mod('dynaphopy.analysis.thermal_properties')
    n = env.p['n']
    T = env.real('T', 10, 3000)
    f0, h, f = grid(env, n)
    g = env.arr('g', (n,), 0.0, 4)
    r = env.arr('r', (n,), 0.0, 4)
    shift = env.real('shift', -1, 1)
    own = [integrands(env, f[i], T)[0] for i in range(n)]
    ref = simpson([(g[i] - r[i]) * own[i] / 2 for i in range(n)], h) * NA / 1000
    env.eq(thm.get_free_energy_correction_dos(T, f, g, r), ref, 'correction from the change of the density of states')
    env.eq(thm.get_free_energy_correction_dos(T, f, g, g), 0, 'no change, no correction', scale=1.0)
    ref = simpson([g[i] * own[i] / f[i] for i in range(n)], h) * (-shift / 2) * NA / 1000
    env.eq(thm.get_free_energy_correction_shift(T, f, g, shift), ref, 'correction from a rigid shift')
    N = env.real('N', 1, 100)
    ps = env.arr('ps', (n,), 0, 2)
    env.eq(thm.get_dos(T, f, ps, N), np.array([2 * EV * ps[i] / (KB * T * N) for i in range(n)]), 'density of states from a power spectrum')
    env.eq(thm.get_dos(T, f, ps, N, bose_einstein_statistics=True),
           np.array([2 * EV * ps[i] / (own[i] * N) for i in range(n)]), 'density of states from a power spectrum, quantum')


@case('C18', quick=[dict(n=3)], thorough=[dict(n=5)])
def zero_frequency(env):
    """a grid that starts at zero frequency, where the density of states vanishes"""
    np = env.np
    thm = env.mod('dynaphopy.analysis.thermal_properties')
    n = env.p['n']
    T = env.real('T', 10, 3000)
    h = env.real('h', 0.1, 2)
    f = np.array([h * i for i in range(n)])
    g = env.arr('g', (n - 1,), 0.01, 4)
    dos = np.array([env.num(0.0)] + [g[i] for i in range(n - 1)])
    own = [None] + [integrands(env, f[i], T) for i in range(1, n)]
    z = env.num(0.0)
    env.eq(thm.get_total_energy(T, f, dos), simpson([z] + [dos[i] * own[i][0] for i in range(1, n)], h) * NA / 1000, 'total energy')
    env.eq(thm.get_entropy(T, f, dos), simpson([z] + [dos[i] * (own[i][0] / T - KB * own[i][1]) for i in range(1, n)], h) * NA, 'entropy')
    env.eq(thm.get_cv(T, f, dos), simpson([z] + [dos[i] * own[i][2] for i in range(1, n)], h) * NA, 'specific heat')
    env.eq(thm.get_free_energy(T, f, dos), simpson([z] + [dos[i] * KB * T * own[i][1] for i in range(1, n)], h) * NA / 1000, 'free energy')


@case('C18', quick=[dict(n=3)], thorough=[dict(n=5)])
def report(env):
    """properties of the analysis object from given densities of states"""
    np = env.np
    s = Setup(env, T=2)
    n = env.p['n']
    T = env.real('T', 10, 3000)
    f0, h, f = grid(env, n)
    gh = env.arr('g', (n,), 0.1, 4)
    gr = env.arr('r', (n,), 0.1, 4)
    seen = []

    def dos(structure, mesh=None, force_constants=None, freq_min=None, freq_max=None, freq_pitch=None, projected_on_atom=-1, NAC=False):
        seen.append((projected_on_atom, mesh, freq_max, freq_pitch, NAC))
        k = 1.0 if projected_on_atom < 0 else 0.25 * (1 + projected_on_atom)
        return np.array([f, (gr if force_constants is not None and force_constants == 'renormalised' else gh) * k])
    env.patch('dynaphopy.interface.phonopy_link', 'obtain_phonopy_dos', dos)
    qp = s.new()
    qp.set_temperature(T)
    typ = env.choice('type', [-1, 0, 1])
    if typ >= 0:
        qp.set_projection_onto_atom_type(typ)
    norm = env.flag('normalise')
    dof = s.nat * 3
    k = 1.0 if typ < 0 else 0.25 * (1 + typ)

    def own(g):
        g = [g[i] * k for i in range(n)]
        integ = simpson(g, h) / dof
        if norm:
            g = [x / integ for x in g]
            integ = env.num(1.0)
            if typ >= 0:
                g = [x / s.nat for x in g]
                integ = integ / s.nat
        return g, integ

    def table(g, integ, h0=None):
        w = [integrands(env, f[i], T) for i in range(n)]
        U = simpson([g[i] * w[i][0] for i in range(n)], h) * NA / 1000
        Fr = simpson([g[i] * KB * T * w[i][1] if i else env.num(0.0) for i in range(n)], h) * NA / 1000
        S = simpson([g[i] * (w[i][0] / T - KB * w[i][1]) for i in range(n)], h) * NA
        C = simpson([g[i] * w[i][2] for i in range(n)], h) * NA
        if h0 is not None:
            cor = simpson([(h0[i] - g[i]) * w[i][0] / 2 for i in range(n)], h) * NA / 1000
            U, Fr = U + cor, Fr + cor
        return np.array([Fr, S, C, U, integ])
    names = ['free energy', 'entropy', 'specific heat', 'total energy', 'integral of the density of states']
    har = qp.get_thermal_properties(normalize_dos=norm)
    same = qp.get_thermal_properties(force_constants='harmonic', normalize_dos=norm)
    ren = qp.get_thermal_properties(force_constants='renormalised', normalize_dos=norm)
    g0, i0 = own(gh)
    g1, i1 = own(gr)
    t0, t1 = table(g0, i0), table(g1, i1, g0)
    for i, name in enumerate(names):
        env.eq(har[i], t0[i], 'harmonic ' + name)
        env.eq(same[i], har[i], name + ' of unchanged force constants')
        env.eq(ren[i], t1[i], 'renormalised ' + name)
    for x in seen:
        env.check(x[0] == typ, 'density of states of the atoms projected')


def fit_stub(env, seen, fail=(), given=None):
    """curve_fit stand-in: parameters that depend on the data handed over, or those given"""
    np = env.np

    def fit(function, x, y, p0=None, **k):
        i = len(seen)
        n = function.__code__.co_argcount - 2
        if given is not None:
            par = given[:n]
            cov = np.diag([given[5] ** 2, given[6] ** 2] + [env.num(1.0)] * (n - 2))
        else:
            s = sum((t + 1) * y[t] for t in range(len(x)))
            par = [x[0] + s, x[1] - x[0] + s, x[0] + 3 * s, s / 7]
            cov = np.diag([s ** 2, (x[0] + s) ** 2] + [env.num(1.0)] * (n - 2))
        seen.append((x, y, par, cov))
        if i in fail:
            raise RuntimeError('Optimal parameters not found')
        return np.array(par), cov
    env.patch('dynaphopy.analysis.fitting.fitting_functions', 'curve_fit', fit)
    env.patch('scipy.optimize', 'curve_fit', fit)


def quad_stub(env, calls, plain=False):
    def quad(f, a, b, args=(), **k):
        if plain:
            return 2 * args[2] + args[0] + b, env.num(0.0)
        v = f((a + b) / 2, *args) * (b - a)
        calls.append((a, b))
        return v, env.num(0.0)
    env.patch('scipy.integrate', 'quad', quad)


def min_stub(env, calls):
    def minimize_scalar(f, bracket=None, bounds=None, method=None, **k):
        x = bounds[0] + (bounds[1] - bounds[0]) * 0.375
        calls.append(tuple(bounds))
        return {'x': x, 'fun': f(x)}
    env.patch('dynaphopy.analysis.fitting.fitting_functions', 'minimize_scalar', minimize_scalar)
    env.patch('scipy.optimize', 'minimize_scalar', minimize_scalar)


@case('C21', quick=[dict(n=3)], thorough=[dict(n=5)], note='curve_fit, quad and minimize_scalar are replaced by stand-ins; half widths and areas positive')
def shapes(env):
    np = env.np
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    kind = env.choice('shape', [0, 1, 2, 'gauss'])
    seen, quads, mins = [], [], []
    p = [env.real('p%d' % i, *b) for i, b in enumerate([(0.2, 9), (0.02, 3), (0.1, 9), (0, 1), (-2, 2), (0.01, 1), (0.01, 1)])]
    if kind in ('gauss', 2) and env.flag('negative deviation'):
        p[1] = -p[1]
    fit_stub(env, seen, given=p)
    quad_stub(env, quads)
    min_stub(env, mins)
    n = env.p['n']
    f0, h, x = grid(env, n)
    y = env.arr('y', (n,), 0.01, 3)
    guess = env.flag('guess')
    F = ff.Gaussian_function if kind == 'gauss' else ff.fitting_functions[kind]
    obj = F(x, y, guess_position=x[1], guess_height=y[1]) if guess else F(x, y)
    r = obj.get_fitting()
    env.check(bool(r['all_good']), 'a converged fit is reported as good')
    a, b, c, d = p[:4]
    z = env.real('z', 0.1, 9)
    pos, w, mx = r['peak_position'], r['width'], r['maximum']
    env.eq(r['base_line'], d, 'base line')
    if kind == 0:
        ref = lambda t: c / (np.pi * b * (1 + ((t - a) / b) ** 2)) + d
        env.eq(pos, a, 'peak position')
        env.eq(ref(pos) - d, mx, 'the height is that of the curve at the peak, over the base line')
        env.eq(ref(pos + w / 2) - d, mx / 2, 'half the height at half a width')
        env.eq(r['area'], mx * w * np.pi / 2, 'area under the peak')
    elif kind == 1:
        s = p[4]
        g = lambda t: 2 * b / (1 + np.exp(s * (t - a)))
        ref = lambda t: c / (np.pi * g(t) * (1 + ((t - a) / g(t)) ** 2)) + d
        env.eq(pos, x[0] + (x[n - 1] - x[0]) * 0.375, 'peak position is the maximum of the curve within the range')
        env.eq(mx, ref(pos), 'height of the curve at the peak')
        env.eq(w, 2 * g(pos), 'width at the peak')
        env.eq(r['asymmetry'], s, 'asymmetry')
        env.eq(r['area'], ref(x[n - 1] / 2) * x[n - 1], 'area up to the end of the range')
    elif kind == 'gauss':
        ref = lambda t: c / b * np.sqrt(2 * np.pi) * np.exp(-(t - a) ** 2 / (2 * b ** 2)) + d
        env.eq(pos, a, 'mean')
        env.eq(w, abs(b), 'deviation')
        env.eq(mx, ref(a), 'height of the curve at the mean')
    else:
        ref = lambda t: c / ((a * a - t * t) ** 2 + (b * t) ** 2) + d
        env.eq(pos, a, 'peak position')
        env.eq(w, abs(b), 'width')
        env.eq(mx, ref(a), 'height of the curve at the peak')
        env.eq(r['area'], ref(x[n - 1] / 2) * x[n - 1], 'area up to the end of the range')
    if kind != 'gauss' or r['area'] > 0:
        env.eq(r['global_error'] * np.sqrt(r['area']), (p[5] + p[6]) / 2, 'error of position and width relative to the area')
    env.eq(obj.get_curve(np.array([z]))[0], ref(z), 'the curve drawn is the one fitted')


@case('C21', quick=[dict()], note='curve_fit, quad and minimize_scalar are replaced by stand-ins')
def undetermined(env):
    """a fit that does not tell where the peak is has failed"""
    np = env.np
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    kind = env.choice('shape', [0, 1, 2, 'gauss'])
    p = [env.real('p%d' % i, *b) for i, b in enumerate([(0.2, 9), (0.02, 3), (0.1, 9), (0, 1), (-2, 2), (0.01, 1), (0.01, 1)])]
    which = env.choice('unknown', [5, 6])
    p[which] = np.nan
    fit_stub(env, [], given=p)
    quad_stub(env, [])
    min_stub(env, [])
    f0, h, x = grid(env, 3)
    y = env.arr('y', (3,), 0.01, 3)
    F = ff.Gaussian_function if kind == 'gauss' else ff.fitting_functions[kind]
    r = F(x, y, guess_position=x[1], guess_height=y[1]).get_fitting()
    env.check(not r['all_good'], 'no peak is reported from a fit without errors')


def chain(freqs, cut=1e-4):
    """runs of ascending frequencies closer than the threshold"""
    sets = [[0]]
    for i in range(1, len(freqs)):
        if freqs[i] - freqs[i - 1] < cut:
            sets[-1].append(i)
        else:
            sets.append([i])
    return sets


@case('C21', quick=[dict(m=3, n=3, deg=0), dict(m=3, n=3, deg=1), dict(m=2, n=3, deg=1)], thorough=[dict(m=4, n=3, deg=1)], budget=110, max_paths=900, note='harmonic frequencies in ascending order')
def peaks(env):
    np = env.np
    fa = env.mod('dynaphopy.analysis.fitting')
    m, n = env.p['m'], env.p['n']
    seen = []
    bad = env.choice('failed fit', [-1, 0, m - 1])
    fit_stub(env, seen, fail=(bad,))
    quad_stub(env, [], plain=True)
    min_stub(env, [])
    f0, h, x = grid(env, n)
    # the highest point is the middle one
    ps = np.array([[env.real('ps%d_%d' % (t, j), *((2, 3) if t == n // 2 else (0.01, 1.5))) for j in range(m)] for t in range(n)])
    gaps = [env.real('gap%d' % i, 0, 0.001 if i != 1 else 2) for i in range(m - 1)]
    for g in gaps:
        env.assume(abs(g - 1e-4) > 1e-6)
    fr = [env.real('f', 1, 5)]
    for g in gaps:
        fr.append(fr[-1] + g)
    fr = np.array(fr)
    deg = bool(env.p['deg'])
    shift = env.arr('shift', (m,), -1, 1) if env.flag('thermal expansion') else None
    kind = env.choice('shape', [0, 2])
    keep = ps * 1
    r = fa.phonon_fitting_analysis(ps, x, harmonic_frequencies=fr, thermal_expansion_shift=shift, fitting_function_type=kind,
                                   show_plots=False, use_degeneracy=deg, show_occupancy=kind == 0)
    sets = chain(fr) if deg else [[i] for i in range(m)]
    own = {j: s for s in sets for j in s}
    env.eq(np.array([len(r[k]) for k in ('positions', 'widths', 'error', 'dt_Q2')]), [m] * 4, 'one entry per mode')
    for i in range(m):
        if i == bad:
            env.eq(np.array([r[k][i] for k in ('positions', 'widths', 'error', 'dt_Q2')]), [0] * 4, 'a failed fit is reported as zeros')
            continue
        y = [sum(ps[t, j] for j in own[i]) / len(own[i]) for t in range(n)]
        s = sum((t + 1) * y[t] for t in range(n))
        a, b, c, d = x[0] + s, x[1] - x[0] + s, x[0] + 3 * s, s / 7
        env.eq(r['positions'][i], a + (shift[i] if shift is not None else 0), 'position of peak %d' % i)
        env.eq(r['widths'][i], 2 * b if kind == 0 else b, 'width of peak %d' % i)
        err = (s + x[0] + s) / 2
        area = c if kind == 0 else 2 * c + a + x[n - 1]
        env.eq(r['dt_Q2'][i], 2 * area, 'kinetic energy of peak %d' % i)
        if kind == 0 or not deg:
            env.eq(r['error'][i] * np.sqrt(area) * (c / (np.pi * b) if kind == 0 else c / (b * a) ** 2 + d), err, 'error of peak %d' % i)
    env.eq(ps, keep, 'the spectra are left as they were')


@case('C21', quick=[dict(m=4)], thorough=[dict(m=6)], note='harmonic frequencies in ascending order')
def degenerate(env):
    np = env.np
    fa = env.mod('dynaphopy.analysis.fitting')
    m = env.p['m']
    cut = env.choice('threshold', [1e-4, 0.01])
    fr = [env.real('f', 0, 5)]
    for i in range(m - 1):
        g = env.real('gap%d' % i, 0, 3 * cut)
        env.assume(abs(g - cut) > cut / 100)
        fr.append(fr[-1] + g)
    got = fa.degenerate_sets(np.array(fr)) if cut == 1e-4 else fa.degenerate_sets(np.array(fr), cutoff=cut)
    env.check(sorted(map(sorted, got)) == chain(fr, cut), 'sets of frequencies closer than the threshold')
    data = env.arr('d', (2, m), -2, 2)
    for i in range(m):
        s = [t for t in got if i in t][0]
        env.eq(fa.average_phonon(i, data, got), np.array([sum(data[k, j] for j in s) / len(s) for k in range(2)]), 'average over the set of mode %d' % i)
