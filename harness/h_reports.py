"""What is printed (C40): tables and reports on the screen"""
from vp.driver import case
from .h_quasi import Setup
from .h_structure import EL
from .h_thermo import chain
from .h_plots import recorder, curve, Axes, Pyplot

H = 4.135667662e-3          # eV ps
KBE = 8.6173324e-5          # eV / K


def numbers(env, line, skip=0):
    """the numbers of a line of text"""
    out = []
    for w in line.split():
        try:
            out.append(env._parse(w, False))
        except ValueError:
            pass
    return out[skip:]


def near(env, got, want, digits, label):
    """a number printed with so many decimals"""
    env.le(abs(got - want), 0.6 * 10 ** -digits, label)


def after(text, key):
    """lines that start with a key, without it"""
    return [l.strip()[len(key):] for l in text.split('\n') if l.strip().startswith(key)]


@case('C40', quick=[dict(m=2)], thorough=[dict(m=3)], max_paths=2500, note='the peak fit and matplotlib are replaced by stand-ins; peak areas, widths and positions positive')
def peaks(env):
    """report of the peak analysis"""
    np = env.np
    fa = env.mod('dynaphopy.analysis.fitting')
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    plt = recorder(env, fa)
    m, n = env.p['m'], 3
    x = np.array([0.0, 0.5, 1.0])
    # the highest point is the middle one
    ps = np.array([[env.real('ps%d_%d' % (t, j), *((2, 3) if t == 1 else (0.01, 1.5))) for j in range(m)] for t in range(n)])
    bad = env.choice('failed fit', [-1, 0, m - 1])
    par = [dict(peak_position=env.real('pos%d' % i, 1, 3), width=env.real('w%d' % i, 0.1, 2), area=env.real('a%d' % i, 0.5, 2),
                base_line=env.real('b%d' % i, 0, 1), maximum=env.real('mx%d' % i, 1, 3), global_error=env.real('e%d' % i, 0, 1),
                all_good=i != bad) for i in range(m)]
    asym = env.flag('asymmetric')
    if asym:
        for i, p in enumerate(par):
            p['asymmetry'] = env.real('as%d' % i, -1, 1)
    made = []

    class Fit:
        curve_name = 'Shape'

        def __init__(self, f, y, guess_height=None, guess_position=None):
            self.i = len(made)
            made.append((f, y))

        def get_fitting(self):
            return dict(par[self.i])

        def get_curve(self, f):
            return np.array(f) * par[self.i]['area']
    env.patch_item(ff.fitting_functions, 0, Fit)
    har = [2.0 + i for i in range(m)] if env.flag('distinct') else [2.0] * m
    deg = env.flag('degenerate')
    shift = env.arr('shift', (m,), -0.5, 0.5) if env.flag('thermal expansion') else None
    occ, show = env.flag('occupancy'), env.choice('plots', [False, True])
    r, exc, text = env.printed(fa.phonon_fitting_analysis, ps, x, harmonic_frequencies=np.array(har), thermal_expansion_shift=shift,
                               show_plots=show, use_degeneracy=deg, show_occupancy=occ)
    if exc is not None:
        env.fail('report: ' + repr(exc))
        return
    sets = chain(har) if deg else [[i] for i in range(m)]
    own = {j: s for s in sets for j in s}
    env.check(after(text, 'Peak #') == [' %d' % (i + 1) for i in range(m) if i != bad], 'a report per peak')
    env.check(len(after(text, 'Warning: Fitting not successful in peak #')) == (bad >= 0), 'a failed fit is told')
    if bad >= 0:
        env.check(('#%d' % (bad + 1)) in text, 'number of the failed fit')
    parts = text.split('Peak # ')[1:]
    for t, i in zip(parts, [i for i in range(m) if i != bad]):
        p = par[i]
        y = [sum(ps[k, j] for j in own[i]) / len(own[i]) for k in range(n)]

        def line(key, want, label=None):
            l = after(t, key)
            v = numbers(env, l[0].replace('(Shape)', '').replace('(Total)', '').replace('(+T. exp.)', '')) if l else []
            if len(v) != 1:
                env.fail('line %s: %s' % (key, l))
            elif want is not None:
                near(env, v[0], want, 6, label or key)
            return v[0] if len(v) == 1 else None
        line('Width', p['width'])
        line('Position', p['peak_position'])
        line('Area (<K>)    (Shape)', p['area'])
        line('Area (<K>)    (Total)', (y[0] + 4 * y[1] + y[2]) * 0.5 / 3)
        line('<|dQ/dt|^2>', 2 * p['area'])
        line('Base line', p['base_line'])
        line('Maximum height', p['maximum'])
        line('Fitting global error', p['global_error'])
        line('Frequency shift   ', p['peak_position'] - har[i])
        if shift is not None:
            line('Frequency shift (+T. exp.)', p['peak_position'] - har[i] + shift[i])
        if asym:
            line('Peak asymmetry', p['asymmetry'])
        env.check(('Peak asymmetry' in t) == asym and ('(+T. exp.)' in t) == (shift is not None), 'lines of the report')
        env.check(('Occupation number' in t) == occ, 'occupation when asked for')
    if show:
        figs = [plt.figures[k] for k in sorted(plt.figures)]
        env.check([f.number for f in figs] == [i + 1 for i in range(m) if i != bad], 'a figure per peak')
        for f in figs:
            i = f.number - 1
            y = [sum(ps[k, j] for j in own[i]) / len(own[i]) for k in range(n)]
            env.check(len(f.lines) == 2, 'spectrum and curve')
            curve(env, f.lines[0], x, y, 'spectrum of peak %d' % i)
            curve(env, f.lines[1], x, x * par[i]['area'], 'curve of peak %d' % i)


@case('C40', quick=[dict()], note='the peak fit is replaced by a stand-in; the quantum of energy is below the energy of the peak')
def occupation(env):
    """a peak of energy E at frequency f holds n quanta, E = h f (n + 1/2), and has the temperature of that n"""
    np = env.np
    fa = env.mod('dynaphopy.analysis.fitting')
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    recorder(env, fa)
    pos, area = env.choice('position', [0.5, 2.0, 8.0]), env.real('area', 1, 2)

    class Fit:
        curve_name = 'Shape'

        def __init__(self, *a, **k):
            pass

        def get_fitting(self):
            return dict(peak_position=pos, width=1.0, area=area, base_line=0.0, maximum=1.0, global_error=0.5, all_good=True)
    env.patch_item(ff.fitting_functions, 0, Fit)
    r, exc, text = env.printed(fa.phonon_fitting_analysis, np.array([[0.0], [1.0], [0.5]]), np.array([0.0, 0.5, 1.0]),
                               harmonic_frequencies=np.array([2.0]), show_plots=False)
    if exc is not None:
        env.fail('report: ' + repr(exc))
        return
    n = numbers(env, after(text, 'Occupation number')[0])[0]
    T = numbers(env, after(text, 'Fit temperature')[0])[0]
    e = 2 * area / (n + 0.5)            # quantum of energy in use
    good = abs(e - H * pos) <= 1e-5 * H * pos
    angular = abs(e * (2 * np.pi) - H * pos) <= 1e-5 * H * pos
    if bool(angular):
        env.fail('the quantum of energy is h f / 2 pi')
    else:
        env.check(bool(good), 'quantum of energy')
    env.eq(T * KBE * np.log(1 + 1 / n), e, 'temperature of the occupation number')


@case('C40', quick=[dict()], note='phonopy, the properties of a density of states and matplotlib replaced by stand-ins')
def thermal(env):
    """table of thermal properties"""
    np = env.np
    env.reset()
    s = Setup(env, nat=2, nb=2, sup=(2, 2, 1))
    plt = recorder(env, s.top)
    L = env.mod('dynaphopy.interface.phonopy_link')
    TH = env.mod('dynaphopy.analysis.thermal_properties')
    q = s.new()
    T = env.real('T', 100, 900)
    q.set_temperature(T)
    har, ren = env.vals('h', 5, -9, 9), env.vals('r', 5, -9, 9)
    env.patch(q, 'get_renormalized_force_constants', lambda: 'r')
    asked = []

    def props(force_constants=None, normalize_dos=False):
        asked.append(normalize_dos)
        return list(har if force_constants is None else ren)
    env.patch(q, 'get_thermal_properties', props)
    P = {None: tuple(env.vals('ph', 3, -9, 9)), 'r': tuple(env.vals('pr', 3, -9, 9))}
    seen = []

    def link(structure, temperature, mesh=(40, 40, 40), force_constants=None, NAC=False):
        seen.append((temperature, tuple(mesh), NAC))
        return P[force_constants]
    env.patch(L, 'obtain_phonopy_thermal_properties', link)
    ps = env.vals('ps', 3, 0.1, 1)
    env.patch(q, 'get_power_spectrum_full', lambda: np.array(ps))
    weights = {'free_energy': 1, 'entropy': 2, 'cv': 3, 'total_energy': 4}
    env.patch(TH, 'get_dos', lambda t, f, p, norm: np.array(p) * (t / 100 + norm))
    for k, w in weights.items():
        env.patch(TH, 'get_' + k, (lambda w: lambda t, f, d: sum((w + i) * d[i] for i in range(3)) + t / 100 + f[1])(w))
    q.parameters.mesh_phonopy = [3, 4, 5]
    q.parameters.use_NAC = env.flag('NAC')
    q.parameters.silent = env.flag('silent')
    on = env.choice('atom', [-1, 1])
    if on >= 0:
        q.set_projection_onto_atom_type(on)
    spec, norm, pho = env.flag('from power spectrum'), env.flag('normalised'), env.flag('phonopy')
    drawn = []
    env.patch(q, 'plot_dos_phonopy', lambda force_constants=None: drawn.append(force_constants))
    r, exc, text = env.printed(q.display_thermal_properties, from_power_spectrum=spec, normalize_dos=norm, print_phonopy=pho)
    if exc is not None:
        env.fail('table: ' + repr(exc))
        return
    env.check(all(x == norm for x in asked), 'normalised when asked for')
    cols = [har, ren]
    if spec:
        d = [x * (T / 100 + 4) for x in ps]
        integ = (d[0] + 4 * d[1] + d[2]) * 0.5 / 3 / 6
        if norm:
            k = 2 if on >= 0 else 1
            d = [x / integ / k for x in d]
            integ = env.num(1.0) / k
        cols.append([sum((w + i) * d[i] for i in range(3)) + T / 100 + 0.5 for w in (1, 3 - 1, 3, 4)] + [integ])
    keys = ['Free energy   (KJ/mol):', 'Entropy      (J/K/mol):', 'Cv           (J/K/mol):', 'Total energy  (KJ/mol):', 'Integration:']
    for i, k in enumerate(keys):
        l = after(text, k)
        v = numbers(env, l[0]) if len(l) == 1 else []
        if len(v) != len(cols):
            env.fail('row %s: %s' % (k, l))
            continue
        for j, c in enumerate(cols):
            near(env, v[j], c[i], 4, '%s column %d' % (k, j))
    if pho:
        for i, k in enumerate(['Free energy (not corrected):', 'Entropy:', 'Cv:']):
            l = after(text, k)
            v = numbers(env, l[0]) if len(l) == 1 else []
            env.check(len(v) == 2, 'row ' + k)
            for got, want in zip(v, (P[None][i], P['r'][i])):
                near(env, got, want, 4, 'phonopy ' + k)
        for t, mesh, nac in seen:
            env.eq(t, T, 'temperature handed to phonopy')
            env.check(mesh == (3, 4, 5) and nac == q.parameters.use_NAC, 'mesh and correction handed to phonopy')
    for l in text.split('\n'):
        if l.startswith('Thermal properties'):
            t = l[l.index('(') + 1:].split()[0]
            near(env, env._parse(t, False), T, 2, 'temperature in the title')
            if '(resolution' in l:
                t = l[l.index('(resolution') + 11:].replace(')', ' ').replace(']', ' ').split()[0]
                env.eq(env._parse(t, False), 0.5, 'resolution in the title')
    lines = [x for f in plt.figures.values() for x in f.lines]
    if spec and not q.parameters.silent:
        env.check(len(lines) == 1, 'spectrum drawn')
        for x in lines:
            a = x[0]
            env.eq(np.array(a[0]), q.get_frequency_range(), 'frequencies of the spectrum drawn')
            env.eq(np.array(a[1]), np.array(d), 'spectrum drawn')
    else:
        env.check(not lines, 'no spectrum drawn')
    env.check(drawn == ([] if q.parameters.silent else ['r']), 'densities of states drawn unless silent')


@case('C40', quick=[dict(lat='p', nat=2), dict(lat='bcc', nat=2), dict(lat='bcc', nat=2, lone=1)], thorough=[dict(lat='fcc', nat=2)])
def positions(env):
    """average positions and displacement parameters, atom by atom"""
    np = env.np
    from .h_dynamics import crystal, supercell_of
    env.reset()
    D, top = env.mod('dynaphopy.dynamics'), env.mod('dynaphopy')
    sup = (1, 2, 1)
    species = env.choice('species', [['Si', 'O'], ['O', 'Si'], ['Si', 'Si']])
    s, c, cart, m, typ = crystal(env, env.p['lat'], env.p['nat'], 'diag', species=species, lone=bool(env.p.get('lone')))
    n = len(typ)
    N = 2 * n
    el = [species[t] for t in typ]
    d = D.Dynamics(structure=s, velocity=env.array(np.zeros((2, N, 3)), 'c'), trajectory=env.array(np.zeros((2, N, 3)), 'c'),
                   time=np.array([0.0, 1.0]), supercell=supercell_of(env, c, sup))
    q = top.Quasiparticle(d)
    unit = env.flag('unit cell')
    k = n if unit else N
    pos = env.arr('p', (k, 3), -5, 5)
    asked = []

    def average(number_of_samples=None, to_unit_cell=False):
        asked.append(to_unit_cell)
        return env.array(pos, 'c')
    env.patch(d, 'average_positions', average)
    r, exc, text = env.printed(q.get_average_atomic_positions, to_unit_cell=unit)
    if exc is not None:
        env.fail('positions: ' + repr(exc))
        return
    env.check(asked == [unit], 'cell asked for')
    rows = [l.split() for l in text.split('\n') if l.split()[:1] and l.split()[0] in ('Si', 'O')]
    names = el if unit else [e for e in el for _ in range(2)]
    env.check([x[0] for x in rows] == names, 'element of each atom')
    for i, x in enumerate(rows):
        for j in range(3):
            near(env, env._parse(x[1 + j], False), pos[i, j], 8, 'average position')
    nt = env.p['nat']
    count = [list(typ).count(t) for t in range(nt)]
    U = env.arr('u', (nt, 3, 3), -0.5, 0.5)
    env.patch(d, 'get_mean_displacement_matrix', lambda use_average_positions=False: U * 1)
    kind = env.choice('coordinates', ['cart', 'crys', 'uvrs'])
    r, exc, text = env.printed(q.get_anisotropic_displacement_parameters, coordinate_type=kind)
    if exc is not None:
        env.fail('displacement parameters: ' + repr(exc))
        return
    rows = [l.split() for l in text.split('\n') if l.split()[:1] and l.split()[0] in ('Si', 'O')]
    env.check([x[0] for x in rows] == [species[t] for t in range(nt) for _ in range(count[t])], 'element of each atom')
    env.check('U11' in text and text.index('U11') < text.index('U22') < text.index('U33') < text.index('U23') < text.index('U13') < text.index('U12'), 'order of the columns')
    i = 0
    for t in range(nt):
        for _ in range(count[t]):
            if i < len(rows):
                for j, (a, b) in enumerate([(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]):
                    near(env, env._parse(rows[i][1 + j], False), r[t][a, b], 8, 'parameter printed')
            i += 1


@case('C40', quick=[dict(np=3, m=1)], thorough=[dict(np=3, m=2)], note='estimator, fit and matplotlib replaced by stand-ins; errors and heights positive')
def scan(env):
    """scan over the number of coefficients: the best fit is that with the smallest error"""
    np = env.np
    env.reset()
    PS = env.mod('dynaphopy.power_spectrum')
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    s = Setup(env, nat=1, nb=3)
    q = s.new()
    q.parameters.silent = env.flag('silent')
    plt = recorder(env, PS)
    grids = []

    def grid(shape, loc, colspan=1, **k):
        a = Axes()
        grids.append((loc, a))
        return a
    plt.subplot2grid = grid
    m, k = env.p['m'], env.p['np']
    scan = [10, 20, 40][:k]
    q.parameters.mem_scan_range = np.array(scan)
    bad = env.choice('failed', [-1, 0, 1])
    vq = env.carr('vq', (3, m), -1, 1)
    env.patch(q, 'get_vq', lambda: vq * 1)
    asked = []

    class Mem:
        @staticmethod
        def mem(f, v, dt, coefficients=None, **kw):
            i = len(asked)
            asked.append((v, dt, coefficients))
            return np.array([1.0, 2.0, 1.5]) * (1 + i)
    env.patch(PS, 'mem', Mem)
    W, E, A = env.vals('w', m * k, 0.1, 2), env.vals('e', m * k, 0.1, 1), env.vals('a', m * k, 0.1, 2)
    X = env.vals('x', m * k, 0.1, 2)
    made = []

    class Fit:
        curve_name = 'Shape'

        def __init__(self, f, y, **kw):
            self.i = len(made)
            made.append((y, kw))
            self._fit_params = [X[self.i]]

        def get_fitting(self):
            i = self.i
            return dict(all_good=i % k != bad, area=A[i], width=W[i], maximum=1.0, global_error=E[i], base_line=0.0, peak_position=X[i])

        def _function(self, f, x):
            return np.array(f) * x
        get_curve = _function
    env.patch_item(ff.fitting_functions, 0, Fit)
    q.parameters.fitting_function = 0
    r, exc, text = env.printed(q.phonon_width_scan_analysis)
    if exc is not None:
        env.fail('scan: ' + repr(exc))
        return
    env.check([a[2] for a in asked] == scan * m, 'every number of coefficients')
    for i, a in enumerate(asked):
        env.eq(np.array(a[0]), vq[:, i // k], 'signal of the mode')
        env.eq(a[1], q.dynamic.get_time_step_average(), 'time step')
    parts = text.split('Peak # ')[1:]
    env.check(len(parts) == m, 'a report per mode')
    for j, t in enumerate(parts):
        ok = [i for i in range(k) if i != bad]
        e = {i: E[j * k + i] for i in ok}
        best = ok[0]
        for i in ok[1:]:
            if bool(e[i] < e[best]):
                best = i
        b = j * k + best
        w = {i: np.sqrt(1 / e[i]) for i in ok}
        width = sum(w[i] * W[j * k + i] for i in ok) / sum(w.values())

        def line(key, want):
            l = after(t, key)
            env.check(len(l) == 1, 'line ' + key)
            if l:
                env.eq(numbers(env, l[0].replace(':', ' '))[0], want, key)
        line('Estimated width', width)
        line('Position (best fit)', X[b])
        line('Area (best fit)', A[b])
        line('Coefficients num (best fit)', scan[best])
        line('Fitting global error (best fit)', e[best])
        axes = dict(grids[3 * j:3 * j + 3])
        if len(axes) == 3:
            curve(env, axes[0, 0].lines[0], [scan[i] for i in ok], [W[j * k + i] for i in ok], 'widths drawn')
            env.eq(np.array(axes[0, 0].lines[1][0][1]), [width, width], 'mean width drawn')
            curve(env, axes[1, 0].lines[0], [scan[i] for i in ok], [w[i] for i in ok], 'errors drawn')
            curve(env, axes[1, 1].lines[0], [0.0, 0.5, 1.0], made[b][0], 'spectrum of the best fit')
            curve(env, axes[1, 1].lines[1], [0.0, 0.5, 1.0], np.array([0.0, 0.5, 1.0]) * X[b], 'curve of the best fit')
        else:
            env.fail('three panels')


@case('C40', quick=[dict()], note='the analyses themselves are stand-ins that record what they are given')
def handed(env):
    """peak analysis, modes drawn, structure files and energy distribution are those of the current state"""
    np = env.np
    from .h_quasi import Setup
    s = Setup(env, nat=1, nb=3)
    q = s.new()
    seen = []
    fa = env.mod('dynaphopy.analysis.fitting')
    env.patch(fa, 'phonon_fitting_analysis', lambda *a, **k: seen.append(('peaks', a, k)))
    env.patch('dynaphopy.interface.phonopy_link', 'get_equivalent_q_points_by_symmetry', lambda point, structure, *a, **k: [point])
    env.patch('dynaphopy.analysis.modes', 'plot_phonon_modes', lambda *a, **k: seen.append(('modes', a, k)))
    env.patch('dynaphopy.interface.iofile', 'write_xsf_file', lambda *a, **k: seen.append(('xsf', a, k)))
    env.patch('dynaphopy.analysis.energy', 'boltzmann_distribution', lambda *a, **k: seen.append(('energy', a, k)) or 300.0)
    if env.flag('asked before'):
        q.get_power_spectrum_phonon()
    z = env.real('q0', 0.1, 0.9)
    if env.flag('wave vector changed'):
        q.set_reduced_q_vector([z, 0.0, 0.0])
    shape = env.choice('shape', [0, 1, 2])
    q.select_fitting_function(shape)
    deg, sil = env.flag('symmetry'), env.flag('silent')
    q.parameters.use_symmetry, q.parameters.silent = deg, sil
    on = env.choice('projected on', [-1, 0])
    if on == 0:
        q.set_projection_onto_atom_type(0)
    v, exc = env.run(q.phonon_individual_analysis)
    if exc is not None or [x[0] for x in seen] != ['peaks']:
        env.fail('peak analysis: %r %r' % (exc, [x[0] for x in seen]))
        return
    _, a, k = seen.pop()
    names = ['original', 'ps_frequencies', 'harmonic_frequencies', 'thermal_expansion_shift', 'fitting_function_type', 'show_plots', 'use_degeneracy', 'show_occupancy']
    k = dict(zip(names, a), **k)
    env.eq(np.array(k['original']), np.array(q.get_power_spectrum_phonon()), 'spectra fitted')
    env.eq(np.array(k['ps_frequencies']), np.array(q.get_frequency_range()), 'frequencies of the spectra')
    env.eq(np.array(k['harmonic_frequencies']), np.array(q.get_frequencies()), 'harmonic frequencies')
    env.check(k.get('thermal_expansion_shift') is None, 'no shift of thermal expansion unless given')
    env.check(k.get('fitting_function_type', 0) == shape, 'shape')
    env.check(bool(k.get('show_plots', True)) == (not sil) and bool(k.get('use_degeneracy', True)) == deg, 'figures and degeneracy')
    env.check(bool(k.get('show_occupancy', True)) == (on < 0), 'occupation only for all the atoms')
    q.parameters.modes_vectors_scale = 7
    q.plot_eigenvectors()
    q.write_to_xfs_file('FILE')
    q.show_boltzmann_distribution()
    env.check([x[0] for x in seen] == ['modes', 'xsf', 'energy'], 'each asked once')
    by = {n: (a, k) for n, a, k in seen}
    a, k = by['modes']
    k = dict(zip(['structure', 'eigenvectors', 'q_vector', 'vectors_scale'], a), **k)
    env.check(k['structure'] is q.dynamic.structure and k.get('vectors_scale', 10) == 7, 'crystal and scale')
    env.eq(np.array(k['eigenvectors']), np.array(q.get_eigenvectors()), 'modes drawn')
    env.eq(np.array(k['q_vector']), np.array(q.get_q_vector()), 'wave vector of the modes')
    a, k = by['xsf']
    env.check('FILE' in list(a) + list(k.values()) and any(x is q.dynamic.structure for x in list(a) + list(k.values())), 'file and crystal')
    a, k = by['energy']
    env.check(any(x is q.dynamic for x in list(a) + list(k.values())) and any(x is q.parameters for x in list(a) + list(k.values())), 'trajectory and parameters')
