"""Figures (C38): a recording stand-in for matplotlib holds what is drawn"""
from vp.driver import case
from .h_quasi import Setup
from .h_renorm import Ren
from .h_structure import EL


class Axes:
    def __init__(self):
        self.lines, self.bars, self.fills, self.points, self.ticks = [], [], [], [], None
        self.titles, self.legends, self.art = [], [], []

    def plot(self, *a, **k):
        a = list(a)
        if a and isinstance(a[-1], str):
            k['fmt'] = a.pop()
        self.lines.append((a, k))
        return [k]
    plot3D = plot

    def bar(self, x, h, width=None, align=None, **k):
        self.bars.append((x, h, width, align))

    def fill_between(self, x, a, b, **k):
        self.fills.append((x, a, b))

    def scatter(self, x, y, **k):
        self.points.append((x, y))

    def xticks(self, x=None, labels=None, **k):
        self.ticks = (x, labels)

    def suptitle(self, t, **k):
        self.titles.append(t)
    title = suptitle

    def legend(self, *a, **k):
        self.legends.append(a)

    def add_artist(self, a):
        self.art.append(a)

    def get_legend_handles_labels(self):
        return [k for a, k in self.lines if k.get('label')], [k['label'] for a, k in self.lines if k.get('label')]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: Axes() if name.startswith('get_') else None


class Rc(dict):
    def by_key(self):
        return {'color': [0, 1, 2]}


class Pyplot(Axes):
    """figures by number; the functions of pyplot act on the current one"""

    def __init__(self):
        self.figures, self.now, self.shown = {}, None, 0
        self.rcParams = {'axes.prop_cycle': Rc()}

    def figure(self, n=None, **k):
        if n is None:
            n = max(self.figures, default=-1) + 1
        if n not in self.figures:
            self.figures[n] = Axes()
            self.figures[n].number = n
            self.figures[n].add_subplot = lambda *a, **k: self.figures[n]
        self.now = self.figures[n]
        return self.now

    def subplots(self, *a, **k):
        f = self.figure()

        def twin():
            f.twin = Axes()
            return f.twin
        f.twinx = twin
        return f, f

    def gca(self):
        return self.now or self.figure()

    def axes(self, *a, **k):
        # as matplotlib does since 3.5: new axes over the others
        self.now = Axes()
        return self.now

    def show(self, *a, **k):
        self.shown += 1
        self.now = None

    def close(self, *a, **k):
        self.figures.clear()
        self.now = None


def _ylim(self, *a, **k):
    return (0.0, 1.0)


Axes.get_ylim = _ylim


def on_current(name):
    return lambda self, *a, **k: getattr(Pyplot.gca(self), name)(*a, **k)


for _n in ('plot', 'bar', 'fill_between', 'scatter', 'xticks', 'suptitle', 'title', 'legend', 'get_legend_handles_labels'):
    setattr(Pyplot, _n, on_current(_n))


def recorder(env, *mods):
    p = Pyplot()
    for m in mods:
        env.patch(m, 'plt', p)
    return p


def script_recorder(env):
    import sys
    p = Pyplot()
    if env.sym:
        m = env.world.stubs['matplotlib']
    else:
        import matplotlib.pyplot
        m = sys.modules['matplotlib']
    env.patch(m, 'pyplot', p)
    return p


def curve(env, line, x, y, label):
    """one line drawn: abscissae and ordinates"""
    np = env.np
    a, k = line
    if len(a) != 2:
        env.fail(label + ': %d arguments' % len(a))
        return
    env.eq(np.array(a[0]), np.array(x), label + ': abscissae')
    env.eq(np.array(a[1]), np.array(y), label)


def tick_names(labels):
    """names under the axis: one where two paths meet, both where they do not"""
    nice = lambda t: t.replace('GAMMA', '$\\Gamma$')
    out = [nice(labels[0][0])]
    for a, b in zip(labels, labels[1:]):
        out.append(nice(a[1]) if a[1] == b[0] else nice(a[1]) + '/' + nice(b[0]))
    return out + [nice(labels[-1][1])]


def check_ticks(env, ax, labels, starts, end):
    if labels is None:
        env.check(ax.ticks is None, 'no names when none are given')
        return
    if ax.ticks is None:
        env.fail('no names under the axis')
        return
    env.eq(env.np.array(ax.ticks[0]), list(starts) + [end], 'places of the names')
    env.check([str(t) for t in ax.ticks[1]] == tick_names(labels), 'names of the points: %s' % (ax.ticks[1],))


PATHS = [[['GAMMA', 'X'], ['X', 'M']], [['GAMMA', 'X'], ['M', 'GAMMA']], [['X', 'GAMMA'], ['GAMMA', 'X']], [['X', 'M'], ['R', 'X']]]


@case('C38', quick=[dict(np=2)], thorough=[dict(np=4)], note='phonopy and matplotlib replaced by stand-ins')
def dispersion(env):
    """harmonic dispersion"""
    np = env.np
    env.reset()
    s = Setup(env, nat=1, nb=3)
    plt = recorder(env, s.top)
    n = env.p['np']
    L = env.mod('dynaphopy.interface.phonopy_link')
    B = env.arr('B', (2, n, 3), -1, 9)
    D = [np.arange(n) * 0.5, 1.0 + np.arange(n) * 0.25]
    asked = []

    def bands(structure, ranges, *a, **k):
        asked.append((ranges, k.get('NAC')))
        return [list(ranges), D, [B[0] * 1, B[1] * 1], [None, None]]
    env.patch(L, 'obtain_phonon_dispersion_bands', bands)
    q = s.new()
    q.parameters.use_NAC = env.flag('NAC')
    rng = [[[0.0, 0, 0], [0.5, 0, 0]], [[0.5, 0, 0], [0.5, 0.5, 0]]]
    labels = env.choice('labels', [None] + PATHS)
    q.set_band_ranges(rng if labels is None else {'ranges': rng, 'labels': labels})
    v, exc = env.run(q.plot_phonon_dispersion_bands)
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    env.check(len(plt.figures) == 1 and plt.shown == 1, 'one figure')
    ax = plt.figures[0]
    env.check(asked == [(rng, q.parameters.use_NAC)], 'bands of the paths selected')
    env.check(len(ax.lines) == 2, 'one set of curves per path')
    for r in range(2):
        curve(env, ax.lines[r], D[r], B[r], 'path %d' % r)
    check_ticks(env, ax, labels, [0.0, 1.0], 1.0 + (n - 1) * 0.25)
    # the same bands printed
    v, exc, text = env.printed(q.print_phonon_dispersion_bands)
    env.check(exc is None, 'bands printed')
    q2 = s.new()
    q2.parameters.use_NAC = q.parameters.use_NAC
    q2.set_band_ranges(rng if labels is None else {'ranges': rng, 'labels': labels})
    del asked[:]
    v, exc, text2 = env.printed(q2.print_phonon_dispersion_bands)
    env.check(exc is None and asked == [(rng, q.parameters.use_NAC)], 'bands of the paths selected are printed')
    for t in (text, text2):
        rows = [[env._parse(x, False) for x in l.split()] for l in t.strip().split('\n') if l.strip()]
        ok = len(rows) == 2 * n and all(len(x) == 4 for x in rows)
        env.check(ok, 'a row per wave vector')
        if not ok:
            continue
        for r in range(2):
            for i in range(n):
                env.eq(rows[r * n + i][0], D[r][i], 'distance printed', scale=1.0)
                env.eq(np.array(rows[r * n + i][1:]), B[r][i], 'frequencies printed', scale=1.0)


@case('C38', quick=[dict(nb=2)], thorough=[dict(nb=4)], note='matplotlib replaced by a stand-in')
def renormalised(env):
    """renormalised dispersion, linewidths, shifts"""
    np = env.np
    env.reset()
    s = Setup(env, nat=1, nb=3)
    plt = recorder(env, s.top)
    nb, nr, n = env.p['nb'], 2, 2
    names = ['branch_%d' % i for i in range(nb)]
    keys = ['renormalized_frequencies', 'harmonic_frequencies', 'frequency_shifts', 'linewidth']
    V = {k: env.arr(k[:2], (nr, nb, n), 0, 9) for k in keys}
    D = [[0.0, 0.5], [1.0, 1.75]]
    labels = env.choice('labels', [None] + PATHS)
    asked = []
    q = s.new()

    def get(**k):
        asked.append(k)
        out = []
        for r in range(nr):
            e = {'q_path_distances': np.array(D[r]), 'q_bounds': {'inf': [0, 0, 0], 'sup': [0, 0, 0.5]}}
            for key in keys:
                if key != 'linewidth' or k.get('with_linewidths'):
                    e[key] = {names[i]: [V[key][r, i, t] for t in range(n)] for i in range(nb)}
            if labels is not None:
                e['labels'] = {'inf': labels[r][0], 'sup': labels[r][1]}
            out.append(e)
        return out
    env.patch(q, 'get_renormalized_phonon_dispersion_bands', get)
    which = env.choice('figure', ['dispersion', 'linewidths'])
    if which == 'dispersion':
        wid, har = env.flag('with linewidths'), env.flag('with harmonic')
        opt = {'plot_linewidths': wid, 'plot_harmonic': har}
        if env.flag('only what differs from the defaults'):
            opt = {k: v for k, v in opt.items() if v != (k == 'plot_harmonic')}
        v, exc = env.run(q.plot_renormalized_phonon_dispersion_bands, **opt)
        if exc is not None:
            env.fail('plot: ' + repr(exc))
            return
        env.check(len(plt.figures) == 1 and plt.shown == 1, 'one figure')
        ax = plt.figures[0]
        for name, key, yes in (('Renormalized', keys[0], True), ('Harmonic', keys[1], har)):
            got = [l for l in ax.lines if l[1].get('label') == name]
            env.check(len(got) == (nr if yes else 0), '%s: one set of curves per path' % name)
            for r in range(len(got)):
                curve(env, got[r], D[r], np.array([[V[key][r, i, t] for i in range(nb)] for t in range(n)]), '%s, path %d' % (name, r))
        env.check(len(ax.fills) == (nr * nb if wid else 0), 'a band of the width per branch')
        if wid and len(ax.fills) == nr * nb:
            for r in range(nr):
                for i in range(nb):
                    x, a, b = ax.fills[r * nb + i]
                    f, w = V[keys[0]][r, i], V['linewidth'][r, i]
                    env.eq(np.array(x), D[r], 'width drawn at the points of the path')
                    env.eq(np.array(a) + np.array(b), 2 * f, 'width drawn around the renormalised branch')
                    env.eq(abs(np.array(a) - np.array(b)), w, 'width drawn is the linewidth')
        for t in ax.legends:
            if t:
                for h, name in zip(t[0], t[1]):
                    env.check(h.get('label') == name, 'legend names its curve')
        figs = [ax]
    else:
        v, exc = env.run(q.plot_linewidths_and_shifts_bands)
        if exc is not None:
            env.fail('plot: ' + repr(exc))
            return
        env.check(bool(asked[0].get('band_connection')) and bool(asked[0].get('interconnect_bands')), 'branches connected along the path')
        env.check(len(plt.figures) == 4, 'four figures')
        title = {'Phonon linewidths': 'linewidth', 'Harmonic phonon dispersion relations': keys[1], 'Frequency shifts': keys[2],
                 'Renormalized phonon dispersion relations': keys[0]}
        seen = set()
        figs = list(plt.figures.values())
        for ax in figs:
            key = title.get(ax.titles[0]) if ax.titles else None
            if key is None:
                env.fail('title %s' % (ax.titles,))
                continue
            seen.add(key)
            env.check(len(ax.lines) == nr * nb, '%s: one curve per branch and path' % key)
            for r in range(nr):
                for i in range(nb):
                    l = ax.lines[r * nb + i]
                    curve(env, l, D[r], V[key][r, i], '%s, branch %d' % (key, i))
                    env.check(int(l[1]['color']) == i % 3, 'a branch keeps its colour')
        env.check(len(seen) == 4, 'each figure shows another quantity')
    for ax in figs:
        check_ticks(env, ax, labels, [D[0][0], D[1][0]], D[1][1])


@case('C38', quick=[dict(n=3, nb=2)], thorough=[dict(n=5, nb=3)], note='phonopy and matplotlib replaced by stand-ins')
def spectra(env):
    """power spectra and densities of states"""
    np = env.np
    env.reset()
    s = Setup(env, nat=2, nb=2)
    plt = recorder(env, s.top)
    n, nb = env.p['n'], env.p['nb']
    L = env.mod('dynaphopy.interface.phonopy_link')
    q = s.new()
    fr = np.arange(n) * 0.5
    q.parameters.frequency_range = fr
    kind = env.choice('figure', ['full', 'wave vector', 'phonon', 'dos'])
    y = env.vals('y', n, 0, 9)
    Y = env.arr('Y', (n, nb), 0, 9)
    dos = {None: env.arr('d0', (2, n), 0, 9), 'fc': env.arr('d1', (2, n), 0, 9)}
    asked = []

    def get_dos(structure, mesh=(40, 40, 40), force_constants=None, freq_min=None, freq_max=None, freq_pitch=None, projected_on_atom=-1, NAC=False):
        asked.append((tuple(mesh), freq_min, freq_max, freq_pitch, projected_on_atom, NAC, force_constants))
        return dos[force_constants]
    env.patch(L, 'obtain_phonopy_dos', get_dos)
    q.parameters.mesh_phonopy = [3, 4, 5]
    q.parameters.use_NAC = env.flag('NAC')
    on = env.choice('atom', [-1, 1])
    if on >= 0:
        q.set_projection_onto_atom_type(on)
    ren = env.flag('renormalised')
    env.patch(q, 'get_power_spectrum_full', lambda: np.array(y))
    env.patch(q, 'get_power_spectrum_wave_vector', lambda: np.array(y))
    env.patch(q, 'get_power_spectrum_phonon', lambda: Y * 1)
    area = sum((y[i] + y[i + 1]) * 0.25 for i in range(n - 1)) if n == 2 else None
    if n == 3:
        area = (y[0] + 4 * y[1] + y[2]) * 0.5 / 3
    if n == 5:
        area = (y[0] + 4 * y[1] + 2 * y[2] + 4 * y[3] + y[4]) * 0.5 / 3
    have = True
    if kind == 'full':
        have = env.flag('forces available')
        env.patch(q.dynamic.structure, 'forces_available', lambda: have)
        if ren:
            if not hasattr(q, '_renormalized_force_constants'):
                raise RuntimeError('results are kept elsewhere')
            q._renormalized_force_constants = 'fc'
        v, exc, text = env.printed(q.plot_power_spectrum_full)
    elif kind == 'wave vector':
        v, exc, text = env.printed(q.plot_power_spectrum_wave_vector)
    elif kind == 'phonon':
        v, exc, text = env.printed(q.plot_power_spectrum_phonon)
    else:
        v, exc, text = env.printed(q.plot_dos_phonopy, **({'force_constants': 'fc'} if ren else {}))
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    f = [plt.figures[k] for k in sorted(plt.figures)]
    if kind in ('full', 'wave vector'):
        env.check(len(f) == 1 and len(f[0].lines) == 1, 'one curve')
        curve(env, f[0].lines[0], fr, y, kind + ' spectrum')
        line = [t for t in text.split('\n') if 'Total Area' in t]
        env.check(len(line) == 1, 'area printed')
        got = env._parse(line[0].split(':')[-1].split()[0], False) if line else None
        if got is not None:
            env.eq(got, area, 'area printed is the integral of the curve')
    if kind == 'phonon':
        env.check(len(f) == nb, 'one figure per mode')
        for i in range(nb):
            env.check(f[i].titles[0].split()[-1] == str(i + 1), 'mode in the title')
            env.check(len(f[i].lines) == 1, 'one curve')
            curve(env, f[i].lines[0], fr, Y[:, i], 'spectrum of mode %d' % (i + 1))
    if kind in ('full', 'dos'):
        ax = f[0].twin if kind == 'full' else f[0]
        want = ([None] if have else []) + (['fc'] if ren else [])
        env.check([a[-1] for a in asked] == want, 'densities of states asked for')
        env.check(len(ax.lines) == len(want), 'densities of states drawn')
        for l, k, a in zip(ax.lines, want, asked):
            curve(env, l, dos[k][0], dos[k][1], 'density of states')
            env.check(('enormalized' in l[1]['label']) == (k == 'fc'), 'named for what it is')
            env.check(a[0] == (3, 4, 5) and a[5] == q.parameters.use_NAC and a[4] == on, 'mesh, correction and atom selected')
            if kind == 'full':
                env.eq(np.array([a[1], a[2], a[3]]), [fr[0], fr[-1], 0.5], 'range and step of the spectrum')


@case('C38', quick=[dict(T=3)], thorough=[dict(T=5)], note='matplotlib replaced by a stand-in')
def series(env):
    """quantities against time: the instant of each step"""
    np = env.np
    env.reset()
    D, A, top = env.mod('dynaphopy.dynamics'), env.mod('dynaphopy.atoms'), env.mod('dynaphopy')
    plt = recorder(env, top)
    T, N = env.p['T'], 4
    st = A.Structure(scaled_positions=np.array([[0.0, 0, 0], [0.4, 0.5, 0.25]]), cell=np.diag([2.0, 2.5, 3.0]), masses=[10.0, 20.0],
                     atomic_elements=EL[:2], primitive_matrix=np.identity(3))
    x, v = env.arr('x', (T, N, 3), 0, 3), env.arr('v', (T, N, 3), -9, 9)
    en = env.vals('en', T, -9, 9)
    dt = env.choice('dt', [0.25, 0.0078125])
    tm = env.array(np.array([dt * i for i in range(T)]), 'f')
    d = D.Dynamics(structure=st, velocity=env.array(v, 'c'), trajectory=env.array(x, 'c'), time=tm, energy=np.array(en),
                   supercell=np.diag([2.0, 5.0, 3.0]))
    q = top.Quasiparticle(d)
    kind = env.choice('figure', ['trajectory', 'velocity', 'wave vector', 'phonon', 'energy'])
    cv, cq = env.carr('cv', (T, 2, 3), -9, 9), env.carr('cq', (T, 3), -9, 9)
    env.patch(q, 'get_vc', lambda: cv * 1)
    env.patch(q, 'get_vq', lambda: cq * 1)
    sel = env.choice('selected', [None, 'several'])
    atoms, co = ([1, 0], [2, 0]) if sel else ([0], [0])
    kw = dict(atoms=list(atoms), coordinates=list(co)) if sel else {}
    if kind == 'trajectory':
        r, exc = env.run(q.plot_trajectory, **kw)
        want = [[x[t, a, i] for t in range(T)] for a in atoms for i in co]
    elif kind == 'velocity':
        r, exc = env.run(q.plot_velocity, **kw)
        want = [[v[t, a, i] for t in range(T)] for a in atoms for i in co]
    elif kind == 'wave vector':
        r, exc = env.run(q.plot_vc, **kw)
        want = [[np.real(cv)[t, a, i] for t in range(T)] for a in atoms for i in co]
    elif kind == 'phonon':
        modes = [2, 0] if sel else [0]
        r, exc = env.run(q.plot_vq, **(dict(modes=list(modes)) if sel else {}))
        want = [[np.real(cq)[t, i] for t in range(T)] for i in modes]
    else:
        r, exc = env.run(q.plot_energy)
        want = [en]
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    ax = plt.figures[0]
    env.check(len(plt.figures) == 1 and len(ax.lines) == len(want), 'curves drawn')
    for l, w in zip(ax.lines, want):
        curve(env, l, [dt * i for i in range(T)], w, kind)
    if kind in ('trajectory', 'velocity', 'wave vector'):
        names = [[int(c) for c in l[1]['label'].replace(':', ' ').split() if c.isdigit()] for l in ax.lines]
        env.check(names == [[a, i] for a in atoms for i in co], 'names of the curves')


@case('C38', quick=[dict()], note='the Gaussian fit and matplotlib replaced by stand-ins')
def displacements(env):
    """distribution of the displacements: bars at the centres of their bins"""
    np = env.np
    env.reset()
    s = Setup(env, T=3, nat=2, nb=2, sup=(1, 1, 1))
    plt = recorder(env, s.top)
    ff = env.mod('dynaphopy.analysis.fitting.fitting_functions')
    n = 3
    # samples of two atoms along the direction; the range is that of both
    lo, size = env.real('lo', -0.4, -0.1), env.real('size', 0.1, 0.4)
    fr = env.choice('samples', [[[0, 0.3125, 1], [0.5, 0.75, 0.4375]], [[0.375, 0.5, 0.9375], [1, 0.25, 0]]])
    T = 3
    z = env.arr('z', (T, 2), -0.3, 0.3)
    along = [[lo + size * fr[a][t] for a in range(2)] for t in range(T)]
    s.T = T
    s.x = np.array([[[s.pos[a, 0] * s.c[0, 0] + along[t][a] * 3 / 5, s.pos[a, 1] * s.c[1, 1] - along[t][a] * 4 / 5, s.pos[a, 2] * s.c[2, 2] + z[t, a]]
                     for a in range(2)] for t in range(T)])
    w = size / n
    centres = [lo + w * i + w / 2 for i in range(n)]
    h = [[sum(1 for x in fr[a] if i <= n * x < i + 1 or (i == n - 1 and x == 1)) / (w * T) for i in range(n)] for a in range(2)]
    P, W, E = env.vals('P', 2, -1, 1), env.vals('W', 2, 0.1, 1), env.vals('E', 2, 0, 1)
    made = []
    fails = env.choice('fit fails', [None, 0, 1])

    class Gauss:
        curve_name = 'G'

        def __init__(self, x, y, guess_height=None, guess_position=None):
            self.i = len(made)
            made.append((x, y))

        def get_fitting(self):
            if self.i == fails:
                raise RuntimeError('no fit')
            return {'peak_position': P[self.i], 'width': W[self.i], 'global_error': E[self.i], 'base_line': 0.0, 'maximum': 1.0,
                    'area': 1.0}

        def get_curve(self, x):
            return np.array(x) * W[self.i] + P[self.i]
    env.patch(ff, 'Gaussian_function', Gauss)
    q = s.new()
    q.parameters.number_of_bins_histogram = n
    direction = [3, -4, 0]
    r, exc, text = env.printed(q.plot_trajectory_distribution, direction)
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    env.check(len(made) == 2, 'one fit per atom')
    out = {k: [env._parse(t.split()[-2], False) for t in text.split('\n') if t.startswith(k)]
           for k in ('Mean', 'Standard deviation')}
    ok = [i for i in range(2) if i != fails]
    for k, v in (('Mean', P), ('Standard deviation', W)):
        env.check(len(out[k]) == len(ok), k + ' printed')
        for g, i in zip(out[k], ok):
            env.eq(g, v[i], k + ' printed', scale=1.0)
    bars = [plt.figures[k] for k in sorted(plt.figures) if plt.figures[k].bars]
    env.check(len(bars) == 2, 'one figure per atom')
    for i, f in enumerate(bars):
        env.eq(np.array(made[i][0]), centres, 'distribution fitted at the centres of the bins')
        env.eq(np.array(made[i][1]), h[i], 'distribution fitted')
        x, y, width, align = f.bars[0]
        env.check(align == 'center', 'bars centred')
        env.eq(np.array(x), centres, 'bars at the centres of the bins')
        env.eq(np.array(y), h[i], 'heights')
        env.eq(width, w, 'width of the bars')
        env.check('Element %s' % EL[i] in f.titles[1] or 'Element %s' % EL[i] in f.titles[0], 'element in the title')


def frame(env, lines, c):
    """the lines drawn are the twelve edges of the cell (each perhaps more than once, in either direction)"""
    def same(a, b):
        d = a - b
        return bool(env.num(d).isconst() and d == 0) if env.sym else abs(d) < 1e-7

    def point(k):
        return [sum((k[i] * c[i, j] for i in range(3)), env.num(0)) for j in range(3)]
    corner = {(i, j, k): point((i, j, k)) for i in (0, 1) for j in (0, 1) for k in (0, 1)}

    def name(p):
        for k, v in corner.items():
            if all(same(a, b) for a, b in zip(p, v)):
                return k
    drawn = set()
    for l in lines:
        xyz = l[0]
        drawn.add(frozenset(name([xyz[j][e] for j in range(3)]) for e in (0, 1)))
    want = {frozenset((a, b)) for a in corner for b in corner if sum(abs(x - y) for x, y in zip(a, b)) == 1}
    env.check(drawn == want, 'edges of the cell')


@case('C38', quick=[dict(lat='p', nat=2), dict(lat='bcc', nat=2)], thorough=[dict(lat='fcc', nat=2)], note='matplotlib replaced by a stand-in')
def modes(env):
    """displacement of every atom of the cell in each mode, to scale"""
    np = env.np
    from .h_dynamics import crystal
    env.reset()
    M = env.mod('dynaphopy.analysis.modes')
    plt = recorder(env, M)
    s, c, cart, m, typ = crystal(env, env.p['lat'], env.p['nat'], 'diag', species=['Si', 'O'])
    nb, nat = 2, env.p['nat']
    n = len(typ)
    e = env.carr('e', (nb, nat, 3), -1, 1)
    scale = env.real('scale', 1, 9)
    arrows = []

    def arrow(x, y, z, *a, **k):
        arrows.append((x, y, z))
        return len(arrows) - 1
    env.patch(M, 'Arrow3D', arrow)

    class Lines:
        @staticmethod
        def Line2D(*a, **k):
            return k.get('c', k.get('color'))
    env.patch(M, 'lines', Lines)
    k = env.choice('wave vector', [[0, 0, 0], [1, 0, 0], [0, 1, 1]])
    q = np.array([0.5 * a for a in k])
    prim = env.flag('primitive cell')
    r, exc = env.run(M.plot_phonon_modes, s, e, q, vectors_scale=scale, draw_primitive=prim)
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    env.check(len(plt.figures) == nb and len(arrows) == nb * n, 'an arrow per atom in a figure per mode')
    el = [str(x) for x in s.get_atomic_elements()]
    for b, f in enumerate(plt.figures[k] for k in sorted(plt.figures)):
        marks = [l for l in f.lines if l[1].get('fmt') == 'o']
        env.check(len(marks) == n and len(f.legends) == 1, 'a mark per atom, one legend')
        named = {str(x): col for col, x in zip(*f.legends[0][:2])}
        for i in range(n):
            for j in range(3):
                env.eq(np.array(marks[i][0][j]), [cart[i][j]], 'place of the atom')
            env.check(named.get(el[i]) == marks[i][1]['color'], 'colour of the element')
        frame(env, [l for l in f.lines if l[1].get('fmt') != 'o'], np.array(s.get_primitive_cell()) if prim else c)
    for b in range(nb):
        for i in range(n):
            t = typ[i]
            ph = 1j * np.dot(cart[i], q)
            want = np.real(np.array(e[b, t]) / np.sqrt(m[i]) * np.exp(ph) * scale)
            for j in range(3):
                a = arrows[b * n + i][j]
                env.eq(a[0], cart[i][j], 'arrow starts at the atom')
                env.eq(a[1] - a[0], want[j], 'displacement of the atom')


@case('C38', quick=[dict(n=3, nb=2)], note='matplotlib replaced by a stand-in')
def mesh(env):
    """linewidth against frequency over the mesh"""
    np = env.np
    env.reset()
    s = Setup(env, nat=1, nb=3)
    plt = recorder(env, s.top)
    n, nb = env.p['n'], env.p['nb']
    q = s.new()
    f, w = env.arr('f', (n, nb), 0, 9), env.arr('w', (n, nb), 0, 2)
    env.patch(q, 'get_mesh_frequencies_and_linewidths', lambda: (np.zeros((n, 3)), np.array([1, 2, 1]), f * 1, w * 1))
    r, exc = env.run(q.plot_frequencies_vs_linewidths)
    if exc is not None:
        env.fail('plot: ' + repr(exc))
        return
    pts = plt.figures[0].points
    xs = [np.array(x) for x, y in pts]
    total = sum(x.size for x in xs)
    env.check(total == n * nb, 'every point of the mesh and mode')
    if total == n * nb:
        X = np.concatenate([x.reshape(-1) for x in xs])
        Y = np.concatenate([np.array(y).reshape(-1) for x, y in pts])
        # drawn branch by branch or point by point
        for order in ([(t, i) for i in range(nb) for t in range(n)], [(t, i) for t in range(n) for i in range(nb)]):
            if bool(np.all(abs(X - np.array([f[k] for k in order])) < 1e-9)):
                env.eq(Y, np.array([w[k] for k in order]), 'linewidth of the same mode')
                return
        env.eq(X, np.array([f[t, i] for i in range(nb) for t in range(n)]), 'frequencies of the modes')
