"""Renormalised modes and force constants (C20), stars of wave vectors (C30), files written (C31)"""
from vp.driver import case
from .h_structure import EL
from .h_quasi import Setup, estimator
from .h_dynamics import CENTRED

VASP = 15.633302
POINTS = [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0], [0.5, -0.5, 0.0]]
# two stars of which the members are far apart in the list and points close to others
MANY = [[0.0, 0.0, 0.0], [0.125, 0.0, 0.0], [0.5, 0.0, 0.0], [0.5, 0.125, 0.0], [0.0, 0.5, 0.0], [0.125, 0.5, 0.0], [0.5, 0.5, 0.0], [0.0, 0.125, 0.0]]


class Cell:
    def get_cell(self):
        return 'lattice'
    cell = property(get_cell)

    def get_scaled_positions(self):
        return 'positions'
    scaled_positions = property(get_scaled_positions)


class Phonon:
    """stand-in for phonopy: modes are given, force constants and cells recorded"""
    log = None
    modes = None

    def __init__(self, env, cell, log, modes):
        self.env, self.cell, self.log, self.modes = env, cell, log, modes
        self.fc = None
        self.primitive, self.supercell, self.symmetry = 'primitive', Cell(), 'symmetry'

    def set_force_constants(self, fc):
        self.fc = fc
    force_constants = property(lambda s: s.fc, set_force_constants)

    def get_primitive(self):
        return self.primitive

    def get_supercell(self):
        return self.supercell

    def get_frequencies_with_eigenvectors(self, q):
        return self.modes(q)


class Stub:
    """phonopy_link with a recorded phonopy below it"""

    def __init__(self, env, n, structure=None):
        np = env.np
        self.env, self.n = env, n
        self.L = env.mod('dynaphopy.interface.phonopy_link')
        self.phonons, self.made = [], []
        self.f = env.arr('hf', (n,), 0.3, 9)
        self.E = env.carr('ev', (n, n), -1, 1)
        env.patch(self.L, 'VaspToTHz', VASP, create=True)

        def get_phonon(structure, NAC=False, setup_forces=True, custom_supercell=None, symprec=None):
            p = Phonon(env, custom_supercell, None, lambda q: (self.f * (1 + q[0] + 2 * q[1]), self.E * (1 + 3 * q[0] + q[1])))
            p.nac, p.setup = NAC, setup_forces
            self.phonons.append(p)
            return p
        env.patch(self.L, 'get_phonon', get_phonon)
        stub = self

        class Back:
            def __init__(self, primitive, supercell):
                self.dm = None
                self.commensurate_points = np.array(POINTS)
                stub.made.append(self)

            def set_dynamical_matrices(self, dynmat):
                self.dm = [m for m in dynmat]

            def create_dynamical_matrices(self, eigenvalues, eigenvectors):
                self.dm = [sum((np.array([[w[s] * e[i, s] * np.conj(e[j, s]) for j in range(n)] for i in range(n)]) for s in range(n)),
                               np.zeros((n, n))) for w, e in zip(eigenvalues, eigenvectors)]

            def run(self):
                self.force_constants = 'constants %d' % len(stub.made)

            def get_commensurate_points(self):
                return self.commensurate_points

            def get_force_constants(self):
                return self.force_constants
        env.patch(self.L, 'DynmatToForceConstantsLegacy', Back)
        env.patch(self.L, 'set_tensor_symmetry_PJ', lambda *a: self.sym.append(a))
        self.sym = []
        # an array stands for the constants; the object handed on keeps it
        class FC(self.L.ForceConstants):
            def __init__(self, fc, supercell=None):
                self._force_constants = fc
                self._supercell = supercell
        env.patch(self.L, 'ForceConstants', FC)


def structure(env, nat, prim=None):
    np = env.np
    A = env.mod('dynaphopy.atoms')
    pos = np.array([[0.0, 0, 0], [0.4, 0.5, 0.25], [0.25, 0.75, 0.6]][:nat])
    return A.Structure(scaled_positions=pos, cell=np.diag([2.0, 2.5, 3.0]), masses=[10.0 + i for i in range(nat)],
                       atomic_elements=EL[:nat], primitive_matrix=np.identity(3) if prim is None else prim)


@case('C20', quick=[dict(nat=1), dict(nat=2)], thorough=[dict(nat=3)], note='phonopy replaced by a recording stand-in')
def rebuild(env):
    """modes handed over and read back give the dynamical matrices they came from"""
    np = env.np
    nat = env.p['nat']
    n = 3 * nat
    st = Stub(env, n)
    L = st.L
    s = structure(env, nat)
    pts = POINTS[:2]
    modes = [L.obtain_eigenvectors_and_frequencies(s, np.array(q), print_data=False) for q in pts]
    for q, (e, f) in zip(pts, modes):
        env.eq(np.array(e.shape), [n, nat, 3], 'modes by atom and direction')
        E = st.E * (1 + 3 * q[0] + q[1])
        for i in range(n):
            for a in range(nat):
                env.eq(e[i, a], E[3 * a:3 * a + 3, i], 'displacement of atom %d in mode %d' % (a, i))
        env.eq(f, st.f * (1 + q[0] + 2 * q[1]), 'frequencies at the wave vector asked for')
    g = env.arr('g', (2, n), -2, 9)
    for v in g.reshape(-1) if nat == 1 else g[:, 0]:
        env.assume(abs(v) > 0.01)
    if nat > 1:
        for v in g[:, 1:].reshape(-1):
            env.assume(v > 0.01)
    sup = np.diag([2, 2, 1])
    symm = env.flag('symmetrize')
    fc, exc = env.run(L.get_renormalized_force_constants, g, [e for e, f in modes], s, sup, symmetrize=symm)
    if exc is not None:
        env.fail('exception ' + repr(exc))
        return
    env.check(len(st.sym) == int(symm), 'symmetrised when asked only')
    if symm:
        env.check(st.sym[0][0] is fc.get_array() and tuple(st.sym[0][1:]) == ('lattice', 'positions', 'symmetry'), 'the constants returned are the ones symmetrised')
    made = st.made[-1]
    env.check(fc.get_array() == made.force_constants, 'the constants built are returned')
    env.check(bool(np.array_equal(fc.get_supercell(), sup)), 'with their supercell')
    env.check(bool(np.array_equal(st.phonons[-1].cell, sup)), 'the supercell given is used')
    for k, q in enumerate(pts):
        E = st.E * (1 + 3 * q[0] + q[1])
        for i in range(n):
            for j in range(n):
                ref = env.complex(0, 0)
                for m in range(n):
                    w = g[k, m] / VASP
                    w2 = abs(w) * w
                    ref = ref + E[i, m] * np.conj(E[j, m]) * w2
                env.eq(made.dm[k][i, j], ref, 'dynamical matrix %d [%d,%d]' % (k, i, j))


def fit_standin(env, calls):
    np = env.np

    def fit(original, ps_frequencies, harmonic_frequencies=None, thermal_expansion_shift=None, fitting_function_type=0,
            show_plots=True, use_degeneracy=True, show_occupancy=True):
        m = original.shape[1]
        calls.append(use_degeneracy)
        s = [sum((t + 1) * original[t, i] for t in range(len(ps_frequencies))) for i in range(m)]
        pos = [3 + s[i] * (1 + fitting_function_type) / 64 + harmonic_frequencies[i] / 4 + ps_frequencies[-1] / 8 for i in range(m)]
        if thermal_expansion_shift is not None:
            pos = [p + thermal_expansion_shift[i] for i, p in enumerate(pos)]
        return {'positions': pos, 'widths': [s[i] / 128 for i in range(m)], 'error': [0] * m, 'dt_Q2': s}
    env.patch('dynaphopy.analysis.fitting', 'phonon_fitting_analysis', fit)
    return fit


class Given:
    """force constants read from a file"""

    def __init__(self, sup):
        self.sup = sup

    def get_supercell(self):
        return self.sup

    def get_array(self):
        return self


class Ren(Setup):
    """analysis object over stand-ins for phonopy and for the peak fit"""

    def __init__(self, env, equivalent=True, points=POINTS, **k):
        Setup.__init__(self, env, T=3, nat=1, sup=(2, 2, 1), nb=3, **k)
        np = env.np
        L = env.mod('dynaphopy.interface.phonopy_link')
        self.L = L
        self.calls = []
        self.fit = fit_standin(env, self.calls)
        self.points = points
        self.asked = []

        def com(st, sup):
            self.asked.append(sup)
            return np.array(points)
        env.patch(L, 'get_commensurate_points', com)

        def star(q, st, symprec=None):
            q = [float(x) for x in q]
            return [q, [q[1], q[0], q[2]]] if q[0] != q[1] and equivalent else [q]
        env.patch(L, 'get_equivalent_q_points_by_symmetry', star)
        self.qha = env.arr('qha', (3,), -0.5, 0.5)

        def modes(structure, q, *a, **k):
            f = np.arange(1., 4.) + 3 * (q[0] + q[1])
            fc = structure.get_force_constants()
            return (self.e * (1 + 2 * q[0] + q[1]), f + self.qha * (1 + q[0] + 4 * q[1]) if isinstance(fc, str) else f)
        env.patch(L, 'obtain_eigenvectors_and_frequencies', modes)
        env.patch(L, 'get_force_constants_from_file', lambda fn, fc_supercell=None: 'qha')
        env.patch(L, 'obtain_phonopy_dos', lambda *a, **k: np.array([[0.0, 1.0, 2.5], [0.0, 1.0, 0.5]]))

        self.built = []

        def back(freq, ev, st, sup, symmetrize=False):
            self.built.append((freq, ev, sup, symmetrize))
            return len(self.built) - 1
        env.patch(L, 'get_renormalized_force_constants', back)

    def new(self, symmetry=True):
        qp = Setup.new(self)
        qp.parameters.use_symmetry = symmetry
        qp.dynamic.structure.set_force_constants(Given(self.env.np.diag([1, 2, 1])))
        return qp


def reference(env, s, qp, symmetry, shift, limits):
    """renormalised data point by point from new objects"""
    np = env.np
    freq, width, har = [], [], []
    for q in s.points:
        one = s.new(symmetry)
        one.parameters.fitting_function = qp.parameters.fitting_function
        one.select_power_spectra_algorithm(qp.parameters.power_spectra_algorithm)
        if limits:
            one.set_frequency_limits([0, 3.0])
        one.set_reduced_q_vector(q)
        ps = one.get_power_spectrum_phonon()
        d = s.fit(ps, one.get_frequency_range(), harmonic_frequencies=one.get_frequencies(), thermal_expansion_shift=None if shift is None else shift * (1 + q[0] + 4 * q[1]),
                  fitting_function_type=one.parameters.fitting_function)
        p, w = d['positions'], d['widths']
        if q == [0, 0, 0]:
            p = [0.0] * 3 + list(p[3:])
            w = [0.0] * 3 + list(w[3:])
        freq.append(p)
        width.append(w)
        har.append(one.get_frequencies())
    if symmetry:
        for i, q in enumerate(s.points):
            first = [j for j in range(i) if s.points[j] == [q[1], q[0], q[2]]]
            if first:
                freq[i], width[i] = freq[first[0]], width[first[0]]
    return np.array(freq), np.array(width), np.array(har)


@case('C20', quick=[dict(md=0), dict(md=1), dict(md=0, many=1)], max_paths=400, budget=100, note='phonopy, spectral estimators and peak fit are replaced by stand-ins')
def data(env):
    np = env.np
    many = env.p.get('many')
    s = Ren(env, points=MANY if many else POINTS)
    symmetry = env.flag('symmetry')
    auto = not many and env.flag('range from the harmonic spectrum')
    mdcell = bool(env.p['md'])
    qp = s.new(symmetry)
    qp.parameters.symmetrize = env.flag('symmetrize')
    qp.parameters.use_MD_cell_commensurate = mdcell
    qp.select_power_spectra_algorithm(env.choice('algorithm', [1] if many else [1, 2]))
    qp.select_fitting_function(env.choice('shape', [0] if many else [0, 1]))
    qha = env.flag('thermal expansion')
    if qha:
        qp.set_qha_force_constants('file')
    start = env.choice('start', [[0.0, 0.0, 0.0], [0.5, 0.5, 0.0]])
    qp.set_reduced_q_vector(start)
    if not many and env.flag('queried before'):
        qp.get_power_spectrum_phonon()
    d = qp.get_commensurate_points_data(auto_range=auto)
    again = qp.get_commensurate_points_data(auto_range=auto)
    env.eq(np.array(qp.get_reduced_q_vector()), start, 'the wave vector selected is kept')
    sup = np.diag([2, 2, 1]) if mdcell else np.diag([1, 2, 1])
    env.eq(np.array(d['fc_supercell']), sup, 'supercell of the renormalised constants')
    env.eq(np.array(s.asked[0]), sup, 'points commensurate with that supercell')
    env.check(len(d['q_points']) == len(s.points), 'every commensurate point')
    ev = d['eigenvectors']
    f, w, har = reference(env, s, qp, symmetry, s.qha if qha else None, auto)
    if qha:
        for q in (s.points[0], s.points[1], s.points[3]):
            x = s.new(symmetry)
            x.set_qha_force_constants('file')
            x.set_reduced_q_vector(q)
            env.eq(x.get_qha_shift(np.array(q)), s.qha * (1 + q[0] + 4 * q[1]), 'shift of the thermal expansion at a point')
    for i, q in enumerate(s.points):
        env.eq(np.array(d['q_points'][i]), q, 'wave vector %d' % i)
        env.eq(np.array(ev[i]), s.e * (1 + 2 * q[0] + q[1]), 'modes of point %d' % i)
        env.eq(np.array(d['frequencies'][i]), f[i], 'frequencies of point %d' % i)
        env.eq(np.array(d['linewidths'][i]), w[i], 'linewidths of point %d' % i)
        env.eq(np.array(d['frequency_shifts'][i]), f[i] - har[i], 'shifts of point %d' % i)
        env.eq(np.array(again['frequencies'][i]), f[i], 'asked again, point %d' % i)
    fc = qp.get_renormalized_force_constants()
    b = s.built[fc]
    env.eq(np.array(b[0]), f, 'force constants from the renormalised frequencies')
    env.eq(np.array(b[1]), np.array(ev), 'and the modes of the same points')
    env.eq(np.array(b[2]), sup, 'and the same supercell')
    env.check(b[3] == qp.parameters.symmetrize, 'symmetrised when asked')


@case('C20', quick=[dict()], max_paths=300, note='phonopy, spectral estimators and peak fit are replaced by stand-ins')
def changes(env):
    """a change of settings reaches the renormalised data"""
    np = env.np
    s = Ren(env, equivalent=False)
    ops = {
        'thermal expansion': lambda q: q.set_qha_force_constants('file'),
        'shape': lambda q: q.select_fitting_function(1),
        'algorithm': lambda q: q.select_power_spectra_algorithm(2),
        'coefficients': lambda q: q.set_number_of_mem_coefficients(9),
        'steps': lambda q: q.crop_trajectory(2),
        'wave vector': lambda q: q.set_reduced_q_vector([0.5, 0.5, 0.0]),
        'limits': lambda q: q.set_frequency_limits([1.0, 2.0]),
        'resolution': lambda q: q.set_spectra_resolution(0.25),
    }
    what = env.choice('change', sorted(ops))
    qp = s.new(False)
    qp.get_renormalized_force_constants()
    ops[what](qp)
    if env.flag('spectrum in between'):
        qp.get_power_spectrum_phonon()
        qp.get_power_spectrum_full()
    fc = s.built[qp.get_renormalized_force_constants()]
    d = qp.get_commensurate_points_data()
    ref = s.new(False)
    ops[what](ref)
    d2 = ref.get_commensurate_points_data()
    fc2 = s.built[ref.get_renormalized_force_constants()]
    env.eq(np.array(d['frequencies']), np.array(d2['frequencies']), 'frequencies after %s' % what)
    env.eq(np.array(d['linewidths']), np.array(d2['linewidths']), 'linewidths after %s' % what)
    env.eq(np.array(fc[0]), np.array(fc2[0]), 'force constants after %s' % what)


@case('C20', quick=[dict()], max_paths=900, budget=100, note='phonopy bands replaced by a stand-in')
def bands(env):
    """bands: harmonic, renormalised, shifts and widths belong to the same branch"""
    np = env.np
    s = Ren(env)
    L = s.L
    npt, nb, nr = 2, 3, 2
    H = env.arr('H', (nr, npt, nb), 0, 9)
    R = env.arr('R', (3, nr, npt, nb), 0, 9)
    perm = [[0, 1, 2], env.choice('order', [[0, 1, 2], [2, 0, 1], [1, 0, 2]])]
    hperm = [env.choice('harmonic order', [[0, 1, 2], [1, 2, 0]]), env.choice('harmonic order 2', [[0, 1, 2], [2, 1, 0]])]
    conn = env.flag('connection')
    inter = env.flag('interconnection')
    # the modes change along the first path: component i becomes turn[i] at its end
    turn = env.choice('change along the path', [[0, 1, 2], [1, 2, 0]]) if inter else [0, 1, 2]
    wid = env.flag('linewidths')
    lab = env.flag('labels')
    asked = []

    def P(o):
        m = np.zeros((3, 3), dtype=complex)
        for i, j in enumerate(o):
            m[i, j] = 1.0
        return m

    def link(structure, ranges, force_constants=None, NAC=False, band_resolution=30, band_connection=False):
        asked.append((force_constants, band_resolution, band_connection))
        k = None if force_constants is None else ids.setdefault(force_constants, len(ids))
        F = H if k is None else R[k]
        ev = []
        for r in range(nr):
            m = P(hperm[r] if k is None else perm[r])
            mt = np.array([m[turn.index(i)] for i in range(nb)]) if r == 0 else m
            # circularly polarised modes, each with a phase of its own
            ev.append(np.array([B(m, k, r)] * (npt - 1) + [B(mt, k, r)]))
        return [list(ranges), [np.array([0.0, 1.0]), np.array([1.0, 2.0])], [F[r] * 1 for r in range(nr)], ev]
    base = np.array([[1.0 + 0j, 1.0 + 0j, 0j], [1j, -1j, 0j], [0j, 0j, 2.0 + 0j]])

    def B(m, k, r):
        x = np.dot(base, m)
        return x * np.array([[1j, -1.0 + 0j, 1.0 + 0j][(i + r + (0 if k is None else k + 1)) % 3] for i in range(3)])
    ids = {}
    env.patch(L, 'obtain_phonon_dispersion_bands', link)
    qp = s.new(env.flag('symmetry'))
    rng = [[[0.0, 0, 0], [0.5, 0, 0]], [[0.5, 0, 0] if wid else [0.5, 0, 0.5], [0.5, 0.5, 0]]]
    names = [['G', 'X'], ['M', 'M']] if conn else [['G', 'X'], ['X', 'M']]
    qp.set_band_ranges({'ranges': rng, 'labels': names} if lab else rng)
    qp.parameters.symmetrize = wid != inter
    out = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=wid, band_connection=conn, interconnect_bands=inter)
    d = qp.get_commensurate_points_data()
    f, w = np.array(d['frequencies']), np.array(d['linewidths'])
    role = {}
    for fc, i in ids.items():
        role[i] = s.built[fc]
    env.eq(np.array(role[0][0]), f, 'renormalised bands from the renormalised frequencies')
    if wid:
        env.eq(np.array(role[1][0]), f + w / 2, 'upper limit half a linewidth above')
        env.eq(np.array(role[2][0]), f - w / 2, 'lower limit half a linewidth below')
    env.check(all(x[3] == (wid != inter) for x in s.built), 'symmetrised when asked')
    env.check(len(out) == nr, 'one entry per path')
    for r in range(nr):
        b = out[r]
        # mode with component k is column hperm[r][k] of the harmonic path and perm[r][k] of the renormalised one
        comp = [(hperm[0] if inter else hperm[r]).index(i) for i in range(nb)]
        if r:
            comp = [turn[k] for k in comp]
        ho = [hperm[r][k] for k in comp]
        o = [perm[r][k] for k in comp] if conn else [0, 1, 2]
        env.check(b['q_bounds'] == {'inf': rng[r][0], 'sup': rng[r][1]}, 'limits of path %d' % r)
        env.check(('labels' in b) == lab and (not lab or b['labels'] == {'inf': names[r][0], 'sup': names[r][1]}), 'labels of path %d' % r)
        env.eq(np.array(b['q_path_distances']), [r, r + 1.0], 'distances of path %d' % r)
        for i in range(nb):
            k = 'branch_%d' % i
            h = np.array([H[r, t, ho[i]] for t in range(npt)])
            x = [np.array([R[j, r, t, o[i]] for t in range(npt)]) for j in range(3)]
            env.eq(np.array(b['harmonic_frequencies'][k]), h, 'harmonic branch')
            env.eq(np.array(b['renormalized_frequencies'][k]), x[0], 'renormalised branch')
            env.eq(np.array(b['frequency_shifts'][k]), x[0] - h, 'shift of the branch')
            if wid:
                env.eq(np.array(b['linewidth_plus'][k]), x[1], 'upper limit of the branch')
                env.eq(np.array(b['linewidth_minus'][k]), x[2], 'lower limit of the branch')
                env.eq(np.array(b['linewidth'][k]), x[1] - x[2], 'linewidth of the branch')


@case('C20', quick=[dict()], note='phonopy replaced by a stand-in')
def mesh(env):
    np = env.np
    s = Ren(env)
    W = env.arr('mf', (4, 3), 0, 9)
    order = []

    def link(structure, force_constants, mesh=(40, 40, 40), NAC=False):
        order.append((force_constants, tuple(mesh)))
        return np.array(POINTS), np.array([1, 2, 2, 1]), W * (1 + np.sum(np.array(s.built[force_constants][0])))
    env.patch(s.L, 'obtain_phonopy_mesh_from_force_constants', link)
    qp = s.new(env.flag('symmetry'))
    qp.parameters.mesh_phonopy = [2, 2, 1]
    qp.parameters.symmetrize = env.flag('symmetrize')
    q, m, f, w = qp.get_mesh_frequencies_and_linewidths()
    d = qp.get_commensurate_points_data()
    env.eq(f, W * (1 + np.sum(np.array(d['frequencies']))), 'frequencies of the mesh from the renormalised frequencies')
    env.eq(w, W * (1 + np.sum(np.array(d['linewidths']))), 'linewidths of the mesh from the linewidths')
    env.check(all(x[1] == (2, 2, 1) for x in order), 'on the mesh asked for')
    env.check(all(x[3] == qp.parameters.symmetrize for x in s.built), 'symmetrised when asked')
    env.eq(np.array(m), [1, 2, 2, 1], 'multiplicity')
    # the file holds the same
    p = env.path('mesh.yaml')
    qp.write_mesh_data(p)
    y = env.load_yaml(p)
    for i in range(4):
        env.eq(np.array(y[i]['frequencies']), f[i], 'frequencies written', scale=1.0)
        env.eq(np.array(y[i]['linewidths']), w[i], 'linewidths written', scale=1.0)
        env.eq(np.array(y[i]['reduced_wave_vector']), POINTS[i], 'wave vector written')
        env.check(y[i]['multiplicity'] == [1, 2, 2, 1][i], 'multiplicity written')
