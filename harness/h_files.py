"""Stars of wave vectors (C30), files written by the analysis object (C31)"""
from vp.driver import case
from .h_structure import EL
from .h_quasi import Setup
from .h_renorm import Ren, POINTS
from .h_dynamics import CENTRED

# rotations of reciprocal space in the basis of the conventional cell: columns are images of the axes
ROT = {
    'fourfold z': [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
    'twofold x': [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
    'inversion': [[-1, 0, 0], [0, -1, 0], [0, 0, -1]],
    'mirror xy': [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    'threefold': [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    'hexagonal': [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
}


def star_of(env, q, ops, P):
    """images of the wave vector with no negative component, each once"""
    np = env.np
    Pn = np.array(P)
    inv = np.linalg.inv(Pn)
    out = [[x for x in q]]
    for o in ops:
        # components in the conventional basis, rotated, and back
        c = [sum(q[k] * inv[k, i] for k in range(3)) for i in range(3)]
        r = [sum(c[j] * o[i][j] for j in range(3)) for i in range(3)]
        p = [sum(r[k] * Pn[k, i] for k in range(3)) for i in range(3)]
        if all(bool(x >= 0) for x in p):
            out.append(p)
    uniq = []
    for p in out:
        if not any(all(bool(a == b) for a, b in zip(p, u)) for u in uniq):
            uniq.append(p)
    return uniq


@case('C30', quick=[dict(lattice=l, ops=o) for l in ('p', 'fcc') for o in (('fourfold z', 'inversion'), ('mirror xy', 'twofold x'))] +
      [dict(lattice='p', ops=('hexagonal',)), dict(lattice='bcc', ops=('threefold',))],
      thorough=[dict(lattice=l, ops=o) for l in ('p', 'fcc', 'bcc', 'base') for o in
                (('fourfold z', 'inversion'), ('mirror xy', 'twofold x'), ('threefold', 'hexagonal'), ('fourfold z', 'mirror xy', 'inversion'))],
      max_paths=2000, budget=60, note='the symmetry finder of phonopy is replaced by a given list of rotations')
def star(env):
    np = env.np
    L = env.mod('dynaphopy.interface.phonopy_link')
    A = env.mod('dynaphopy.atoms')
    P = CENTRED[env.p['lattice']][0] if env.p['lattice'] != 'p' else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    ops = [ROT[o] for o in env.p['ops']]
    given = []

    class Symmetry:
        def __init__(self, cell, symprec=None, **k):
            given.append((cell, symprec))
            self.reciprocal_operations = np.array([np.identity(3, dtype=int)] + [np.array(o) for o in ops])

    class Atoms:
        def __init__(self, **k):
            self.__dict__.update(k)
    env.patch(L, 'Symmetry', Symmetry)
    env.patch(L, 'PhonopyAtoms', Atoms)
    cell = np.diag([2.0, 2.5, 3.0])
    pos = np.array([[0.0, 0, 0], [0.4, 0.5, 0.25]])
    s = A.Structure(scaled_positions=pos, cell=cell, masses=[10.0, 20.0], atomic_elements=EL[:2], primitive_matrix=np.array(P))
    zero = env.choice('plane', [None, 2, 0])
    q = [0.0 if i == zero else env.real('q%d' % i, 0, 1) for i in range(3)]
    if not env.sym:
        # floating point: equal images must not differ by rounding
        q = [round(float(x) * 64) / 64 for x in q]
    ref = star_of(env, q, ops, P)
    got = L.get_equivalent_q_points_by_symmetry(q, s)
    env.check(len(got) == len(ref), 'every image once')
    if len(got) != len(ref):
        return
    for p in ref:
        env.check(any(all(bool(a == b) for a, b in zip(p, g)) for g in got), 'image of the wave vector is in the star')
    if given:
        c, prec = given[-1]
        env.eq(np.array(c.cell), cell, 'cell handed to the symmetry finder')
        env.eq(np.array(c.scaled_positions), pos, 'positions handed to the symmetry finder')
        env.check(list(c.symbols) == EL[:2], 'elements handed to the symmetry finder')
        env.check(prec == env.mod('dynaphopy.parameters').Parameters().symprec, 'with the tolerance of the parameters')


@case('C30', quick=[dict()], thorough=[dict(big=1)], note='spectral estimators, harmonic modes and the star are stand-ins')
def average(env):
    """spectra with symmetry are the mean over the star, and the wave vector asked for stays selected"""
    np = env.np
    s = Setup(env, T=3, sup=(2, 2, 1), nat=1, nb=3)
    star = env.choice('star', [[[0.5, 0.0, 0.0]], [[0.5, 0.0, 0.0], [0.0, 0.5, 0.0]], [[0.0, 0.5, 0.0], [0.5, 0.5, 0.0], [0.5, 0.0, 0.0]]])
    asked = []

    def link(q, structure, symprec=None):
        asked.append([float(x) for x in q])
        return [list(x) for x in star]
    env.patch('dynaphopy.interface.phonopy_link', 'get_equivalent_q_points_by_symmetry', link)
    qp = s.new()
    algo = env.choice('algorithm', [0, 1, 2])
    qp.select_power_spectra_algorithm(algo)
    qp.parameters.use_symmetry = True
    qp.set_reduced_q_vector([0.5, 0.0, 0.0])
    which = env.choice('first', ['wave vector', 'phonon'])
    get = {'wave vector': lambda x: x.get_power_spectrum_wave_vector(), 'phonon': lambda x: x.get_power_spectrum_phonon()}
    got = {}
    for k in sorted(get, key=lambda k: k != which):
        got[k] = get[k](qp)
        env.eq(np.array(qp.get_reduced_q_vector()), [0.5, 0.0, 0.0], 'the wave vector asked for stays selected')
    env.check(all(a == [0.5, 0.0, 0.0] for a in asked), 'star of the wave vector asked for')
    one = {k: [] for k in get}
    for q in star:
        for k in get:
            r = s.new()
            r.select_power_spectra_algorithm(algo)
            r.parameters.use_symmetry = False
            r.set_reduced_q_vector(q)
            one[k].append(get[k](r))
    for k in get:
        env.eq(got[k], sum(np.array(x) for x in one[k]) / len(star), '%s spectrum is the mean over the star' % k)
    env.eq(qp.get_vq(), single(s, algo, [0.5, 0.0, 0.0]).get_vq(), 'projection of the wave vector asked for')
    env.eq(np.array(qp.get_frequencies()), np.array(single(s, algo, [0.5, 0.0, 0.0]).get_frequencies()), 'harmonic frequencies of the wave vector asked for')


def single(s, algo, q):
    r = s.new()
    r.select_power_spectra_algorithm(algo)
    r.set_reduced_q_vector(q)
    return r


@case('C31', quick=[dict(k=0), dict(k=1)], digits=8, note='spectral estimators and harmonic modes are stand-ins; values compared to the digits written')
def curves(env):
    """the files hold the frequency and the spectra at that frequency"""
    np = env.np
    s = Setup(env, T=3, sup=(1, 2, 1) if env.p['k'] else (1, 1, 1), nat=2)
    qp = s.new()
    algo = env.choice('algorithm', [0, 1])
    qp.select_power_spectra_algorithm(algo)
    qp.set_reduced_q_vector([0.0, 0.5, 0.0])
    if env.flag('other frequencies'):
        qp.set_frequency_limits([1.0, 2.5])
    p = env.path('curve')
    for name, write, get in (
            ('full', lambda: qp.write_power_spectrum_full(p), lambda r: np.array([r.get_power_spectrum_full()]).T),
            ('wave vector', lambda: qp.write_power_spectrum_wave_vector(p), lambda r: np.array([r.get_power_spectrum_wave_vector()]).T),
            ('phonon', lambda: qp.write_power_spectrum_phonon(p), lambda r: r.get_power_spectrum_phonon()),
            ('partial', lambda: qp.get_power_spectrum_partials(save_to_file=p), lambda r: r.get_power_spectrum_partials())):
        write()
        ref = get(qp)
        rows = env.load_text(p)
        w = np.array(qp.get_frequency_range())
        env.check(len(rows) == len(w), '%s: one line per frequency' % name)
        for i, r in enumerate(rows):
            env.check(len(r) == 1 + ref.shape[1], '%s: a column per spectrum' % name)
            env.eq(r[0], w[i], '%s: frequency' % name)
            env.eq(np.array(r[1:]), ref[i], '%s: spectrum' % name)
    # velocities projected
    qp.save_vq(p)
    vq, vc = qp.get_vq(), qp.get_vc()
    rows = env.load_text(p, cplx=True)
    env.check(len(rows) == len(vq), 'a line per step')
    for i, r in enumerate(rows):
        env.eq(np.array(r), vq[i], 'projection onto the modes', scale=1.0)
    for a in range(2):
        qp.save_vc(p, atom=a + 1)
        rows = env.load_text(p, cplx=True)
        env.check(len(rows) == len(vc), 'a line per step')
        for i, r in enumerate(rows):
            env.eq(np.array(r), vc[i, a], 'projection onto the wave vector', scale=1.0)
    for a in (0, 3, -1):
        _, exc = env.run(qp.save_vc, p, atom=a)
        env.check(exc is not None, 'atom %d does not exist' % a)


def distribution(env):
    """file of the distribution of the displacements along a direction; rows, samples, lower limit and width of the bins"""
    np = env.np
    T, nat, nb = env.p['T'], env.p['nat'], env.p['bins']
    s = Setup(env, T=T, sup=(1, 1, 1), nat=nat)
    d = env.choice('direction', [[1, 0, 0], [0, -2, 0], [3, 4, 0]])
    norm = float(sum(x * x for x in d)) ** 0.5
    u = env.arr('u', (T, nat, 3), -0.4, 0.4)
    base = np.array([[s.pos[a, k] * s.c[k, k] for k in range(3)] for a in range(nat)])
    s.x = u + base
    qp = s.new()
    qp.parameters.number_of_bins_histogram = nb
    proj = [[sum(u[t, a, k] * d[k] for k in range(3)) / norm for t in range(T)] for a in range(nat)]
    flat = [x for p in proj for x in p]
    lo, hi = flat[0], flat[0]
    for x in flat[1:]:
        lo = x if bool(x < lo) else lo
        hi = x if bool(x > hi) else hi
    env.assume(hi - lo > 0.01)
    w = (hi - lo) / nb
    for x in flat:
        for i in range(1, nb):
            env.assume(abs(x - lo - w * i) > 1e-6)
    p = env.path('dist')
    qp.write_atomic_displacements(d, p)
    return env.load_text(p), proj, lo, w


@case('C31', quick=[dict(bins=2, T=2, nat=1), dict(bins=3, T=3, nat=1), dict(bins=2, T=2, nat=2)], thorough=[dict(bins=4, T=3, nat=1)], max_paths=3000, budget=60)
def displacements(env):
    """every bin is listed, evenly spaced, with the share of the samples in it"""
    rows, proj, lo, w = distribution(env)
    T, nat, nb = env.p['T'], env.p['nat'], env.p['bins']
    env.check(len(rows) == nb, 'a line per bin')
    for i, r in enumerate(rows):
        env.check(len(r) == 1 + nat, 'a column per atom')
        # to the four decimals written; the label may be that of the bin before (see below)
        c = lo + w * i + w / 2
        if i == 0:
            moved = bool(r[0] < lo)
        off = w if moved else w * 0
        env.le(r[0] + off - c, 1e-4, 'evenly spaced, at the centre of a bin')
        env.le(c - r[0] - off, 1e-4, 'evenly spaced, at the centre of a bin')
        for a in range(nat):
            k = 0
            for x in proj[a]:
                inside = bool(x > lo + w * i) and (i == nb - 1 or bool(x < lo + w * (i + 1)))
                k += 1 if inside or (i == 0 and not bool(x > lo)) else 0
            env.eq(r[1 + a] * w * T, k, 'share of the samples in the bin')


@case('C31', quick=[dict(bins=2, T=2, nat=1)], thorough=[dict(bins=3, T=3, nat=1)], max_paths=3000)
def bin_labels(env):
    """every bin is labelled with its own centre"""
    rows, proj, lo, w = distribution(env)
    for i, r in enumerate(rows):
        env.le(r[0] - lo - w * i - w / 2, w / 4, 'not the centre of the next bin')
        env.le(lo + w * i + w / 2 - r[0], w / 4, 'not the centre of the bin before')


@case('C31', quick=[dict()], digits=7, note='phonopy, spectral estimators and peak fit are stand-ins')
def quasiparticles(env):
    """the quasiparticle file lists, wave vector by wave vector, the data of its modes"""
    np = env.np
    s = Ren(env)
    extra = env.flag('extra')
    V = env.arr('gv', (4, 3, 3), -2, 2)
    asked = []

    def gv(structure, q, force_constants=None, mesh=None):
        k = [i for i, p in enumerate(POINTS) if list(p) == [float(x) for x in q]][0]
        asked.append(force_constants)
        return V[k]
    env.patch(s.L, 'obtain_phonopy_group_velocity', gv)
    qp = s.new(env.flag('symmetry'))
    p = env.path('q.yaml')
    before = env.choice('written before', [None, True, False])
    if before is not None:
        qp.write_quasiparticles_data(env.path('before.yaml'), with_extra=before)
    qp.write_quasiparticles_data(p, with_extra=extra)
    d = qp.get_commensurate_points_data()
    y = env.load_yaml(p)
    env.check(len(y) == len(POINTS), 'an entry per wave vector')
    for i, e in enumerate(y):
        env.eq(np.array(e['reduced_wave_vector']), POINTS[i], 'wave vector', scale=1.0)
        for k in ('frequencies', 'linewidths', 'frequency_shifts'):
            env.eq(np.array(e[k]), np.array(d[k][i]), k + ' of the wave vector', scale=1.0)
        env.check(('group_velocity' in e) == extra, 'group velocities when asked for')
        if extra:
            env.eq(np.array([[g['x'], g['y'], g['z']] for g in e['group_velocity']]), V[i], 'group velocities of the wave vector', scale=1.0)
    fc = qp.get_renormalized_force_constants()
    env.check(all(a == fc for a in asked), 'group velocities from the renormalised force constants')
    files = {}
    env.patch(s.L, 'save_force_constants_to_file', lambda a, filename='FORCE_CONSTANTS': files.__setitem__(filename, a))
    _, exc = env.run(qp.write_renormalized_constants, p + '.fc')
    env.check(exc is None and list(files) == [p + '.fc'], 'one file of force constants')
    env.check(files.get(p + '.fc', None) is fc, 'force constants written')


@case('C31', quick=[dict()], digits=7, note='phonopy bands replaced by a stand-in')
def bands(env):
    np = env.np
    s = Ren(env)
    H = env.arr('H', (2, 2, 3), 0, 9)
    asked = []

    def link(structure, ranges, force_constants=None, NAC=False, band_resolution=30, band_connection=False):
        asked.append((ranges, NAC))
        f = 1 if force_constants is None else 1 + np.sum(np.array(s.built[force_constants][0]))
        ev = [np.array([np.identity(3, dtype=complex)] * 2) for r in range(2)]
        return [list(ranges), [np.array([0.0, 1.0]), np.array([1.0, 2.0])], [H[r] * f for r in range(2)], ev]
    env.patch(s.L, 'obtain_phonon_dispersion_bands', link)
    rng = [[[0.0, 0, 0], [0.5, 0, 0]], [[0.5, 0, 0], [0.5, 0.5, 0]]]
    qp = s.new()
    qp.set_band_ranges({'ranges': rng, 'labels': [['G', 'X'], ['X', 'M']]} if env.flag('labels') else rng)
    p = env.path('bands.yaml')
    qp.write_renormalized_phonon_dispersion_bands(p)
    y = env.load_yaml(p)
    d = qp.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True)
    env.check(len(y) == len(d), 'an entry per path')
    for a, b in zip(y, d):
        env.check(sorted(a) == sorted(b), 'the same quantities')
        for k in b:
            if k in ('labels', 'q_bounds'):
                env.check(a[k] == b[k], k)
            elif isinstance(b[k], dict):
                env.check(sorted(a[k]) == sorted(b[k]), 'every branch')
                for n in b[k]:
                    env.eq(np.array(a[k][n]), np.array(b[k][n]), k + ' of ' + n, scale=1.0)
            else:
                env.eq(np.array(a[k]), np.array(b[k]), k, scale=1.0)
    # the harmonic bands are asked along the same paths
    n = len(asked)
    _, exc = env.run(qp.print_phonon_dispersion_bands)
    if exc is not None:
        env.fail('printing the bands: ' + repr(exc))
        return
    env.check(len(asked) > n and all(list(map(list, a[0])) == rng for a in asked), 'bands along the paths chosen')


@case('C31', quick=[dict(lattice='p'), dict(lattice='bcc')])
def xsf(env):
    """crystal file: cells and one atom of each kind at its place"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    lat = env.p['lattice']
    P, shifts = CENTRED[lat] if lat != 'p' else ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [])
    cell = np.array([[env.real('c%d%d' % (i, j), *((2, 4) if i == j else (-1, 1))) for j in range(3)] for i in range(3)])
    base = [[0.0, 0, 0], [0.4, 0.5, 0.25]]
    pos, el, kind = [], [], []
    for i, b in enumerate(base):
        for sh in [(0, 0, 0)] + list(shifts):
            pos.append([b[k] + sh[k] for k in range(3)])
            el.append(EL[i])
            kind.append(i)
    s = A.Structure(scaled_positions=np.array(pos), cell=cell, masses=[10.0 + k for k in kind], atomic_elements=el, primitive_matrix=np.array(P))
    io = env.mod('dynaphopy.interface.iofile')
    p = env.path('x.xsf')
    io.write_xsf_file(p, s)
    with open(p) as f:
        rows = [line.split() for line in f if line.strip()]
    env.check([rows[i][0] for i in (0, 1, 5, 9)] == ['CRYSTAL', 'PRIMVEC', 'CONVVEC', 'PRIMCOORD'], 'sections in order')
    num = lambda r: np.array([env._parse(x, False) for x in r])
    conv = np.array([num(rows[6 + i]) for i in range(3)])
    prim = np.array([num(rows[2 + i]) for i in range(3)])
    near(env, conv, cell, 'conventional cell')
    near(env, prim, np.array([[sum(P[k][i] * cell[k, j] for k in range(3)) for j in range(3)] for i in range(3)]), 'primitive cell')
    env.check([int(float(x)) for x in rows[10]] == [2, 1], 'number of atoms')
    env.check(len(rows) == 13, 'an atom of each kind')
    for i in range(2):
        env.check(int(rows[11 + i][0]) == s.get_atomic_numbers()[kind.index(i)], 'element of atom %d' % i)
        near(env, num(rows[11 + i][1:]), np.array([sum(base[i][k] * cell[k, j] for k in range(3)) for j in range(3)]), 'place of atom %d' % i)


def near(env, a, b, label):
    """equal to the four decimals written"""
    env.le(a - b, 1e-4, label)
    env.le(b - a, 1e-4, label)
