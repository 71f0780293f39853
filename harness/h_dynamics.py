"""Projections (C08, C09), displacement tensors (C10), averages (C11), cropping (C17)"""
import itertools
from fractions import Fraction as F
from vp.driver import case
from .h_structure import structure, offsets, prod, EL

BCC = [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]]
FCC = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
CENTRED = {'bcc': (BCC, [(0.5, 0.5, 0.5)]), 'fcc': (FCC, [(0, 0.5, 0.5), (0.5, 0, 0.5), (0.5, 0.5, 0)]),
           'base': ([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]], [(0.5, 0.5, 0)])}


def crystal(env, lattice='p', nat=2, cell='tri', species=None, sep=True, lone=False, **kw):
    """a structure; for a centred lattice every basis atom comes with its translated copies.
    lone: the last basis atom comes without the copies.
    sep: basis atoms well apart from each other (otherwise anywhere, even on top of each other).
    Returns (structure, cell, cartesian positions, masses, types)"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    c = env.cell('c', cell)
    if nat > 1 and sep:
        # a free origin plus separations that keep the atoms apart
        o = env.vals('o', 3, 0, 0.4)
        d = [[env.num(0)] * 3] + [[env.real('s_%d_%d' % (i, k), F(10 * i, 100), F(10 * i + 5, 100)) for k in range(3)]
                                  for i in range(1, nat)]
        base = env.array(np.array([[o[k] + d[i][k] for k in range(3)] for i in range(nat)]), 'f')
    else:
        base = env.arr('s', (nat, 3), 0, 0.4) if nat > 1 else np.array([[env.num(0)] * 3])
    m0 = [env.real('m%d' % i, 2 + 20 * i, 15 + 20 * i) for i in range(nat)]
    el0 = species or EL[:nat]
    pos, m, el, typ = [], [], [], []
    shifts = [(0, 0, 0)] + (CENTRED[lattice][1] if lattice != 'p' else [])
    for i in range(nat):
        for sh in shifts[:1] if lone and i == nat - 1 else shifts:
            pos.append([base[i, k] + env.num(sh[k]) for k in range(3)])
            m.append(m0[i])
            el.append(el0[i])
            typ.append(i)
    pos = env.array(np.array(pos), 'f')
    # columns of the primitive matrix: primitive vectors in units of the cell vectors
    pm = np.array(CENTRED[lattice][0]).T if lattice != 'p' else np.identity(3)
    s = A.Structure(scaled_positions=pos, cell=c, masses=m, atomic_elements=el, primitive_matrix=pm, **kw)
    return s, c, np.dot(pos, c), m, typ


def supercell_of(env, c, sup):
    return env.np.array([[c[i, j] * sup[i] for j in range(3)] for i in range(3)])


def sites(c, cart, sup):
    """positions of the replicated atoms, in expansion order, and the unit-cell atom of each"""
    out, idx = [], []
    for k in range(len(cart)):
        for r in offsets(sup):
            out.append([cart[k][j] + sum(c[i, j] * r[i] for i in range(3)) for j in range(3)])
            idx.append(k)
    return out, idx


class FakeLinks:
    """patches the phonopy link with given modes"""

    def __init__(self, env, ev, freq):
        self.calls = []

        def f(structure, q, *a, **k):
            self.calls.append([x for x in q])
            return ev, freq
        env.patch('dynaphopy.interface.phonopy_link', 'obtain_eigenvectors_and_frequencies', f)


@case('C08', quick=[dict(lat='p', nat=2, sup=(2, 1, 2), T=2, cell='diag'), dict(lat='bcc', nat=1, sup=(1, 2, 1), T=2),
                    dict(lat='bcc', nat=2, sup=(1, 1, 2), T=1, cell='diag')],
      thorough=[dict(lat='fcc', nat=1, sup=(2, 1, 1), T=1), dict(lat='fcc', nat=2, sup=(1, 1, 2), T=1, cell='diag'),
                dict(lat='p', nat=3, sup=(2, 2, 2), T=2, cell='diag'), dict(lat='base', nat=2, sup=(1, 2, 2), T=2, cell='diag')],
      budget=150, note='primitive lattice: simple, body-, face- or base-centred; masses of different species differ')
def projection(env):
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    top = env.mod('dynaphopy')
    sup, T, nat = env.p['sup'], env.p['T'], env.p['nat']
    s, c, cart, m, typ = crystal(env, env.p['lat'], nat, env.p.get('cell', 'tri'), sep=env.p.get('sep', True))
    R, idx = sites(c, cart, sup)
    n = len(R)
    v = env.arr('v', (T, n, 3), -3, 3)
    dyn = D.Dynamics(structure=s, velocity=env.array(v, 'c'), trajectory=env.array(np.zeros((T, n, 3)), 'c'),
                     supercell=supercell_of(env, c, sup), time=np.arange(T) * 0.5)
    nb = 3 * nat
    e = env.carr('e', (min(nb, 2), nat, 3), -1, 1)
    links = FakeLinks(env, e, np.arange(1., 1 + e.shape[0]))
    qp = top.Quasiparticle(dyn)
    pt = env.choice('atom', [-1, 0] if nat == 1 else [-1, 0, nat - 1])
    if pt >= 0:
        qp.set_projection_onto_atom_type(pt)
    q = [env.real('q%d' % i, -1, 1) for i in range(3)]
    order = env.flag('vq_first')
    qp.set_reduced_q_vector(q)
    if order:
        vq = qp.get_vq()
    vc = qp.get_vc()
    # reciprocal lattice of the primitive cell
    P = np.dot(np.array(CENTRED[env.p['lat']][0]) if env.p['lat'] != 'p' else np.identity(3), c)
    for j in range(3):
        env.eq(np.dot(qp.get_q_vector(), P[j]), 2 * np.pi * q[j], 'wave vector along primitive vector %d' % j)
    B = np.linalg.inv(P)
    qc = [sum(q[i] * B[j, i] for i in range(3)) * 2 * np.pi for j in range(3)]
    ncell = prod(sup) * len(typ) // nat
    ref = [[[env.complex(0, 0) for _ in range(3)] for _ in range(nat)] for _ in range(T)]
    for a in range(n):
        k = idx[a]
        if pt >= 0 and typ[k] != pt:
            continue
        ph = np.exp(-1j * sum(qc[j] * R[a][j] for j in range(3)))
        for t in range(T):
            for x in range(3):
                ref[t][typ[k]][x] = ref[t][typ[k]][x] + v[t, a, x] * np.sqrt(m[k]) * ph
    ref = np.array(ref) / np.sqrt(ncell)
    env.eq(vc, ref, 'wave-vector projection')
    vq = qp.get_vq() if not order else vq
    rq = np.array([[sum(ref[t, i, x] * np.conj(e[f, i, x]) for i in range(nat) for x in range(3)) for f in range(e.shape[0])]
                   for t in range(T)])
    env.eq(vq, rq, 'phonon projection')
    env.check(len(links.calls) >= 1, 'modes requested')
    for call in links.calls:
        env.eq(np.array(call), np.array(q), 'modes taken at the same wave vector')


@case('C09', quick=[dict(lat='p', sup=(2, 3, 1)), dict(lat='bcc', sup=(2, 2, 1)), dict(lat='fcc', sup=(1, 2, 2)),
                    dict(lat='base', sup=(2, 1, 2))],
      thorough=[dict(lat=l, sup=s) for l in ('p', 'bcc', 'fcc', 'base') for s in ((3, 3, 3), (1, 4, 2), (5, 2, 3))],
      note='commensurate points and points further than 0.001/(repeats) from every one of them')
def commensurate(env):
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    top = env.mod('dynaphopy')
    sup = env.p['sup']
    s, c, cart, m, typ = crystal(env, env.p['lat'], 1, 'diag')
    n = len(typ) * prod(sup)
    dyn = D.Dynamics(structure=s, velocity=env.array(np.zeros((1, n, 3)), 'c'), supercell=supercell_of(env, c, sup),
                     trajectory=env.array(np.zeros((1, n, 3)), 'c'), time=np.arange(2) * 0.5)
    qp = top.Quasiparticle(dyn)
    # q reduced with respect to the primitive cell; phase picked up along the supercell vector k:
    # 2 pi * sup_k * sum_i q_i inv(pm)[i, k]
    pm = np.array(CENTRED[env.p['lat']][0]).T if env.p['lat'] != 'p' else np.identity(3)
    inv = np.linalg.inv(pm)
    want = env.flag('commensurate')
    if want:
        # any vector whose phases along the three supercell vectors are whole turns
        k = [env.int('k%d' % i, -6, 6) for i in range(3)]
        q = [sum(k[j] * env.num(float(pm[j, i])) / sup[j] for j in range(3)) for i in range(3)]
    else:
        q = [env.real('q%d' % i, -1, 1) for i in range(3)]
        x = env.choice('axis', [0, 1, 2])
        turns = sum(q[i] * env.num(float(inv[i, x])) for i in range(3)) * sup[x]
        env.assume(abs(turns - np.round(turns)) > 0.001)
    r = qp.check_commensurate(np.array(q))
    env.check(bool(r) == want, 'commensurate: %s' % want)


@case('C10', quick=[dict(lat='p', nat=2, sup=(2, 1, 1), T=2, tens=0), dict(lat='bcc', nat=1, sup=(1, 2, 1), T=2, tens=1),
                    dict(lat='bcc', nat=2, sup=(1, 1, 1), T=1, tens=0, cell='diag'), dict(lat='bcc', nat=2, sup=(1, 1, 2), T=2, tens=0, cell='diag', lone=1)],
      thorough=[dict(lat='fcc', nat=1, sup=(1, 1, 2), T=2, tens=0), dict(lat='p', nat=3, sup=(1, 2, 1), T=3, tens=0),
                dict(lat='p', nat=1, sup=(1, 1, 1), T=2, tens=1)],
      note='displacements are given by the minimum-image convention of C02 (patched in as free values)')
def displacement_tensor(env):
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    top = env.mod('dynaphopy')
    sup, T, nat = env.p['sup'], env.p['T'], env.p['nat']
    s, c, cart, m, typ = crystal(env, env.p['lat'], nat, env.p.get('cell', 'tri'), lone=bool(env.p.get('lone')))
    R, idx = sites(c, cart, sup)
    n = len(R)
    u = env.arr('u', (T, n, 3), -0.4, 0.4)
    tr = np.array([[[R[a][x] + u[t, a, x] for x in range(3)] for a in range(n)] for t in range(T)])
    dyn = D.Dynamics(structure=s, trajectory=env.array(tr, 'c'), velocity=env.array(np.zeros((T, n, 3)), 'c'),
                     supercell=supercell_of(env, c, sup), time=np.arange(T) * 0.5)
    env.patch(dyn, '_relative_trajectory', env.array(u, 'c'))
    mean = np.array([[sum(u[t, a, x] for t in range(T)) / T for x in range(3)] for a in range(n)])

    def ref(av):
        out = []
        for k in range(nat):
            at = [a for a in range(n) if typ[idx[a]] == k]
            out.append([[sum(u[t, a, x] * (u[t, a, y] - (mean[a, y] if av else 0)) for a in at for t in range(T)) / (T * len(at))
                         for y in range(3)] for x in range(3)])
        return np.array(out)
    seq = env.choice('order', [(False,), (True,), (False, True), (True, False)])
    for av in seq:
        env.eq(dyn.get_mean_displacement_matrix(use_average_positions=av), ref(av),
               'tensor relative to the %s positions' % ('average' if av else 'reference'))
    if not env.p['tens']:
        return
    qp = top.Quasiparticle(dyn)
    kind = env.choice('kind', ['cart', 'crys', 'uvrs'])
    r = qp.get_anisotropic_displacement_parameters(coordinate_type=kind, print_on_screen=env.flag('screen'))
    env.eq(np.array(len(r)), nat, 'one tensor per inequivalent atom')
    inv = np.linalg.inv(c)
    # fractional displacement f = u . inv(cell); U_crys = <f f>, U_uvrs = U_crys / (|a*_i| |a*_j|)
    cov = ref(True)
    for k in range(nat):
        f = [[sum(inv[x, i] * cov[k, x, y] * inv[y, j] for x in range(3) for y in range(3)) for j in range(3)] for i in range(3)]
        ln = [np.sqrt(sum(inv[x, i] * inv[x, i] for x in range(3))) for i in range(3)]
        w = {'cart': cov[k], 'crys': np.array(f), 'uvrs': np.array([[f[i][j] / ln[i] / ln[j] for j in range(3)] for i in range(3)])}[kind]
        env.eq(r[k], w, 'displacement parameters (%s)' % kind)


@case('C11', quick=[dict(lat='p', nat=2, sup=(2, 1, 1), T=2), dict(lat='bcc', nat=1, sup=(1, 1, 2), T=1), dict(lat='p', nat=1, sup=(1, 1, 1), T=3),
                      dict(lat='bcc', nat=2, sup=(1, 2, 1), T=1, lone=True)],
      thorough=[dict(lat='p', nat=1, sup=(2, 1, 2), T=3), dict(lat='base', nat=1, sup=(1, 2, 1), T=2),
                dict(lat='bcc', nat=2, sup=(1, 1, 1), T=2)])
def average_positions(env):
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    sup, T, nat = env.p['sup'], env.p['T'], env.p['nat']
    s, c, cart, m, typ = crystal(env, env.p['lat'], nat, lone=env.p.get('lone', False))
    R, idx = sites(c, cart, sup)
    n = len(R)
    u = env.arr('u', (T, n, 3), -0.4, 0.4)
    big = supercell_of(env, c, sup)
    tr = np.array([[[R[a][x] + u[t, a, x] for x in range(3)] for a in range(n)] for t in range(T)])
    dyn = D.Dynamics(structure=s, trajectory=env.array(tr, 'c'), velocity=env.array(np.zeros((T, n, 3)), 'c'),
                     supercell=big, time=np.arange(T) * 0.5)
    env.patch(dyn, '_relative_trajectory', env.array(u, 'c'))
    unit = env.flag('to_unit_cell')
    r = dyn.average_positions(to_unit_cell=unit)
    box = c if unit else big
    inv = np.linalg.inv(box)
    if unit:
        ref = []
        for k in range(len(typ)):
            at = [a for a in range(n) if typ[idx[a]] == typ[k]]
            ref.append([cart[k][x] + sum(u[t, a, x] for a in at for t in range(T)) / (T * len(at)) for x in range(3)])
    else:
        ref = [[R[a][x] + sum(u[t, a, x] for t in range(T)) / T for x in range(3)] for a in range(n)]
    env.eq(np.array(r.shape), [len(ref), 3], 'one row per atom')
    env.eq(np.imag(r), np.zeros((len(ref), 3)), 'real positions')
    r = np.real(r)
    for a in range(len(ref)):
        d = np.dot(r[a] - np.array(ref[a]), inv)
        env.integer(d, 'mean position up to whole lattice vectors')
        f = np.dot(r[a], inv)
        env.le(f, 1, 'inside the cell (upper)')
        env.le(-f, 0, 'inside the cell (lower)')


@case('C17', quick=[dict(T=4, k=[1, 2, 4, 6]), dict(T=3, k=[None, 0, -1])], thorough=[dict(T=6, k=[1, 3, 5, 6, 7])])
def crop(env):
    """results of a cropped trajectory equal those of one loaded with only those steps"""
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    T = env.p['T']
    k = env.choice('steps', env.p['k'])
    s, c, cart, m, typ = crystal(env, 'p', 1, 'diag')
    sup = (1, 2, 1)
    n = 2
    R, idx = sites(c, cart, sup)
    form = env.choice('form', ['cart', 'scaled'])
    x = env.arr('x', (T, n, 3), -0.4, 0.4)
    v = env.arr('v', (T, n, 3), -3, 3)
    e = env.vals('e', T, -5, 5)
    tm = np.arange(T) * 0.5 if form == 'cart' else np.array([0.25, 0.5, 1.25, 1.5, 3.0, 3.5])[:T]
    big = supercell_of(env, c, sup)

    given = env.flag('velocities given') if T > 3 else True

    def make(lo):
        kw = dict(structure=s, time=tm[lo:].copy(), energy=np.array(e[lo:]), supercell=big)
        if given:
            kw['velocity'] = env.array(v[lo:], 'c')
        if form == 'cart':
            kw['trajectory'] = env.array(x[lo:], 'c')
        else:
            kw['scaled_trajectory'] = env.array(x[lo:], 'f')
        return D.Dynamics(**kw)
    a = make(0)
    touch = env.choice('before', ['nothing', 'relative', 'tensor', 'mass', 'scaled_relative'] if given else ['nothing', 'tensor', 'step'])
    if touch == 'relative':
        a.get_relative_trajectory()
    elif touch == 'tensor':
        a.get_mean_displacement_matrix()
    elif touch == 'mass':
        a.get_velocity_mass_average()
        a.get_time_step_average()
    elif touch == 'step':
        a.get_time_step_average()
    elif touch == 'scaled_relative':
        a.trajectory
    if not given:
        env.assume(k is None or k != 1)      # no velocities from one step
    a.crop_trajectory(k)
    lo = 0 if k is None or k <= 0 or k >= T else T - k
    b = make(lo)
    env.eq(a.velocity, b.velocity, 'velocity')
    env.eq(a.get_velocity_mass_average(), b.get_velocity_mass_average(), 'mass-weighted velocity')
    env.eq(a.get_time(), b.get_time(), 'time')
    env.eq(a.get_energy(), b.get_energy(), 'energy')
    env.eq(a.trajectory, b.trajectory, 'trajectory')
    env.eq(a.get_relative_trajectory(), b.get_relative_trajectory(), 'displacements')
    env.eq(a.get_mean_displacement_matrix(), b.get_mean_displacement_matrix(), 'displacement tensor')
    env.eq(a.get_time_step_average(), b.get_time_step_average(), 'time step')


STEPS = [F(1, 2), F(1, 1000), F(1, 4000), F(3, 2048)]


@case('C43', quick=[dict(T=2, nat=1, sup=(1, 2, 1), cell='tri'), dict(T=4, nat=1, sup=(2, 1, 1), cell='diag'), dict(T=3, nat=2, sup=(1, 1, 1), cell='diag')],
      thorough=[dict(T=6, nat=2, sup=(1, 2, 2), cell='diag'), dict(T=5, nat=1, sup=(2, 1, 2), cell='tri'), dict(T=12, nat=1, sup=(1, 1, 2), cell='diag')],
      budget=150, note='uniform times with any origin; atoms may cross the boundaries of the cell, with displacements below 0.3 of the cell')
def derived(env):
    """velocities not given are the time derivative of the displacements"""
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    T, nat, sup = env.p['T'], env.p['nat'], env.p['sup']
    s, c, cart, m, typ = crystal(env, 'p', nat, env.p['cell'])
    R, idx = sites(c, cart, sup)
    n = len(R)
    big = supercell_of(env, c, sup)
    dt = env.choice('dt', STEPS)
    t0 = env.choice('t0', [0, 7])
    time = np.array([t0 + i * float(dt) if not env.sym else env.num(t0 + i * dt) for i in range(T)])
    d = env.arr('d', (T, n, 3), -0.3, 0.3)           # fractions of the simulation cell
    cross = env.choice('cross', ['none', 'last', 'alternate'])
    disp, x = [], []
    for t in range(T):
        disp.append([]), x.append([])
        for a in range(n):
            u = [sum(d[t, a, i] * big[i, j] for i in range(3)) for j in range(3)]
            w = (0, 0, 0)
            if cross == 'last' and t == T - 1:
                w = (1, 0, -1)
            elif cross == 'alternate' and (t + a) % 2:
                w = (0, -1, 1)
            disp[-1].append(u)
            x[-1].append([R[a][j] + u[j] + sum(w[i] * big[i, j] for i in range(3)) for j in range(3)])
    disp = np.array(disp)
    memmap = env.flag('memmap')
    form = env.choice('form', ['cart', 'scaled'])
    kw = dict(structure=s, time=time, supercell=big, memmap=memmap)
    if form == 'cart':
        kw['trajectory'] = env.array(np.array(x), 'c')
    else:
        kw['scaled_trajectory'] = env.array(np.dot(np.array(x), np.linalg.inv(big)), 'c')
    dyn = D.Dynamics(**kw)
    if env.flag('asked_before'):
        dyn.get_relative_trajectory()
    v = dyn.velocity
    env.check(tuple(v.shape) == (T, n, 3), 'one velocity per step and atom')
    again = dyn.velocity
    for t in range(T):
        lo, hi = max(t - 1, 0), min(t + 1, T - 1)
        for a in range(n):
            for j in range(3):
                got = np.real(v[t, a, j]) * (float(dt) if not env.sym else env.num(dt))
                ref = (disp[hi, a, j] - disp[lo, a, j]) / (hi - lo)
                env.le(got - ref, 2e-3, 'derivative at step %d, atom %d, %d' % (t, a, j))
                env.le(ref - got, 2e-3, 'derivative at step %d, atom %d, %d' % (t, a, j))
                env.eq(np.imag(v[t, a, j]), env.num(0), 'velocities are real')
    env.eq(again, v, 'asked again')


@case('C43', quick=[dict(n=2), dict(n=4)], thorough=[dict(n=9), dict(n=20)], note='times rounded to 1e-8')
def time_step(env):
    """the time step is the mean of the steps"""
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    n = env.p['n']
    t = [env.real('t0', -100, 100)]
    size = env.choice('size', [1, F(1, 1000)])
    for i in range(n - 1):
        t.append(t[-1] + env.real('h%d' % i, F(1, 4), 2) * (env.num(size) if env.sym else float(size)))
    dyn = D.Dynamics(time=np.array(t))
    got = dyn.get_time_step_average()
    ref = (t[-1] - t[0]) / (n - 1)
    for k in range(2):
        env.le(got - ref, 2e-8, 'time step', slack=1e-9)
        env.le(ref - got, 2e-8, 'time step', slack=1e-9)
        got = dyn.get_time_step_average()
