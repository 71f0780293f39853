"""Temperature (C33), quasiparticle files and force constants (C34), quasi-harmonic force constants (C35), OUTCAR crystals (C36)"""
import os
from fractions import Fraction
from vp.driver import case
from .h_structure import EL, prod

KB = 0.831446        # u A^2 / ps^2 / K


@case('C33', quick=[dict(T=2, nat=2), dict(T=3, nat=1)], thorough=[dict(T=5, nat=2), dict(T=3, nat=3)], tol=4.5e-4)
def temperature(env):
    """the temperature is that of equipartition, m v^2 = 3 kB T on average, for the steps in use, unless one is given"""
    np = env.np
    env.reset()
    top, D, A = env.mod('dynaphopy'), env.mod('dynaphopy.dynamics'), env.mod('dynaphopy.atoms')
    nat, T = env.p['nat'], env.p['T']
    sup = (1, 2, 1)
    c = [2.0, 2.5, 3.0]
    m = [env.real('m%d' % i, 1, 80) for i in range(nat)]
    every = [x for x in m for _ in range(prod(sup))]
    s = A.Structure(scaled_positions=np.array([[0.0, 0, 0], [0.4, 0.5, 0.25], [0.25, 0.75, 0.6]][:nat]), cell=np.diag(c), masses=m,
                    atomic_elements=EL[:nat], primitive_matrix=np.identity(3))
    N = len(every)
    v = env.arr('v', (T, N, 3), -9, 9)
    x = np.zeros((T, N, 3))
    d = D.Dynamics(structure=s, velocity=env.array(v, 'c'), trajectory=env.array(x, 'c'), time=np.arange(T) * 0.5,
                   supercell=np.diag([c[i] * sup[i] for i in range(3)]))
    q = top.Quasiparticle(d)
    q.parameters.silent = env.flag('silent')
    silent = q.parameters.silent

    def want(steps):
        return sum(every[a] * v[t, a, i] * v[t, a, i] for t in steps for a in range(N) for i in range(3)) / KB / (3 * N * len(steps))

    def ask(value, label):
        g, exc = env.run(q.get_temperature)
        if exc is not None:
            env.fail(label + ': ' + repr(exc))
        else:
            env.eq(g, value, label)
        env.check(q.parameters.silent == silent, 'the setting silent is left as it was')
    # (the numerical fit of the distribution needs atoms that move)
    env.assume(v[T - 1, 0, 0] > 0.5)
    for t in range(T):
        for a in range(N):
            env.assume(v[t, a, 1] > 0.25)
    given = env.choice('given', [None, 'before', 'withdrawn'])
    t0 = env.real('t0', 0.001, 3000)
    if given:
        q.set_temperature(t0)
        ask(t0, 'temperature given')
    if given == 'withdrawn':
        q.set_temperature(None)
    if env.flag('asked before'):
        ask(t0 if given == 'before' else want(range(T)), 'temperature of all the steps')
    if env.flag('other mode'):
        q.set_reduced_q_vector([0.0, 0.5, 0.0])
    q.crop_trajectory(T - 1)
    ask(t0 if given == 'before' else want(range(1, T)), 'temperature of the last steps')
    ask(t0 if given == 'before' else want(range(1, T)), 'same answer again')


def points(sup, signed=0):
    """wave vectors of a supercell of a simple lattice, between 0 and 1, or between -1/2 and 1/2"""
    def f(i, n):
        return (i - n if signed and 2 * i > n else i) / n
    return [[f(i, sup[0]), f(j, sup[1]), f(k, sup[2])] for i in range(sup[0]) for j in range(sup[1]) for k in range(sup[2])]


class Modes:
    """harmonic modes and force constants of a crystal, as functions of what they are asked for"""

    def __init__(self, env, nat, signed=0):
        np = env.np
        self.env, self.n = env, nat
        self.L = L = env.mod('dynaphopy.interface.phonopy_link')
        self.e = env.carr('e', (3 * nat, nat, 3), -1, 1)
        self.asked, self.rebuilt, self.files = [], [], {}

        def diag(sup):
            return [int(x) for x in np.diag(np.array(sup))]

        def commensurate(structure, sup, **k):
            self.asked.append([[int(x) for x in r] for r in np.array(sup)])
            return np.array(points(diag(sup), signed))

        def modes(structure, q, *a, **k):
            return self.vectors(q), np.arange(1., 1 + 3 * nat)

        def rebuild(frequencies, eigenvectors, structure, fc_supercell, symmetrize=False):
            self.rebuilt.append((np.array(frequencies), list(eigenvectors), structure, fc_supercell, symmetrize))
            return L.ForceConstants(np.array(frequencies) * 2, supercell=fc_supercell)

        def write(fc, filename='FORCE_CONSTANTS', **k):
            self.files[os.path.basename(filename)] = fc

        env.patch(L, 'get_commensurate_points', commensurate)
        env.patch(L, 'obtain_eigenvectors_and_frequencies', modes)
        env.patch(L, 'get_renormalized_force_constants', rebuild)
        env.patch(L, 'write_FORCE_CONSTANTS', write)
        env.patch(L, 'parse_FORCE_CONSTANTS', lambda filename='FORCE_CONSTANTS', **k: self.files[os.path.basename(filename)])

    def vectors(self, q):
        return self.e * (1 + 2 * q[0] + 5 * q[1] + 11 * q[2])


def crystal_files(env, nat, extra=''):
    d = env.tmp()
    poscar, inp = os.path.join(d, 'POSCAR'), os.path.join(d, 'input')
    with open(poscar, 'w') as o:
        o.write('title\n1.0\n2 0 0\n0 2.5 0\n0 0 3\n%s\n%s\nDirect\n' % (' '.join(EL[:nat]), ' '.join('1' * nat)))
        for p in [[0.0, 0, 0], [0.4, 0.5, 0.25]][:nat]:
            o.write('%f %f %f\n' % tuple(p))
    with open(inp, 'w') as o:
        o.write('STRUCTURE FILE POSCAR\n%s\n\nPRIMITIVE MATRIX\n1 0 0\n0 1 0\n0 0 1\n\n%s' % (poscar, extra))
    return inp


@case('C34', quick=[dict(sup=(1, 2, 1)), dict(sup=(3, 1, 2), signed=1), dict(sup=(1, 1, 24), nat=1)],
      thorough=[dict(sup=(2, 3, 2), nat=1), dict(sup=(1, 1, 7), signed=1), dict(sup=(3, 3, 3), nat=1, signed=1)], tol=1e-7, digits=7)
def quasiparticle_file(env):
    """force constants rebuilt from a quasiparticle file use, for each wave vector, the frequencies and the modes of that wave vector"""
    np = env.np
    nat = env.p.get('nat', 2)
    sup = list(env.p['sup'])
    io = env.mod('dynaphopy.interface.iofile')
    signed = env.p.get('signed', 0)
    f = Modes(env, nat, signed)
    dim = env.flag('custom supercell')
    own = [1, 1, 2] if dim else sup
    inp = crystal_files(env, nat, 'SUPERCELL MATRIX PHONOPY\n%d 0 0\n0 %d 0\n0 0 %d\n\n' % tuple(own))
    q = points(sup, signed)
    n = 3 * nat
    w = env.arr('w', (len(q), n), -1, 30)
    order = env.choice('order', ['as is', 'reversed'])
    idx = list(range(len(q)))
    idx = idx if order == 'as is' else idx[::-1]
    zero = np.zeros((len(q), n))
    data = {'q_points': [np.array(q[i]) for i in idx], 'frequencies': np.array([w[i] for i in idx]), 'linewidths': zero, 'frequency_shifts': zero}
    p = env.path('quasiparticles.yaml')
    _, exc = env.run(io.save_quasiparticle_data_to_file, data, p)
    if exc is not None:
        env.fail('saving: ' + repr(exc))
        return
    sym = env.flag('symmetrize')
    out = env.path('OUT')
    opt = (['--fcsymm'] if sym else []) + (['--dim'] + sup if dim else [])
    ns, exc = env.script('rfc_calc', inp, p, '-s', out, *opt)
    if exc is not None:
        env.fail('rebuilding: ' + repr(exc))
        return
    env.check(len(f.rebuilt) == 1, 'rebuilt once')
    fr, ev, s, sc, sy = f.rebuilt[0]
    env.check([[int(x) for x in r] for r in np.array(sc)] == np.diag(sup).tolist(), 'supercell')
    env.check(bool(sy) == sym, 'symmetrised only when asked for')
    env.eq(fr, w, 'frequencies of each wave vector')
    env.check(len(ev) == len(q), 'modes of each wave vector')
    for i, e in enumerate(ev):
        env.eq(np.array(e), f.vectors(q[i]), 'modes of each wave vector')
    env.check([str(x) for x in s.get_atomic_elements()] == EL[:nat], 'structure of the input file')
    env.check(list(f.files) == ['OUT'], 'file written')
    env.eq(np.array(f.files['OUT']), w * 2, 'force constants written')


@case('C34', quick=[dict(sup=(1, 3, 1))])
def lacking(env):
    """a quasiparticle file that lacks a wave vector is refused"""
    np = env.np
    sup = list(env.p['sup'])
    f = Modes(env, 1)
    io = env.mod('dynaphopy.interface.iofile')
    inp = crystal_files(env, 1, 'SUPERCELL MATRIX PHONOPY\n%d 0 0\n0 %d 0\n0 0 %d\n\n' % tuple(sup))
    q = points(sup)
    drop = env.choice('without', list(range(len(q))))
    keep = [np.array(x) for i, x in enumerate(q) if i != drop]
    w = env.arr('w', (len(keep), 3), 0, 9)
    p = env.path('quasiparticles.yaml')
    io.save_quasiparticle_data_to_file({'q_points': keep, 'frequencies': w, 'linewidths': w, 'frequency_shifts': w}, p)
    ns, exc = env.script('rfc_calc', inp, p, '-s', env.path('OUT'))
    env.check(exc is not None and not f.files, 'refused, nothing written')


@case('C34', quick=[dict()])
def listing(env):
    """the wave vectors asked for are those of the supercell: the one given, that of the input file, or the unit cell"""
    f = Modes(env, 1)
    own, dim = env.flag('supercell in the input'), env.flag('--dim')
    inp = crystal_files(env, 1, 'SUPERCELL MATRIX PHONOPY\n2 0 0\n0 1 0\n0 0 3\n\n' if own else '')
    sup = [1, 2, 2] if dim else [2, 1, 3] if own else [1, 1, 1]
    (ns, exc), _, text = env.printed(lambda: env.script('rfc_calc', inp, '-cp', *(['--dim', 1, 2, 2] if dim else [])))
    env.check(exc is None or type(exc).__name__ in ('SystemExit', 'Exit'), 'listing: %r' % exc)
    env.check(f.asked == [env.np.diag(sup).tolist()], 'supercell: %s' % f.asked)
    got = []
    for line in text.splitlines():
        if line.strip().startswith('['):
            got.append([Fraction(t) for t in line.replace('[', ' ').replace(']', ' ').replace(',', ' ').split()])
    want = points(sup)
    env.check(len(got) == len(want), 'number of wave vectors: %d' % len(got))
    env.check(not f.files and not f.rebuilt, 'nothing else done')
    for g, w in zip(got, want):
        env.check(len(g) == 3 and all(abs(float(a) - b) < 1e-6 for a, b in zip(g, w)), 'wave vector %s' % w)


@case('C34', quick=[dict(nat=1)], thorough=[dict(nat=2)], note='phonopy and matplotlib replaced by stand-ins')
def rebuilt_bands(env):
    """dispersion of the force constants rebuilt, along the paths of the input file or those found for the crystal"""
    from .h_plots import script_recorder, curve
    np = env.np
    nat = env.p['nat']
    f = Modes(env, nat)
    io = env.mod('dynaphopy.interface.iofile')
    given = env.choice('paths', ['in the input', 'with names', 'found'])
    ends = [([0.0, 0.0, 0.0], [0.5, 0.0, 0.0]), ([0.5, 0.0, 0.0], [0.5, 0.25, 0.0])]
    extra = 'SUPERCELL MATRIX PHONOPY\n1 0 0\n0 2 0\n0 0 1\n\n'
    if given != 'found':
        extra += 'BANDS\n' + ''.join('%s %s%s\n' % (','.join(map(str, a)), ','.join(map(str, b)), ' : G, X' if given == 'with names' else '') for a, b in ends) + '\n'
    env.module('seekpath', get_path=lambda s, *a, **k: {'point_coords': {'A': ends[0][0], 'B': ends[0][1], 'C': ends[1][1]}, 'path': [('A', 'B'), ('B', 'C')]})
    inp = crystal_files(env, nat, extra)
    q = points([1, 2, 1])
    w = env.arr('w', (2, 3 * nat), 0.5, 30)
    zero = np.zeros((2, 3 * nat))
    p = env.path('quasiparticles.yaml')
    io.save_quasiparticle_data_to_file({'q_points': [np.array(x) for x in q], 'frequencies': w, 'linewidths': zero, 'frequency_shifts': zero}, p)
    F = [env.arr('f%d' % i, (2, 2, 3 * nat), 0, 9) for i in (0, 1)]
    dist = [[0.0, 0.5], [0.5, 1.25]]
    asked = []

    def bands(structure, ranges, force_constants=None, NAC=False, **k):
        asked.append(([[[float(t) for t in e] for e in r] for r in ranges], force_constants, NAC))
        y = F[0] if force_constants is None else F[1]
        return [[r[0], r[1]] for r in ranges], [np.array(d) for d in dist], [y[0], y[1]], None
    env.patch(f.L, 'obtain_phonon_dispersion_bands', bands)
    plt = script_recorder(env)
    ns, exc = env.script('rfc_calc', inp, p, '-p')
    if exc is not None:
        env.fail('dispersion: ' + repr(exc))
        return
    env.check(len(asked) == 2 and all(a[0] == [[list(x), list(y)] for x, y in ends] for a in asked), 'paths')
    fc = [a[1] for a in asked]
    env.check(sorted(x is None for x in fc) == [False, True], 'once harmonic, once rebuilt')
    env.eq(np.array([x for x in fc if x is not None][0].get_array()), w * 2, 'constants rebuilt')
    env.check(len(plt.figures) == 1 and plt.shown == 1, 'one figure')
    ax = plt.figures[0]
    for name, y in (('Harmonic', F[0]), ('Renormalized', F[1])):
        lines = [l for l in ax.lines if l[1].get('label', '').startswith(name)]
        if len(lines) != 2:
            env.fail('%s: %d paths drawn' % (name, len(lines)))
            continue
        for i in (0, 1):
            curve(env, lines[i], dist[i], y[i], '%s %d' % (name, i))


@case('C34', quick=[dict()])
def constants_file(env):
    """force constants written to a file are those read back, with the supercell they are read for"""
    np = env.np
    f = Modes(env, 1)
    L = f.L
    a = env.arr('a', (2, 2, 3, 3), -5, 5)
    name = env.path('FC')
    L.save_force_constants_to_file(L.ForceConstants(a, supercell=np.diag([1, 2, 1])), name)
    sup = env.choice('supercell', [None, [[1, 0, 0], [0, 2, 0], [0, 0, 1]]])
    g, exc = env.run(L.get_force_constants_from_file, name, fc_supercell=sup)
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    env.eq(g.get_array(), a, 'force constants')
    env.check(np.array(g.get_supercell()).tolist() == (sup or np.identity(3).tolist()), 'supercell')
    s = env.mod('dynaphopy.atoms').Structure(scaled_positions=np.array([[0.0, 0, 0]]), cell=np.diag([2.0, 2.5, 3.0]), masses=[10.0],
                                             atomic_elements=EL[:1], primitive_matrix=np.identity(3))
    env.check(not s.forces_available(), 'no forces yet')
    s.set_force_constants(g)
    env.check(s.forces_available() and np.array(s.get_supercell_phonon()).tolist() == np.array(g.get_supercell()).tolist(), 'supercell of the forces')
    env.eq(s.get_force_constants().get_array(), a, 'force constants of the structure')


def lagrange(x, y, v):
    out = 0
    for i in range(3):
        w = 1
        for j in range(3):
            if j != i:
                w = w * (v - x[j]) / (x[i] - x[j])
        out = out + y[i] * w
    return out


@case('C35', quick=[dict(order=(0, 1, 2)), dict(order=(1, 2, 0)), dict(order=(2, 1, 0))],
      thorough=[dict(order=(0, 2, 1), nat=2), dict(order=(1, 0, 2), nat=2), dict(order=(2, 0, 1), nat=2)], tol=1e-5,
      note='phonopy\'s quasi-harmonic analysis replaced by a recording stand-in; quadratic interpolation through three points')
def qha_constants(env):
    """force constants at a temperature are those interpolated at the volume of that temperature, each file at its own volume"""
    np = env.np
    nat = env.p.get('nat', 1)
    f = Modes(env, nat)
    order = env.p['order']
    V = [10.0, 12.0, 15.0]
    V = [V[i] for i in order]
    given = [0.0, 100.0, 200.0, 300.0]
    E = env.arr('E', (3,), -9, 9)
    tp = env.arr('tp', (3, 4, 3), -9, 9)
    a = env.arr('a', (3, nat, nat, 3, 3), -5, 5)
    vt = env.arr('vt', (3,), 10, 15)
    made = []

    class QHA:
        def __init__(self, volumes, electronic_energies, **k):
            made.append((np.array(volumes), np.array(electronic_energies), k))
            self.volume_temperature = vt

        def get_volume_temperature(self):
            return vt
    if env.sym:
        env.module('phonopy', PhonopyQHA=QHA)
    else:
        env.patch('phonopy', 'PhonopyQHA', QHA)
    inp = crystal_files(env, nat, 'SUPERCELL MATRIX PHONOPY\n1 0 0\n0 1 0\n0 0 1\n\n')
    ev = env.path('ev')
    with open(ev, 'w') as o:
        o.write('# volume energy\n')
        for v, e in zip(V, E):
            o.write('%f %s\n' % (v, '{0:.12f}'.format(e)))
    fc, th = [], []
    for i in range(3):
        fc.append(env.path('FC%d' % i))
        f.files['FC%d' % i] = a[i]
        with open(fc[i], 'w') as o:
            o.write('stand-in')
        th.append(env.path('tp%d' % i))
        with open(th[i], 'w') as o:
            o.write('thermal_properties:\n')
            for t, T in enumerate(given):
                o.write('- temperature: %f\n  free_energy: %s\n  entropy: %s\n  heat_capacity: %s\n' %
                        ((T,) + tuple('{0:.12f}'.format(x) for x in tp[i, t])))
    if env.flag('pattern'):
        fc, th = [os.path.join(os.path.dirname(fc[0]), 'FC*')], [os.path.join(os.path.dirname(fc[0]), 'tp*')]
    T = env.choice('T', [0.0, 50.0, 100.0, 150.0, 200.0])
    target = lagrange(given[:3], vt, T)
    inside = bool(10 <= target) and bool(target <= 15)
    out = env.path('OUT')
    ns, exc = env.script('qha_extract', inp, '-fc', *fc, '-tp', *th, '-ev', ev, '-t', T, '-sfc', out)
    if not inside:
        env.check(exc is not None and 'OUT' not in f.files, 'a volume out of range is refused')
        return
    if exc is not None:
        env.fail(repr(exc))
        return
    env.check(len(made) == 1, 'one analysis')
    v, e, k = made[0]
    s = sorted(range(3), key=lambda i: V[i])
    env.eq(v, np.array([V[i] for i in s]), 'volumes')
    env.eq(e, np.array([E[i] for i in s]), 'energy of each volume')
    env.eq(np.array(k['temperatures']), np.array(given), 'temperatures')
    for n, name in enumerate(('free_energy', 'entropy', 'cv')):
        env.eq(np.array(k[name]), np.array([[tp[i, t, n] for i in s] for t in range(4)]), name + ' of each volume')
    env.eq(np.array(f.files['OUT']), lagrange(V, a, target), 'force constants')


@case('C36', quick=[dict(types=(1,)), dict(types=(2, 1)), dict(types=(1, 1, 2)), dict(types=(1, 2, 1, 1))], thorough=[dict(types=(3, 1, 2, 2)), dict(types=(1, 1, 1, 1, 1, 1))], tol=1e-6)
def outcar_crystal(env):
    """the crystal of an OUTCAR: cell, positions and the mass of each atom by type"""
    np = env.np
    io = env.mod('dynaphopy.interface.iofile')
    types = env.p['types']
    N = sum(types)
    c = env.cell('c', 'tri')
    k = env.arr('k', (3, 3), -2, 2)
    s, x = env.arr('s', (N, 3), 0, 1), env.arr('x', (N, 3), -9, 9)
    mass = [env.choice('m%d' % i, [1.01, 28.09, 207.2][i % 2:i % 2 + 2]) for i in range(len(types))]
    full = env.flag('pseudopotentials listed')

    def row(v):
        return ' '.join('{0:.9f}'.format(z) for z in v)
    p = env.path('OUTCAR')
    with open(p, 'w') as o:
        o.write(' vasp.5.4.4\n')
        if full:
            for m in mass:
                o.write('   POMASS = %8.3f; ZVAL   =   13.000    mass and valenz\n' % m)
        o.write('   number of dos      NEDOS =    301   number of ions     NIONS = %6d\n' % N)
        o.write('   ions per type =  ' + ''.join('%12d' % n for n in types) + '\n')
        o.write('  Mass of Ions in am\n   POMASS = ' + ''.join('%6.2f' % m for m in mass) + '\n  Ionic Valenz\n   ZVAL   =  13.00\n')
        o.write('  energy-cutoff  :      400.00\n      direct lattice vectors                 reciprocal lattice vectors\n')
        for i in range(3):
            o.write('   ' + row(c[i]) + ' ' + row(k[i]) + '\n')
        o.write('\n  position of ions in fractional coordinates (direct lattice)\n')
        for r in s:
            o.write('   ' + row(r) + '\n')
        o.write('\n  position of ions in cartesian coordinates  (Angst):\n')
        for r in x:
            o.write('   ' + row(r) + '\n')
        if env.flag('later cells'):        # a relaxation prints the cell and the positions again
            o.write('\n\n      direct lattice vectors                 reciprocal lattice vectors\n')
            for i in range(3):
                o.write('   ' + row([9.0, 1.0, 2.0]) + ' ' + row(k[i]) + '\n')
            o.write('\n  position of ions in cartesian coordinates  (Angst):\n')
            for r in x:
                o.write('   ' + row([7.0, 7.0, 7.0]) + '\n')
        o.write('\n\n')
    g, exc = env.run(io.read_from_file_structure_outcar, p)
    if exc is not None:
        env.fail(repr(exc))
        return
    env.eq(np.array(g.get_cell()), c, 'cell')
    env.eq(np.array(g.get_positions()), x, 'positions')
    env.check(g.get_number_of_atoms() == N, 'number of atoms')
    env.check([str(y) for y in g.get_atomic_elements()] == [{1.01: 'H', 28.09: 'Si', 207.2: 'Pb'}[m] for m, n in zip(mass, types) for _ in range(n)],
              'element of each atom')
    env.eq(np.array(g.get_masses()), np.array([m for m, n in zip(mass, types) for _ in range(n)]), 'mass of each atom')
    q = env.path('absent')
    g, exc = env.run(io.read_from_file_structure_outcar, q)
    env.check(exc is not None, 'a file that does not exist is refused')


@case('C37', quick=[dict(sup=(1, 2, 1), modes=2, T=2), dict(sup=(2, 1, 2), modes=1, T=2)],
      thorough=[dict(sup=(2, 2, 1), modes=3, T=3), dict(sup=(3, 1, 1), modes=2, T=2)], tol=1e-5)
def test_trajectory(env):
    """each wave vector and mode moves every atom as a plane wave of its frequency, with the amplitude of its temperature"""
    np = env.np
    io, L, A = env.mod('dynaphopy.interface.iofile'), env.mod('dynaphopy.interface.phonopy_link'), env.mod('dynaphopy.atoms')
    sup, n, T = env.p['sup'], env.p['modes'], env.p['T']
    q = points(sup)
    s = [[0.0, 0.0, 0.0], [0.5, 0.25, 0.5]]
    c = [2.0, 2.5, 3.0]
    m = [env.real('m%d' % i, 1, 80) for i in range(2)]
    st = A.Structure(scaled_positions=np.array(s), cell=np.diag(c), masses=m, atomic_elements=EL[:2], primitive_matrix=np.identity(3))
    st.set_force_constants(L.ForceConstants(np.zeros((2, 2, 3, 3)), supercell=np.diag(sup)))
    e = env.carr('e', (len(q), n, 2, 3), -1, 1)
    options = [[0.5, 1.0, 2.0], [0.05, 1.5, -1.0], [1.0, -0.5, 0.09375]]
    f = [env.choice('f%d' % i if i < 2 else 'f1', options) for i in range(len(q))]

    def modes(structure, point, *a, **k):
        i = [all(abs(float(x) - y) < 1e-9 for x, y in zip(point, p)) for p in q].index(True)
        return e[i], np.array(f[i][:n])
    env.patch(L, 'get_commensurate_points', lambda structure, sc, **k: np.array(points([int(x) for x in np.diag(np.array(sc))])))
    env.patch(L, 'obtain_eigenvectors_and_frequencies', modes)
    temp = env.real('T', 1, 900)
    p0 = env.choice('phase', [0, 1, 3])
    kw = dict(phase_0=p0 * np.pi / 4) if p0 else {}
    dt = 0.25
    d, exc = env.run(io.generate_test_trajectory, st, supercell=list(sup), total_time=T * dt, time_step=dt, temperature=temp, silent=True, **kw)
    if exc is not None:
        env.fail(repr(exc))
        return
    env.eq(np.array(d.get_time()), np.array([i * dt for i in range(T)]), 'times')
    env.eq(np.array(d.get_supercell_matrix()), np.array(sup), 'supercell')
    g = np.array(d.trajectory)
    ref = np.array(st.get_positions(supercell=list(sup)))
    N = 2 * prod(sup)
    env.check(tuple(g.shape) == (T, N, 3), 'all the atoms at all the times')
    amp = np.sqrt(3 * KB * temp / prod(sup))
    for t in range(T):
        for a in range(N):
            kind = a // prod(sup)
            r = [ref[a, i] / c[i] for i in range(3)]
            d = [0, 0, 0]
            for i, point in enumerate(q):
                for j in range(n):
                    if abs(f[i][j]) <= 0.1:
                        continue
                    w = np.exp(1j * (2 * np.pi * (sum(x * y for x, y in zip(point, r)) - f[i][j] * t * dt) + p0 * np.pi / 4))
                    for k in range(3):
                        d[k] = d[k] + (e[i, j, kind, k] * w).real / (2 * np.pi * f[i][j])
            env.eq(g[t, a], np.array([ref[a, k] + amp / np.sqrt(m[kind]) * d[k] for k in range(3)]), 'position of each atom at each time')
