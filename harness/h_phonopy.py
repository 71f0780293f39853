"""The interface to phonopy (C32)"""
from vp.driver import case
from .h_structure import EL
from .h_dynamics import CENTRED


class Fake:
    """phonopy, recorded: every result is a given function of what was set"""

    def __init__(self, env, n):
        np = env.np
        self.env, self.n, self.made = env, n, []
        self.L = env.mod('dynaphopy.interface.phonopy_link')
        self.dos = env.arr('dos', (2, 4), 0, 3)
        self.pdos = env.arr('pdos', (n, 4), 0, 3)
        self.th = [env.real(k, -5, 5) for k in ('free', 'entropy', 'heat')]
        fake = self

        class Atoms:
            def __init__(self, symbols=None, scaled_positions=None, cell=None, masses=None, **k):
                self.symbols, self.scaled_positions, self.cell, self.masses, self.rest = symbols, scaled_positions, cell, masses, k

        class Phonon:
            def __init__(self, atoms, supercell, primitive_matrix=None, symprec=None, **k):
                self.atoms, self.sup, self.prim, self.symprec, self.rest = atoms, supercell, primitive_matrix, symprec, k
                self.fc = self.dataset = self.nac = None
                self.log = []
                fake.made.append(self)

            def set_force_constants(self, fc):
                self.fc = fc

            def set_displacement_dataset(self, d):
                self.dataset = d

            def produce_force_constants(self):
                assert self.dataset is not None
                self.fc = np.array([[1.0, 2.0]])

            def get_force_constants(self):
                return self.fc

            force_constants = property(get_force_constants, set_force_constants)

            def get_primitive(self):
                return 'primitive cell'

            def get_supercell(self):
                return 'supercell of %s' % (np.array(self.sup).tolist(),)

            def set_nac_params(self, nac_params):
                self.nac = nac_params

            def run_mesh(self, mesh, **k):
                self.log.append(('mesh', mesh, k))
                self.mesh = mesh

            def run_total_dos(self, **k):
                self.log.append(('dos', k))

            def run_projected_dos(self, **k):
                self.log.append(('pdos', k))

            def get_total_dos_dict(self):
                assert ('mesh' == self.log[0][0]) and self.log[-1][0] == 'dos'
                return {'frequency_points': fake.dos[0], 'total_dos': fake.dos[1]}

            def get_projected_dos_dict(self):
                assert ('mesh' == self.log[0][0]) and self.log[-1][0] == 'pdos'
                return {'frequency_points': fake.dos[0], 'projected_dos': fake.pdos}

            def run_thermal_properties(self, t_step=None, t_min=None, t_max=None, **k):
                self.log.append(('thermal', t_min, t_max))

            def get_thermal_properties_dict(self):
                return {'free_energy': [fake.th[0]], 'entropy': [fake.th[1]], 'heat_capacity': [fake.th[2]], 'temperatures': [self.log[-1][1]]}

            def get_mesh_dict(self):
                return {'qpoints': 'Q', 'weights': 'W', 'frequencies': 'F', 'eigenvectors': None}

            def run_band_structure(self, bands, is_band_connection=False, with_eigenvectors=False, **k):
                self.bands, self.connection, self.vectors = bands, is_band_connection, with_eigenvectors

            def get_band_structure_dict(self):
                assert self.vectors
                return {'qpoints': self.bands, 'distances': 'D', 'frequencies': 'F', 'eigenvectors': 'E'}

            def get_group_velocity_at_q(self, q):
                return ('velocity', q)

        class Back:
            def __init__(self, primitive, supercell, **k):
                self.a = (primitive, supercell)

            def get_commensurate_points(self):
                return ('points',) + self.a
        env.patch(self.L, 'PhonopyAtoms', Atoms)
        env.patch(self.L, 'PhonopyLegacy', Phonon)
        env.patch(self.L, 'DynmatToForceConstantsLegacy', Back)
        env.patch(self.L, 'parse_BORN', lambda primitive, **k: ('BORN', primitive))


def plain(x):
    return [[float(v) for v in r] for r in x]


@case('C32', quick=[dict(lattice='bcc', what=w) for w in ('dos', 'thermal', 'bands', 'velocity', 'mesh', 'points', 'modes')],
      thorough=[dict(lattice=l, what=w) for l in ('fcc', 'base') for w in ('dos', 'thermal', 'bands', 'velocity', 'mesh', 'points', 'modes')],
      max_paths=800, note='phonopy replaced by a recording stand-in')
def wrappers(env):
    """phonopy is given this crystal and these constants, and its results are scaled to the unit cell"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    M, shifts = CENTRED[env.p['lattice']]
    shifts = [(0, 0, 0)] + list(shifts)
    prim = 2
    basis = [[0.0, 0.0, 0.0], [0.25, 0.125, 0.375]]
    pos = np.array([[basis[k][i] + s[i] for i in range(3)] for k in range(prim) for s in shifts])
    m = [env.real('m%d' % k, 1, 90) for k in range(prim)]
    masses = [m[k] for k in range(prim) for s in shifts]
    el = [EL[k] for k in range(prim) for s in shifts]
    c = np.array([[2.0, 0, 0], [0, 2.5, 0], [0, 0, 3.0]])
    s = A.Structure(scaled_positions=pos, cell=c, masses=masses, atomic_elements=el, primitive_matrix=M)
    f = Fake(env, prim)
    L = f.L
    P = env.mod('dynaphopy.parameters').Parameters()
    P.symprec = env.choice('symprec', [1e-5, 1e-3])
    sup = np.array(env.choice('supercell', [[[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[1, 1, 0], [-1, 1, 0], [0, 0, 4]]]))
    own = L.ForceConstants([[3.0, 4.0]], supercell=sup)
    kind = env.choice('forces', ['constants', 'sets'])
    sets = L.ForceSets({'natom': len(pos) * 8, 'x': 1}, supercell=sup)
    if kind == 'constants':
        s.set_force_constants(own)
    else:
        s.set_force_set(sets)
    given = L.ForceConstants([[5.0, 6.0]], supercell=np.diag([3, 1, 2])) if env.flag('constants given') else None
    nac = env.flag('NAC')
    what = env.p['what']
    kw = dict(force_constants=given, NAC=nac)
    ratio = len(shifts)
    w, exc = None, None
    if what == 'dos':
        on = env.choice('projected on', [-1, 0, 1])
        w, exc = env.run(L.obtain_phonopy_dos, s, mesh=(4, 5, 6), freq_min=0.5, freq_max=9.0, freq_pitch=0.25, projected_on_atom=on, **kw)
    elif what == 'thermal':
        T = env.real('T', 1, 900)
        w, exc = env.run(L.obtain_phonopy_thermal_properties, s, T, mesh=(4, 5, 6), **kw)
    elif what == 'bands':
        res = env.choice('resolution', [1, 4, 31])
        R = env.arr('r', (2, 2, 3), -1, 1)
        con = env.flag('connection')
        w, exc = env.run(L.obtain_phonon_dispersion_bands, s, [R[0], R[1]], band_resolution=res, band_connection=con, **kw)
    elif what == 'velocity':
        at = env.choice('wave vector', [[0.5, 0.0, 0.25], [0.0, 0.0, 0.0]])
        w, exc = env.run(L.obtain_phonopy_group_velocity, s, at, **kw)
    elif what == 'mesh':
        given = given or own
        w, exc = env.run(L.obtain_phonopy_mesh_from_force_constants, s, given, mesh=(4, 5, 6), NAC=nac)
    elif what == 'modes':
        n = 3 * prim
        ev = env.carr('ev', (n, n), -1, 1)
        fr = env.arr('fr', (n,), 0, 9)
        nac, given = False, None
        asked = []

        def modes(self, q):
            asked.append([float(x) for x in q])
            return fr, ev
        env.patch(L.PhonopyLegacy, 'get_frequencies_with_eigenvectors', modes) if hasattr(L.PhonopyLegacy, 'get_frequencies_with_eigenvectors') \
            else setattr(L.PhonopyLegacy, 'get_frequencies_with_eigenvectors', modes)
        at = env.choice('wave vector', [[0.5, 0.0, 0.25], [0.0, 0.0, 0.0], [0.5, 0.5, 0.5]])
        w, exc = env.run(L.obtain_eigenvectors_and_frequencies, s, np.array(at), print_data=env.flag('print'))
    else:
        nac, given = False, None
        w, exc = env.run(L.get_commensurate_points, s, np.diag([1, 2, 3]))
    if exc is not None:
        env.fail(what + ': ' + repr(exc))
        return
    env.check(len(f.made) >= 1, 'phonopy called')
    p = f.made[-1]
    env.check([str(x) for x in p.atoms.symbols] == el, 'elements given to phonopy')
    env.eq(p.atoms.scaled_positions, pos, 'positions given to phonopy')
    env.eq(p.atoms.cell, c, 'cell given to phonopy')
    env.check(p.atoms.masses is not None, 'masses given to phonopy')
    if p.atoms.masses is not None:
        env.eq(np.array(p.atoms.masses), masses, 'masses given to phonopy')
    env.check(plain(p.prim) == plain(M), 'primitive matrix given to phonopy')
    env.check(p.symprec == P.symprec, 'symmetry tolerance given to phonopy')
    if what == 'points':
        env.check(plain(p.sup) == plain(np.diag([1, 2, 3])), 'supercell asked for')
        env.check(w == ('points', p.get_primitive(), p.get_supercell()), 'points of the supercell')
        return
    want = given if given is not None else own
    env.check(plain(p.sup) == plain(want.get_supercell()), 'supercell of the force constants')
    if given is None and kind == 'sets':
        env.check(p.dataset is sets.get_dict(), 'force sets handed over')
        fc = s.get_force_constants()
        env.check(fc is not None and fc.get_array().tolist() == [[1.0, 2.0]] and plain(fc.get_supercell()) == plain(sup),
                  'constants of the force sets are kept with their supercell')
    else:
        env.check(p.fc is not None and np.array(p.fc).tolist() == want.get_array().tolist(), 'force constants handed over')
    env.check(p.nac == (('BORN', 'primitive cell') if nac else None), 'non-analytical corrections only when asked for')
    if what == 'dos':
        env.eq(w[0], f.dos[0], 'frequencies')
        env.eq(w[1], (f.dos[1] if on < 0 else f.pdos[on]) * ratio, 'density of states of the unit cell')
        env.check(p.log[0][:2] == ('mesh', (4, 5, 6)), 'mesh')
        k = p.log[-1][1]
        env.check(k.get('freq_min') == 0.5 and k.get('freq_max') == 9.0 and k.get('freq_pitch') == 0.25, 'frequencies asked for')
        if on >= 0:
            env.check(p.log[0][2].get('with_eigenvectors') is True and p.log[0][2].get('is_mesh_symmetry') is False, 'mesh of a projected density')
    elif what == 'thermal':
        for i, n in enumerate(('free energy', 'entropy', 'heat capacity')):
            env.eq(w[i], f.th[i] * ratio, n + ' of the unit cell')
        env.eq(np.array(p.log[-1][1:]), [T, T], 'temperature')
        env.check(p.log[0][:2] == ('mesh', (4, 5, 6)), 'mesh')
    elif what == 'bands':
        env.check(len(w) == 4 and w[1:] == ('D', 'F', 'E'), 'band data in order')
        env.check(p.connection == con, 'band connection as asked for')
        for r, b in zip(R, w[0]):
            env.check(len(b) == res + 1, 'points of the path')
            for i, q in enumerate(b):
                env.eq(q * res, r[0] * (res - i) + r[1] * i, 'points evenly from one end of the path to the other')
    elif what == 'velocity':
        env.check(w[0] == 'velocity' and list(w[1]) == at, 'velocity at the wave vector')
    elif what == 'mesh':
        env.check(w == ('Q', 'W', 'F') and p.mesh == (4, 5, 6), 'mesh data in order')
    elif what == 'modes':
        env.check(asked == [at], 'modes at the wave vector')
        e, fq = w
        env.eq(fq, fr, 'frequencies')
        env.eq(np.array(e.shape), [n, prim, 3], 'modes by atom and direction')
        for i in range(n):
            for a in range(prim):
                env.eq(e[i, a], ev[3 * a:3 * a + 3, i], 'displacement of each atom in each mode')


@case('C32', quick=[dict(nat=3)], note='seekpath replaced by a recording stand-in')
def paths(env):
    """paths found for the crystal go from the first to the second point named, each with its coordinates"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    nat = env.p['nat']
    pos = env.arr('p', (nat, 3), 0, 0.9)
    kinds = env.choice('elements', [['Si', 'O', 'O'], ['O', 'Si', 'O'], ['C', 'Si', 'O']])
    L = env.arr('c', (3,), 2, 5)
    prim = env.choice('primitive', [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]])
    k = env.arr('k', (3, 3), -1, 1)
    at = {'GAMMA': [0.0, 0.0, 0.0], 'X': list(k[0]), 'M': list(k[1]), 'R_1': list(k[2])}
    path = [('GAMMA', 'X'), ('X', 'M'), ('R_1', 'GAMMA')]
    asked = []

    def get_path(structure, *a, **o):
        asked.append(structure)
        return {'point_coords': at, 'path': path, 'other': 0}
    env.module('seekpath', get_path=get_path)
    s = A.Structure(scaled_positions=env.array(pos, 'c'), cell=np.diag(env.array(L, 'c')), masses=[1.0, 2.0, 3.0][:nat], atomic_elements=kinds, primitive_matrix=np.array(prim))
    if env.flag('elements asked before'):
        s.get_atomic_elements(supercell=[2, 1, 1])
    g, exc = env.run(s.get_path_using_seek_path)
    if exc is not None:
        env.fail('path: ' + repr(exc))
        return
    env.check(len(asked) == 1, 'asked once')
    cell, x, numbers = asked[0]
    env.eq(np.array(cell), np.diag(env.array(L, 'c')), 'cell')
    env.eq(np.array(x), env.array(pos, 'c'), 'positions')
    n = [int(i) for i in numbers]
    env.check(len(n) == nat and all((n[i] == n[j]) == (kinds[i] == kinds[j]) for i in range(nat) for j in range(nat)), 'atoms of the same element, and only they, are alike')
    env.check([list(t) for t in g['labels']] == [list(t) for t in path] and len(g['ranges']) == len(path), 'names')
    for t, r in zip(path, g['ranges']):
        env.eq(np.array(list(r[0])), np.array(at[t[0]]), 'first end of ' + '-'.join(t))
        env.eq(np.array(list(r[1])), np.array(at[t[1]]), 'second end of ' + '-'.join(t))


@case('C32', quick=[dict()], note='the reader of phonopy replaced by a stand-in')
def sets_file(env):
    """force sets read from a file come with the supercell they are read for"""
    np = env.np
    f = Fake(env, 1)
    raw = {'natom': 2, 'first_atoms': [{'number': 0, 'displacement': [0.01, 0, 0], 'forces': env.array(env.arr('f', (2, 3), -5, 5), 'c')}]}
    asked = []
    good = env.flag('readable')
    env.patch(f.L, 'parse_FORCE_SETS', lambda filename=None, **k: asked.append(filename) or (raw if good else None))
    sup = env.choice('supercell', [None, [[2, 0, 0], [0, 1, 0], [0, 0, 3]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]])
    name = env.choice('name', [None, 'SETS'])
    a = {} if name is None else {'file_name': name}
    if sup is not None:
        a['fs_supercell'] = np.array(sup)
    g, exc = env.run(f.L.get_force_sets_from_file, **a)
    env.check(asked == [name or 'FORCE_SETS'], 'file read')
    if not good:
        env.check(exc is not None, 'an unreadable file is refused')
        return
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    d = g.get_dict()
    env.check(d['natom'] == 2 and len(d['first_atoms']) == 1 and d['first_atoms'][0]['number'] == 0, 'displaced atoms')
    env.eq(np.array(d['first_atoms'][0]['forces']), np.array(raw['first_atoms'][0]['forces']), 'forces')
    env.check(plain(g.get_supercell()) == plain(sup or np.identity(3)), 'supercell')


@case('C32', quick=[dict()])
def versions(env):
    """names of old versions of phonopy give and set what the new ones do"""
    L = env.mod('dynaphopy.interface.phonopy_link')

    class P(L.PhonopyLegacy):
        primitive, supercell, force_constants, dataset, nac_params = 'P', 'S', None, None, None

        def __init__(self):
            pass

    class S(L.SymmetryLegacy):
        reciprocal_operations = 'R'

        def __init__(self):
            pass

    class D(L.DynmatToForceConstantsLegacy):
        commensurate_points, force_constants = 'C', 'F'

        def __init__(self):
            pass
    p = P()
    env.check(p.get_primitive() == 'P' and p.get_supercell() == 'S', 'cells')
    p.set_force_constants('fc')
    p.set_displacement_dataset('set')
    p.set_nac_params('nac')
    env.check((p.force_constants, p.dataset, p.nac_params) == ('fc', 'set', 'nac') and p.get_force_constants() == 'fc', 'what is set')
    env.check(S().get_reciprocal_operations() == 'R' and D().get_commensurate_points() == 'C' and D().get_force_constants() == 'F', 'other names')
