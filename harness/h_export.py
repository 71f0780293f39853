"""Structure files: POSCAR (C14), LAMMPS data (C15), order of the atoms (C22), LAMMPS link (C23)"""
from vp.driver import case
from .h_structure import EL, prod, offsets
from .h_io import BOXES, TURNS, row, txt

SPECIES = {'runs': ['Ga', 'N', 'N'], 'alternate': ['Ga', 'N', 'Ga'], 'alternate2': ['N', 'Ga', 'N', 'Ga'], 'one': ['Si', 'Si'],
           'unsorted': ['O', 'Ga', 'Ga', 'C']}
MASS = {'Ga': 69.723, 'N': 14.0067, 'Si': 28.0855, 'O': 15.9994, 'C': 12.0107}


def runs(names):
    out = []
    for e in names:
        if out and out[-1][0] == e:
            out[-1][1] += 1
        else:
            out.append([e, 1])
    return out


@case('C14', quick=[dict(species=s) for s in ('runs', 'alternate', 'one')], thorough=[dict(species=s) for s in SPECIES])
def poscar_read(env):
    """cell, positions and species of a POSCAR, in every variant of the format"""
    np = env.np
    io = env.mod('dynaphopy.interface.iofile')
    names = SPECIES[env.p['species']]
    n = len(names)
    cell = env.arr('c', (3, 3), -6, 6)
    x = env.arr('x', (n, 3), -2, 2)
    scale = env.choice('scale', [1.0, 2.5])
    mode = env.choice('coordinates', ['Direct', 'direct', 'Cartesian', 'cartesian', 'K-points'])
    old = env.flag('old style')
    tail = env.choice('after', ['', '\n', '\n\n  0.0 0.0 0.0\n  0.0 0.0 0.0\n'])
    env.assume(np.linalg.det(cell) > 1.0)
    p = env.path('POSCAR')
    with open(p, 'w') as o:
        o.write((' '.join(e for e, k in runs(names)) if old else 'title of 2 words') + '\n')
        o.write('  %s\n' % txt(scale))
        for r in cell:
            o.write('  ' + row(r) + '\n')
        if not old:
            o.write('  ' + '  '.join(e for e, k in runs(names)) + '\n')
        o.write('  ' + '  '.join('%d' % k for e, k in runs(names)) + '\n' + mode + '\n')
        o.write('\n'.join('  ' + row(r) for r in x) + tail)
    s, exc = env.run(io.read_from_file_structure_poscar, p)
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    env.eq(s.get_cell(), cell * scale, 'lattice vectors times the scale factor')
    cart = np.dot(x, cell * scale) if mode[0] in 'Dd' else x * scale
    env.eq(s.get_positions(), cart, 'positions')
    env.eq(np.dot(s.get_scaled_positions(), cell * scale), cart, 'scaled positions')
    env.check([str(e) for e in s.get_atomic_elements()] == names, 'species of each atom')
    env.eq(np.array(s.get_masses()), [MASS[e] for e in names], 'mass of each atom')


@case('C14', quick=[dict(species=s, sup=t) for s in ('runs', 'alternate', 'one') for t in ((1, 1, 1), (2, 1, 2))],
      thorough=[dict(species=s, sup=t) for s in SPECIES for t in ((2, 3, 2), (1, 1, 4))], digits=8, tol=1e-8)
def poscar_write(env):
    """the POSCAR generated holds the expanded structure"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    G = env.mod('dynaphopy.generate_cell')
    io = env.mod('dynaphopy.interface.iofile')
    names = SPECIES[env.p['species']]
    sup = list(env.p['sup'])
    n = len(names)
    c = env.cell('c', 'tri')
    x = env.arr('x', (n, 3), 0, 1)
    env.assume(np.linalg.det(c) > 0.5)
    s = A.Structure(scaled_positions=x, cell=c, masses=[MASS[e] for e in names], atomic_elements=list(names))
    scaled = env.flag('scaled')
    text, exc = env.run(G.generate_VASP_structure, s, scaled=scaled, supercell=env.choice('as', [sup, tuple(sup), np.array(sup)]))
    if exc is not None:
        env.fail('writing: ' + repr(exc))
        return
    off = offsets(sup)
    big = np.array([[c[i, j] * sup[i] for j in range(3)] for i in range(3)])
    frac = [x[k] + np.array(o) for k in range(n) for o in off]
    cart = np.dot(np.array(frac), c)
    every = [e for e in names for o in off]
    # the format, read independently
    L = text.split('\n')
    scale = float(L[1])
    env.check(scale == 1.0, 'scale factor')
    lat = np.array([[env._parse(t, False) for t in L[2 + i].split()] for i in range(3)])
    env.eq(lat, big, 'lattice vectors written')
    sp, ct = L[5].split(), [int(i) for i in L[6].split()]
    env.check([e for e, k in zip(sp, ct) for i in range(k)] == every, 'species written')
    env.check(len(sp) == len(ct), 'a count for each species')
    rows = [[env._parse(t, False) for t in l.split()] for l in L[8:] if l.strip()]
    env.check(len(rows) == len(every), 'one line per atom')
    env.check(L[7].strip()[0] == ('D' if scaled else 'C'), 'kind of coordinates')
    env.eq(np.dot(np.array(rows), big) if scaled else np.array(rows), cart, 'positions written')
    # read back by the package
    p = env.path('POSCAR')
    with open(p, 'w') as o:
        o.write(text)
    r, exc = env.run(io.read_from_file_structure_poscar, p)
    if exc is not None:
        env.fail('reading back: ' + repr(exc))
        return
    env.eq(r.get_cell(), big, 'cell read back')
    env.eq(r.get_positions(), cart, 'positions read back')
    env.check([str(e) for e in r.get_atomic_elements()] == every, 'species read back')


LMP = {'runs': ['Ga', 'N', 'N'], 'alternate': ['Ga', 'N', 'Ga'], 'one': ['Si', 'Si'], 'unsorted': ['O', 'Ga', 'C', 'Ga']}


@case('C15', quick=[dict(species=s, box=b, sup=t) for s, b, t in (('runs', 'tilted', (2, 1, 1)), ('alternate', 'negative tilt', (1, 2, 1)),
                                                                  ('one', 'free', (1, 1, 2)), ('unsorted', 'tilted xy', (1, 1, 1)))],
      thorough=[dict(species=s, box=b, sup=t) for s in LMP for b in list(BOXES) + ['free'] for t in ((1, 1, 1), (2, 1, 2))],
      digits=8, tol=1e-8)
def lammps_data(env):
    """the LAMMPS data file is the expanded structure, turned to the orientation LAMMPS needs"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    G = env.mod('dynaphopy.generate_cell')
    names = LMP[env.p['species']]
    sup = list(env.p['sup'])
    n = len(names)
    den, R = TURNS[env.choice('turn', sorted(TURNS))]
    if env.p['box'] == 'free':
        L = env.cell('c', 'tri')
        env.assume((L[0, 0] > 0.5) & (L[1, 1] > 0.5) & (L[2, 2] > 0.5))
        unit = L
    else:
        unit = BOXES[env.p['box']]
        L = [[v * den for v in r] for r in unit]
    if env.p['box'] == 'free':
        cell = np.array([[sum(unit[i][k] * R[k][j] for k in range(3)) for j in range(3)] for i in range(3)])
        L = unit * den
    else:
        cell = np.array([[sum(unit[i][k] * R[k][j] for k in range(3)) for j in range(3)] for i in range(3)])
        L = np.array(L)
    x = env.arr('x', (n, 3), 0, 1)
    m = {e: env.real('m_' + e, 1, 90) for e in sorted(set(names))}
    charged = env.flag('charges')
    q = [env.real('q%d' % i, -3, 3) for i in range(n)] if charged else None
    s = A.Structure(scaled_positions=x, cell=cell, masses=[m[e] for e in names], atomic_elements=list(names), charges=q)
    text, exc = env.run(G.generate_LAMMPS_structure, s, supercell=sup)
    if exc is not None:
        env.fail('writing: ' + repr(exc))
        return
    off = offsets(sup)
    every = [k for k in range(n) for o in off]
    frac = np.array([x[k] + np.array(o) for k in range(n) for o in off])
    lines = text.split('\n')
    head = {}
    for l in lines:
        w = l.split()
        for key in (['atoms'], ['atom', 'types'], ['xlo', 'xhi'], ['ylo', 'yhi'], ['zlo', 'zhi'], ['xy', 'xz', 'yz']):
            if len(w) > len(key) and w[-len(key):] == key:
                head[' '.join(key)] = [env._parse(v, False) for v in w[:-len(key)]]
    env.check(int(head['atoms'][0]) == len(every), 'number of atoms')
    types = sorted(set(names), key=names.index)
    env.check(int(head['atom types'][0]) == len(types), 'number of atom types')
    lo = [head[k][0] for k in ('xlo xhi', 'ylo yhi', 'zlo zhi')]
    le = [head[k][1] - head[k][0] for k in ('xlo xhi', 'ylo yhi', 'zlo zhi')]
    xy, xz, yz = head['xy xz yz']
    big = [[L[i][j] * sup[i] for j in range(3)] for i in range(3)]
    env.eq(np.array(lo), [0.0, 0.0, 0.0], 'origin of the box')
    env.eq(np.array([[le[0], 0, 0], [xy, le[1], 0], [xz, yz, le[2]]]), np.array(big), 'box vectors')

    def section(name):
        i = lines.index(name) + 2
        out = []
        while i < len(lines) and lines[i].strip():
            out.append(lines[i].split())
            i += 1
        return out
    mass = section('Masses')
    env.check(len(mass) == len(types), 'a mass for each type')
    for k, w in enumerate(mass):
        env.check(int(w[0]) == k + 1, 'type of the mass')
        env.eq(env._parse(w[1], False), m[types[k]], 'mass of type %d' % (k + 1))
    atoms = section('Atoms')
    env.check(len(atoms) == len(every), 'one line per atom')
    for i, w in enumerate(atoms):
        k = every[i]
        env.check(int(w[0]) == i + 1, 'atom number')
        env.check(types[int(w[1]) - 1] == names[k], 'atom type')
        if charged:
            env.eq(env._parse(w[2], False), q[k], 'charge')
        env.check(len(w) == 5 + charged, 'columns')
        p = [env._parse(v, False) for v in w[-3:]]
        env.eq(np.array(p), np.dot(frac[i], L), 'position of the atom in the box')


def shuffles(n):
    """some orders of n atoms: none, reversed, interleaved, two cycles"""
    base = list(range(n))
    out = {'none': base, 'reversed': base[::-1], 'interleaved': base[::2] + base[1::2], 'rotated': base[1:] + base[:1]}
    if n > 3:
        out['cycle of three'] = [1, 2, 0] + base[3:]
    return out


SITES = {'inside': [[0.25, 0.375, 0.25], [0.75, 0.625, 0.75]], 'origin': [[0.0, 0.0, 0.0]],
         'diamond': [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25]], 'edge': [[0.0, 0.5, 0.0], [0.5, 0.0, 0.5], [0.9375, 0.9375, 0.9375]]}
SHAPE = {'box': [[2.0, 0, 0], [0, 2.5, 0], [0, 0, 3.0]], 'tilted': [[3.0, 0, 0], [1.5, 2.0, 0], [0.75, 1.0, 2.0]],
         'full': [[0.0, 2.0, 2.0], [2.0, 0.0, 2.0], [2.0, 2.0, 0.0]]}


@case('C22', quick=[dict(sites='inside', sup=(2, 1, 1), cell='tilted', orders=['rotated']), dict(sites='origin', sup=(2, 1, 2), cell='box'),
                    dict(sites='diamond', sup=(1, 2, 2), cell='full'), dict(sites='edge', sup=(1, 2, 1), cell='tilted', orders=['cycle of three']),
                    dict(sites='inside', sup=(1, 4, 1), cell='box', orders=['cycle of three']),
                    dict(sites='diamond', sup=(4, 1, 1), cell='box', orders=['rotated'])],
      thorough=[dict(sites=s, sup=t, cell=c) for s in SITES for t in ((4, 1, 2), (2, 2, 2)) for c in SHAPE], max_paths=800)
def auto_order(env):
    """atoms given in any order are put in the order of the expanded structure"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    io = env.mod('dynaphopy.interface.iofile')
    pos = np.array(SITES[env.p['sites']])
    sup = list(env.p['sup'])
    c = np.array(SHAPE[env.p['cell']])
    n = len(pos)
    names = ['Ga', 'N', 'Si'][:n]
    off = offsets(sup)
    ideal = [[pos[k, i] + o[i] for i in range(3)] for k in range(n) for o in off]
    N = len(ideal)
    kind = env.choice('order', env.p.get('orders') or [k for k in ('reversed', 'cycle of three', 'rotated') if k in shuffles(N)][:2])
    perm = shuffles(N)[kind]            # perm[i]: the atom of the structure written in line i
    # displacements in fractions of the unit cell; the file holds wrapped or unwrapped positions
    far = env.choice('displaced', ['all together', 'one'])
    u = env.arr('u', (3,), -0.05, 0.05)
    v = env.arr('v', (N, 3), -0.05, 0.05)
    who = env.choice('atom', [0, N - 1][:1 if env.p['sites'] == 'edge' else 2]) if far == 'one' else None
    d0 = [[u[i] if who in (None, a) else u[i] * 0 for i in range(3)] for a in range(N)]
    first = [[ideal[a][i] + d0[a][i] for i in range(3)] for a in range(N)]
    box = env.choice('coordinates', ['as they are', 'centred'] + (['wrapped'] if env.p['sites'] != 'inside' else []))
    if box == 'centred':                # from minus half a box to half a box
        first = [[x - sup[i] if 2 * ideal[a][i] >= sup[i] else x for i, x in enumerate(r)] for a, r in enumerate(first)]
    if box == 'wrapped':
        first = [[x + sup[i] if bool(x < 0) else x for i, x in enumerate(r)] for r in first]
    second = [[ideal[a][i] + v[a, i] for i in range(3)] for a in range(N)]
    p = env.path('XDATCAR')
    with open(p, 'w') as o:
        o.write('title\n 1.0\n')
        for i in range(3):
            o.write('  ' + row(c[i] * sup[i]) + '\n')
        o.write(' '.join(names) + '\n' + ' '.join(['%d' % len(off)] * n) + '\n')
        for t, fr in enumerate((first, second)):
            o.write('Direct configuration= %5d\n' % (t + 1))
            for a in perm:
                o.write('  ' + row([fr[a][i] / sup[i] for i in range(3)]) + '\n')
    s = A.Structure(scaled_positions=pos, cell=c, masses=[10.0 + i for i in range(n)], atomic_elements=names, primitive_matrix=np.identity(3))
    parser = io.get_trajectory_parser(p)
    template, exc = env.run(io.check_atoms_order, p, parser, s)
    if exc is not None:
        env.fail('ordering: ' + repr(exc))
        return
    traj, exc = env.run(parser, p, structure=s, time_step=0.001, template=template)
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    env.check([int(i) for i in traj.get_supercell_matrix()] == sup, 'repeats of the unit cell')
    got = np.real(traj.trajectory)
    env.eq(got[0], np.dot(np.array(first), c), 'atoms of the first step in the order of the structure')
    env.eq(got[1], np.dot(np.array(second), c), 'atoms of the second step in the order of the structure')


@case('C22', quick=[dict(sup=(2, 1, 2)), dict(sup=(1, 2, 1), nat=2)], thorough=[dict(sup=(2, 2, 2), nat=2)])
def no_order(env):
    """when two atoms stand for the same site, no order is applied"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    io = env.mod('dynaphopy.interface.iofile')
    n, sup = env.p.get('nat', 1), list(env.p['sup'])
    pos = np.array(SITES['diamond'][:n])
    c = np.array(SHAPE['box'])
    ideal = [[pos[k, i] + o[i] for i in range(3)] for k in range(n) for o in offsets(sup)]
    N = len(ideal)
    place = list(range(N))[::-1]
    u = env.arr('u', (3,), -0.05, 0.05)
    twice = env.choice('same site', [(0, 1), (N - 1, 0)])
    good = env.flag('one atom on each site')
    if not good:
        place[twice[0]] = place[twice[1]]
    x = [[ideal[place[a]][i] + u[i] * (1 if a == twice[0] else 0) for i in range(3)] for a in range(N)]
    s = A.Structure(scaled_positions=pos, cell=c, masses=[10.0 + i for i in range(n)], atomic_elements=EL[:n], primitive_matrix=np.identity(3))
    t, exc = env.run(io.get_correct_arrangement, env.array(np.dot(np.array(x), c), 'c'), s, supercell=sup)
    if exc is not None:
        env.fail('ordering: ' + repr(exc))
        return
    env.check([int(i) for i in t] == (place if good else list(range(N))), 'place of each atom')


class FakeLammps:
    """the part of the LAMMPS library the link uses: a box with atoms kept in an order that changes during the run.
    api: 'new' extract_global with names only, 'old' a type is needed, 'oldest' extract_global answers None for the box"""

    def __init__(self, box, frames, orders, energy, api, every, reset):
        self.box, self.frames, self.orders, self.energy, self.api, self.reset = box, frames, orders, energy, api, reset
        self.t, self.every, self.log, self.vars, self.relaxed, self.started = -1, every, [], {}, 0, False

    def __call__(self, cmdargs=None):
        return self

    def file(self, name):
        self.log.append('file ' + name)

    def command(self, c):
        self.log.append(c)
        w = c.split()
        if w[0] == 'run':
            k = int(w[1])
            if self.t < 0 and k == 0:
                self.t = 0                         # set up
            elif not self.started:
                self.started, self.relaxed = True, k      # relaxation
            else:
                assert k == self.every, c
                self.t += 1
        if w[0] == 'variable':
            self.vars[w[1]] = w[2:]

    def extract_global(self, name, kind=None):
        if name == 'natoms':
            return len(self.orders[0])
        if self.api == 'old' and kind is None:
            raise TypeError('kind')
        return self.box[name]

    def gather_atoms(self, *a):
        return [0.0 if self.reset else 1.0] * 6

    def get_natoms(self):
        return len(self.orders[0])

    def order(self):
        return self.orders[max(self.t, 0)]

    def extract_atom(self, name, kind):
        if name == 'id':
            return [a + 1 for a in self.order()]
        x, v = self.frames[max(self.t, 0)]
        return [list((x if name == 'x' else v)[a]) for a in self.order()]

    def extract_variable(self, name, group, kind):
        assert self.vars[name] == ['equal', 'pe']
        return self.energy[max(self.t, 0)]

    def close(self):
        self.log.append('close')


@case('C23', quick=[dict(sites='diamond', sup=(1, 2, 2), cell='tilted'), dict(sites='origin', sup=(2, 1, 2), cell='box')],
      thorough=[dict(sites=s, sup=t, cell=c, steps=3) for s in ('origin', 'diamond', 'inside') for t in ((1, 2, 2), (2, 2, 1))
                for c in ('tilted', 'box')], max_paths=800, budget=110)
def lammps_run(env):
    """every atom of a LAMMPS run keeps its identity, whatever order LAMMPS holds the atoms in"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    pos = SITES[env.p['sites']]
    sup = list(env.p['sup'])
    c = SHAPE[env.p['cell']]
    n = len(pos)
    off = offsets(sup)
    # LAMMPS replicates the cell its own way: every atom of the cell, in each repeat
    ident = [(k, o) for o in sorted(off) for k in reversed(range(n))]
    N = len(ident)
    steps = env.p.get('steps', 2)
    table = shuffles(N)
    # orders of the atoms, corner of the box, and its size in that of the crystal the structure describes
    k0, k1, lo, big = env.choice('orders', [('none', 'none', [0.0, 0.0, 0.0], 1.0), ('rotated', 'rotated', [-1.5, 0.25, 2.0], 1.0),
                                            ('none', 'cycle of three', [0.0, 0.0, 0.5], 1.03125),
                                            ('rotated', 'interleaved', [0.25, -1.0, 0.0], 0.96875)])
    cell, c = c, [[x * big for x in r] for r in c]
    orders = [table[k0]] + [table[k1] if t % 2 == 0 else table['rotated'] for t in range(steps)]
    u = env.arr('u', (steps + 1, N, 3), -9, 9)
    v = env.arr('v', (steps + 1, N, 3), -9, 9)
    e = env.arr('e', (steps + 1,), -9, 9)
    frames = []
    for t in range(steps + 1):
        x = [[sum((pos[k][i] + o[i]) * c[i][j] for i in range(3)) + (u[t, a, j] if t else 0.0) for j in range(3)]
             for a, (k, o) in enumerate(ident)]
        frames.append((x, v[t]))
    box = {'boxxlo': lo[0], 'boxylo': lo[1], 'boxzlo': lo[2], 'boxxhi': lo[0] + c[0][0] * sup[0], 'boxyhi': lo[1] + c[1][1] * sup[1],
           'boxzhi': lo[2] + c[2][2] * sup[2],
           'xy': c[1][0] * sup[1], 'xz': c[2][0] * sup[2], 'yz': c[2][1] * sup[2]}
    every = env.choice('interval', [1, 5])
    relax = env.choice('relaxation', [0, 0.25])
    only = env.flag('velocity only')
    unset, temp = env.flag('velocities unset'), env.choice('temperature', [None, 300])
    fake = FakeLammps(box, frames, orders, e, env.choice('api', ['new', 'old']), every, unset)
    env.module('lammps', lammps=fake)
    L = env.mod('dynaphopy.interface.lammps_link')
    env.patch(L, 'lammps', fake)
    s = A.Structure(scaled_positions=np.array(pos), cell=np.array(cell), masses=[10.0 + i for i in range(n)],
                    atomic_elements=['Ga', 'N', 'Si'][:n], primitive_matrix=np.identity(3))
    dt = 0.125
    traj, exc = env.run(L.generate_lammps_trajectory, s, 'in.demo', total_time=dt * every * steps, time_step=dt, relaxation_time=relax,
                        silent=True, supercell=tuple(sup), velocity_only=only, sampling_interval=every,
                        temperature=temp)
    if exc is not None:
        env.fail('run: ' + repr(exc))
        return
    env.check(fake.log[-1] == 'close', 'LAMMPS closed')
    env.check(fake.relaxed == (0 if relax == 0 else 2), 'relaxation steps')
    env.check('replicate %d %d %d' % tuple(sup) in fake.log, 'cell replicated')
    drawn = [l.split() for l in fake.log if l.startswith('velocity ')]
    env.check(bool(drawn) == unset, 'velocities drawn only when there are none')
    at = [float(w[w.index(k) + 1]) for w in drawn for k in ('create', 'scale') if k in w]
    env.check(temp is None or all(t == temp for t in at), 'velocities drawn at the temperature asked for')
    env.check(any(l.split()[:1] == ['fix'] and 'nvt' in l for l in fake.log) == (temp is not None), 'thermostat when a temperature is given')
    env.eq(traj.get_supercell(), np.array([[c[i][j] * sup[i] for j in range(3)] for i in range(3)]), 'simulation cell')
    env.check(fake.t == steps, 'steps run')
    V = np.real(traj.velocity)
    env.eq(np.array(V.shape), [steps, N, 3], 'steps and atoms')
    X = None if only else np.real(traj.trajectory)
    row_of = {(k, o): i for i, (k, o) in enumerate((k, o) for k in range(n) for o in off)}
    for t in range(steps):
        for a, key in enumerate(ident):
            i = row_of[key]
            env.eq(V[t, i], v[t + 1, a], 'velocity of each atom of the structure')
            if not only:
                env.eq(X[t, i], np.array(frames[t + 1][0][a]), 'position of each atom of the structure')
    env.eq(np.array(traj.get_energy()), np.array([e[t + 1] for t in range(steps)]), 'energy of each step')
    tt = traj.get_time()
    env.eq(np.array(tt.shape), [steps], 'a time for each step')
    env.eq(tt[1:] - tt[:-1], [dt * every] * (steps - 1), 'time between the steps')
