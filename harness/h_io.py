"""Trajectory files (C12), HDF5 (C13), memory mapping (C27)"""
import gc
import os
from vp.driver import case
from .h_structure import EL, prod
from .h_dynamics import crystal, supercell_of, sites

DIAG = [2.0, 2.5, 3.0]


class Frames:
    """a crystal and the frames of a simulation of it"""

    def __init__(self, env, n, sup=(1, 2, 1), nat=1, cell=None, lo=-3, hi=3):
        np = env.np
        self.env, self.n, self.sup, self.nat = env, n, sup, nat
        self.A = env.mod('dynaphopy.atoms')
        self.c = np.diag(DIAG) if cell is None else np.array(cell)
        self.big = np.array([[self.c[i, j] * sup[i] for j in range(3)] for i in range(3)])
        self.N = nat * prod(sup)
        self.x = env.arr('x', (n, self.N, 3), lo, hi)
        self.pos = np.array([[0.0, 0, 0], [0.4, 0.5, 0.25]][:nat])

    def structure(self):
        return self.A.Structure(scaled_positions=self.pos, cell=self.c, masses=[10.0 + i for i in range(self.nat)],
                                atomic_elements=EL[:self.nat], primitive_matrix=self.env.np.identity(3))


def txt(v):
    return '{0:.12f}'.format(v)


def row(v):
    return ' '.join(txt(x) for x in v)


def xdatcar(path, f, scale, rows=None):
    with open(path, 'w') as o:
        o.write('title\n  %s\n' % txt(scale))
        for r in f.big:
            o.write('  ' + row([x / scale for x in r]) + '\n')
        o.write(' '.join(EL[:f.nat]) + '\n' + ' '.join(['%d' % prod(f.sup)] * f.nat) + '\n')
        for t in range(f.n):
            o.write('Direct configuration= %5d\n' % (t + 1))
            for a in range(f.N):
                o.write('  ' + row((rows or f.x)[t, a]) + '\n')


def lammps(path, f, kind, first=100, every=10, box=None):
    names = 'x y z' if kind == 'x' else 'vx vy vz'
    with open(path, 'w') as o:
        for t in range(f.n):
            o.write('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\n' % (first + every * t, f.N))
            o.write('ITEM: BOX BOUNDS %spp pp pp\n' % ('' if box is None or len(box[0]) == 2 else 'xy xz yz '))
            for r in box if box is not None else [[0.0, f.big[i, i]] for i in range(3)]:
                o.write(row(r) + '\n')
            o.write('ITEM: ATOMS %s\n' % names)
            for a in range(f.N):
                o.write(row(f.x[t, a]) + '\n')


def outcar(path, f, energy, header=0):
    with open(path, 'w') as o:
        o.write(' vasp\n' + '  parameters of the calculation\n' * header + '   number of ions     NIONS = %6d\n   POTIM  = 0.5000    time-step for ionic-motion\n' % f.N)
        o.write('   POMASS =  10.00\n')
        o.write('      direct lattice vectors                 reciprocal lattice vectors\n')
        for r in f.big:
            o.write('  ' + row(r) + '  0.1 0.2 0.3\n')
        o.write('\n')
        for t in range(f.n):
            o.write(' POSITION                                       TOTAL-FORCE (eV/Angst)\n ----------\n')
            for a in range(f.N):
                o.write('  ' + row(f.x[t, a]) + '  0.0 0.0 0.0\n')
            o.write(' ----------\n  energy  without entropy= -1.0  energy(sigma->0) =  %s\n' % txt(energy[t]))


def window(n, first, last, keep):
    w = list(range(n))[max(first, 1) - 1:last]
    return w[-keep:] if keep else w


def window_choice(env, n):
    first = env.choice('from', [1, 2, 3])
    last = env.choice('to', [None, 3, n + 2])
    keep = env.choice('last', [None, 1, 2])
    return first, last, keep


@case('C12', quick=[dict(kind=k) for k in ('xdatcar', 'lammps x', 'lammps v', 'outcar')],
      thorough=[dict(kind=k, n=6, nat=2) for k in ('xdatcar', 'lammps x', 'lammps v', 'outcar')], max_paths=400, tol=1e-9)
def parsers(env):
    """exactly the frames asked for, at their times, in cartesian coordinates"""
    np = env.np
    kind = env.p['kind']
    n = env.p.get('n', 4)
    f = Frames(env, n, nat=env.p.get('nat', 1))
    io = env.mod('dynaphopy.interface.iofile')
    tp = env.mod('dynaphopy.interface.iofile.trajectory_parsers')
    p = env.path('trajectory')
    energy = env.arr('e', (n,), -9, 9)
    dt = env.choice('time step', [None, 0.002])
    if kind == 'xdatcar':
        scale = env.choice('scale', [1.0, 2.0])
        xdatcar(p, f, scale)
        reader, times = tp.read_VASP_XDATCAR, [t + 1 for t in range(n)]
    elif kind == 'outcar':
        outcar(p, f, energy, header=env.choice('header', [0, 2000]))
        reader, times = tp.read_vasp_trajectory, None
    else:
        lammps(p, f, kind[-1])
        reader, times = tp.read_lammps_trajectory, [100 + 10 * t for t in range(n)]
    found = io.get_trajectory_parser(p)
    env.check(found is reader, 'format recognised')
    first, last, keep = window_choice(env, n)
    mm = kind != 'outcar' and last is not None and keep is None and env.flag('memmap')
    os.environ['DYNAPHOPY_TEMPDIR'] = env.tmp()
    try:
        d, exc = env.run(reader, p, structure=f.structure(), time_step=dt, initial_cut=first, end_cut=last, last_steps=keep, memmap=mm)
        if exc is not None:
            env.fail('reading: ' + repr(exc))
            return
        w = window(n, first, last, keep)
        x = np.array([f.x[t] for t in w])
        if kind == 'xdatcar':
            x = np.array([[[sum(f.x[t, a, i] * f.big[i, j] for i in range(3)) for j in range(3)] for a in range(f.N)] for t in w])
        got = d.velocity if kind == 'lammps v' else d.trajectory
        env.eq(np.array(got.shape), [len(w), f.N, 3], 'frames of the window')
        env.eq(np.real(got), x, 'coordinates of the frames')
        env.eq(np.imag(got), x * 0, 'real coordinates')
        env.eq(d.get_supercell(), f.big, 'simulation cell')
        env.check([int(i) for i in d.get_supercell_matrix()] == list(f.sup), 'repeats of the unit cell')
        t = np.array(d.get_time())
        env.eq(np.array(t.shape), [len(w)], 'a time for each frame')
        if times is not None:
            env.eq(t, [times[i] * (dt or 0.001) for i in w], 'time of each frame')
        else:
            env.eq(t[1:] - t[:-1], [0.0005] * (len(w) - 1), 'time between frames')
            env.eq(np.array(d.get_energy()), np.array([energy[i] for i in w]), 'energy of each frame')
        del d, got
    finally:
        del os.environ['DYNAPHOPY_TEMPDIR']


@case('C12', quick=[dict(kind=k) for k in ('xdatcar', 'lammps x', 'lammps v', 'outcar')],
      thorough=[dict(kind=k, n=3, nat=2) for k in ('xdatcar', 'lammps x', 'lammps v', 'outcar')], max_paths=400, note='orders from a list', tol=1e-9)
def arranged(env):
    """atoms written in another order are put in the order of the structure"""
    np = env.np
    kind, n, nat = env.p['kind'], env.p.get('n', 2), env.p.get('nat', 1)
    f = Frames(env, n, sup=(3, 1, 1), nat=nat)
    tp = env.mod('dynaphopy.interface.iofile.trajectory_parsers')
    p = env.path('trajectory')
    place = env.choice('places', [list(range(f.N)), [1, 2, 0] + list(range(3, f.N)), [f.N - 1] + list(range(f.N - 1)), list(range(f.N))[::-1]])
    energy = env.arr('e', (n,), -9, 9)
    if kind == 'xdatcar':
        xdatcar(p, f, 1.0)
        reader = tp.read_VASP_XDATCAR
    elif kind == 'outcar':
        outcar(p, f, energy)
        reader = tp.read_vasp_trajectory
    else:
        lammps(p, f, kind[-1])
        reader = tp.read_lammps_trajectory
    mm = kind != 'outcar' and env.flag('memmap')
    os.environ['DYNAPHOPY_TEMPDIR'] = env.tmp()
    try:
        d, exc = env.run(reader, p, structure=f.structure(), time_step=0.001, memmap=mm, template=np.array(place), **(dict(end_cut=n) if mm else {}))
        if exc is not None:
            env.fail('reading: ' + repr(exc))
            return
        got = d.velocity if kind == 'lammps v' else d.trajectory
        env.eq(np.array(got.shape), [n, f.N, 3], 'frames')
        for a in range(f.N):                     # atom a of the file is number place[a] of the structure
            x = f.x[:, a, :]
            if kind == 'xdatcar':
                x = np.array([[sum(x[t, i] * f.big[i, j] for i in range(3)) for j in range(3)] for t in range(n)])
            env.eq(np.real(got[:, place[a], :]), x, 'atom %d of the file' % a)
        del d, got
    finally:
        del os.environ['DYNAPHOPY_TEMPDIR']


@case('C12', quick=[dict()], tol=1e-9)
def unknown(env):
    """files of another format are not taken for a trajectory"""
    io = env.mod('dynaphopy.interface.iofile')
    p = env.path('file')
    x = env.arr('x', (2, 3), 0, 1)
    text = {'crystal': 'crystal of a = 3\n1.0\n2.0 0.0 0.0\n0.0 2.0 0.0\n0.0 0.0 2.0\nSi\n2\nDirect\n' + ''.join(row(r) + '\n' for r in x),
            'times only': 'ITEM: TIMESTEP\n0\nITEM: ENTRIES c_1\n' + row(x[0]) + '\n',
            'input': 'NIONS = 3\nPOMASS = 10.0\n' + row(x[0]) + '\n'}
    with open(p, 'w') as o:
        o.write(text[env.choice('content', sorted(text))])
    g, exc = env.run(io.get_trajectory_parser, p)
    env.check(exc is None and g is None, 'no reader')
    g, exc = env.run(io.get_trajectory_parser, env.path('absent'))
    env.check(exc is not None, 'a file that does not exist is refused')


# LAMMPS boxes (a along x, b in the xy plane) and rotations of them
BOXES = {
    'orthogonal': ([[2.0, 0, 0], [0, 2.5, 0], [0, 0, 3.0]]),
    'tilted xy': ([[2.0, 0, 0], [1.2, 1.6, 0], [0, 0, 3.0]]),
    'tilted': ([[3.0, 0, 0], [1.5, 2.0, 0], [1.0, 2.0, 2.0]]),
    'negative tilt': ([[5.0, 0, 0], [-1.5, 2.0, 0], [-1.0, -2.0, 2.0]]),
}
# rotations as whole numbers over a denominator; the cells are multiples of it, so that they are exact
TURNS = {
    'none': (1, [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'permuted': (1, [[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
    '345': (5, [[3, 4, 0], [-4, 3, 0], [0, 0, 5]]),
    '122': (3, [[1, 2, 2], [2, 1, -2], [-2, 2, -1]]),
}


@case('C12', quick=[dict(box=b) for b in BOXES], thorough=[dict(box=b, n=3, sup=(2, 1, 2)) for b in BOXES], note='tilted boxes and rotations from a list', tol=1e-9)
def tilted(env):
    """a LAMMPS box of any tilt is turned to the orientation of the unit cell"""
    np = env.np
    den, R = TURNS[env.choice('turn', sorted(TURNS))]
    unit = BOXES[env.p['box']]
    L = [[x * den for x in r] for r in unit]
    sup = env.p.get('sup', (1, 2, 1))
    cell = [[sum(unit[i][k] * R[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    f = Frames(env, env.p.get('n', 2), sup=sup, cell=cell)
    b = [[L[i][j] * sup[i] for j in range(3)] for i in range(3)]
    xy, xz, yz = b[1][0], b[2][0], b[2][1]
    lo = [env.choice('origin', [0.0, -1.5])] * 3
    box = [[lo[0] + min(0, xy, xz, xy + xz), lo[0] + b[0][0] + max(0, xy, xz, xy + xz), xy],
           [lo[1] + min(0, yz), lo[1] + b[1][1] + max(0, yz), xz], [lo[2], lo[2] + b[2][2], yz]]
    if env.p['box'] == 'orthogonal' and env.flag('short form'):
        box = [r[:2] for r in box]
    kind = env.choice('kind', ['x', 'v'])
    p = env.path('dump')
    lammps(p, f, kind, box=box)
    tp = env.mod('dynaphopy.interface.iofile.trajectory_parsers')
    d = tp.read_lammps_trajectory(p, structure=f.structure(), time_step=0.001)
    got = np.real(d.velocity if kind == 'v' else d.trajectory)
    env.eq(d.get_supercell(), f.big, 'simulation cell in the orientation of the unit cell')
    for t in range(f.n):
        for a in range(f.N):
            env.eq(got[t, a], [sum(f.x[t, a, k] * R[k][j] for k in range(3)) / den for j in range(3)], 'vector turned with the cell')


@case('C13', quick=[dict(n=4)], thorough=[dict(n=6, sup=(2, 1, 2))], tol=1e-9)
def hdf5(env):
    """what is saved in HDF5 is what is read back, window by window"""
    np = env.np
    n = env.p['n']
    f = Frames(env, n, sup=env.p.get('sup', (1, 2, 1)), nat=2)
    v = env.arr('v', (n, f.N, 3), -3, 3)
    t = np.arange(n) * 0.5 + env.real('t0', 1, 9)
    D = env.mod('dynaphopy.dynamics')
    top = env.mod('dynaphopy')
    io = env.mod('dynaphopy.interface.iofile')
    what = env.choice('saved', ['velocity', 'both', 'projection'])
    kw = dict(velocity=env.array(v, 'c'))
    if what == 'both':
        kw['trajectory'] = env.array(f.x, 'c')
    qp = top.Quasiparticle(D.Dynamics(structure=f.structure(), time=t, supercell=f.big, **kw))
    p = env.path('file.h5')
    q = [0.0, -0.5, 0.25]
    if what == 'projection':
        qp.set_reduced_q_vector(q)
        qp.save_vc_hdf5(p)
    else:
        qp.save_velocity_hdf5(p, save_trajectory=what == 'both')
    first = env.choice('from', [1, 3])
    last = env.choice('to', [None, 3, n + 2])
    w = window(n, first, last, None)
    only = what in ('both', 'all') and env.flag('velocity only')
    r, exc = env.run(io.initialize_from_hdf5_file, p, f.structure(), read_trajectory=not only, initial_cut=first, final_cut=last)
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    tw = np.array([t[i] for i in w])
    if what == 'projection':
        vc, rq, d = r
        env.eq(np.array(rq), q, 'wave vector of the projection')
        qp2 = top.Quasiparticle(d, vc=vc)
        qp2.set_reduced_q_vector(rq)
        full = qp.get_vc()
        env.eq(vc, np.array([full[i] for i in w]), 'projection read')
        keep = env.choice('last', [None, 1, 2])
        qp2.crop_trajectory(keep)
        w2 = w[-keep:] if keep else w
        env.eq(qp2.get_vc(), np.array([full[i] for i in w2]), 'projection kept')
        # and saved again
        p2 = env.path('again.h5')
        qp2.save_vc_hdf5(p2)
        vc3, rq3, d3 = io.initialize_from_hdf5_file(p2, f.structure())
        env.eq(vc3, np.array([full[i] for i in w2]), 'projection saved again')
        env.eq(np.array(d3.get_time()), np.array([t[i] for i in w2]), 'times saved again')
        env.eq(np.array(rq3), q, 'wave vector saved again')
    else:
        d = r
        env.eq(d.velocity, np.array([v[i] for i in w]), 'velocities read')
        if what == 'both' and not only:
            env.eq(d.trajectory, np.array([f.x[i] for i in w]), 'trajectory read')
        elif what == 'both':
            _, exc = env.run(lambda: d.trajectory)
            env.check(exc is not None, 'no trajectory when only velocities are asked for')
        env.eq(np.array(d.get_time()), tw, 'time of each step')
    env.eq(d.get_supercell(), f.big, 'simulation cell')
    env.check([int(i) for i in d.get_supercell_matrix()] == list(f.sup), 'repeats of the unit cell')


@case('C13', quick=[dict(files=2), dict(files=3)], thorough=[dict(files=3, n=4)], tol=1e-9)
def concath5(env):
    """joined files: all steps after the ones skipped in each file, in order, evenly spaced in time"""
    np = env.np
    n = env.p.get('n', 3)
    k = env.p['files']
    io = env.mod('dynaphopy.interface.iofile')
    what = env.choice('saved', ['velocity', 'both', 'projection', 'all'])
    N = 2
    v = env.arr('v', (k, n, N, 3), -3, 3)
    x = env.arr('x', (k, n, N, 3), -3, 3)
    big = [1, 2, 1]
    names = []
    for i in range(k):
        names.append(env.path('part%d.h5' % i))
        kw = dict(velocity=env.array(v[i], 'c')) if what != 'projection' else {}
        if what in ('projection', 'all'):
            kw.update(vc=env.array(v[i] if what == 'projection' else 2 * v[i], 'c'), reduced_q_vector=np.array([0.0, -0.5, 0.25]))
        if what == 'both':
            kw['trajectory'] = env.array(x[i], 'c')
        io.save_data_hdf5(names[-1], np.arange(n) * 0.25 + i * n * 0.25, np.array(big), **kw)
    skip = env.choice('skipped', [0, 1])
    out = env.path('joined.h5')
    only = what in ('both', 'all') and env.flag('velocity only')
    argv = names + [out] + (['-f', str(skip)] if skip else []) + (['--velocity_only'] if only else [])
    _, exc = env.script('concath5', *argv)
    if exc is not None:
        env.fail('concath5: ' + repr(exc))
        return
    f = Frames(env, 1)
    r = io.initialize_from_hdf5_file(out, f.structure())
    ref = np.array([v[i, t] for i in range(k) for t in range(skip, n)])
    env.check(isinstance(r, tuple) == (what == 'projection' or what == 'all' and not only), 'projections unless velocities only')
    if isinstance(r, tuple):
        vc, q, d = r
        env.eq(vc, ref if what == 'projection' else 2 * ref, 'projections in order')
        env.eq(np.array(q), [0.0, -0.5, 0.25], 'wave vector')
    else:
        d = r
        env.eq(d.velocity, ref, 'velocities in order')
        if what == 'both':
            tr, exc = env.run(lambda: d.trajectory)
            env.check((exc is not None) == only, 'trajectory unless velocities only')
            if exc is None:
                env.eq(tr, np.array([x[i, t] for i in range(k) for t in range(skip, n)]), 'trajectory in order')
    env.check([int(i) for i in d.get_supercell_matrix()] == big, 'repeats of the unit cell')
    t = np.array(d.get_time())
    env.eq(np.array(t.shape), [len(ref)], 'a time for each step')
    env.eq(t[1:] - t[:-1], [0.25] * (len(ref) - 1), 'time between steps')


def answers(env, d, s):
    """everything the trajectory object gives"""
    np = env.np
    P = env.mod('dynaphopy.projection')
    out = {}
    for k, fn in (('velocity', lambda: d.velocity), ('trajectory', lambda: d.trajectory), ('displacements', d.get_relative_trajectory),
                  ('mass weighted', d.get_velocity_mass_average), ('tensor', d.get_mean_displacement_matrix),
                  ('positions', d.average_positions), ('projection', lambda: P.project_onto_wave_vector(d, np.array([0.3, 0.1, 0.2])))):
        r, exc = env.run(fn)
        out[k] = ('error', type(exc).__name__) if exc is not None else ('value', np.array(r))
    return out


@case('C27', quick=[dict(form=f) for f in ('trajectory', 'scaled', 'velocity', 'both')], thorough=[dict(form=f, T=4, sup=(2, 1, 1)) for f in ('trajectory', 'scaled', 'velocity', 'both')], tol=1e-9)
def memmap(env):
    """mapping the arrays to files changes nothing, for any number of objects and after keeping the last steps"""
    np = env.np
    T = env.p.get('T', 3)
    f = Frames(env, T, sup=env.p.get('sup', (1, 2, 1)), lo=-0.5, hi=0.5)
    D = env.mod('dynaphopy.dynamics')
    form = env.p['form']
    u = f.x
    base = np.array([[DIAG[k] * r[k] for k in range(3)] for r in [(i, j, l) for l in range(f.sup[2]) for j in range(f.sup[1]) for i in range(f.sup[0])]])
    v = env.arr('v', (T, f.N, 3), -2, 2)
    crop = env.choice('keep', [None, 2])
    before = env.flag('asked before')
    crystal = f.structure() if env.p.get('shared', form in ('trajectory', 'velocity')) else None
    os.environ['DYNAPHOPY_TEMPDIR'] = env.tmp()
    try:
        def new(shift, mm):
            x = u * (1 - shift) + base
            kw = {}
            if form in ('trajectory', 'both'):
                kw['trajectory'] = env.array(x, 'c')
            if form == 'scaled':
                kw['scaled_trajectory'] = np.array([[[x[t, a, k] / f.big[k, k] for k in range(3)] for a in range(f.N)] for t in range(T)])
            if form in ('velocity', 'both'):
                kw['velocity'] = env.array(v + shift, 'c')
            return D.Dynamics(structure=crystal or f.structure(), supercell=f.big, time=np.arange(T) * 0.5, memmap=mm, **kw)

        def life(shift, mm):
            d = new(shift, mm)
            if before:
                answers(env, d, f)
            _, exc = env.run(d.crop_trajectory, crop)
            if exc is not None:
                env.fail('keeping the last steps: ' + repr(exc))
                return None, None
            return d, answers(env, d, f)
        ref = life(0.0, False)[1]
        d1, got = life(0.0, True)
        if got is None:
            return
        d2, other = life(0.5, True)
        again = answers(env, d1, f)
        for k in ref:
            env.check(ref[k][0] == got[k][0], '%s answered or refused alike' % k)
            if ref[k][0] == got[k][0] == 'value':
                env.eq(got[k][1], ref[k][1], k + ' with memory mapping')
            elif ref[k][0] == 'error':
                continue
            if again[k][0] == 'value' == ref[k][0]:
                env.eq(again[k][1], ref[k][1], k + ' with another mapped object alive')
            else:
                env.check(again[k][0] == ref[k][0], '%s answered or refused alike' % k)
        d1 = d2 = None
        gc.collect()
        env.check(os.listdir(env.tmp()) == [], 'no file is left behind')
    finally:
        del os.environ['DYNAPHOPY_TEMPDIR']


@case('C27', quick=[dict(kind=k) for k in ('xdatcar', 'lammps x', 'lammps v')], thorough=[dict(kind=k, n=5) for k in ('xdatcar', 'lammps x', 'lammps v')], tol=1e-9)
def two_files(env):
    """two mapped trajectories read in one program"""
    np = env.np
    kind, n = env.p['kind'], env.p.get('n', 2)
    tp = env.mod('dynaphopy.interface.iofile.trajectory_parsers')
    f = Frames(env, n)
    p = [env.path('a'), env.path('b')]
    x = f.x
    for i in range(2):
        f.x = x if i == 0 else x * 2 + 1
        if kind == 'xdatcar':
            xdatcar(p[i], f, 1.0)
        else:
            lammps(p[i], f, kind[-1])
    read = tp.read_VASP_XDATCAR if kind == 'xdatcar' else tp.read_lammps_trajectory
    tmp = env.path('maps')
    os.mkdir(tmp)
    os.environ['DYNAPHOPY_TEMPDIR'] = tmp
    first = env.flag('keep the first')
    try:
        d = [read(q, structure=f.structure(), time_step=0.001, initial_cut=1, end_cut=n, memmap=True) for q in p]
        env.check(os.listdir(tmp) != [], 'files are mapped in the directory given')
        ref = [read(q, structure=f.structure(), time_step=0.001, initial_cut=1, end_cut=n) for q in p]
        if first:
            d[1] = None
            gc.collect()
        for a, b in zip(d, ref):
            if a is None:
                continue
            env.eq(a.velocity, b.velocity, 'velocities of the file')
            if kind != 'lammps v':
                env.eq(a.trajectory, b.trajectory, 'trajectory of the file')
        d = a = None
        gc.collect()
        env.check(os.listdir(tmp) == [], 'no file is left behind')
    finally:
        del os.environ['DYNAPHOPY_TEMPDIR']
