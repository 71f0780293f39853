"""Consistency of the simulation and the unit cell (C24), input files (C25), setters (C26), settings and command line (C28), atom types (C29)"""
import itertools
import os
from vp.driver import case
from .h_structure import EL, prod, offsets
from .h_io import row, txt
from .h_dynamics import CENTRED

SHAPES = {'box': [[2.0, 0, 0], [0, 2.5, 0], [0, 0, 4.0]], 'tilted': [[4.0, 0, 0], [-1.5, 2.0, 0], [0.0, 3.0, 4.0]]}


def refused(exc):
    return type(exc).__name__ in ('SystemExit', 'Exit')


def simple(env, nat=1, cell=None, **kw):
    A = env.mod('dynaphopy.atoms')
    np = env.np
    pos = np.array([[0.0, 0, 0], [0.4, 0.5, 0.25], [0.25, 0.75, 0.6]][:nat])
    k = dict(scaled_positions=pos, cell=np.array(cell or SHAPES['box']), masses=[10.0 + i for i in range(nat)], atomic_elements=EL[:nat],
             primitive_matrix=np.identity(3))
    k.update(kw)
    return A.Structure(**k)


@case('C24', quick=[dict(cell='box', top=2), dict(cell='tilted', top=2)], thorough=[dict(cell='box', top=3), dict(cell='box', top=4), dict(cell='tilted', top=4)])
def cell_mismatch(env):
    """a simulation cell is accepted exactly when each of its vectors is a whole multiple of the unit cell vector"""
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    c = SHAPES[env.p['cell']]
    r = [env.real('r%d' % i, 0.2, env.p.get('top', 3) + 0.4) for i in range(2)]
    r.insert(env.choice('given', [0, 1, 2]), env.num(env.choice('third', [1.0, 2.0, 1.25])))
    big = np.array([[c[i][j] * r[i] for j in range(3)] for i in range(3)])
    s = simple(env, 1, c)
    d = D.Dynamics(structure=s, velocity=np.zeros((2, 1, 3), dtype=complex), trajectory=np.zeros((2, 1, 3), dtype=complex), supercell=big,
                   time=np.arange(2.0))
    near = [np.round(x) for x in r]
    m, exc = env.run(d.get_supercell_matrix)
    if exc is None:
        env.eq(np.array([m[i] for i in range(3)]), np.array(near), 'repeats of the unit cell')
        for i in range(3):
            env.le(abs(r[i] - near[i]), 0.05 * (r[0] + r[1] + r[2]), 'accepted cell is a whole multiple along vector %d' % i)
        m2, exc = env.run(d.get_supercell_matrix)
        env.check(exc is None and all(bool(a == b) for a, b in zip(m, m2)), 'same answer when asked again')
    else:
        env.check(refused(exc), 'rejected with a message, not with ' + repr(exc))
        big_miss = [abs(r[i] - near[i]) > 0.001 for i in range(3)]
        env.check(big_miss[0] | big_miss[1] | big_miss[2], 'a whole multiple is rejected')
        m2, exc = env.run(d.get_supercell_matrix)
        env.check(exc is not None, 'a mismatch is rejected every time')


@case('C24', quick=[dict(cell='box'), dict(cell='tilted')], note='repeats from a list, for cells of any size')
def cell_size(env):
    """the repeats of a cell of any size are found vector by vector"""
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    c = SHAPES[env.p['cell']]
    size = env.real('size', 0.25, 8)
    k = env.choice('repeats', [[2, 1, 1], [1, 3, 2], [1, 2, 5], [1.5, 1, 1], [2, 1, 2.25], [1, 1.5, 3]])
    big = np.array([[c[i][j] * size * k[i] for j in range(3)] for i in range(3)])
    s = simple(env, 1, [[x * size for x in r] for r in c])
    d = D.Dynamics(structure=s, velocity=np.zeros((2, 1, 3), dtype=complex), trajectory=np.zeros((2, 1, 3), dtype=complex), supercell=big,
                   time=np.arange(2.0))
    m, exc = env.run(d.get_supercell_matrix)
    if any(x != int(x) for x in k):
        env.check(exc is not None and refused(exc), 'a mismatch is rejected')
        return
    if exc is not None:
        env.fail('a whole multiple is rejected: ' + repr(exc))
        return
    env.check([int(x) for x in m] == k, 'repeats of the unit cell')
    env.check(int(d.get_number_of_atoms()) == k[0] * k[1] * k[2], 'number of atoms')


@case('C24', quick=[dict(nat=2)], thorough=[dict(nat=3)], max_paths=800)
def force_sets_mismatch(env):
    """force sets of another supercell are refused"""
    np = env.np
    L = env.mod('dynaphopy.interface.phonopy_link')
    nat = env.p['nat']
    s = simple(env, nat)
    sup = [env.choice('n%d' % i, [1, 2, 3]) for i in range(3)]
    file_sup = [env.choice('m%d' % i, [1, 2, 3]) for i in range(3)]
    n_file = nat * prod(file_sup)
    s.set_force_set(L.ForceSets({'natom': n_file}, supercell=np.diag(sup)))
    got, exc = env.run(s.get_force_sets)
    if n_file == nat * prod(sup):
        env.check(exc is None and got is not None and got.get_dict()['natom'] == n_file, 'matching force sets are used')
        env.check(exc is None and bool(np.array_equal(s.get_supercell_phonon(), np.diag(sup))), 'supercell of the force sets')
    else:
        env.check(refused(exc), 'force sets of another size are refused')


@case('C24', name='shape', quick=[dict(nat=2)], thorough=[dict(nat=5)])
def force_sets_shape(env):
    """the same for supercells of any shape: they hold as many unit cells as their determinant says"""
    np = env.np
    L = env.mod('dynaphopy.interface.phonopy_link')
    nat = env.p['nat']
    s = simple(env, nat)
    M, cells = env.choice('supercell', [([[1, 1, 0], [-1, 1, 0], [0, 0, 1]], 2), ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 4), ([[2, 0, 0], [0, 3, 0], [0, 0, 1]], 6),
                                        ([[0, 2, 0], [2, 0, 0], [0, 0, 2]], 8), ([[1, 2, 0], [0, 1, 0], [1, 0, 1]], 1), ([[2, 1, 0], [0, 2, 1], [1, 0, 2]], 9),
                                        ([[-2, 0, 0], [0, 2, 0], [0, 0, 1]], 4)])
    n_file = env.int('atoms', 0, 60)
    s.set_force_set(L.ForceSets({'natom': n_file}, supercell=np.array(M)))
    got, exc = env.run(s.get_force_sets)
    if exc is None:
        env.eq(n_file, nat * cells, 'atoms of the force sets accepted')
        env.check(bool(np.array_equal(s.get_supercell_phonon(), np.array(M))), 'supercell of the force sets')
    else:
        env.check(refused(exc), 'refused with a message, not with ' + repr(exc))
        env.check(n_file != nat * cells, 'force sets of this supercell refused')


@case('C25', quick=[dict(bands=0), dict(bands=2), dict(bands=13, few=True)], thorough=[dict(bands=b) for b in (0, 1, 2, 4)] + [dict(bands=13, few=True)], max_paths=1200)
def input_file(env):
    """every section of the input file is read with its own values, whatever their order"""
    np = env.np
    io = env.mod('dynaphopy.interface.iofile')
    nb = env.p['bands']
    P = env.arr('p', (3, 3), -1, 1)
    S = [[env.choice('s', [1, 2, 3]), 0, 0], [0, 2, 0], [0, -1, 4]]
    B = env.arr('b', (nb, 2, 3), 0, 1)
    labels = env.flag('labels') if nb else False
    names = ([('Gamma', 'x_1'), ('X', 'K'), ('1/2 0 0', 'L'), ('L', 'GAMMA')] * 4)[:nb]
    force = env.choice('forces', ['FORCE SETS', 'FORCE CONSTANTS', 'both', None][:1 if env.p.get('few') else 4])
    kind = env.choice('structure', ['STRUCTURE FILE POSCAR', 'STRUCTURE FILE OUTCAR', None][:1 if nb else 3])
    sec = []
    if kind:
        sec.append([kind, 'some where/STRUCT_1'.replace(' ', '_')])
    if force:
        sec += [[k, '  data/%s_1  ' % k[6:]] for k in ('FORCE SETS', 'FORCE CONSTANTS') if force in (k, 'both')]
    sec.append(['PRIMITIVE MATRIX'] + [row(r) for r in P])
    sec.append(['SUPERCELL MATRIX PHONOPY'] + [' '.join('%d' % v for v in r) for r in S])
    if nb:
        sep = env.choice('separator', [', ', '   '])
        if sep == ', ':
            band = [', '.join(txt(v) for v in b[0]) + '  ,  ' + ', '.join(txt(v) for v in b[1]) for b in B]
        else:
            band = [row(b[0]) + '   ' + row(b[1]) for b in B]
        sec.append(['BANDS'] + [b + (' : %s, %s' % n if labels else '') for b, n in zip(band, names)])
    sec.append(['MESH PHONOPY', '10 20 30'])
    order = env.choice('order', ['as is', 'reversed', 'rotated'][:2 if env.p.get('few') else 3])
    sec = sec if order == 'as is' else sec[::-1] if order == 'reversed' else sec[2:] + sec[:2]
    between = env.choice('between', ['\n', '\n# FORCE SETS is commented\n#BANDS\n', ''])
    p = env.path('input')
    text = between.join('\n'.join(x) + '\n' for x in sec)
    if env.flag('no newline at the end'):
        text = text[:-1]
    with open(p, 'w') as o:
        o.write('# comment\n' + text)
    got, exc = env.run(io.read_parameters_from_input_file, p)
    if exc is not None:
        env.fail('reading: ' + repr(exc))
        return
    env.eq(got['_primitive_matrix'], P, 'primitive matrix')
    env.check([[int(v) for v in r] for r in got['supercell_phonon']] == S, 'supercell of the forces')
    env.check([int(v) for v in got['_mesh_phonopy']] == [10, 20, 30], 'mesh')
    env.check(got.get('force_sets_file_name') == ('data/SETS_1' if force in ('FORCE SETS', 'both') else None), 'file of the force sets')
    env.check(got.get('force_constants_file_name') == ('data/CONSTANTS_1' if force in ('FORCE CONSTANTS', 'both') else None), 'file of the force constants')
    st = 'some_where/STRUCT_1'
    env.check(got.get('structure_file_name_outcar') == (st if kind and 'OUTCAR' in kind else None), 'OUTCAR file')
    env.check(got.get('structure_file_name_poscar') == (st if kind and 'POSCAR' in kind else 'POSCAR'), 'POSCAR file')
    if nb:
        r = got['_band_ranges']
        env.eq(np.array(r['ranges']), B, 'paths of the bands')
        if labels:
            env.check([tuple(x) for x in r['labels']] == [tuple(w.replace(' ', '') for w in n) for n in names], 'labels of the bands')
        else:
            env.check('labels' not in r, 'no labels')
    else:
        env.check('_band_ranges' not in got, 'no bands')


@case('C26', quick=[dict(nat=2, given='scaled'), dict(nat=2, given='cart')], thorough=[dict(nat=3, given=g) for g in ('scaled', 'cart')])
def setters(env):
    """after a change everything the structure reports refers to the new state"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    nat = env.p['nat']
    c = env.cell('c', 'tri')
    env.assume((c[0, 0] > 0.5) & (c[1, 1] > 0.5) & (c[2, 2] > 0.5))
    x = env.arr('x', (nat, 3), 0, 1)
    kw = dict(scaled_positions=x) if env.p['given'] == 'scaled' else dict(positions=np.dot(x, c))
    s = A.Structure(cell=c, masses=[10.0 + i for i in range(nat)], atomic_elements=EL[:nat], primitive_matrix=np.identity(3), **kw)
    used = env.choice('used before', ['nothing', 'positions', 'scaled', 'primitive cell'])
    {'nothing': lambda: 0, 'positions': s.get_positions, 'scaled': s.get_scaled_positions, 'primitive cell': s.get_primitive_cell}[used]()
    change = env.choice('change', ['positions', 'cell', 'masses', 'primitive'])
    if change == 'positions':
        y = env.arr('y', (nat, 3), -3, 3)
        s.set_positions(y)
        env.eq(s.get_positions(), y, 'positions')
        env.eq(np.dot(s.get_scaled_positions(), c), y, 'scaled positions')
        env.eq(s.get_positions(supercell=[1, 2, 1])[1], y[0] + c[1], 'positions of the supercell')
    elif change == 'cell':
        d = env.cell('d', 'tri')
        env.assume((d[0, 0] > 0.5) & (d[1, 1] > 0.5) & (d[2, 2] > 0.5))
        s.set_cell(d)
        env.eq(s.get_cell(), d, 'cell')
        env.eq(s.get_primitive_cell(), d, 'primitive cell')
        env.eq(np.dot(s.get_scaled_positions(), d), s.get_positions(), 'positions and scaled positions are the same sites')
        env.eq(s.get_cell_parameters()[0], d[0, 0], 'cell parameter')
    elif change == 'masses':
        m = [env.real('m%d' % i, 1, 60) for i in range(nat)]
        s.set_masses(m)
        env.eq(np.array(s.get_masses()), m, 'masses')
        env.eq(np.array(s.get_masses(supercell=[1, 2, 1])[2:]), [m[1]] * 2 + [v for q in m[2:] for v in (q, q)], 'masses of the supercell')
    else:
        M = np.diag([0.5, 1.0, 0.5])
        s.set_primitive_matrix(M)
        env.eq(s.get_primitive_cell(), np.array([[c[i, j] * M[i, i] for j in range(3)] for i in range(3)]), 'primitive cell')


@case('C26', quick=[dict(first=f) for f in ('positions', 'cell', 'masses', 'primitive', 'input')], max_paths=600)
def sequences(env):
    """two changes, one after the other, with queries between: the state is that of a new structure"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    nat = 2
    c = np.array([[3.0, 0, 0], [1.0, 4.0, 0], [0.5, -1.0, 5.0]])
    x = env.arr('x', (nat, 3), 0, 1)
    m = [10.0, 12.0]
    M = np.identity(3)
    s = A.Structure(cell=c, scaled_positions=x * 1, masses=list(m), atomic_elements=EL[:nat], primitive_matrix=M)
    ask = {'nothing': [], 'types': ['get_atom_type_index', 'get_number_of_primitive_atoms', 'get_number_of_atom_types'],
           'sites': ['get_positions', 'get_scaled_positions', 'get_primitive_cell', 'get_masses']}
    for step in range(2):
        for f in ask[env.choice('queries %d' % step, sorted(ask))]:
            getattr(s, f)()
        what = env.p['first'] if step == 0 else env.choice('second', ['positions', 'cell', 'masses', 'primitive', 'input'])
        if what == 'positions':
            y = env.arr('y%d' % step, (nat, 3), -3, 3)
            s.set_positions(y * 1)
            x = np.dot(y, np.linalg.inv(c))
        elif what == 'cell':
            c = np.array([[2.0 + step, 1.0, 0], [0, 3.0, 0.5], [-1.0, 0, 4.0]])
            s.set_cell(c * 1)
        elif what == 'masses':
            m = [env.real('m%d%d' % (step, i), 1, 60) for i in range(nat)]
            s.set_masses(list(m))
        else:
            M = [np.diag([0.5, 1.0, 0.5]), np.array([[0.5, 0, 0], [0.5, 1, 0], [0, 0, 1.0]])][step]
            if what == 'primitive':
                s.set_primitive_matrix(M)
            else:
                s.get_data_from_dict({'_primitive_matrix': M, 'other': 3})
    env.eq(s.get_cell(), c, 'cell')
    env.eq(s.get_scaled_positions(), x, 'scaled positions')
    env.eq(s.get_positions(), np.dot(x, c), 'positions')
    env.eq(s.get_positions(supercell=[1, 1, 2])[1], np.dot(x, c)[0] + c[2], 'positions of the supercell')
    env.eq(np.array(s.get_masses()), m, 'masses')
    env.eq(np.array(s.get_masses(supercell=[2, 1, 1])), [m[0], m[0], m[1], m[1]], 'masses of the supercell')
    env.eq(np.array(s.get_primitive_matrix()), M, 'primitive matrix')
    env.eq(s.get_primitive_cell(), np.dot(c.T, M).T, 'primitive cell')


@case('C26', quick=[dict(lattice='bcc'), dict(lattice='base')], thorough=[dict(lattice='fcc')])
def retype(env):
    """atom types follow changes of masses, positions and primitive cell"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    M, shifts = CENTRED[env.p['lattice']]
    pos = np.array([(0, 0, 0)] + shifts) * 1.0
    n = len(pos)
    s = A.Structure(scaled_positions=pos, cell=np.diag([2.0, 2.5, 3.0]), masses=[10.0] * n, atomic_elements=['Ga'] * n, primitive_matrix=M)
    if env.flag('used before'):
        s.get_atom_type_index()
        s.get_number_of_atom_types()
        s.get_number_of_primitive_atoms()
        s.get_number_of_cell_atoms()
    change = env.choice('change', ['masses', 'primitive', 'input', 'positions'])
    if change == 'masses':
        s.set_masses([10.0] * (n - 1) + [12.0])
        want = [0] * (n - 1) + [1]
    elif change == 'primitive':
        s.set_primitive_matrix(np.identity(3))
        want = list(range(n))
    elif change == 'input':
        s.get_data_from_dict({'_primitive_matrix': np.identity(3)})
        want = list(range(n))
    else:
        u = env.arr('u', (3,), 0.2, 0.4)
        P = [[pos[k][i] * [2.0, 2.5, 3.0][i] for i in range(3)] for k in range(n)]
        P[-1] = [P[-1][i] + u[i] for i in range(3)]
        s.set_positions(np.array(P))
        want = [0] * (n - 1) + [1]
    env.check([int(i) for i in s.get_atom_type_index()] == want, 'atom types')
    env.check(s.get_number_of_atom_types() == len(set(want)) and s.get_number_of_primitive_atoms() == len(set(want)), 'number of atom types')


@case('C29', quick=[dict(lattice='bcc'), dict(lattice='fcc', second=(0.09375, 0.15625), few=True), dict(lattice='base'), dict(lattice='simple')],
      thorough=[dict(lattice=l, basis=2) for l in ('bcc', 'fcc', 'base', 'simple')], max_paths=600)
def types(env):
    """atoms are of one type exactly when a primitive lattice vector joins them"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    M, shifts = CENTRED.get(env.p['lattice'], (np.identity(3), []))
    shifts = [(0, 0, 0)] + shifts
    c = np.array([[4.0, 0, 0], [1.0, 4.0, 0], [0.5, -1.0, 5.0]]) if env.flag('tilted') else np.diag([4.0, 5.0, 4.5])
    a = env.arr('a', (3,), -0.2, 0.2)            # place of the first atom
    lo, hi = env.p.get('second', (0.1875, 0.34375))
    ax = env.choice('axis', [0, 1, 2])
    b = [env.real('b', lo, hi) if i == ax else lo + 0.03125 for i in range(3)]
    basis = [[a[i] for i in range(3)], [a[i] + b[i] for i in range(3)]]
    noise = [env.real('z', -0.0004, 0.0004) if i == ax else 0.0001220703125 for i in range(3)]
    off = env.choice('outside the cell', [0, 1])
    sites = [(k, [basis[k][i] + s[i] + (off * (1 if i else -1) if j and k else 0) for i in range(3)]) for j, s in enumerate(shifts) for k in (0, 1)]
    order = env.choice('order', ['mixed'] if env.p.get('few') else ['by shift', 'by basis', 'mixed'])
    if order == 'by basis':
        sites.sort(key=lambda w: w[0])
    elif order == 'mixed':
        sites = sites[::-1]
    n = len(sites)
    pos = [list(p) for k, p in sites]
    pos[-1] = [pos[-1][i] + noise[i] for i in range(3)]
    same = env.flag('same element')
    masses = [10.0 if same else 10.0 + k for k, p in sites]
    s = A.Structure(scaled_positions=np.array(pos), cell=c, masses=masses, atomic_elements=['Ga' if same or not k else 'N' for k, p in sites],
                    primitive_matrix=M)
    first = env.choice('first', ['types', 'supercell'] if env.p.get('few') else ['types', 'supercell', 'number', 'primitive'])
    sup = [1, 2, 1]
    if first == 'supercell':
        s.get_atom_type_index(supercell=sup)
    elif first == 'number':
        s.get_number_of_atom_types()
    elif first == 'primitive':
        s.get_number_of_primitive_atoms()
    seen = []
    for k, p in sites:
        if k not in seen:
            seen.append(k)
    want = [seen.index(k) for k, p in sites]
    env.check([int(i) for i in s.get_atom_type_index()] == want, 'atom types, numbered in order of appearance')
    env.check([int(i) for i in s.get_atom_type_index(supercell=sup)] == [i for i in want for _ in range(2)], 'atom types of the supercell')
    env.check(s.get_number_of_atom_types() == len(seen) and s.get_number_of_primitive_atoms() == len(seen), 'number of atom types')
    env.check([str(e) for e in s.get_atomic_elements(unique=True)] == (['Ga'] * 2 if same else [['Ga', 'N'][k] for k in seen]), 'element of each type')


@case('C29', name='large', quick=[dict(rep=(2, 2, 3)), dict(rep=(3, 1, 3))], thorough=[dict(rep=(3, 3, 2)), dict(rep=(2, 4, 3))], max_paths=600)
def large_cells(env):
    """unit cells of many primitive cells: isotopes and atoms out of place are of their own"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    rep = env.p['rep']
    c = [[4.0, 0, 0], [1.0, 4.0, 0], [0.5, -1.0, 5.0]] if env.flag('tilted') else [[4.0, 0, 0], [0, 5.0, 0], [0, 0, 4.5]]
    c = np.array([[c[i][j] * rep[i] for j in range(3)] for i in range(3)])
    a = env.arr('a', (3,), -0.2, 0.2)
    el = ['Ga', 'N']
    sites = [(k, r) for r in itertools.product(*[range(x) for x in rep]) for k in (0, 1)]
    order = env.choice('order', ['by cell', 'by element', 'apart'])
    if order != 'by cell':
        sites.sort(key=lambda w: w[0])
    if order == 'apart':
        sites = sites[len(sites) // 2 - 1:] + sites[:len(sites) // 2 - 1]
    pos = [[a[i] + (r[i] + 0.4375 * k) / rep[i] for i in range(3)] for k, r in sites]
    masses = [69.0 if k == 0 else 14.0 for k, r in sites]
    kind = [el[k] for k, r in sites]
    odd = env.choice('odd atom', [1, len(sites) // 2, len(sites) - 1])
    what = env.choice('what', ['none', 'isotope', 'moved', 'moved little'])
    d = env.real('d', 0, 1)
    if what == 'isotope':
        masses[odd] = masses[odd] + 0.01 + d
        kind[odd] = 'odd'
    elif what == 'moved':
        # (cell vectors of 12 Angstrom or so: from 0.04 to 0.3 Angstrom)
        L = 4.0 * rep[0]
        pos[odd][0] = pos[odd][0] + (0.04 + 0.26 * d) / L
        kind[odd] = 'odd'
    elif what == 'moved little':
        pos[odd][0] = pos[odd][0] + 0.03 * d / (4.0 * rep[0])
    s = A.Structure(scaled_positions=np.array(pos), cell=c, masses=masses, atomic_elements=[el[k] for k, r in sites],
                    primitive_matrix=np.diag([1. / x for x in rep]))
    seen = []
    for k in kind:
        if k not in seen:
            seen.append(k)
    want = [seen.index(k) for k in kind]
    env.check([int(i) for i in s.get_atom_type_index()] == want, 'atom types, numbered in order of appearance')
    env.check(s.get_number_of_atom_types() == len(seen) and s.get_number_of_primitive_atoms() == len(seen), 'number of atom types')
