"""Structure: supercell expansion (C01), setters (C26), type index (C29)"""
import itertools
from vp.driver import case

EL = ['Ga', 'N', 'Si']


def structure(env, nat=2, cell='tri', given='scaled', masses=True, charges=False, elements=None, **kw):
    A = env.mod('dynaphopy.atoms')
    c = env.cell('c', cell)
    pos = env.arr('s', (nat, 3), 0, 1)
    m = [env.real('m%d' % i, 1, 60) for i in range(nat)] if masses else None
    q = [env.real('q%d' % i, -3, 3) for i in range(nat)] if charges else None
    el = elements or EL[:nat]
    if given == 'scaled':
        s = A.Structure(scaled_positions=pos, cell=c, masses=m, charges=q, atomic_elements=el, **kw)
        cart = env.np.dot(pos, c)
    else:
        s = A.Structure(positions=pos, cell=c, masses=m, charges=q, atomic_elements=el, **kw)
        cart = pos
    return s, c, cart, m, q, el


def offsets(sup):
    """expansion order of the code base: the first direction runs fastest"""
    return [r[::-1] for r in itertools.product(*[range(k) for k in list(sup)[::-1]])]


def prod(x):
    r = 1
    for v in x:
        r *= int(v)
    return r


@case('C01', quick=[dict(nat=2, sup=(2, 1, 3), cell='full'), dict(nat=3, sup=(1, 3, 2), cell='tri'),
                    dict(nat=1, sup=(2, 2, 2), cell='full'), dict(nat=3, sup=(4, 3, 1), cell='tri', like=True)],
      thorough=[dict(nat=4, sup=(3, 2, 4), cell='full'), dict(nat=2, sup=(5, 1, 2), cell='full'),
                dict(nat=3, sup=(2, 3, 3), cell='full')],
      note='cell: 9 free entries (nonsingular) or lower triangular; atom counts and expansions as listed in bounds')
def expansion(env):
    np = env.np
    sup, nat = env.p['sup'], env.p['nat']
    el = ['Ga', 'N', 'Ga', 'N'][:nat] if 'like' in env.p else ['Ga', 'N', 'Si', 'O'][:nat]
    s, c, cart, m, q, el = structure(env, nat, env.p['cell'], env.choice('given', ['scaled', 'cart']), True, True, el)
    env.assume(np.linalg.det(c) > 0.5)
    order = env.choice('order', ['cell', 'positions', 'scaled'])
    sup = np.array(sup) if env.flag('as_array') else list(sup)
    if order == 'positions':
        s.get_positions(supercell=sup)
    elif order == 'scaled':
        s.get_scaled_positions()
    C = s.get_cell(supercell=sup)
    for i in range(3):
        env.eq(C[i], np.array([c[i, j] * int(sup[i]) for j in range(3)]), 'supercell vector %d' % i)
    off = offsets(sup)
    P = s.get_positions(supercell=sup)
    env.eq(np.array(P.shape), [nat * len(off), 3], 'number of expanded positions')
    n = 0
    for k in range(nat):
        for r in off:
            env.eq(P[n], np.array([cart[k, j] + sum(c[i, j] * r[i] for i in range(3)) for j in range(3)]),
                   'atom %d image %s' % (k, (r,)))
            n += 1
    S = s.get_scaled_positions(supercell=sup)
    env.eq(np.dot(S, C), P, 'scaled positions times cell')
    N = len(off)
    env.eq(s.get_masses(supercell=sup), [m[k] for k in range(nat) for _ in range(N)], 'masses')
    env.eq(s.get_charges(supercell=sup), [q[k] for k in range(nat) for _ in range(N)], 'charges')
    env.eq(s.get_atomic_elements(supercell=sup), [el[k] for k in range(nat) for _ in range(N)], 'elements')
    Z = {'Ga': 31, 'N': 7, 'Si': 14, 'O': 8}
    env.eq(s.get_atomic_numbers(supercell=sup), [Z[el[k]] for k in range(nat) for _ in range(N)], 'numbers')
    env.eq(s.get_positions(), cart, 'unit cell positions')
    env.eq(np.dot(s.get_scaled_positions(), c), cart, 'unit cell scaled positions')
    a, b, cc, alpha, beta, gamma = s.get_cell_parameters(supercell=sup)
    for name, v, i, j, l in (('alpha', alpha, 1, 2, b * cc), ('beta', beta, 0, 2, a * cc), ('gamma', gamma, 0, 1, a * b)):
        env.eq(np.cos(v) * l, sum(c[i, x] * c[j, x] for x in range(3)) * int(sup[i]) * int(sup[j]), 'angle ' + name)
    for name, v, i in (('a', a, 0), ('b', b, 1), ('c', cc, 2)):
        env.eq(v * v, sum(c[i, j] * c[i, j] for j in range(3)) * int(sup[i]) ** 2, 'length ' + name)


# standard atomic weights (IUPAC), elements that have one
WEIGHTS = '''H 1.00794 He 4.002602 Li 6.941 Be 9.012182 B 10.811 C 12.0107 N 14.0067 O 15.9994 F 18.9984032
Ne 20.1797 Na 22.98976928 Mg 24.305 Al 26.9815386 Si 28.0855 P 30.973762 S 32.065 Cl 35.453 Ar 39.948 K 39.0983
Ca 40.078 Sc 44.955912 Ti 47.867 V 50.9415 Cr 51.9961 Mn 54.938045 Fe 55.845 Co 58.933195 Ni 58.6934 Cu 63.546
Zn 65.38 Ga 69.723 Ge 72.64 As 74.9216 Se 78.96 Br 79.904 Kr 83.798 Rb 85.4678 Sr 87.62 Y 88.90585 Zr 91.224
Nb 92.90638 Mo 95.96 Tc - Ru 101.07 Rh 102.9055 Pd 106.42 Ag 107.8682 Cd 112.411 In 114.818 Sn 118.71 Sb 121.76
Te 127.6 I 126.90447 Xe 131.293 Cs 132.9054519 Ba 137.327 La 138.90547 Ce 140.116 Pr 140.90765 Nd 144.242 Pm -
Sm 150.36 Eu 151.964 Gd 157.25 Tb 158.92535 Dy 162.5 Ho 164.93032 Er 167.259 Tm 168.93421 Yb 173.054 Lu 174.9668
Hf 178.49 Ta 180.94788 W 183.84 Re 186.207 Os 190.23 Ir 192.217 Pt 195.084 Au 196.966569 Hg 200.59 Tl 204.3833
Pb 207.2 Bi 208.9804 Po - At - Rn - Fr - Ra - Ac - Th 232.03806 Pa 231.03588 U 238.02891 Np - Pu - Am - Cm -'''.split()
TABLE = [(z + 1, s, None if w == '-' else float(w)) for z, (s, w) in enumerate(zip(WEIGHTS[::2], WEIGHTS[1::2]))]
KNOWN = [r for r in TABLE if r[2] is not None]


@case('C42', quick=[dict(group=g, of=7) for g in range(7)], thorough=[dict(group=g, of=2) for g in range(2)],
      note='a mass may be up to 0.1 away from the standard one (0.06 for Ar and Ca): pseudopotentials list rounded or older values')
def elements_of_masses(env):
    """masses alone give the elements and the atomic numbers, one per atom, and stay as given"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    rows = KNOWN[env.p['group']::env.p['of']]
    rows = rows + rows[:1]
    near = [0.1 if r[1] not in ('Ar', 'Ca') else 0.06 for r in rows]
    d = [env.real('d%d' % i, -near[i], near[i]) for i in range(len(rows))]
    m = [r[2] + d[i] for i, r in enumerate(rows)]
    if env.flag('as_array'):
        m = np.array(m)
    s = A.Structure(cell=np.identity(3) * 5, positions=np.zeros((len(rows), 3)), masses=m)
    e, exc = env.run(s.get_atomic_elements)
    if exc is not None:
        return env.fail('elements: %r' % exc)
    env.eq(list(e), [r[1] for r in rows], 'elements')
    env.eq(np.array(s.get_atomic_numbers()), [r[0] for r in rows], 'atomic numbers')
    env.eq(s.get_masses(), m, 'masses')


@case('C42', name='given', quick=[dict()], thorough=[dict(n=3)], max_paths=400)
def masses_of_elements(env):
    """elements or atomic numbers give the standard masses; what is given as well is kept"""
    np = env.np
    A = env.mod('dynaphopy.atoms')
    i = env.choice('element', list(range(len(TABLE))))
    rows = [TABLE[(i + k) % len(TABLE)] for k in range(env.p.get('n', 2))]
    k = len(rows)
    given = env.choice('given', ['elements', 'numbers', 'masses too'])
    kw = dict(atomic_elements=[r[1] for r in rows]) if given != 'numbers' else dict(atomic_numbers=[r[0] for r in rows])
    m = [env.real('m%d' % j, 1, 250) for j in range(k)]
    if given == 'masses too':
        kw['masses'] = m
    s = A.Structure(cell=np.identity(3) * 5, positions=np.zeros((k, 3)), **kw)
    n = np.array(s.get_atomic_numbers())
    env.eq(n, [r[0] for r in rows], 'atomic numbers')
    if given != 'numbers':
        env.eq(list(s.get_atomic_elements()), [r[1] for r in rows], 'elements')
    got = s.get_masses()
    env.check(len(got) == k, 'one mass per atom')
    for j, r in enumerate(rows):
        if given == 'masses too':
            env.eq(got[j], m[j], 'mass of atom %d' % j)
        elif r[2] is not None:
            env.check(abs(got[j] - r[2]) < 0.02, 'mass of ' + r[1])
