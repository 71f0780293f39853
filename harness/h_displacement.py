"""Minimum-image displacements (C02)"""
from vp.driver import case
from .h_structure import structure, offsets


@case('C02', quick=[dict(steps=2, cell='tri'), dict(steps=1, cell='full')],
      thorough=[dict(steps=3, cell='full'), dict(steps=4, cell='tri')],
      note='ties of the rounding (a fractional difference of exactly one half) are resolved either way')
def kernel(env):
    np = env.np
    f = env.mod('dynaphopy.displacements').atomic_displacements
    c = env.cell('c', env.p['cell'])
    env.assume(abs(np.linalg.det(c)) > 0.5)
    T = env.p['steps']
    tr = env.arr('r', (T, 3), -20, 20)
    pos = env.arr('p', (3,), -20, 20)
    d = f(env.array(tr, 'c') if env.flag('complex') else tr, pos, c)
    env.eq(np.array(d.shape), [T, 3], 'shape')
    inv = np.linalg.inv(c)
    env.eq(np.imag(d), np.zeros((T, 3)), 'real displacements')
    d = np.real(d)
    frac = np.dot(d, inv)
    env.le(frac, 0.5, 'not beyond half a cell')
    env.le(-frac, 0.5, 'not beyond minus half a cell')
    env.integer(np.dot(tr - pos - d, inv), 'whole lattice vectors')


@case('C02', quick=[dict(nat=2, sup=(1, 2, 1), steps=2), dict(nat=1, sup=(2, 1, 2), steps=1)],
      thorough=[dict(nat=3, sup=(2, 1, 2), steps=2), dict(nat=2, sup=(2, 2, 2), steps=1)])
def trajectory(env):
    np = env.np
    D = env.mod('dynaphopy.dynamics')
    sup, nat, T = env.p['sup'], env.p['nat'], env.p['steps']
    s, c, cart, m, q, el = structure(env, nat, 'tri')
    big = np.array([[c[i, j] * sup[i] for j in range(3)] for i in range(3)])
    off = offsets(sup)
    n = nat * len(off)
    form = env.choice('form', ['cart', 'scaled'])
    x = env.arr('x', (T, n, 3), -3, 3)
    if form == 'cart':
        dyn = D.Dynamics(structure=s, trajectory=env.array(x, 'c'), supercell=big)
        tr = x
    else:
        dyn = D.Dynamics(structure=s, scaled_trajectory=x, supercell=big)
        tr = np.array([[[sum(x[t, a, i] * big[i, j] for i in range(3)) for j in range(3)] for a in range(n)] for t in range(T)])
    d = np.real(dyn.get_relative_trajectory())
    env.eq(dyn.get_supercell_matrix(), list(sup), 'supercell matrix')
    env.eq(np.array(d.shape), [T, n, 3], 'shape')
    inv = np.linalg.inv(big)
    ref = [np.array([cart[k, j] + sum(c[i, j] * r[i] for i in range(3)) for j in range(3)]) for k in range(nat) for r in off]
    for a in range(n):
        for t in range(T):
            frac = np.dot(d[t, a], inv)
            env.le(frac, 0.5, 'atom %d not beyond half a cell' % a)
            env.le(-frac, 0.5, 'atom %d not beyond minus half a cell' % a)
            env.integer(np.dot(tr[t, a] - ref[a] - d[t, a], inv), 'atom %d: whole lattice vectors' % a)
