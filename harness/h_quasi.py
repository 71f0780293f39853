"""The analysis object: cache coherence (C16), full spectrum (C19)"""
import itertools
from vp.driver import case
from .h_structure import prod, EL
from .h_dynamics import crystal, supercell_of, sites


def estimator(env, algo):
    """stand-in for a spectral estimator: acts on each signal (column) on its own and depends on
    the frequencies and on the parameters the real one reads"""
    def f(vq, trajectory, parameters):
        np = env.np
        w = np.array(parameters.frequency_range)
        dt = trajectory.get_time_step_average()
        k = {0: lambda: 3 * parameters.correlation_function_step + 17 * parameters.integration_method,
             1: lambda: parameters.number_of_coefficients_mem,
             2: lambda: 1000, 3: lambda: 2000}[algo]()
        out = []
        for c in range(vq.shape[1]):
            s = sum((t + 1) * np.real(vq[t, c]) + (2 * t + 3) * np.imag(vq[t, c]) for t in range(vq.shape[0])) * dt
            out.append([s * (1 + k * 0.25 + w[i] * (algo + 1)) for i in range(len(w))])
        return np.array(out).T
    return f


class Setup:
    def __init__(self, env, T=3, sup=(1, 2, 1), nat=2, nb=2):
        np = env.np
        self.env, self.T, self.nat, self.sup = env, T, nat, sup
        self.D = env.mod('dynaphopy.dynamics')
        self.top = env.mod('dynaphopy')
        self.A = env.mod('dynaphopy.atoms')
        self.c = np.diag([2.0, 2.5, 3.0])
        self.pos = np.array([[0.0, 0, 0], [0.4, 0.5, 0.25], [0.25, 0.75, 0.6]][:nat])
        self.m = [env.real('m%d' % i, 2 + 20 * i, 15 + 20 * i) for i in range(nat)]
        n = nat * prod(sup)
        self.v = env.arr('v', (T, n, 3), -3, 3)
        self.e = env.carr('e', (nb, nat, 3), -1, 1)
        self.x = np.zeros((T, n, 3))
        self.nb = nb
        # the harmonic modes depend on the wave vector
        env.patch('dynaphopy.interface.phonopy_link', 'obtain_eigenvectors_and_frequencies',
                  lambda structure, q, *a, **k: (self.e * (1 + 2 * q[0] + q[1]), np.arange(1., 1 + nb) + 3 * q[0]))
        env.patch('dynaphopy.analysis.energy', 'boltzmann_distribution',
                  lambda trajectory, parameters: np.sum(np.real(trajectory.get_velocity_mass_average()) ** 2) + 1)
        PS = env.mod('dynaphopy.power_spectrum')
        for a in (0, 1, 2, 3):
            env.patch_item(PS.power_spectrum_functions, a, [estimator(env, a), 'algorithm %d' % a])

    def new(self):
        env, np = self.env, self.env.np
        env.reset()
        s = self.A.Structure(scaled_positions=self.pos, cell=self.c, masses=self.m, atomic_elements=EL[:self.nat],
                             primitive_matrix=np.identity(3))
        d = self.D.Dynamics(structure=s, velocity=env.array(self.v, 'c'), trajectory=env.array(self.x, 'c'),
                            supercell=np.diag([self.c[i, i] * self.sup[i] for i in range(3)]),
                            time=np.arange(self.T) * 0.5)
        q = self.top.Quasiparticle(d)
        q.parameters.use_symmetry = False
        q.parameters.silent = True
        q.parameters.frequency_range = np.array([0.0, 0.5, 1.0])
        q.parameters.spectrum_resolution = 0.5
        return q


OPS = {
    'q': lambda qp: qp.set_reduced_q_vector([0.0, 0.5, 0.0]),
    'q_back': lambda qp: qp.set_reduced_q_vector([0.5, 0.0, 0.0]),
    'type': lambda qp: qp.set_projection_onto_atom_type(1),
    'coefficients': lambda qp: qp.set_number_of_mem_coefficients(7),
    'resolution': lambda qp: qp.set_spectra_resolution(0.25),
    'limits': lambda qp: qp.set_frequency_limits([1.0, 2.0]),
    'algorithm': lambda qp: qp.select_power_spectra_algorithm(2),
    'fitting': lambda qp: qp.select_fitting_function(1),
    'set temperature': lambda qp: qp.set_temperature(300),
    'type_back': lambda qp: qp.set_projection_onto_atom_type(0),
    'crop': lambda qp: qp.crop_trajectory(2),
    'q_gamma': lambda qp: qp.set_reduced_q_vector([0.0, 0.0, 0.0]),
    'algorithm_less': lambda qp: qp.select_power_spectra_algorithm(0),
    'coefficients_more': lambda qp: qp.set_number_of_mem_coefficients(2000),
    'q_opposite': lambda qp: qp.set_reduced_q_vector([0.0, -0.5, 0.0]),
    'q_near': lambda qp: qp.set_reduced_q_vector([0.00390625, 0.5, 0.0]),
    'limits_near': lambda qp: qp.set_frequency_limits([0.0625, 1.0]),
    'resolution_coarse': lambda qp: qp.set_spectra_resolution(0.5),
}
QUERIES = {
    'frequencies': lambda qp: qp.get_frequencies(),
    'eigenvectors': lambda qp: qp.get_eigenvectors(),
    'wave-vector projection': lambda qp: qp.get_vc(),
    'phonon projection': lambda qp: qp.get_vq(),
    'phonon spectrum': lambda qp: qp.get_power_spectrum_phonon(),
    'wave-vector spectrum': lambda qp: qp.get_power_spectrum_wave_vector(),
    'full spectrum': lambda qp: qp.get_power_spectrum_full(),
    'spectrum of each atom': lambda qp: qp.get_power_spectrum_partials(),
    'full spectrum along x': lambda qp: qp.get_power_spectrum_full(projection_on_coordinate=0),
    'full spectrum along z': lambda qp: qp.get_power_spectrum_full(projection_on_coordinate=2),
    'temperature': lambda qp: qp.get_temperature(),
    'frequency range': lambda qp: qp.get_frequency_range(),
}


@case('C16', quick=[dict(first=o) for o in OPS], thorough=[dict(first=o, third=1) for o in OPS], max_paths=3000,
      note='spectral estimators are replaced by stand-ins that read the same parameters; harmonic modes by functions of the wave vector')
def histories(env):
    """a result after any sequence of settings and queries equals that of a new analysis with the final settings"""
    s = Setup(env)
    names = sorted(OPS)
    ops = [env.p['first'], env.choice('second', ['none'] + names)]
    if env.p.get('third'):
        ops.append(env.choice('third', names))
    qp = s.new()
    before = env.choice('queries', ['all', 'last'])
    got = []
    for q in QUERIES.values():
        q(qp)
    for i, o in enumerate(ops):
        if o == 'none':
            continue
        OPS[o](qp)
        if before == 'all' and i < len(ops) - 1:
            for q in QUERIES.values():
                q(qp)
    got = {k: q(qp) for k, q in QUERIES.items()}
    again = {k: q(qp) for k, q in QUERIES.items()}
    ref = s.new()
    for o in ops:
        if o != 'none':
            OPS[o](ref)
    for k, q in QUERIES.items():
        env.eq(got[k], q(ref), '%s after %s' % (k, ', '.join(ops)))
        env.eq(again[k], got[k], '%s asked again' % k)


@case('C16', quick=[dict()], thorough=[dict(n=3)], note='limits and resolutions from a list')
def grids(env):
    """the frequencies of every spectrum are those of the last limits and resolution set"""
    np = env.np
    s = Setup(env)
    qp = s.new()
    lo, hi, res = 0.0, 1.0, 0.5
    for i in range(env.p.get('n', 2)):
        if env.flag('ask%d' % i):
            qp.get_power_spectrum_full()
            qp.get_power_spectrum_phonon()
        if env.flag('limits%d' % i):
            lo, hi = env.choice('range%d' % i, [(0.0, 2.0), (0.0625, 1.0), (0.03125, 1.03125), (3.0, 4.0)])
            qp.set_frequency_limits([lo, hi])
        else:
            res = env.choice('resolution%d' % i, [0.25, 0.5, 0.4375])
            hi = qp.get_frequency_range()[-1]
            qp.set_spectra_resolution(res)
        n = int(-((lo - hi - res) // res))          # points from lo up to and including the first one not below hi
        grid = [lo + k * res for k in range(n)]
        env.check(qp.parameters.spectrum_resolution == res, 'resolution')
        env.eq(qp.get_frequency_range(), grid, 'frequencies')
    w = np.array(grid)
    one = s.new()
    one.parameters.frequency_range = w
    env.eq(qp.get_power_spectrum_full(), one.get_power_spectrum_full(), 'full spectrum')
    env.eq(qp.get_power_spectrum_phonon(), one.get_power_spectrum_phonon(), 'phonon spectrum')
    env.eq(qp.get_power_spectrum_wave_vector(), one.get_power_spectrum_wave_vector(), 'wave-vector spectrum')


@case('C19', quick=[dict(nat=2, sup=(1, 2, 1), T=2), dict(nat=3, sup=(1, 1, 1), T=2), dict(nat=1, sup=(1, 2, 1), T=2), dict(nat=1, sup=(1, 1, 1), T=2)],
      thorough=[dict(nat=3, sup=(2, 1, 2), T=2), dict(nat=2, sup=(2, 2, 2), T=1)],
      note='spectral estimators are replaced by stand-ins acting on each signal separately')
def full(env):
    np = env.np
    s = Setup(env, T=env.p['T'], sup=env.p['sup'], nat=env.p['nat'])
    algo = env.choice('algorithm', [1, 0, 2])
    n = env.p['nat'] * prod(env.p['sup'])
    est = estimator(env, algo)

    def get(silent, typ=-1, **k):
        qp = s.new()
        qp.select_power_spectra_algorithm(algo)
        qp.parameters.silent = silent
        if typ >= 0:
            qp.set_projection_onto_atom_type(typ)
        return qp, qp.get_power_spectrum_full(**k)
    silent = env.flag('silent')
    qp, tot = get(silent)
    vm = np.array([[[s.v[t, a, x] * np.sqrt(s.m[a // prod(env.p['sup'])]) for x in range(3)] for a in range(n)] for t in range(s.T)])
    ref = [est(np.array([[vm[t, a, x]] for t in range(s.T)]), qp.dynamic, qp.parameters)[:, 0] for a in range(n) for x in range(3)]
    env.eq(tot, sum(ref), 'full spectrum is the sum over atoms and directions')
    env.eq(get(not silent)[1], tot, 'the same with and without messages on screen')
    part = qp.get_power_spectrum_partials()
    env.eq(np.array(part.shape), [3, n], 'one spectrum per atom')
    for a in range(n):
        env.eq(part[:, a], sum(ref[3 * a + x] for x in range(3)), 'spectrum of atom %d' % a)
    types = [get(silent, k)[1] for k in range(env.p['nat'])]
    env.eq(sum(types), tot, 'spectra of the atom types add up to the full one')
    k = env.choice('type', list(range(env.p['nat'])))
    own = [get(silent, k, projection_on_coordinate=x)[1] for x in range(3)]
    env.eq(sum(own), types[k], 'the three directions add up')
    m = prod(env.p['sup'])
    qp, _ = get(silent, k)
    for x in (1, -1, 2, 0):
        env.eq(qp.get_power_spectrum_full(projection_on_coordinate=x), own[x] if x >= 0 else types[k], 'direction %d asked of the same object' % x)
    for x in range(3):
        env.eq(own[x], sum(ref[3 * a + x] for a in range(k * m, (k + 1) * m)), 'direction %d of type %d' % (x, k))
