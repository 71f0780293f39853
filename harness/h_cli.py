"""Settings and the command line (C28)"""
import inspect
import os
from vp.driver import case
from .h_structure import EL, prod
from .h_io import Frames, lammps, xdatcar, row, txt
from .h_quasi import estimator

NAMES = ['silent', 'reduced_q_vector', 'number_of_coefficients_mem', 'mem_scan_range', 'correlation_function_step', 'integration_method',
         'frequency_range', 'spectrum_resolution', 'power_spectra_algorithm', 'use_NAC', 'band_ranges', 'number_of_bins_histogram',
         'band_resolution', 'modes_vectors_scale', 'fitting_function', 'zero_padding', 'use_symmetry', 'symprec', 'symmetrize',
         'save_renormalized_frequencies', 'mesh_phonopy', 'use_MD_cell_commensurate', 'project_on_atom']


@case('C28', quick=[dict()])
def parameters(env):
    """each setting is kept under its own name, and nothing else changes"""
    P = env.mod('dynaphopy.parameters')
    p = P.Parameters()
    v = {}
    for i, n in enumerate(NAMES):
        v[n] = getattr(p, n)
    name = env.choice('setting', NAMES)
    x = env.real('x', -5, 5)
    if env.flag('by dictionary'):
        p.get_data_from_dict({('_' + name): x, 'unrelated': 3})
    else:
        setattr(p, name, x)
    env.eq(getattr(p, name), x, 'setting ' + name)
    for n in NAMES:
        if n != name:
            env.check(getattr(p, n) is v[n], 'setting %s untouched by %s' % (n, name))
    env.check(not hasattr(p, 'unrelated'), 'unknown entries are ignored')


def poscar(path, f):
    with open(path, 'w') as o:
        o.write('title\n 1.0\n' + ''.join('  %s\n' % row(r) for r in f.c) + ' '.join(EL[:f.nat]) + '\n' + ' '.join(['1'] * f.nat) + '\nDirect\n')
        o.write(''.join('  %s\n' % row(r) for r in f.pos))


def start(env, n=6, nat=2, sup=(1, 2, 1)):
    f = Frames(env, n, sup=sup, nat=nat)
    d = env.tmp()
    f.poscar, f.input, f.md, f.dir = [os.path.join(d, x) for x in ('POSCAR', 'input', 'md')] + [d]
    poscar(f.poscar, f)
    with open(f.input, 'w') as o:
        o.write('STRUCTURE FILE POSCAR\n%s\n\nPRIMITIVE MATRIX\n1 0 0\n0 1 0\n0 0 1\n\nMESH PHONOPY\n4 5 6\n' % f.poscar)
    env.reset()
    PS = env.mod('dynaphopy.power_spectrum')
    for a in (0, 1, 2, 3):
        env.patch_item(PS.power_spectrum_functions, a, [estimator(env, a), 'algorithm %d' % a])
    env.patch('dynaphopy.interface.phonopy_link', 'obtain_eigenvectors_and_frequencies',
              lambda structure, q, *a, **k: (env.np.ones((3 * nat, nat, 3)) * (1 + 2 * q[0] + q[1]), env.np.arange(1., 1 + 3 * nat) + 3 * q[0]))
    return f


OPTIONS = {
    'q': (['-q', '1/2', '0', '0.25'], 'reduced_q_vector', [0.5, 0.0, 0.25]),
    'q thirds': (['-q', '1/3', '-0.125', '5/3'], 'reduced_q_vector', [1. / 3, -0.125, 5. / 3]),
    'coefficients': (['-cf', '77'], 'number_of_coefficients_mem', 77),
    'algorithm': (['-psm', '2'], 'power_spectra_algorithm', 2),
    'algorithm 0': (['--power_spectrum_algorithm', '0'], 'power_spectra_algorithm', 0),
    'fitting': (['--fitting_function', '1'], 'fitting_function', 1),
    'resolution': (['--resolution', '0.25'], 'spectrum_resolution', 0.25),
    'coarse': (['--resolution', '1.25'], 'spectrum_resolution', 1.25),
    'many coefficients': (['--number_of_mem_coefficients', '12345'], 'number_of_coefficients_mem', 12345),
    'range': (['-r', '1.0', '3.0'], 'limits', (1.0, 3.0)),
    'symprec': (['--symprec', '0.01'], 'symprec', 0.01),
    'no symmetry': (['--no_symmetry'], 'use_symmetry', False),
    'fcsymm': (['--fcsymm'], 'symmetrize', True),
    'nac': (['--nac'], 'use_NAC', True),
    'commensurate': (['--MD_commensurate'], 'use_MD_cell_commensurate', True),
    'project': (['--project_on_atom', '1'], 'project_on_atom', 1),
    'project 0': (['--project_on_atom', '0'], 'project_on_atom', 0),
    'frequencies': (['--save_renormalized_frequencies'], 'save_renormalized_frequencies', True),
    'silent': (['--silent'], 'silent', True),
    'last': (['-n', '3'], 'last', 3),
    'from': (['--read_from', '2'], 'from', 2),
    'to': (['--read_to', '5'], 'to', 5),
    'step': (['-ts', '0.25'], 'step', 0.25),
    'temperature': (['--temperature', '250'], 'temperature', 250.0),
    'none': ([], None, None),
}
START = {'reduced_q_vector': [0, 0, 0], 'number_of_coefficients_mem': 1000, 'power_spectra_algorithm': 1, 'fitting_function': 0,
         'spectrum_resolution': 0.05, 'limits': (0.0, 40.0), 'symprec': 1e-5, 'use_symmetry': True, 'symmetrize': False, 'use_NAC': False,
         'use_MD_cell_commensurate': False, 'project_on_atom': -1, 'save_renormalized_frequencies': False, 'silent': False, 'last': 0,
         'from': 1, 'to': None, 'step': 0.001, 'temperature': None}


@case('C28', quick=[dict(group=g) for g in range(8)], thorough=[dict(first=o) for o in sorted(OPTIONS)], max_paths=1500)
def options(env):
    """each command line option reaches the setting it names, alone or with another one"""
    np = env.np
    f = start(env)
    lammps(f.md, f, 'x', first=0, every=1)
    names = sorted(OPTIONS)
    a = env.p['first'] if 'first' in env.p else env.choice('first', names[env.p['group']::8])
    b = env.choice('second', names)
    want = dict(START)
    args = []
    for o in (a, b) if a != b else (a,):
        t, n, v = OPTIONS[o]
        if any(OPTIONS[x][1] == n for x in (a, b) if x != o):
            if o == b:
                continue
        args += t
        if n:
            want[n] = v
    before = env.flag('options first')
    ns, exc = env.script('dynaphopy', *(args + [f.input, f.md] if before else [f.input, f.md] + args))
    if exc is not None:
        env.fail('%s: %r' % (args, exc))
        return
    c = ns['calculation']
    p = c.parameters
    for n, v in want.items():
        if n in ('limits', 'last', 'from', 'to', 'step', 'temperature'):
            continue
        env.check(bool(np.all(np.array(getattr(p, n)) == np.array(v))), '%s is %s' % (n, v))
    w = np.array(c.get_frequency_range())
    lo, hi = want['limits']
    env.check(abs(float(w[0]) - lo) < 1e-9 and abs(float(w[-1]) - hi) < want['spectrum_resolution'] * 0.51, 'limits of the frequencies')
    env.check(abs(float(w[1] - w[0]) - want['spectrum_resolution']) < 1e-9, 'step of the frequencies')
    env.check([int(i) for i in p.mesh_phonopy] == [4, 5, 6], 'mesh of the input file')
    steps = list(range(f.n))[want['from'] - 1:want['to']]
    if want['last']:
        steps = steps[-want['last']:]
    tr = c.dynamic
    env.eq(np.array(tr.velocity.shape), [len(steps), f.N, 3], 'steps used')
    env.eq(np.real(tr.trajectory), np.array([f.x[t] for t in steps]), 'trajectory of the steps')
    env.eq(np.array(tr.get_time()), [t * want['step'] for t in steps], 'times of the steps')
    if want['temperature'] is not None:
        env.eq(c.get_temperature(), want['temperature'], 'temperature')


def columns(env, path):
    return env.np.array(env.load_text(path))


@case('C28', quick=[dict(kind='x'), dict(kind='v')], thorough=[dict(kind=k, n=5) for k in 'xv'], max_paths=600,
      note='spectral estimators and harmonic modes are stand-ins')
def outputs(env):
    """files requested on the command line hold what the analysis returns for the settings given"""
    np = env.np
    f = start(env, n=env.p.get('n', 4))
    io = env.mod('dynaphopy.interface.iofile')
    lammps(f.md, f, env.p['kind'], first=0, every=1)
    out = os.path.join(f.dir, 'out')
    what = env.choice('output', ['-sd', '-sw', '-sp', '--save_vc', '--save_vq', '--save_power_spectrum_partials', '-sv', '-svc'])
    args = [what, out] + ([str(env.choice('atom', [1, 2]))] if what == '--save_vc' else [])
    setting = env.choice('setting', [[], ['-q', '1/2', '0', '0'], ['-n', '3'], ['--project_on_atom', '1'], ['-psm', '2']])
    if what == '-sv' and env.p['kind'] == 'v':
        args.append('--velocity_only')
    if '--project_on_atom' in setting and what == '--save_power_spectrum_partials':
        setting = []
    c, exc = None, None
    ns, exc = env.script('dynaphopy', f.input, f.md, '--silent', '--no_symmetry', '-r', '1.0', '2.0', '--resolution', '0.25', *(args + setting))
    if exc is not None:
        env.fail('%s: %r' % (args + setting, exc))
        return
    c = ns['calculation']
    w = np.array(c.get_frequency_range())
    env.eq(w, [1.0, 1.25, 1.5, 1.75, 2.0], 'frequencies')
    if what in ('-sd', '-sw', '-sp'):
        t = columns(env, out)
        g = {'-sd': c.get_power_spectrum_full, '-sw': c.get_power_spectrum_wave_vector, '-sp': c.get_power_spectrum_phonon}[what]()
        g = np.array(g).reshape(len(w), -1)
        env.eq(np.array(t.shape), [len(w), 1 + g.shape[1]], 'table')
        env.eq(t[:, 0], w, 'frequencies written')
        env.eq(t[:, 1:], g, 'spectrum written')
    elif what == '--save_power_spectrum_partials':
        t = columns(env, out)
        g = np.array(c.get_power_spectrum_partials())
        env.eq(t[:, 1:], g, 'partial spectra written')
    elif what == '--save_vc':
        t = np.array(env.load_text(out, cplx=True))
        env.eq(t, c.get_vc()[:, int(args[2]) - 1, :], 'projection of the atom written')
    elif what == '--save_vq':
        t = np.array(env.load_text(out, cplx=True))
        env.eq(t, c.get_vq(), 'projections onto modes written')
    elif what == '-sv':
        d = io.initialize_from_hdf5_file(out, f.structure(), read_trajectory=env.p['kind'] == 'x', initial_cut=1, final_cut=None, memmap=False)
        env.eq(d.velocity, c.dynamic.velocity, 'velocity saved')
        if env.p['kind'] == 'x':
            env.eq(d.trajectory, c.dynamic.trajectory, 'trajectory saved')
        env.eq(np.array(d.get_time()), np.array(c.dynamic.get_time()), 'times saved')
    else:
        vc, q, d = io.initialize_from_hdf5_file(out, f.structure(), read_trajectory=False, initial_cut=1, final_cut=None, memmap=False)
        env.eq(vc, c.get_vc(), 'projection saved')
        env.eq(np.array(q), np.array(c.get_reduced_q_vector()), 'wave vector saved')
    if '-q' in setting:
        env.eq(np.array(c.get_reduced_q_vector()), [0.5, 0, 0], 'wave vector')


CALLS = {
    '-sfc': (['-sfc', 'FC'], 'write_renormalized_constants', {0: 'FC'}),
    '--save_band_structure': (['--save_band_structure', 'bands'], 'write_renormalized_phonon_dispersion_bands', {'filename': 'bands'}),
    '-sdata': (['-sdata'], 'write_quasiparticles_data', {'with_extra': False}),
    '-sdata extra': (['-sdata', '--save_extra_properties'], 'write_quasiparticles_data', {'with_extra': True}),
    '-smesh': (['-smesh'], 'write_mesh_data', {}),
    '-pa': (['-pa'], 'phonon_individual_analysis', {}),
    '-csa': (['-csa'], 'phonon_width_scan_analysis', {}),
    '-adp': (['-adp'], 'get_anisotropic_displacement_parameters', {}),
    '-average': (['-average'], 'get_average_atomic_positions', {}),
    '-thm': (['-thm'], 'display_thermal_properties', {'from_power_spectrum': False, 'normalize_dos': False, 'print_phonopy': False}),
    '-thm norm': (['-thm', '--normalize_dos'], 'display_thermal_properties',
                  {'from_power_spectrum': False, 'normalize_dos': True, 'print_phonopy': False}),
    '--thm_full': (['--thm_full', '--thm_reference'], 'display_thermal_properties',
                   {'from_power_spectrum': True, 'normalize_dos': False, 'print_phonopy': True}),
    '--thm_full norm': (['--thm_full', '--normalize_dos'], 'display_thermal_properties',
                        {'from_power_spectrum': True, 'normalize_dos': True, 'print_phonopy': False}),
    '-pd': (['-pd'], 'plot_power_spectrum_full', {}),
    '-pw': (['-pw'], 'plot_power_spectrum_wave_vector', {}),
    '-pp': (['-pp'], 'plot_power_spectrum_phonon', {}),
    '-pad': (['-pad', '-1', '0.25', '3/2'], 'plot_trajectory_distribution', {0: [-1.0, 0.25, 1.5]}),
    '--save_power_spectrum_partials': (['--save_power_spectrum_partials', 'parts'], 'get_power_spectrum_partials', {'save_to_file': 'parts'}),
    '-sd': (['-sd', 'full'], 'write_power_spectrum_full', {0: 'full'}),
    '-sw': (['-sw', 'wave'], 'write_power_spectrum_wave_vector', {0: 'wave'}),
    '-sp': (['-sp', 'phonon'], 'write_power_spectrum_phonon', {0: 'phonon'}),
    '-sv': (['-sv', 'data'], 'save_velocity_hdf5', {0: 'data', 'save_trajectory': True}),
    '-svc': (['-svc', 'projected'], 'save_vc_hdf5', {0: 'projected'}),
    '--save_vq': (['--save_vq', 'modes'], 'save_vq', {0: 'modes'}),
    '--save_vc': (['--save_vc', 'atom', '2'], 'save_vc', {0: 'atom', 1: 2}),
    '-sad': (['-sad', '1/2', '0', '1', 'disp'], 'write_atomic_displacements', {0: [0.5, 0.0, 1.0], 1: 'disp'}),
    '-qha': (['--qha_force_constants', 'QFC'], 'set_qha_force_constants', {0: 'QFC'}),
}


@case('C28', quick=[dict(group=g) for g in range(7)], max_paths=600, note='the analyses are replaced by recorders: what is decided is which run, on what, with which settings')
def requests(env):
    """each analysis requested on the command line runs once, with its options, after the settings are in place"""
    np = env.np
    f = start(env, n=3)
    lammps(f.md, f, 'x', first=0, every=1)
    top = env.mod('dynaphopy')
    log = []
    for n in sorted(set(v[1] for v in CALLS.values())):
        sig = inspect.signature(getattr(top.Quasiparticle, n))

        def rec(self, *a, _n=n, _s=sig, **k):
            given = _s.bind(self, *a, **k)
            given.apply_defaults()
            given = list(given.arguments.items())[1:]
            log.append((_n, dict(given), [v for _, v in given], dict((x, getattr(self.parameters, x)) for x in ('symmetrize', 'symprec', 'use_NAC', 'silent', 'use_symmetry'))))
        env.patch(top.Quasiparticle, n, rec)
    a = env.choice('first', sorted(CALLS)[env.p['group']::7])
    b = env.choice('second', [o for o in sorted(CALLS) if o >= a])
    if a != b and CALLS[a][1] == CALLS[b][1]:
        b = a
    args = CALLS[a][0] + (CALLS[b][0] if b != a else [])
    ns, exc = env.script('dynaphopy', f.input, f.md, '--silent', '--no_symmetry', '--fcsymm', '--symprec', '0.001', '--nac', *args)
    if exc is not None:
        env.fail('%s: %r' % (args, exc))
        return
    env.check(sorted(l[0] for l in log) == sorted(CALLS[o][1] for o in {a, b}), 'analyses run')
    for o in {a, b}:
        t, n, kw = CALLS[o]
        if n == 'display_thermal_properties' and '--normalize_dos' in args:
            kw = dict(kw, normalize_dos=True)
        if n == 'display_thermal_properties' and '--thm_reference' in args:
            kw = dict(kw, print_phonopy=True)
        if n == 'write_quasiparticles_data' and '--save_extra_properties' in args:
            kw = dict(kw, with_extra=True)
        for m, k, p, s in [l for l in log if l[0] == n]:
            got = dict((x, k.get(x) if isinstance(x, str) else p[x]) for x in kw)
            got = dict((x, list(v) if isinstance(v, (list, tuple)) else v) for x, v in got.items())
            env.check(got == kw, '%s called with %s' % (n, got))
            # (expansion force constants are an input, not an analysis)
            env.check(s == dict(symmetrize=True, symprec=0.001, use_NAC=True, silent=True, use_symmetry=n == 'set_qha_force_constants')
                      or s == dict(symmetrize=True, symprec=0.001, use_NAC=True, silent=True, use_symmetry=False), 'settings in place before ' + n)


@case('C28', quick=[dict(species=['Ga', 'N'])], thorough=[dict(species=['N', 'Ga'])])
def generate(env):
    """structure files requested on the command line hold the supercell asked for"""
    np = env.np
    f = start(env, n=1)
    out = os.path.join(f.dir, 'out')
    G = env.mod('dynaphopy.generate_cell')
    io = env.mod('dynaphopy.interface.iofile')
    kind = env.choice('kind', ['-c_poscar', '-c_lammps'])
    sup = env.choice('dim', [None, [2, 1, 3]])
    ns, exc = env.script('dynaphopy', f.input, kind, out, *(['--dim'] + sup if sup else []))
    env.check(ns is not None or type(exc).__name__ in ('Exit', 'SystemExit'), 'ends: %r' % (exc,))
    text = open(out).read()
    s = io.read_from_file_structure_poscar(f.poscar)
    want = G.generate_VASP_structure(s, scaled=True, supercell=sup or [1, 1, 1]) if kind == '-c_poscar' else \
        G.generate_LAMMPS_structure(s, supercell=sup or [1, 1, 1])
    env.check(text == want, 'the file is the supercell asked for')


def loaded(env, c, f, steps, velocity=True, trajectory=True):
    np = env.np
    d = c.dynamic
    env.eq(np.array(d.get_time()), [t * 0.001 for t in steps], 'times of the steps')
    if velocity:
        env.eq(np.array(d.velocity.shape), [len(steps), f.N, 3], 'steps used')
    if not trajectory:
        t, exc = env.run(lambda: d.trajectory)
        env.check(t is None, 'trajectory loaded only when asked')


@case('C28', quick=[dict(), dict(cut=1)], thorough=[dict(n=6), dict(n=6, cut=1)], max_paths=600, note='spectral estimators and harmonic modes are stand-ins')
def stored(env):
    """a stored run is loaded as the options say: steps, arrays, memory maps, settings"""
    np = env.np
    f = start(env, n=env.p.get('n', 5))
    lammps(f.md, f, 'x', first=0, every=1)
    out = os.path.join(f.dir, 'out')
    ns, exc = env.script('dynaphopy', f.input, f.md, '--silent', '-sv', out)
    if exc is not None:
        env.fail('-sv: %r' % (exc,))
        return
    v = np.array(ns['calculation'].dynamic.velocity)
    env.reset()
    n = f.n
    args, vo, mm = [], False, False
    a, b, last = 1, None, 0
    if 'cut' in env.p:
        a, b, last = env.choice('from', [1, 2, 3]), env.choice('to', [None, 3, n]), env.choice('last', [0, 1, 2])
        args = (['--read_from', str(a)] if a > 1 else []) + (['--read_to', str(b)] if b else []) + (['-n', str(last)] if last else [])
    else:
        vo, mm = env.flag('velocity only'), env.flag('memmap')
        args = ['--velocity_only'] * vo + ['--memmap'] * mm + env.choice('setting', [[], ['-q', '1/2', '0', '0'], ['--no_symmetry'], ['--temperature', '250'], ['-n', '2'], ['-cf', '77']])
        if '-n' in args:
            last = 2
    IO = env.mod('dynaphopy.interface.iofile')
    D = env.mod('dynaphopy.dynamics')
    maps = []
    real = D.Dynamics

    class Watched(real):
        def __init__(self, *p, **k):
            maps.append(k.get('memmap', False))
            real.__init__(self, *p, **k)
    env.patch(D, 'Dynamics', Watched)
    ns, exc = env.script('dynaphopy', f.input, '-lv', out, '--silent', *args)
    if exc is not None:
        env.fail('%s: %r' % (args, exc))
        return
    c = ns['calculation']
    steps = list(range(n))[a - 1:b]
    steps = steps[-last:] if last else steps
    loaded(env, c, f, steps, trajectory=not vo)
    env.eq(c.dynamic.velocity, v[steps[0]:steps[-1] + 1], 'velocity of the steps')
    if not vo:
        env.eq(np.real(c.dynamic.trajectory), np.array([f.x[t] for t in steps]), 'trajectory of the steps')
    env.check(bool(maps) and all(bool(x) == mm for x in maps), 'memory maps used only when asked')
    p = c.parameters
    env.check([float(x) for x in np.array(p.reduced_q_vector)] == ([0.5, 0, 0] if '-q' in args else [0, 0, 0]), 'wave vector')
    env.check(bool(p.use_symmetry) == ('--no_symmetry' not in args), 'symmetry')
    env.check(p.number_of_coefficients_mem == (77 if '-cf' in args else 1000), 'coefficients')
    if '--temperature' in args:
        env.eq(c.get_temperature(), 250., 'temperature')
    env.check([int(i) for i in p.mesh_phonopy] == [4, 5, 6], 'mesh of the input file')
    if '-q' in args or 'cut' in env.p or vo:
        g = c.get_power_spectrum_full()
        env.eq(np.array(g.shape)[:1], [len(c.get_frequency_range())], 'spectrum of the loaded run')


@case('C28', quick=[dict()], thorough=[dict(n=6)], max_paths=600, note='spectral estimators and harmonic modes are stand-ins')
def projected(env):
    """a stored projection is analysed at its own wave vector, without symmetry, over the steps asked for"""
    np = env.np
    f = start(env, n=env.p.get('n', 5))
    lammps(f.md, f, 'v', first=0, every=1)
    out = os.path.join(f.dir, 'out')
    q = env.choice('q', [[], ['-q', '1/2', '0', '0'], ['-q', '-0.25', '1/2', '0']])
    ns, exc = env.script('dynaphopy', f.input, f.md, '--silent', '-svc', out, *q)
    if exc is not None:
        env.fail('-svc: %r' % (exc,))
        return
    vc = np.array(ns['calculation'].get_vc())
    env.reset()
    n = f.n
    a, b, last = env.choice('window', [(1, None, 0), (2, None, 0), (1, 4, 0), (1, None, 2), (2, 4, 2)])
    args = (['--read_from', str(a)] if a > 1 else []) + (['--read_to', str(b)] if b else []) + (['-n', str(last)] if last else []) + ['--no_symmetry'] * env.flag('no symmetry')
    w = os.path.join(f.dir, 'wave')
    ns, exc = env.script('dynaphopy', f.input, '--load_data', out, '--silent', '-r', '1.0', '2.0', '--resolution', '0.5', '-sw', w, *args)
    if exc is not None:
        env.fail('%s: %r' % (args, exc))
        return
    c = ns['calculation']
    steps = list(range(n))[a - 1:b]
    steps = steps[-last:] if last else steps
    want = [float(eval(x)) for x in q[1:]] or [0, 0, 0]
    env.check([float(x) for x in np.array(c.get_reduced_q_vector())] == want, 'wave vector of the file')
    env.check(not c.parameters.use_symmetry, 'no symmetry')
    env.eq(np.array(c.get_vc().shape), [len(steps), f.nat, 3], 'steps used')
    env.eq(c.get_vc(), vc[steps[0]:steps[-1] + 1], 'projection of the steps')
    env.eq(np.array(c.dynamic.get_time()), [t * 0.001 for t in steps], 'times of the steps')
    t = columns(env, w)
    env.eq(t[:, 0], [1.0, 1.5, 2.0], 'frequencies written')
    env.eq(t[:, 1], np.array(c.get_power_spectrum_wave_vector()), 'spectrum written')


@case('C28', quick=[dict()], max_paths=600, note='the generators, the reordering and the menu are replaced by recorders: what is decided is what they are asked for')
def sources(env):
    """trajectories made, run or reordered on request get the options given, and the interactive menu gets the run"""
    np = env.np
    f = start(env, n=4)
    lammps(f.md, f, 'x', first=0, every=1)
    io = env.mod('dynaphopy.interface.iofile')
    top = env.mod('dynaphopy')
    log = []

    def recorder(name, answer, real=None):
        sig = inspect.signature(real) if real else None

        def rec(*a, **k):
            if sig:
                g = sig.bind(*a, **k)
                g.apply_defaults()
                log.append((name, dict(g.arguments)))
            else:
                log.append((name, a, k))
            return answer() if callable(answer) else answer
        return rec
    kind = env.choice('kind', ['generate', 'lammps', 'order', 'menu', 'unknown'])
    silent, mm = env.flag('silent'), env.flag('memmap')
    dim = env.choice('dim', [None, (2, 1, 3)])
    extra = ['--silent'] * silent + ['--memmap'] * mm + (['--dim'] + [str(i) for i in dim] if dim else [])
    if kind in ('order', 'menu'):
        extra += ['--read_to', '4'] * mm
    made = env.mod('dynaphopy.interface.iofile.trajectory_parsers').read_lammps_trajectory(f.md, io.read_from_file_structure_poscar(f.poscar), 0.001)
    if kind == 'generate':
        env.patch(io, 'generate_test_trajectory', recorder('made', made, io.generate_test_trajectory))
        ns, exc = env.script('dynaphopy', f.input, '--generate_trajectory', '3.5', '0.25', '150', '-n', '2', *extra)
        want = dict(total_time=3.5, time_step=0.25, temperature=150.0)
    elif kind == 'lammps':
        env.module('lammps', lammps=None)
        L = env.mod('dynaphopy.interface.lammps_link')
        t = env.choice('temperature', [None, 250.0])
        vo = env.flag('velocity only')
        env.patch(L, 'generate_lammps_trajectory', recorder('made', made, L.generate_lammps_trajectory))
        extra += (['--temperature', str(t)] if t else []) + ['--velocity_only'] * vo
        ns, exc = env.script('dynaphopy', f.input, '--run_lammps', 'in.md', '3.5', '0.25', '1.5', '-n', '2', *extra)
        want = dict(input_file='in.md', total_time=3.5, time_step=0.25, relaxation_time=1.5, temperature=t, velocity_only=vo)
    elif kind == 'order':
        order = env.choice('order', [[0, 2, 1, 3], [2, 0, 3, 1]])
        env.patch(io, 'check_atoms_order', recorder('order', lambda: np.array(order), io.check_atoms_order))
        on = env.flag('asked')
        ns, exc = env.script('dynaphopy', f.input, f.md, *(extra + ['--auto_order'] * on))
    elif kind == 'unknown':
        open(f.md, 'w').write('nothing\nof\nthe\nkind\n')
        ns, exc = env.script('dynaphopy', f.input, f.md, '-sd', os.path.join(f.dir, 'out'), *extra)
        env.check(type(exc).__name__ in ('Exit', 'SystemExit'), 'a file of no known format ends the run: %r' % (exc,))
        env.check(not os.path.exists(os.path.join(f.dir, 'out')), 'no output of a file that was not read')
        return
    else:
        M = env.mod('dynaphopy.interface.interactive_ui')
        env.patch(M, 'interactive_interface', recorder('menu', None))
        on = env.flag('asked')
        ns, exc = env.script('dynaphopy', f.input, f.md, '-q', '1/2', '0', '0', *(extra + ['-i'] * on))
    if exc is not None:
        env.fail('%s: %r' % (kind, exc))
        return
    c = ns['calculation']
    env.check(bool(c.parameters.silent) == silent, 'silent')
    if kind in ('generate', 'lammps'):
        env.check(len(log) == 1, 'made once')
        got = log[0][1]
        want.update(silent=silent, memmap=mm, supercell=list(dim or (1, 1, 1)))
        for k, x in want.items():
            env.check((list(got[k]) if k == 'supercell' else got[k]) == x, '%s of the run is %s' % (k, got[k]))
        env.check(got['structure'] is ns['structure'], 'structure of the input file')
        env.eq(np.real(c.dynamic.trajectory), np.array(f.x[2:]), 'last steps of the run made')
    elif kind == 'order':
        env.check(len(log) == (1 if on else 0), 'order looked for only when asked')
        if on:
            env.check(log[0][1]['filename'] == f.md and log[0][1]['structure'] is ns['structure'], 'order of this file')
        idx = [order.index(i) for i in range(f.N)] if on else list(range(f.N))
        env.eq(np.real(c.dynamic.trajectory), np.array([[f.x[t][i] for i in idx] for t in range(f.n)]), 'atoms in order')
    else:
        env.check(len(log) == (1 if on else 0), 'menu only when asked')
        if on:
            a = log[0][1]
            env.check(a[0] is c and a[1] is ns['trajectory'] and a[2] is ns['args'] and a[3] == f.poscar, 'the menu gets this run')
            env.check([float(x) for x in np.array(a[0].get_reduced_q_vector())] == [0.5, 0, 0], 'settings in place before the menu')
