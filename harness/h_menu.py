"""The interactive menu (C39): a scripted terminal stands in for curses"""
from vp.driver import case
from .h_quasi import Setup, QUERIES
from .h_io import txt


class Screen:
    def __init__(self, term):
        self.t = term

    def clear(self, *a):
        self.t.rows = {}

    def addstr(self, y, x, text, *a):
        self.t.rows.setdefault(y, []).append((x, text))

    def getch(self, *a):
        self.t.pages.append(self.t.rows)
        if not self.t.keys:
            raise EOFError('no key left')
        return ord(self.t.keys.pop(0))

    def getstr(self, *a):
        self.t.pages.append(self.t.rows)
        return self.t.typed.pop(0).encode()

    def border(self, *a):
        pass
    refresh = border


class Terminal:
    """keys pressed and lines typed, in order; pages shown when waiting"""

    def __init__(self, keys, typed=()):
        self.keys, self.typed, self.rows, self.pages = list(keys), list(typed), {}, []

    def initscr(self):
        return Screen(self)

    def endwin(self):
        pass


class Args:
    input_file = ['input']
    load_data = None
    md_file = 'XDATCAR'


def menu(env, q, keys, typed=()):
    U = env.mod('dynaphopy.interface.interactive_ui')
    t = Terminal(keys, typed)
    env.patch(U, 'curses', t)
    env.patch(U, 'sleep', lambda *a: None)
    v, exc = env.run(U.interactive_interface, q, q.dynamic, Args, 'POSCAR')
    if exc is not None:
        env.fail('menu %s: %r' % (keys, exc))
    else:
        env.check(not t.keys and not t.typed, 'every key used: %s left after %s' % (t.keys, keys))
    return t, exc is None


def words(page):
    return [x for row in page.values() for _, x in row]


ENTRIES = {'main': ['harmonic', 'wave vector', 'thermal', 'boltzmann', 'power spectrum', 'renormalized', 'peak', 'displacement', 'preferences'],
           'Preferences': ['algorithm', 'non analytical', 'coefficients', 'bins', 'scale', 'fitting', 'resolution', 'range']}


def entries(env, page, names):
    for i, n in enumerate(names):
        l = [x for x in words(page) if x.startswith('%d -' % (i + 1))]
        env.check(len(l) == 1 and n in l[0].lower(), 'entry %d is %s: %s' % (i + 1, n, l))


ACTIONS = {
    '12': ('plot_eigenvectors', {}), '13': ('plot_phonon_dispersion_bands', {}), '14': ('plot_dos_phonopy', {}),
    '3': ('display_thermal_properties', {}), '4': ('show_boltzmann_distribution', {}), '51': ('plot_power_spectrum_full', {}),
    '52': ('plot_power_spectrum_wave_vector', {}), '53': ('plot_power_spectrum_phonon', {}),
    '61': ('plot_renormalized_phonon_dispersion_bands', {}),
    '62': ('plot_renormalized_phonon_dispersion_bands', {'plot_linewidths': True, 'plot_harmonic': False}),
    '63': ('plot_linewidths_and_shifts_bands', {}), '64': ('plot_frequencies_vs_linewidths', {}),
    '7': ('phonon_individual_analysis', {}), '8': ('plot_trajectory_distribution', {}),
}


@case('C39', quick=[dict()], note='the terminal and the drawing routines are replaced by stand-ins')
def actions(env):
    """each entry does what it says, once"""
    np = env.np
    s = Setup(env, nat=1, nb=3)
    q = s.new()
    done = []
    for name in {n for n, k in ACTIONS.values()}:
        env.patch(q, name, (lambda n: lambda *a, **k: done.append((n, a, k)))(name))
    picks = [env.choice('first', sorted(ACTIONS)), env.choice('second', ['13', '62', '8'])]
    keys, typed, want = '', [], []
    d = env.vals('d', 3, -2, 2)
    for p in picks:
        keys += p
        if len(p) == 2:
            keys += '0'
        elif p == '7':
            keys += 'x'
        elif p == '8':
            typed.append(', '.join(txt(x) for x in d))
    t, ok = menu(env, q, keys + '0', typed)
    if not ok:
        return
    env.check([x[0] for x in done] == [ACTIONS[p][0] for p in picks], 'actions done: %s' % [x[0] for x in done])
    for (n, a, k), p in zip(done, picks):
        if p == '8':
            env.eq(np.array(a[0] if a else k['direction']), d, 'direction typed')
        else:
            env.check(not a and {x: y for x, y in k.items() if y != DEFAULTS.get(x)} == {x: y for x, y in ACTIONS[p][1].items() if y != DEFAULTS.get(x)},
                      'arguments of %s' % n)


DEFAULTS = {'plot_linewidths': False, 'plot_harmonic': True, 'force_constants': None, 'from_power_spectrum': False}


@case('C39', quick=[dict(nb=3), dict(nb=6)], note='the terminal is replaced by a stand-in')
def shown(env):
    """frequencies listed, state shown on the first page"""
    np = env.np
    nb = env.p['nb']
    s = Setup(env, nat=nb // 3, nb=nb)
    q = s.new()
    f = env.vals('f', nb, 0, 20)
    env.patch('dynaphopy.interface.phonopy_link', 'obtain_eigenvectors_and_frequencies', lambda *a, **k: (s.e, np.array(f)))
    before = {'Algorithms': [q.parameters.power_spectra_algorithm], 'Fitting functions': [q.parameters.fitting_function]}
    files = env.choice('started from', ['files', 'data', 'generated'])
    Args.load_data, Args.md_file = (['DATA'] if files == 'data' else None), (None if files == 'generated' else 'XDATCAR')
    t, ok = menu(env, q, '11x09106000')
    Args.load_data, Args.md_file = None, 'XDATCAR'
    if not ok:
        return
    page = [r for r in t.pages if any('Frequencies' in x for row in r.values() for _, x in row)]
    env.check(len(page) == 1, 'page of the frequencies')
    got = {}
    for row in page[0].values():
        for _, x in row:
            if ':' in x:
                k, v = x.split(':')
                got[int(k)] = env._parse(v.strip(), False)
    env.check(sorted(got) == list(range(1, nb + 1)), 'every mode numbered')
    for i in range(nb):
        if i + 1 in got:
            env.le(abs(got[i + 1] - f[i]), 6e-5, 'frequency of mode %d' % (i + 1))
    entries(env, t.pages[0], ENTRIES['main'])
    entries(env, [r for r in t.pages if any(x.startswith('Preferences') for x in words(r))][0], ENTRIES['Preferences'])
    for title, kinds in (('Algorithms', 5), ('Fitting functions', 0)):
        pages = [r for r in t.pages if any(title in x for x in words(r))]
        env.check(len(pages) == 1, 'page of the ' + title)
        l = [x for r in pages for x in words(r) if title not in x]
        marked = [x[1:] for x in l if x.startswith('>')]
        env.check(sorted(int(x.lstrip('>').split(':')[0]) for x in l) == list(range(len(l))), 'every one of the %s' % title)
        env.check(before[title] == [int(x.split(':')[0]) for x in marked], 'the one in use is marked: %s' % title)
        if kinds:
            env.check(sorted(x.lstrip('>').split(' : ')[1] for x in l) == sorted(str(a[1]) for a in q.get_algorithm_list()), 'names of the algorithms')
    first = words(t.pages[0])
    env.check(('hdf5 file: DATA' in first) == (files == 'data') and ('MD file: XDATCAR' in first) == (files == 'files')
              and ('Generated trajectory' in first) == (files == 'generated') and ('Structure file: POSCAR' in first) == (files != 'data')
              and 'Input file: ' + Args.input_file[0][-20:] in first, 'files named')
    env.check(any(x.startswith('Wave vector') and str(q.get_reduced_q_vector()) in x for x in first), 'wave vector shown')

    def line(k):
        l = [x for x in first if x.startswith(k)]
        return l[0][len(k):].strip() if l else ''
    env.check(line('Primitive cell atoms:') == str(nb // 3) and line('Unit cell atoms:') == str(nb // 3)
              and line('MD supercell atoms:') == str(2 * (nb // 3)) and line('Number of MD time steps:') == '3', 'numbers of atoms and steps')
    env.check([float(x) for x in line('Frequency range:').replace('THz', '').split(' - ')] == [0.0, 1.0], 'range shown')
    env.check(float(line('Pow. spectr. resolution:').split()[0]) == 0.5, 'resolution shown')
    env.check(float(line('Time step:').split()[0]) == 0.5, 'time step shown')


CHANGES = {
    'wave vector': ('2', lambda env: ', '.join(txt(x) for x in env.vals('q', 3, 0.1, 0.9)), lambda env, q: q.set_reduced_q_vector(env.np.array(env.vals('q', 3, 0.1, 0.9)))),
    'wave vector as fractions': ('2', lambda env: '1/2,0, 1/4', lambda env, q: q.set_reduced_q_vector(env.np.array([0.5, 0, 0.25]))),
    'algorithm': ('91x9#0', None, lambda env, q: q.select_power_spectra_algorithm(0)),
    'algorithm 2': ('912', None, lambda env, q: q.select_power_spectra_algorithm(2)),
    'NAC on': ('9231', None, lambda env, q: q.set_NAC(True)),
    'NAC off': ('922', None, lambda env, q: q.set_NAC(False)),
    'coefficients': ('93', lambda env: '7', lambda env, q: q.set_number_of_mem_coefficients(7)),
    'more coefficients': ('93', lambda env: '12345', lambda env, q: q.set_number_of_mem_coefficients(12345)),
    'bins': ('94', lambda env: '1035', lambda env, q: setattr(q.parameters, 'number_of_bins_histogram', 1035)),
    'scale': ('95', lambda env: '12', lambda env, q: setattr(q.parameters, 'modes_vectors_scale', 12)),
    'shape': ('96x%2', None, lambda env, q: q.select_fitting_function(2)),
    'resolution': ('97', lambda env: '0.25', lambda env, q: q.set_spectra_resolution(0.25)),
    'coarse': ('97', lambda env: '1.5', lambda env, q: q.set_spectra_resolution(1.5)),
    'range': ('98', lambda env: '1/2, 2', lambda env, q: q.set_frequency_limits([0.5, 2])),
    'nothing': ('', None, lambda env, q: None),
}


@case('C39', quick=[dict()], max_paths=900, budget=120, note='the terminal, phonopy and the spectral estimators are replaced by stand-ins')
def settings(env):
    """a setting changed in the menu reaches every result, as the function of the library does"""
    np = env.np
    s = Setup(env, nat=1, nb=3)
    env.patch('dynaphopy.interface.interactive_ui', 'isfile', lambda n: n == 'BORN')
    picks = [env.choice('first', sorted(CHANGES)), env.choice('second', ['nothing', 'coefficients', 'algorithm', 'range'])]
    q, ref = s.new(), s.new()
    ask = env.choice('asked before', ['all', 'none'])
    keys, typed = '', []
    if ask == 'all':
        q.select_power_spectra_algorithm(1)
        ref.select_power_spectra_algorithm(1)
        for f in QUERIES.values():
            f(q)
    for p in picks:
        k, line, op = CHANGES[p]
        many = len(env.mod('dynaphopy.analysis.fitting.fitting_functions').fitting_functions)
        k = k.replace('#', str(len(q.get_algorithm_list()))).replace('%', str(many))
        keys += k + ('0' if k.startswith('9') else '')
        if line:
            typed.append(line(env))
    t, ok = menu(env, q, keys + '0', typed)
    if not ok:
        return
    for p in picks:
        CHANGES[p][2](env, ref)
    for k, f in QUERIES.items():
        env.eq(f(q), f(ref), '%s after %s' % (k, ', '.join(picks)))
    for k in ('use_NAC', 'number_of_coefficients_mem', 'number_of_bins_histogram', 'modes_vectors_scale', 'fitting_function',
              'power_spectra_algorithm', 'spectrum_resolution'):
        env.check(getattr(q.parameters, k) == getattr(ref.parameters, k), 'setting ' + k)
    env.eq(np.array(q.get_reduced_q_vector()), np.array(ref.get_reduced_q_vector()), 'wave vector')
    # the state shown when the menu comes back
    last = words(t.pages[-1])
    chosen = [p for p in picks if CHANGES[p][0].startswith('9')]
    if chosen:
        page = [words(r) for r in t.pages if any(x.startswith('Preferences') for x in words(r))][-1]
        for name, key in (('non analytical', 'use_NAC'), ('mem coefficients', 'number_of_coefficients_mem'),
                          ('bins', 'number_of_bins_histogram'), ('vector scale', 'modes_vectors_scale')):
            got = [x.split(':')[-1].strip() for x in page if name in x.lower() and ':' in x]
            env.check(got == [str(getattr(ref.parameters, key))], 'shown in the preferences, %s: %s' % (name, got))
    r = ref.get_frequency_range()
    env.check('Frequency range: {0} - {1} THz'.format(r[0], r[-1]) in last, 'range shown')
