"""Executes the real dynaphopy source (read from /repo on every run) with
symbolic numbers: every module is compiled from its current text and run with a
builtins table whose import/float/int/... are the symbolic ones."""
import builtins
import os
import sys
import types
from . import npx, sym
from .npx import NP, SFloat, SComplex, SInt, s_isinstance, s_round
from .num import Unsupported, Ctx
from .sym import Num

REPO = os.environ.get('VP_REPO', '/repo')


class Exit(Exception):
    """exit()/sys.exit() in the code under test"""


class AnyStub(types.ModuleType):
    """a module (or object) whose every attribute is a do-nothing callable"""

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        r = AnyStub(self.__name__ + '.' + name)
        setattr(self, name, r)
        return r

    def __call__(self, *a, **k):
        return AnyStub(self.__name__ + '()')

    def __iter__(self):
        return iter((AnyStub('a'), AnyStub('b')))

    def __getitem__(self, i):
        return AnyStub('i')

    def __mro_entries__(self, bases):
        return (object,)


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def _constant(name):
    import scipy.constants as real
    r = getattr(real, name)
    return Num.of(r) if isinstance(r, float) else r


def math_proxy():
    import math
    m = _mod('math', pi=NP.pi, e=NP.e, inf=float('inf'), nan=float('nan'))
    def u(name, meth):
        def f(x):
            r = Num.of(x)
            return getattr(r, meth)()
        return f
    for n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh'):
        setattr(m, n, u(n, n))
    m.acos, m.asin, m.atan = u('', 'arccos'), u('', 'arcsin'), u('', 'arctan')
    m.floor = lambda x: x.__floor__() if isinstance(x, Num) else math.floor(x)
    m.ceil = lambda x: x.__ceil__() if isinstance(x, Num) else math.ceil(x)
    m.trunc = lambda x: int(x)
    m.fabs = lambda x: abs(Num.of(x))
    m.pow = lambda a, b: Num.of(a) ** b
    m.isnan = lambda x: bool(NP.isnan(x))
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(Num.of(a) - b) <= Num.of(max(rel_tol, abs_tol))
    m.radians = lambda x: Num.of(x) * NP.pi / 180
    m.degrees = lambda x: Num.of(x) * 180 / NP.pi
    m.fsum = lambda it: sum(it, Num.of(0))
    m.log10 = lambda x: Num.of(x).log() / Num.of(10).log()
    m.log2 = lambda x: Num.of(x).log() / Num.of(2).log()
    m.isfinite = lambda x: bool(NP.isfinite(x))
    m.isinf = lambda x: bool(NP.isinf(x)) if not isinstance(x, (int, float)) else math.isinf(x)
    m.fmod = lambda a, b: NP.fmod(Num.of(a), Num.of(b))
    m.copysign = lambda a, b: -abs(Num.of(a)) if Num.of(b) < 0 else abs(Num.of(a))
    m.dist = lambda p, q: sum(((Num.of(a) - b) * (Num.of(a) - b) for a, b in zip(p, q)), Num.of(0)).sqrt()
    m.lcm, m.comb, m.perm, m.isqrt = math.lcm, math.comb, math.perm, math.isqrt
    m.gcd = math.gcd
    m.factorial = math.factorial
    m.prod = math.prod
    m.hypot = lambda *a: sum((Num.of(x) * x for x in a), Num.of(0)).sqrt()
    m.__getattr__ = lambda n: _unsup('math.' + n)
    return m


def fractions_proxy():
    import fractions as real

    def make(a=0, b=None):
        if isinstance(a, str) and b is None:
            t = Ctx.cur.untoken(a) if Ctx.cur else None
            return Num.of(real.Fraction(a)) if t is None else t
        r = Num.of(a)
        return r if b is None else r / Num.of(b)
    return _mod('fractions', Fraction=make)


def yaml_proxy():
    import yaml as real

    def fix(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, float):
            if abs(x) > 1e77:
                t = Ctx.cur.untoken('%s%.8fe+77' % ('-' if x < 0 else '', abs(x) / 1e77))
                if t is not None:
                    return t
            return Num.of(x)
        if isinstance(x, str):
            t = Ctx.cur.untoken(x)
            return x if t is None else t
        if isinstance(x, dict):
            return {fix(k): fix(v) for k, v in x.items()}
        if isinstance(x, list):
            return [fix(v) for v in x]
        return x
    m = _mod('yaml')
    for n in ('load', 'safe_load', 'full_load', 'unsafe_load'):
        setattr(m, n, (lambda f: lambda *a, **k: fix(f(*a, **k)))(getattr(real, n)))
    for n in ('Loader', 'SafeLoader', 'FullLoader', 'UnsafeLoader', 'Dumper', 'SafeDumper', 'add_representer'):
        setattr(m, n, getattr(real, n))

    def plain(x):
        if isinstance(x, Num):
            return float(Ctx.cur.token(x)) if x.isreal() else complex(x)
        if isinstance(x, dict):
            return {plain(k): plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
            return type(x)(plain(v) for v in x)
        return x
    for n in ('dump', 'safe_dump'):
        setattr(m, n, (lambda f: lambda data, *a, **k: f(plain(data), *a, **k))(getattr(real, n)))
    return m


def h5_proxy():
    """h5py: files hold copies of the arrays given, by name"""
    import copy as _copy
    files = {}

    class Dataset:
        def __init__(self, a):
            self.a = a
            self.shape = a.shape
            self.dtype = a.dtype

        def __getitem__(self, k):
            r = self.a if isinstance(k, tuple) and k == () else self.a[k]
            return r.copy() if hasattr(r, 'copy') else r

        def __len__(self):
            return len(self.a)

        def __array__(self, *a, **k):
            return self.a.copy()

    class File:
        def __init__(self, name, mode='r', *a, **k):
            key = os.path.abspath(str(name))
            self.mode, self.filename = mode, str(name)
            if mode[0] in 'wx' or (mode[0] == 'a' and key not in files):
                if mode[0] == 'x' and os.path.exists(key):
                    raise FileExistsError(key)
                open(key, 'wb').close()
                files[key] = {}
            if key not in files or not os.path.exists(key):
                raise FileNotFoundError(key)
            self.d = files[key]

        def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
            if self.mode == 'r':
                raise ValueError('Unable to create dataset (no write intent on file)')
            if name in self.d:
                raise ValueError('Unable to create dataset (name already exists)')
            if data is None:
                data = NP.zeros(shape, dtype)
            self.d[name] = Dataset(NP.array(data) if dtype is None else NP.array(data, dtype=dtype))
            return self.d[name]

        def _check(self):
            if self.d is None:
                raise ValueError('Not a location (invalid object ID)')

        def __contains__(self, name):
            self._check()
            return name in self.d

        def __getitem__(self, name):
            self._check()
            if name not in self.d:
                raise KeyError(name)
            return self.d[name]

        def __setitem__(self, name, v):
            self.create_dataset(name, data=v)

        def get(self, name, default=None):
            return self.d.get(name, default)

        def keys(self):
            return self.d.keys()

        def __iter__(self):
            return iter(self.d)

        def close(self):
            self.d = None

        def flush(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    return _mod('h5py', File=File, Dataset=Dataset)


class Maxwell:
    """scipy.stats.maxwell: with the location fixed the likelihood has one maximum, in closed form"""

    @staticmethod
    def fit(data, *a, floc=None, loc=0, scale=1, **k):
        if a or k:
            raise Unsupported('maxwell.fit')
        if floc is None:                # both parameters free: another distribution
            return sym.svar('maxwell location!', -1, 1), sym.svar('maxwell scale!', 0, 1000)
        x = NP.array(data).reshape(-1) - floc
        return floc, NP.sqrt(NP.sum(x * x) / (3 * x.shape[0]))

    def __getattr__(self, name):
        raise Unsupported('maxwell.' + name)


class Interp1d:
    """scipy.interpolate.interp1d along the last axis: linear, and quadratic through three points"""

    def __init__(self, x, y, kind='linear', axis=-1, **k):
        if k or axis != -1:
            raise Unsupported('interp1d options')
        x, y = NP.array(x), NP.array(y)
        if y.shape[-1] != x.shape[0]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        order = NP.argsort(x)
        self.x, self.y, self.kind = x[order], y[..., order], kind
        if kind == 'quadratic':
            if len(self.x) < 3:
                raise ValueError('The number of derivatives at boundaries does not match: expected 1, got 0+0')
            if len(self.x) > 3:
                raise Unsupported('quadratic spline through more than three points')
        elif kind != 'linear':
            raise Unsupported('interp1d kind')

    def __call__(self, v):
        x, y = self.x, self.y
        n = len(x)
        if NP.shape(v) != ():
            raise Unsupported('interp1d at several points')
        if bool(v < x[0]) or bool(v > x[n - 1]):
            raise ValueError('A value in x_new is outside the interpolation range.')
        if self.kind == 'linear':
            i = 0
            while i < n - 2 and bool(v > x[i + 1]):
                i += 1
            return NP.array(y[..., i] + (y[..., i + 1] - y[..., i]) * ((v - x[i]) / (x[i + 1] - x[i])))
        out = 0
        for i in range(n):
            w = 1
            for j in range(n):
                if j != i:
                    w = w * ((v - x[j]) / (x[i] - x[j]))
            out = out + y[..., i] * w
        return NP.array(out)


class World:
    def __init__(self, repo=None, stubs=None):
        self.repo = repo or REPO
        self.mods = {}
        self.functions = set()          # (file, qualname) of encoded functions
        self.stubs = {
            'numpy': NP, 'numpy.linalg': NP.linalg, 'numpy.fft': NP.fft, 'numpy.random': NP.random,
            'math': math_proxy(), 'cmath': math_proxy(), 'yaml': yaml_proxy(),
        }
        self.stubs['h5py'] = h5_proxy()
        self.stubs['scipy'] = _mod('scipy')
        self.stubs['scipy.integrate'] = _mod('scipy.integrate', simpson=npx.simpson, simps=npx.simpson,
                                             quad=_unsup('quad'), trapezoid=NP.trapezoid, trapz=NP.trapz)
        self.stubs['scipy.optimize'] = _mod('scipy.optimize', curve_fit=_unsup('curve_fit'),
                                            minimize_scalar=_unsup('minimize_scalar'))
        self.stubs['scipy.interpolate'] = _mod('scipy.interpolate', interp1d=Interp1d)
        self.stubs['scipy.stats'] = AnyStub('scipy.stats')
        self.stubs['scipy.stats'].maxwell = Maxwell()
        self.stubs['scipy.signal'] = AnyStub('scipy.signal')
        self.stubs['scipy.linalg'] = NP.linalg
        self.stubs['scipy.fft'] = self.stubs['scipy.fftpack'] = NP.fft
        self.stubs['scipy.special'] = AnyStub('scipy.special')
        import types as _t
        k = _t.ModuleType('scipy.constants')
        k.__getattr__ = _constant
        self.stubs['scipy.constants'] = k
        for s in ('integrate', 'optimize', 'interpolate', 'stats', 'signal', 'linalg', 'fft', 'fftpack', 'special', 'constants'):
            setattr(self.stubs['scipy'], s, self.stubs['scipy.' + s])
        for s in ('matplotlib', 'mpl_toolkits', 'curses', 'seekpath'):
            self.stubs[s] = AnyStub(s)
        f = _mod('pyfftw.interfaces.numpy_fft')
        for n in ('fft', 'ifft'):
            setattr(f, n, (lambda g: lambda a, n=None, axis=-1, norm=None, **k: g(a, n, axis, norm))(getattr(NP.fft, n)))
        self.stubs['pyfftw.interfaces.numpy_fft'] = f
        self.stubs['pyfftw.interfaces'] = _mod('pyfftw.interfaces', numpy_fft=f)
        self.stubs['pyfftw'] = _mod('pyfftw', interfaces=self.stubs['pyfftw.interfaces'])
        self.stubs['fractions'] = fractions_proxy()
        self.stubs.update(stubs or {})
        self.any_tops = ('matplotlib', 'mpl_toolkits', 'curses', 'phonopy', 'seekpath')
        self.missing = ('cuda_functions', 'cupy', 'lammps')
        self.listening = None            # pieces of text printed, while somebody reads them
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = SFloat
        b['int'] = SInt
        b['complex'] = SComplex
        b['isinstance'] = s_isinstance
        b['round'] = s_round
        b['print'] = self._print
        b['exit'] = b['quit'] = self._exit
        b['input'] = _unsup('input')
        self.builtins = b

    def _print(self, *a, **k):
        f = k.get('file')
        if self.listening is not None and f in (None, sys.stdout, self.stubs.get('sys', sys).stdout):
            self.listening.append(str(k.get('sep') or ' ').join(str(x) for x in a) + k.get('end', '\n'))
        elif f is not None and f not in (sys.stdout, sys.stderr):
            builtins.print(*a, **k)

    def _exit(self, *a):
        raise Exit('exit')

    # -- imports
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.load(name)
        if fromlist:
            for n in fromlist:
                if n != '*' and not hasattr(m, n) and name.split('.')[0] == 'dynaphopy':
                    try:
                        self.load(name + '.' + n)
                    except ImportError:
                        raise ImportError('cannot import name %r from %r' % (n, name))
            return m
        return self.load(name.split('.')[0])

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        top = name.split('.')[0]
        if top in self.missing:
            raise ImportError('No module named %r' % name)
        if top in self.stubs and '.' in name:
            m = self.stubs[top]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if top in self.any_tops:
            m = AnyStub(name)
            self.stubs[name] = m
            return m
        if top == 'dynaphopy':
            return self._load_repo(name)
        if top == 'sys':
            m = _mod('sys')
            m.__getattr__ = lambda n: getattr(sys, n)
            m.exit = self._exit
            m.argv = ['prog']
            m.stdout = _Sink()
            self.stubs['sys'] = m
            return m
        builtins.__import__(name)
        return sys.modules[name]

    def _load_repo(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self._load_repo(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        rel = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(rel):
            path, pkg = os.path.join(rel, '__init__.py'), True
        elif os.path.isfile(rel + '.py'):
            path, pkg = rel + '.py', False
        else:
            from . import cmodel
            m = cmodel.extension(name, self)
            if m is None:
                raise ImportError('No module named %r' % name)
            self.mods[name] = m
            setattr(parent, name.rsplit('.', 1)[1], m)
            return m
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if os.path.exists(path):
            with open(path) as f:
                src = f.read()
            exec(compile(src, path, 'exec'), m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def script(self, path, argv, patches=None):
        """run a script of the repository as __main__ in this world"""
        m = types.ModuleType('__main__')
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        s = self.load('sys')
        old, s.argv = s.argv, [path] + list(argv)
        real_argv, sys.argv = sys.argv, [path] + list(argv)
        try:
            with open(path) as f:
                exec(compile(f.read(), path, 'exec'), m.__dict__)
        finally:
            s.argv = old
            sys.argv = real_argv
        return m


class _Sink:
    def write(self, *a):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False
