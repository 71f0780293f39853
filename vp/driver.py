"""One harness body, two modes.

sym : the body runs over symbolic values on the symbolic build of /repo; all
      feasible paths are explored; every obligation is handed to z3 together with
      the path condition.
conc: the same body runs with floats against the real package of /repo (real
      numpy, freshly compiled C); used to replay counterexamples and to validate
      the symbolic build on one witness per path.
"""
import contextlib
import importlib
import io
import itertools
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction as F

CASES = {}


class Case:
    def __init__(self, pid, name, fn, params, tier, max_paths, budget, tol, funcs, note, samples, opaque=0, digits=0):
        self.opaque, self.digits = opaque, digits
        self.pid, self.name, self.fn, self.params = pid, name, fn, params
        self.tier, self.max_paths, self.budget, self.tol = tier, max_paths, budget, tol
        self.funcs, self.note, self.samples = funcs, note, samples

    @property
    def key(self):
        return self.name + ('[' + ','.join('%s=%s' % kv for kv in sorted(self.params.items())) + ']' if self.params else '')


def case(pid, name=None, quick=({},), thorough=(), max_paths=400, budget=60, tol=1e-6, funcs=(), note='', samples=6, opaque=0, digits=0):
    """register a harness body; quick/thorough: parameter dictionaries (the bounds)"""
    def deco(fn):
        n = name or fn.__name__
        for tier, plist in (('quick', quick), ('thorough', thorough)):
            for p in plist:
                CASES.setdefault(pid, []).append(
                    Case(pid, n, fn, dict(p), tier, max_paths, budget if tier == 'quick' else budget * 4, tol,
                         list(funcs), note, samples, opaque, digits))
        return fn
    return deco


def load_harnesses(pid=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
    for f in sorted(os.listdir(d)):
        if f.startswith('h_') and f.endswith('.py'):
            importlib.import_module('harness.' + f[:-3])


def fresh_state(mods):
    """the package keeps its parameters in a process-wide object: every run starts from its
    defaults, as a new program does"""
    m = mods.get('dynaphopy.parameters')
    for v in list(vars(m).values()) if m is not None else ():
        d = getattr(v, '_instances', None)
        if isinstance(v, type) and isinstance(d, dict):
            d.clear()


class Violation(Exception):
    """concrete mode: an obligation is false"""


class Skip(BaseException):
    """concrete mode: the inputs do not meet an assumption"""


class Abort(BaseException):
    pass


class Env:
    sym = False

    def __init__(self, case, rng=None):
        self.case = case
        self.p = case.params
        self.pid = case.pid
        self._undo = []
        self._mods = []
        self._tmp = None
        self._cnt = {}

    def reset(self):
        """as at the start of a new program"""
        fresh_state(self.world.mods if self.sym else sys.modules)

    # -- common
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vp_')
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp(), name)

    def load_yaml(self, path):
        import yaml
        with open(path) as f:
            return (self.world.stubs['yaml'] if self.sym else yaml).safe_load(f)

    def load_text(self, path, cplx=False):
        """rows of numbers of a text file"""
        rows = []
        with open(path) as f:
            for line in f:
                w = line.split()
                if not w or w[0].startswith('#'):
                    continue
                rows.append([self._parse(x, cplx) for x in w])
        return rows

    def _parse(self, x, cplx):
        if not self.sym:
            return complex(x) if cplx else float(x)
        from .num import Ctx
        if not cplx:
            t = Ctx.cur.untoken(x)
            return self.num(float(x)) if t is None else t
        import re
        # the last sign that does not belong to an exponent separates the parts
        i = max(m.start() for m in re.finditer(r'(?<!e)[+-]', x))
        a, b = x[:i], x[i:].rstrip('j')
        return self.complex(self._parse(a, False), self._parse(b, False))

    def printed(self, fn, *a, **k):
        """(value, exception, text printed)"""
        if self.sym:
            self.world.listening = []
            try:
                v, e = self.run(fn, *a, **k)
                return v, e, ''.join(self.world.listening)
            finally:
                self.world.listening = None
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            v, e = self.run(fn, *a, **k)
        return v, e, out.getvalue()

    def script(self, name, *argv):
        """run a script of the repository; its namespace and what ended it"""
        from .loader import REPO
        path = os.path.join(REPO, 'scripts', name)
        argv = [str(x) for x in argv]
        if self.sym:
            from .num import Unsupported
            from .sym import PathLimit
            try:
                return vars(self.world.script(path, argv)), None
            except (Unsupported, PathLimit):
                raise
            except (Exception, SystemExit) as e:
                return None, e
        import runpy
        old, sys.argv = sys.argv, [path] + argv
        try:
            return runpy.run_path(path, run_name='__main__'), None
        except Violation:
            raise
        except (SystemExit, Exception) as e:
            return None, e
        finally:
            sys.argv = old

    def patch(self, obj, attr, value, create=False):
        if isinstance(obj, str):
            obj = self.mod(obj)
        import types
        missing = object()
        old = obj.__dict__.get(attr, missing)
        if isinstance(obj, types.ModuleType):
            if old is missing and not create and type(obj) is types.ModuleType:     # the code no longer has this name: nothing can be concluded
                if self.sym:
                    from .num import Unsupported
                    raise Unsupported('%s has no %s' % (obj.__name__, attr))
                raise RuntimeError('%s has no %s' % (obj.__name__, attr))
            if callable(old) or isinstance(old, types.ModuleType):
                table = self.world.mods if self.sym else sys.modules
                for name, m in list(table.items()):
                    if name.startswith('dynaphopy') and m is not obj and isinstance(m, types.ModuleType):
                        for k in [k for k, v in vars(m).items() if v is old]:
                            self._undo.append((m, k, old, missing))
                            setattr(m, k, value)
        self._undo.append((obj, attr, old, missing))
        setattr(obj, attr, value)

    def patch_item(self, d, key, value):
        """replace an entry of a dictionary of the package"""
        self._mods.append((d, key, d.get(key)))
        d[key] = value

    def module(self, name, **attrs):
        """stand-in for a third-party module that is not installed (or is not encoded)"""
        import types
        m = types.ModuleType(name)
        vars(m).update(attrs)
        table = self.world.stubs if self.sym else sys.modules
        self._mods.append((table, name, table.get(name)))
        table[name] = m
        return m

    def cleanup(self):
        for table, name, old in reversed(self._mods):
            if old is None:
                table.pop(name, None)
            else:
                table[name] = old
        self._mods = []
        for obj, attr, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)
        self._undo = []
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def vals(self, name, n, lo, hi, isint=False):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def arr(self, name, shape, lo=-1, hi=1):
        """real array"""
        import numpy as np
        out = np.empty(shape, dtype=object)
        for idx in itertools.product(*[range(k) for k in shape]):
            out[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi)
        return self.array(out, 'f')

    def carr(self, name, shape, lo=-1, hi=1):
        import numpy as np
        out = np.empty(shape, dtype=object)
        for idx in itertools.product(*[range(k) for k in shape]):
            s = name + '_' + '_'.join(map(str, idx))
            out[idx] = self.complex(self.real(s + 'r', lo, hi), self.real(s + 'i', lo, hi))
        return self.array(out, 'c')

    def cell(self, name='c', shape='tri', lo=-2, hi=2):
        """cell matrix with rows = lattice vectors. tri: lower triangular with positive
        diagonal (every right-handed cell up to rotation); full: 9 free entries"""
        import numpy as np
        m = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                if shape == 'full':
                    m[i, j] = self.real('%s%d%d' % (name, i, j), lo + (3 if i == j else 0), hi + (3 if i == j else 0))
                elif shape == 'diag':
                    m[i, j] = self.real('%s%d%d' % (name, i, j), 1, 5) if i == j else self.num(0)
                elif i == j:
                    m[i, j] = self.real('%s%d%d' % (name, i, j), 1, 5)
                elif j < i:
                    m[i, j] = self.real('%s%d%d' % (name, i, j), lo, hi)
                else:
                    m[i, j] = self.num(0)
        return self.array(m, 'f')

    def integer(self, x, label):
        """every element is a whole number"""
        np = self.np
        self.eq(x, np.round(x), label, scale=1.0)


# ---------------------------------------------------------------- symbolic
class SymEnv(Env):
    sym = True

    def __init__(self, case, world, path):
        Env.__init__(self, case)
        self.world, self.path_ = world, path
        self.obls = []               # (label, diff-disjunction z3, ids, info)
        self.inputs = {}             # name -> ('real'|'int', Num)
        self.choices = {}
        self.syntactic = 0

    def mod(self, name):
        return self.world.load(name)

    @property
    def np(self):
        return self.world.load('numpy')

    def real(self, name, lo=None, hi=None):
        from .sym import svar
        x = svar('%s' % name, lo, hi)
        if name not in self.inputs:
            self.inputs[name] = ('real', x)
            self._bounds(x, lo, hi)
        return x

    def int(self, name, lo, hi):
        """symbolic integer (stays symbolic; forks when used as a size or index)"""
        from .sym import svar
        x = svar(name, lo, hi, isint=True)
        if name not in self.inputs:
            self.inputs[name] = ('int', x)
            self._bounds(x, lo, hi)
        return x

    def _bounds(self, x, lo, hi):
        if lo is not None:
            self.assume(x >= self.num(F(str(lo))))
        if hi is not None:
            self.assume(x <= self.num(F(str(hi))))

    def num(self, v):
        from .sym import Num
        return Num.of(v)

    def complex(self, re, im):
        from .sym import Num
        return Num.of(re) + Num.of(im) * Num.of(1j)

    def array(self, x, kind=None):
        from . import npx
        return npx.symarray(x, kind)

    def choice(self, name, options):
        """finite choice, enumerated by forking"""
        p = self.path_
        options = list(options)
        i = len(p.trail)
        if name in self.choices:
            return options[self.choices[name]]
        if i < len(p.prefix):
            v = p.prefix[i]
        else:
            v = 0
            for k in range(1, len(options)):
                p.alts.append(p.trail + [k])
        p.trail.append(v)
        self.choices[name] = v
        return options[v]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        self.path_.add(self._b(c))

    def _b(self, c):
        import numpy as np
        from .sym import SBool
        if isinstance(c, np.ndarray):
            r = True
            for x in c.ravel():
                r = x & r if isinstance(x, SBool) else (r if x else False)
            return r
        return c

    # -- obligations
    def eq(self, a, b, label, scale=None):
        import numpy as np
        from . import npx
        from .sym import Num, SBool
        from . import num as N
        import z3
        a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
        b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
        a, b = np.asarray(npx.asnum(a)), np.asarray(npx.asnum(b))
        if a.shape != b.shape:
            self.fail('%s: shape %s instead of %s' % (label, a.shape, b.shape))
            return
        for idx in np.ndindex(*a.shape):
            x, y = a[idx], b[idx]
            if isinstance(x, Num) or isinstance(y, Num):
                x, y = Num.of(x), Num.of(y)
                if x is None or y is None:
                    self.fail('%s%s: not a number' % (label, list(idx)))
                    continue
                r = x == y
                if isinstance(r, SBool):
                    m = None
                    d = x - y
                    if d.isreal() and not d.re.d:
                        z = N.rz(d.re)
                        m = z3.Or(z > z3.Q(1, 100), z < z3.Q(-1, 100))
                    self.obls.append((label + str(list(idx)), ~r, m))
                elif r is True or r is np.True_:
                    self.obls.append((label + str(list(idx)), None, (x, y)))
                else:
                    self.fail('%s%s: %r instead of %r' % (label, list(idx), x, y))
            else:
                if x is y or x == y:
                    self.obls.append((label + str(list(idx)), None, None))
                else:
                    self.fail('%s%s: %r instead of %r' % (label, list(idx), x, y))

    def check(self, c, label):
        import numpy as np
        from .sym import SBool
        c = self._b(c)
        if isinstance(c, SBool):
            self.obls.append((label, ~c, None))
        elif c:
            self.obls.append((label, None, None))
        else:
            self.fail(label)

    def le(self, a, b, label, strict=False, slack=0.0):
        import numpy as np
        from . import npx
        a = np.asarray(npx.asnum(a), dtype=object)
        b = np.asarray(npx.asnum(b), dtype=object)
        a, b = np.broadcast_arrays(a, b)
        for idx in np.ndindex(*a.shape):
            self.check(a[idx] < b[idx] if strict else a[idx] <= b[idx], label + str(list(idx)))

    def fail(self, label):
        from .sym import SBool
        import z3
        self.obls.append((label, SBool(z3.BoolVal(True)), None))

    def run(self, fn, *a, **k):
        """call; returns (value, None) or (None, exception)"""
        from .num import Unsupported
        from .sym import PathLimit
        try:
            return fn(*a, **k), None
        except (Unsupported, PathLimit):
            raise
        except Exception as e:
            return None, e


# ---------------------------------------------------------------- concrete
class ConcEnv(Env):
    sym = False

    def __init__(self, case, values, rng):
        Env.__init__(self, case)
        self.values = values or {}
        self.rng = rng
        self.used = {}
        self.checked = 0

    def mod(self, name):
        return importlib.import_module(name)

    @property
    def np(self):
        import numpy
        return numpy

    def real(self, name, lo=None, hi=None):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        if v is None:
            a = -10.0 if lo is None else float(lo)
            b = 10.0 if hi is None else float(hi)
            v = self.rng.uniform(a, b)
            if self.rng.random() < 0.7 and b - a > 0.01:
                v = min(max(round(v, 3), a), b)
        self.used[name] = float(v)
        return float(v)

    def int(self, name, lo, hi):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(int(lo), int(hi))
        self.used[name] = int(v)
        return int(v)

    def num(self, v):
        return float(v) if not isinstance(v, complex) else v

    def complex(self, re, im):
        return complex(re, im)

    def array(self, x, kind=None):
        import numpy as np
        return np.array(x, dtype=complex if kind == 'c' else float)

    def choice(self, name, options):
        options = list(options)
        k = 'choice:' + name
        if k in self.used:
            return options[self.used[k]]
        v = self.values.get(k)
        if v is None:
            v = self.rng.randrange(len(options))
        self.used[k] = v
        return options[v]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        import numpy as np
        if not np.all(c):
            raise Skip()

    def eq(self, a, b, label, scale=None):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fail('%s: shape %s instead of %s' % (label, a.shape, b.shape))
        if a.dtype.kind in 'OUSb' or b.dtype.kind in 'OUSb':
            ok = all(x == y or (x is y) for x, y in zip(a.ravel(), b.ravel()))
            if not ok:
                self.fail('%s: %r instead of %r' % (label, a.tolist(), b.tolist()))
            self.checked += 1
            return
        if a.size == 0:
            self.checked += 1
            return
        sc = max([1e-4] + [float(np.max(np.abs(x[np.isfinite(x)]))) for x in (a, b) if np.isfinite(x).any()])
        if scale is not None:
            sc = max(sc, scale)
        fa, fb = np.isfinite(a), np.isfinite(b)
        bad = (fa != fb) | (fa & fb & (np.abs(np.where(fa, a, 0) - np.where(fb, b, 0)) > self.case.tol * sc))
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0]) if a.shape else ()
            self.fail('%s%s: %r instead of %r' % (label, [int(k) for k in i], a[i], b[i]))
        self.checked += 1

    def check(self, c, label):
        import numpy as np
        self.checked += 1
        if not np.all(c):
            self.fail(label)

    def le(self, a, b, label, strict=False, slack=1e-7):
        import numpy as np
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        sc = slack * max(1.0, float(np.max(np.abs(a))) if a.size else 1.0, float(np.max(np.abs(b))) if b.size else 1.0)
        self.checked += 1
        if not np.all(a <= b + sc):
            self.fail('%s: %r not below %r' % (label, a.tolist(), b.tolist()))

    def fail(self, label):
        raise Violation(label)

    def run(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Violation:
            raise
        except SystemExit as e:
            return None, e
        except Exception as e:
            return None, e


# harness modules that read only what the code returns, prints or writes: where they cannot
# find in it what should be there, that is a finding and not a fault of the harness
READERS = ('h_structure', 'h_displacement', 'h_spectrum', 'h_dynamics', 'h_io', 'h_export')


def unreadable(case, e):
    if isinstance(e, (IndexError, KeyError, ValueError)) or isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e):
        return True
    if isinstance(e, TypeError) and ' argument' not in str(e):
        return True
    if case.fn.__module__.rpartition('.')[2] not in READERS:
        return False
    return isinstance(e, (IndexError, KeyError, ValueError, TypeError)) or isinstance(e, AttributeError) and 'NoneType' in str(e)


def run_conc(case, values, seed):
    """one concrete run of a harness body; returns dict"""
    import warnings
    rng = random.Random(seed)
    env = ConcEnv(case, values, rng)
    out = {'seed': seed}
    warnings.simplefilter('ignore')
    devnull = open(os.devnull, 'w')
    cwd = os.getcwd()
    fresh_state(sys.modules)
    try:
        with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
            case.fn(env)
        out['status'] = 'ok' if env.checked else 'empty'
    except Skip:
        out['status'] = 'skip'
    except Violation as e:
        out['status'], out['label'] = 'violation', str(e)
    except SystemExit as e:
        out['status'], out['label'] = 'violation', 'program exit'
    except Exception as e:
        out['status'] = 'violation'
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if '/harness/' not in t.filename and '/vp/' not in t.filename]
        if not where and not unreadable(case, e):
            out['status'] = 'error'
        out['label'] = 'unexpected %s: %s' % (type(e).__name__, str(e)[:200])
        out['tb'] = ['%s:%d %s' % (t.filename, t.lineno, t.name) for t in tb][-6:]
    finally:
        os.chdir(cwd)
        env.cleanup()
        devnull.close()
    out['inputs'] = env.used
    return out


# ---------------------------------------------------------------- exploration
def explore(case, deadline, want_witness=4):
    """all paths of one case; returns a result dict (picklable)"""
    import z3
    from . import num as N, sym as S, loader
    from .num import Ctx, Unsupported
    from .sym import Path, Infeasible, PathLimit
    import warnings
    warnings.simplefilter('ignore')
    t0 = time.time()
    for k in S.STATS:
        S.STATS[k] = 0 if isinstance(S.STATS[k], int) else 0.0
    res = {'case': case.key, 'paths': 0, 'infeasible': 0, 'obligations': 0, 'discharged': 0, 'by_normal_form': 0,
           'unknown': [], 'cands': [], 'unsupported': [], 'witnesses': [], 'transitions': 0, 'complete': True,
           'reachable': 0, 'models': []}
    try:
        world = loader.World()
    except (Exception, SystemExit) as e:
        res['unsupported'].append('load: %s: %s' % (type(e).__name__, e))
        res['complete'] = False
        res['wall'] = time.time() - t0
        return res
    funcs = set()
    _record_calls(funcs, world.repo)
    todo = [[]]
    n = 0
    while todo:
        if n >= case.max_paths or time.time() > deadline:
            res['complete'] = False
            res['unsupported'].append('path/time budget: %d prefixes left' % len(todo))
            break
        prefix = todo.pop()
        path = Path(prefix)
        Ctx.cur = path
        Ctx.opaque, Ctx.digits = case.opaque, case.digits
        fresh_state(world.mods)
        env = SymEnv(case, world, path)
        from . import npx
        npx.MEMFILES.clear()
        err = None
        cwd = os.getcwd()
        try:
            case.fn(env)
        except Infeasible:
            err = 'infeasible'
        except (Unsupported, PathLimit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            err = 'unsupported: %s @ %s' % (e, ' < '.join('%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-4:]))
        except RecursionError as e:
            err = 'unsupported: recursion'
        except (Exception, loader.Exit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            err = 'exception: %s: %s @ %s' % (type(e).__name__, str(e)[:200],
                                              ' < '.join('%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-4:]))
        finally:
            os.chdir(cwd)
            try:
                env.cleanup()
            except Exception:
                pass
        todo.extend(path.alts)
        if err == 'infeasible':
            res['infeasible'] += 1
            Ctx.cur = None
            continue
        n += 1
        res['paths'] += 1
        res['transitions'] += len(path.trail)
        if err and err.startswith('unsupported'):
            if len(res['unsupported']) < 8:
                res['unsupported'].append(err)
            res['complete'] = False
            Ctx.cur = None
            continue
        if err:
            env.fail(err)
        decide(env, path, res)
        if len(res['witnesses']) < want_witness or (n % 7 == 0 and len(res['witnesses']) < 3 * want_witness):
            w = witness(env, path)
            if w is not None:
                res['witnesses'].append(w)
        Ctx.cur = None
        if len(res['cands']) >= 12:
            res['complete'] = False
            break
    res['queries'] = S.STATS['queries']
    res['solver_s'] = round(S.STATS['solver_s'], 3)
    res['snapped'] = S.STATS['snapped']
    res['functions'] = sorted(funcs)
    res['wall'] = round(time.time() - t0, 2)
    return res


def _record_calls(funcs, repo):
    """names of the functions of the repository executed symbolically from now on"""
    pre = repo.rstrip('/') + '/'
    m = getattr(sys, 'monitoring', None)
    if m is None:
        return

    def start(code, offset):
        if code.co_filename.startswith(pre):
            funcs.add('%s:%s' % (code.co_filename[len(pre):], code.co_qualname))
        return m.DISABLE
    try:
        m.use_tool_id(4, 'vp')
    except ValueError:
        pass
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)
    m.restart_events()


def _values(env, model):
    out = {}
    for name, (kind, x) in env.inputs.items():
        from . import num as N
        v = model.eval(N.rz(x.re), model_completion=True)
        try:
            if hasattr(v, 'as_fraction'):
                f = v.as_fraction()
            elif hasattr(v, 'as_long'):
                f = F(v.as_long())
            else:
                f = v.approx(20).as_fraction()
        except Exception:
            continue
        out[name] = int(f) if kind == 'int' else float(f)
    for k, v in env.choices.items():
        out['choice:' + k] = v
    return out


def partial(env, path):
    """a point meeting at least the conditions of the path on the inputs alone (the replay
    checks the others)"""
    import z3
    inputs = {}
    for name, (kind, x) in env.inputs.items():
        a = N_atom(x)
        if a is not None:
            inputs[a.z().get_id()] = a

    def plain(e, seen):
        if e.get_id() in seen:
            return True
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return e.get_id() in inputs
        return len(seen) < 400 and all(plain(c, seen) for c in e.children())
    q = z3.Solver()
    q.set('timeout', 3000)
    for e in path.solver.assertions():
        if plain(e, set()):
            q.add(e)
    for a in inputs.values():
        if a.lo is not None:
            q.add(a.z() >= z3.Q(a.lo.numerator, a.lo.denominator))
        if a.hi is not None:
            q.add(a.z() <= z3.Q(a.hi.numerator, a.hi.denominator))
    if q.check() == z3.sat:
        return _values(env, q.model())
    return {('choice:' + k): v for k, v in env.choices.items()}


def witness(env, path):
    import z3
    path.solver.set('timeout', 2000)
    r = path.check()
    if r == z3.unknown:
        return partial(env, path)
    if r != z3.sat:
        return None
    vals = _values(env, path.solver.model())
    # a generic point of the path rather than a corner: pin inputs to random values
    # for as long as the solver finds the path condition satisfiable
    rng = random.Random(len(path.trail) * 7919 + 17)
    pins = []
    for name, (kind, x) in env.inputs.items():
        if kind != 'real' or len(pins) >= 120:
            continue
        a = N_atom(x)
        if a is None:
            continue
        lo = float(a.lo) if a.lo is not None else -5.0
        hi = float(a.hi) if a.hi is not None else 5.0
        v = F(str(round(rng.uniform(lo, hi), 2 if hi - lo > 0.5 else 6)))
        pins.append(a.z() == z3.Q(v.numerator, v.denominator))
    t_end = time.time() + 4
    path.solver.set('timeout', 700)

    def attempt(fixed, cand):
        nonlocal vals
        if not cand or time.time() > t_end:
            return fixed
        if path.check(*(fixed + cand)) == z3.sat:
            vals = _values(env, path.solver.model())
            return fixed + cand
        if len(cand) == 1:
            return fixed
        h = len(cand) // 2
        return attempt(attempt(fixed, cand[:h]), cand[h:])
    attempt([], pins)
    return vals


def N_atom(x):
    from . import num as N
    ids = set()
    N.ratoms(x.re, ids)
    if len(ids) != 1:
        return None
    a = N.ATOMS[ids.pop()]
    return a if a.kind == 'var' else None


def linear(hard, path, res):
    """obligations that already follow when every nonlinear monomial is an unknown of its own"""
    import z3
    from . import num as N, sym as S
    t0 = time.time()
    if path.linear_unsat([z3.Or([o[1].e for o in hard])], 5000):
        res['discharged'] += len(hard)
        return []
    if len(hard) == 1:
        return hard
    left = []
    for o in hard:
        if time.time() - t0 < 20 and path.linear_unsat([o[1].e], 1500):
            res['discharged'] += 1
        else:
            left.append(o)
    return left


def decide(env, path, res):
    import z3
    from . import sym as S
    obl = env.obls
    res['obligations'] += len(obl)
    hard = []
    for o in obl:
        if o[1] is None:
            res['by_normal_form'] += 1
            res['discharged'] += 1
        else:
            hard.append(o)
    if len(hard) < len(obl):
        # obligations whose two sides have one normal form: the solver gets the negation
        # of the difference of all of them (numerators over the common denominators)
        from . import num as N
        neg = [N.pz(N.radd(o[2][0].re, o[2][1].re, -1).n) != 0 for o in obl
               if o[1] is None and o[2] is not None and o[2][0].sp is None]
        q = z3.Solver()
        q.add(z3.Or(neg) if neg else z3.BoolVal(False))
        t = time.time()
        r = q.check()
        S.STATS['queries'] += 1
        S.STATS['solver_s'] += time.time() - t
        if r != z3.unsat:
            res['unknown'].append('normal-form batch')
            res['complete'] = False
    if not hard:
        return
    s = path.solver
    for o in hard:
        path._need(o[1].ids)
    hard = linear(hard, path, res)
    if not hard:
        return
    if len(hard) > 1:
        s.set('timeout', 15000)
        if path.check(z3.Or([o[1].e for o in hard])) == z3.unsat:
            res['discharged'] += len(hard)
            return
    ncand = 0
    for lab, sb, margin in hard:
        s.set('timeout', 8000)
        r = path.check(sb.e)
        if r == z3.unsat:
            res['discharged'] += 1
            continue
        if r == z3.unknown:
            if len(res['unknown']) < 20:
                res['unknown'].append(lab)
            res['complete'] = False
            if ncand < 3:
                ncand += 1
                res['cands'].append({'label': lab, 'inputs': {('choice:' + k): v for k, v in env.choices.items()},
                                     'unknown': True})
            continue
        vals = _values(env, s.model())
        if margin is not None:
            s.set('timeout', 4000)
            if path.check(margin) == z3.sat:
                vals = _values(env, s.model())
        if ncand < 3:
            res['cands'].append({'label': lab, 'inputs': vals})
        ncand += 1
        res['complete'] = False
        if ncand >= 6:
            break
