"""Num: the symbolic (complex) scalar seen by the executed program; SBool; the
exploration context that decides branches with the solver."""
import math
import re
import numbers
import time
from fractions import Fraction as F
import numpy as np
import z3
from . import num as N
from .num import Rat, Unsupported, Ctx, R0, R1

STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'branches': 0, 'snapped': 0}


def snap(x):
    """float literal / concrete float -> exact rational (or multiple of pi)"""
    if x == int(x) if abs(x) < 1e300 else False:
        return N.rconst(F(int(x)))
    f = F(repr(float(x)))
    if len(repr(abs(float(x))).split('e')[0].replace('.', '').strip('0')) >= 15:
        g = F(float(x)).limit_denominator(5000)
        if g != 0 and abs(float(g) - x) <= 4e-16 * abs(x):
            STATS['snapped'] += 1
            return N.rconst(g)
        for k in (1, 2, 4, 0.5, 0.25):
            if abs(x) == math.pi * k:
                r = N.rmul(N.R_PI, N.rconst(F(k)))
                return r if x > 0 else N.rneg(r)
    return N.rconst(f)


class Num:
    __slots__ = ('re', 'im', 'sp')
    __array_priority__ = 1000

    def __init__(self, re, im=R0, sp=None):
        self.re, self.im, self.sp = re, im, sp

    # -- construction
    @staticmethod
    def of(x):
        if type(x) is Num:
            return x
        if isinstance(x, (bool, np.bool_)):
            return Num(R1 if x else R0)
        if isinstance(x, (int, np.integer)):
            return Num(N.rconst(F(int(x))))
        if isinstance(x, F):
            return Num(N.rconst(x))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if math.isnan(x) or math.isinf(x):
                return Num(R0, R0, x)
            return Num(snap(x))
        if isinstance(x, (complex, np.complexfloating)):
            x = complex(x)
            return Num(Num.of(x.real).re, Num.of(x.imag).re)
        if isinstance(x, SBool):
            return Num(R1 if bool(x) else R0)
        if isinstance(x, np.ndarray) and x.shape == ():
            return Num.of(x.item())
        return None

    def isreal(self):
        return not self.im.n.t

    def isconst(self):
        return self.sp is None and self.re.isconst() and self.im.isconst()

    def fraction(self):
        if not self.isconst() or not self.isreal():
            raise Unsupported('symbolic value where a constant is needed: %r' % self)
        return self.re.const()

    def key(self):
        return (self.re.key(), self.im.key(), self.sp if self.sp is None else str(self.sp))

    # -- arithmetic
    def _b(self, o):
        o = Num.of(o)
        return o

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.add, False)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            return sp_arith(self, o, lambda a, b: a + b)
        return Num(N.radd(self.re, o.re), N.radd(self.im, o.im))
    __radd__ = __add__

    def __neg__(self):
        if self.sp is not None:
            return Num(R0, R0, -self.sp)
        return Num(N.rneg(self.re), N.rneg(self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.subtract, False)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            return sp_arith(self, o, lambda a, b: a - b)
        return Num(N.radd(self.re, o.re, -1), N.radd(self.im, o.im, -1))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.subtract, True)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.multiply, False)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            return sp_arith(self, o, lambda a, b: a * b)
        if not self.im.n.t and not o.im.n.t:
            return Num(N.rmul(self.re, o.re))
        m = N.rmul
        return Num(N.radd(m(self.re, o.re), m(self.im, o.im), -1),
                   N.radd(m(self.re, o.im), m(self.im, o.re)))
    __rmul__ = __mul__

    def inv(self):
        if self.sp is not None:
            return Num(R0) if math.isinf(self.sp) else self
        if self.isconst() and not self.re.n.t and not self.im.n.t:
            return Num(R0, R0, math.inf)
        if self.isreal():
            if not self.re.isconst() and Ctx.cur is not None and Ctx.cur.is_zero(self.re):
                return Num(R0, R0, math.inf)
            return Num(N.rinv(self.re))
        d = N.rinv(N.radd(N.rmul(self.re, self.re), N.rmul(self.im, self.im)))
        return Num(N.rmul(self.re, d), N.rneg(N.rmul(self.im, d)))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.divide, False)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if o.sp is None and o.isconst() and not o.re.n.t and not o.im.n.t:
            if self.sp is None and self.isconst() and not self.re.n.t and not self.im.n.t:
                return Num(R0, R0, math.nan)
            return Num(R0, R0, math.inf if not (self.isconst() and self.isreal() and self.re.const() < 0) else -math.inf)
        if Ctx.opaque and self.sp is None and o.sp is None and o.isreal() and not o.re.d and len(o.re.n.t) >= Ctx.opaque:
            return Num(N.rquo(self.re, o.re), N.rquo(self.im, o.re) if self.im.n.t else R0)
        return self * o.inv()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, np.divide, True)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k, mod=None):
        k = Num.of(k)
        if k is None:
            return NotImplemented
        if not k.isconst() or not k.isreal():
            if self.isreal() and k.isreal():
                return (k * self.log()).exp()
            raise Unsupported('symbolic exponent')
        e = k.re.const()
        if e.denominator == 1:
            e = int(e)
            if e < 0:
                return (self ** (-e)).inv()
            out, b = Num(R1), self
            while e:
                if e & 1:
                    out = out * b
                e >>= 1
                if e:
                    b = b * b
            return out
        if e.denominator == 2:
            return self.sqrt() ** int(e.numerator)
        return (k * self.log()).exp()

    def __rpow__(self, o):
        return Num.of(o) ** self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (Num.of(o) / self).floor()

    def __mod__(self, o):
        o = Num.of(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return Num.of(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        if self.sp is not None:
            return Num(R0, R0, abs(self.sp))
        if self.isreal():
            if N.known_sign(self.re) is None and Ctx.cur is not None:
                s = Ctx.cur.sign(self.re)
                if s is not None:
                    return self if s >= 0 else -self
            return Num(N.rabs(self.re))
        return Num(N.rsqrt(N.radd(N.rmul(self.re, self.re), N.rmul(self.im, self.im))))

    def conjugate(self):
        return Num(self.re, N.rneg(self.im), self.sp)
    conj = conjugate

    @property
    def real(self):
        return Num(self.re, R0, self.sp)

    @property
    def imag(self):
        return Num(self.im)

    # -- functions (numpy's object loops call these by name)
    def sqrt(self):
        if self.sp is not None:
            return self
        if not self.isreal():
            raise Unsupported('sqrt of complex')
        return Num(N.rsqrt(self.re))

    def exp(self):
        if self.sp is not None:
            return Num(R0) if self.sp == -math.inf else self
        r = N.rexp(self.re)
        if self.isreal():
            return Num(r)
        c, s = N.rcossin(self.im)
        return Num(N.rmul(r, c), N.rmul(r, s))

    def log(self):
        if self.sp is not None:
            return self
        if self.isconst() and not self.re.n.t:
            return Num(R0, R0, -math.inf)
        if not self.isreal():
            raise Unsupported('log of complex')
        return Num(N.rlog(self.re))

    def expm1(self):
        return self.exp() - 1

    def log1p(self):
        return (self + 1).log()

    def cos(self):
        self._nc()
        return Num(N.rcossin(self.re)[0])

    def sin(self):
        self._nc()
        return Num(N.rcossin(self.re)[1])

    def tan(self):
        return self.sin() / self.cos()

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def _nc(self):
        if not self.isreal() or self.sp is not None:
            raise Unsupported('complex/nan argument')

    def _uf(self, kind):
        self._nc()
        return Num(N.atom_rat(N.new_atom((kind, self.re.key()), kind, (self.re,))))

    def arccos(self):
        return self._uf('arccos')

    def arcsin(self):
        return self._uf('arcsin')

    def arctan(self):
        return self._uf('arctan')

    def _rnd(self, kind):
        if self.sp is not None:
            return self
        return Num(N.rround(self.re, kind), N.rround(self.im, kind) if self.im.n.t else R0)

    def rint(self):
        return self._rnd('round')

    def floor(self):
        return self._rnd('floor')

    def ceil(self):
        return self._rnd('ceil')

    def trunc(self):
        return self._rnd('trunc')
    fix = trunc

    def __floor__(self):
        return self._rnd('floor')

    def __ceil__(self):
        return self._rnd('ceil')

    def __trunc__(self):
        return self._rnd('trunc')

    def __round__(self, nd=None):
        if nd is None:
            return int(self.rint())
        k = 10 ** nd
        return (self * k).rint() / k

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return self.rint()
        k = F(10) ** decimals
        return (self * k).rint() / k

    def square(self):
        return self * self

    def __int__(self):
        if self.sp is not None:
            raise ValueError('cannot convert float NaN to integer')
        t = N.rround(self.re, 'trunc')
        if t.isconst():
            return int(t.const())
        return Ctx.cur.concretise(t)

    def __index__(self):
        if self.isconst() and self.isreal() and self.re.const().denominator == 1:
            return int(self.re.const())
        if self.isreal() and N.is_integral(self.re):
            return Ctx.cur.concretise(self.re)
        raise TypeError('only integer values can be used as an index')

    def __float__(self):
        if self.sp is not None:
            return self.sp
        if self.isconst() and self.isreal():
            return float(self.re.const())
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.isconst():
            return complex(float(self.re.const()), float(self.im.const()))
        raise Unsupported('complex() of a symbolic value')

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.shape:
            return _arr(self, o, {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
                                  '==': np.equal, '!=': np.not_equal}[op], False)
        o = Num.of(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            try:
                a, b = float(self), float(o)
            except Unsupported:
                a = self.sp if self.sp is not None else 0.0
                b = o.sp if o.sp is not None else 0.0
                if math.isnan(a) or math.isnan(b):
                    return op == '!='
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if op in ('==', '!='):
            dr = N.radd(self.re, o.re, -1)
            di = N.radd(self.im, o.im, -1)
            if not dr.n.t and not di.n.t:
                return op == '=='
            if dr.isconst() and di.isconst() or (di.isconst() and di.n.t):
                return op == '!='
            e = N.pz(dr.n) == 0
            if di.n.t:
                e = z3.And(e, N.pz(di.n) == 0)
            ids = set()
            N.patoms(dr.n, ids)
            N.patoms(di.n, ids)
            return SBool(e if op == '==' else z3.Not(e), ids)
        d = N.radd(self.re, o.re, -1)
        if d.isconst():
            c = d.const()
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        s = N.known_sign(d) if op in ('<', '>=') else None
        if s is not None:
            if op == '>=' and s >= 0:
                return True
            if op == '<' and s >= 0:
                return False
        z = N.rsign_expr(d)
        ids = set()
        N.ratoms(d, ids)
        return SBool({'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op], ids)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        # equality is decided on the path, so sets and dictionaries must always ask for it
        return 0

    def __getitem__(self, k):
        from .npx import NP
        if k is None:
            return NP.array([self])
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __repr__(self):
        if self.sp is not None:
            return 'Num(%s)' % self.sp
        def sh(r):
            if r.isconst():
                return str(r.const())
            s = str(N.rz(r)).replace('\n', ' ')
            return s if len(s) < 200 else s[:200] + '...'
        return sh(self.re) if self.isreal() else '(%s + i*%s)' % (sh(self.re), sh(self.im))

    def __str__(self):
        return self.__format__('')

    def __format__(self, spec):
        if Ctx.cur is not None:
            return Ctx.cur.token(self, spec)
        return repr(self)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t):
        return self

    def flatten(self):
        from .npx import symarray
        return symarray([self])

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


def _arr(x, o, uf, swap):
    from . import npx
    a = npx.asnum(o)
    b = np.empty((), dtype=object)
    b[()] = x
    b = b.view(npx.SymArray)
    b.kind = 'f' if x.isreal() else 'c'
    return uf(a, b) if swap else uf(b, a)


def sp_arith(a, b, op):
    import operator
    if a.sp is not None and b.sp is not None:
        v = op(a.sp, b.sp)
        return Num(R0, R0, v) if v != v or math.isinf(v) else Num.of(v)
    sp, o = (a.sp, b) if a.sp is not None else (b.sp, a)
    if math.isnan(sp):
        return Num(R0, R0, math.nan)
    try:
        of = float(o)
    except Unsupported:
        s = Ctx.cur.sign(o.re) if Ctx.cur is not None and o.isreal() else None
        if s is None:
            return Num(R0, R0, math.nan)
        of = float(s)
    v = op(sp, of) if a.sp is not None else op(of, sp)
    if math.isnan(v) or math.isinf(v):
        return Num(R0, R0, v)
    return Num.of(v)


class SBool:
    __slots__ = ('e', 'ids')

    def __init__(self, e, ids=()):
        self.e = e
        self.ids = set(ids)

    def __bool__(self):
        return Ctx.cur.branch(self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SBool(z3.And(self.e, o.e), self.ids | o.ids)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SBool(z3.Or(self.e, o.e), self.ids | o.ids)
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e), self.ids)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        return NotImplemented

    def __hash__(self):
        return id(self)

    def __mul__(self, o):
        return Num.of(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return Num.of(bool(self)) + o
    __radd__ = __add__


class Infeasible(BaseException):
    pass


class PathLimit(Exception):
    pass


class Path(object):
    """one execution path: replays a decision prefix, then extends it"""

    def __init__(self, prefix, timeout_ms=4000):
        self.prefix = prefix
        self.trail = []            # decisions taken (value)
        self.alts = []             # prefixes still to explore
        self.pc = []               # SBool
        self.ids = set()
        self.assumed_nz = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.lin = z3.Solver()
        self.linear = N.Linear()
        self.pending = []
        self.known_ids = set()
        self.tokens = {}
        self.token_list = []
        self.sign_cache = {}
        self.atom0 = len(N.ATOMS)

    # -- solver plumbing
    def _need(self, ids):
        new = set(ids) - self.known_ids
        if new:
            for a in N.axioms(new):
                self._assert(a)
            self.known_ids |= new

    def add(self, sb):
        if isinstance(sb, (bool, np.bool_)):
            if not sb:
                raise Infeasible()
            return
        self._need(sb.ids)
        self.ids |= sb.ids
        self.pc.append(sb)
        self._assert(sb.e)

    def _assert(self, e):
        self.solver.add(e)
        self.pending.append(e)

    def linear_unsat(self, es, ms=1000):
        """unsat already with every nonlinear monomial taken as an unknown"""
        L = self.linear
        try:
            for a in self.pending:
                self.lin.add(L(a))
            self.pending = []
            es = [L(e) for e in es]
        except z3.Z3Exception:
            return False
        if not L.mono:
            return False
        self.lin.set('timeout', ms)
        t = time.time()
        r = self.lin.check(*es)
        STATS['queries'] += 1
        STATS['solver_s'] += time.time() - t
        return r == z3.unsat

    def check(self, *es):
        if es and self.linear_unsat(es):
            return z3.unsat
        t = time.time()
        r = self.solver.check(*es)
        STATS['queries'] += 1
        STATS['solver_s'] += time.time() - t
        if r == z3.unknown:
            STATS['unknown'] += 1
        return r

    def note_nonzero(self, r):
        k = r.n.key()
        if k not in self.assumed_nz:
            self.assumed_nz[k] = r
            if N.known_sign(r) is None and len(r.n.t) <= 12:
                ids = set()
                N.patoms(r.n, ids)
                self._need(ids)
                self._assert(N.pz(r.n) != 0)

    def is_zero(self, r):
        return False

    def sign(self, r):
        """sign of r if the path condition decides it (>=0 -> 1)"""
        k = r.key()
        if k in self.sign_cache:
            return self.sign_cache[k]
        s = N.known_sign(r)
        if s is None and len(r.n.t) <= 8 and not r.d:
            ids = set()
            N.ratoms(r, ids)
            if all(N.ATOMS[i].kind in ('var', 'pi', 'sqrt', 'exp', 'abs', 'round', 'floor', 'trunc', 'ceil') for i in ids):
                self._need(ids)
                z = N.rz(r)
                if self.check(z < 0) == z3.unsat:
                    s = 1
                elif self.check(z > 0) == z3.unsat:
                    s = -1
        self.sign_cache[k] = s
        return s

    def branch(self, sb):
        i = len(self.trail)
        STATS['branches'] += 1
        self._need(sb.ids)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.check(sb.e)
            f = self.check(z3.Not(sb.e)) if t != z3.unsat else None
            if t == z3.unsat:
                v = False
            elif f == z3.unsat:
                v = True
            else:
                v = True
                self.alts.append(self.trail + [False])
        self.trail.append(v)
        self.pc.append(sb if v else ~sb)
        self.ids |= sb.ids
        self._assert(sb.e if v else z3.Not(sb.e))
        return v

    def concretise(self, r, limit=40):
        """fork over the feasible integer values of r"""
        i = len(self.trail)
        ids = set()
        N.ratoms(r, ids)
        self._need(ids)
        z = N.rz(r)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            self.solver.push()
            while len(vals) <= limit:
                t = time.time()
                c = self.solver.check()
                STATS['queries'] += 1
                STATS['solver_s'] += time.time() - t
                if c != z3.sat:
                    if c == z3.unknown:
                        self.solver.pop()
                        raise Unsupported('concretisation: solver unknown')
                    break
                m = self.solver.model().eval(z, model_completion=True)
                v = int(round(float(m.as_fraction()))) if hasattr(m, 'as_fraction') else int(m.as_long())
                vals.append(v)
                self.solver.add(z != v)
            self.solver.pop()
            if not vals:
                raise Infeasible()
            if len(vals) > limit:
                raise PathLimit('integer value not bounded')
            v = vals[0]
            for w in vals[1:]:
                self.alts.append(self.trail + [w])
        self.trail.append(v)
        sb = SBool(z == v, ids)
        self.pc.append(sb)
        self.ids |= ids
        self._assert(sb.e)
        return v

    # -- numbers inside text
    def token(self, x, spec=''):
        if not x.isreal():
            return '(%s+%sj)' % (self.token(x.real, spec), self.token(x.imag, spec))
        if x.isconst():
            c = x.re.const()
            if spec and spec[-1] in 'feEgGn':
                return format(float(c), spec)
            if spec and spec[-1] == 'd':
                return format(int(c), spec)
            v = float(c)
            if F(repr(v)) == c:
                return format(repr(v), spec)
        # decimal places (f) or digits (e, g) written
        m = re.search(r'\.(\d+)([feEFgG])$', spec)
        places = (int(m.group(1)), m.group(2)) if m else (6, spec[-1]) if spec and spec[-1] in 'feEF' else None
        k = (x.key(), places)
        if k not in self.tokens:
            n = len(self.token_list)
            self.tokens[k] = '7.%07d1e+77' % n
            self.token_list.append((x, places))
        t = self.tokens[k]
        w = ''.join(ch for ch in spec.split('.')[0] if ch.isdigit())
        if w:
            t = t.rjust(int(w))
        return t

    def untoken(self, s):
        s = s.strip()
        neg = s.startswith('-')
        b = s[1:] if neg or s.startswith('+') else s
        if b.startswith('7.') and b.endswith('1e+77') and len(b) == 14:
            x, places = self.token_list[int(b[2:9])]
            if places and places[0] < Ctx.digits:
                e = svar('printed!' + b[2:9], F(-1, 2), F(1, 2)) * F(1, 10 ** places[0])
                x = x + e if places[1] in 'fF' else x * (1 + e)
            return -x if neg else x
        return None


def svar(name, lo=None, hi=None, isint=False):
    f = lambda v: None if v is None else (v if isinstance(v, F) else F(str(v)))
    return Num(N.V(name, isint, f(lo), f(hi)))


numbers.Number.register(Num)
