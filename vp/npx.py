"""numpy as the executed program sees it: real numpy on object arrays of Num,
with exact replacements for what numpy only does in floating point."""
import builtins
import functools
import types
import operator
import numpy as np
from fractions import Fraction as F
from . import num as N
from .num import Unsupported, Ctx
from .sym import Num, SBool, svar


def _fromobj(x):
    n = Num.of(x)
    if n is None:
        if isinstance(x, str) or isinstance(x, bytes):
            return parse_number(x)
        raise TypeError('cannot convert %r to a number' % (x,))
    return n


def parse_number(s):
    if isinstance(s, bytes):
        s = s.decode()
    t = Ctx.cur.untoken(s) if Ctx.cur is not None else None
    if t is not None:
        return t
    s = s.strip().replace('D', 'e').replace('d', 'e') if False else s.strip()
    float(s)                      # raises ValueError as float() would
    if s.lower().lstrip('+-') in ('nan', 'inf', 'infinity'):
        return Num.of(float(s))
    return Num(N.rconst(F(s)))


class Written(str):
    __repr__ = str.__str__


class SymArray(np.ndarray):
    """object ndarray of Num; kind 'f' (real dtype) or 'c' (complex dtype)"""
    kind = 'f'
    single = False               # storage of single precision: what is put into it is rounded

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, 'kind', 'f')
            if getattr(obj, 'single', False):
                self.single = np.may_share_memory(self, obj)

    @property
    def dtype(self):
        return np.ndarray.dtype.__get__(self)

    def __str__(self):
        # as numpy prints it, with the numbers as they are written into text elsewhere
        t = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            t[i] = Written(str(np.ndarray.__getitem__(self, i)))
        return str(t[()]) if self.ndim == 0 else np.array2string(t)

    def __format__(self, spec):
        if self.ndim == 0:
            return format(np.ndarray.__getitem__(self, ()), spec)
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(self)

    @property
    def real(self):
        r = vmap(lambda x: x.real, self)
        r.kind = 'f'
        return r

    @real.setter
    def real(self, v):
        raise Unsupported('assignment to .real')

    @property
    def imag(self):
        r = vmap(lambda x: x.imag, self)
        r.kind = 'f'
        return r

    def conj(self):
        return vmap(lambda x: x.conjugate(), self, self.kind)
    conjugate = conj

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def tolist(self):
        return np.ndarray.tolist(self)

    def round(self, decimals=0, out=None):
        return vmap(lambda x: x.round(decimals), self, self.kind)

    def mean(self, *a, **k):
        return wrap(np.mean(self.view(np.ndarray), *a, **k), self.kind)

    def std(self, axis=None, ddof=0, **k):
        return NP.std(self, axis=axis, ddof=ddof)

    def nonzero(self):
        return np.nonzero(tobool(self))

    def any(self, *a, **k):
        return np.any(tobool(self), *a, **k)

    def all(self, *a, **k):
        return np.all(tobool(self), *a, **k)

    def __setitem__(self, idx, v):
        idx = fixidx(idx)
        if self.single:
            v = rounded(v)
        if isinstance(v, SymArray):
            if self.kind == 'f' and v.kind == 'c':
                v = v.real
            np.ndarray.__setitem__(self, idx, v)
            return
        if isinstance(v, Num):
            if self.kind == 'f' and not v.isreal():
                raise TypeError('float() argument must be a real number')
            if np.ndarray.dtype.__get__(self) == object:
                np.ndarray.__setitem__(self, idx, v)
                return
        w = asnum(v)
        if self.kind == 'f' and isinstance(w, SymArray) and w.kind == 'c':
            w = w.real
        np.ndarray.__setitem__(self, idx, w)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fixidx(idx))
        return r

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        kinds = [kindof(x) for x in inputs]
        kind = 'c' if 'c' in kinds else 'f'
        args = [x.view(np.ndarray) if isinstance(x, SymArray) else x for x in inputs]
        if uf in UF1 and method == '__call__':
            args = [asnum(args[0]).view(np.ndarray) if isinstance(args[0], np.ndarray) else args[0]]
        if uf in (np.divide, np.true_divide) and method == '__call__':
            args = [asnum(x).view(np.ndarray) if isinstance(x, np.ndarray) and x.dtype != object else x for x in args]
            args = [x if isinstance(x, np.ndarray) else np.asarray(_array(x)) if isinstance(x, (list, tuple)) else Num.of(x) for x in args]
        if uf is np.absolute:
            kind = 'f'
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray) and o.kind == 'f' and kind == 'c':
                raise TypeError('Cannot cast ufunc output from complex to float')
            if not isinstance(o, SymArray) and o.dtype != object:
                raise TypeError('Cannot cast ufunc output from object to %s' % o.dtype)
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, SymArray) else x for x in out)
            getattr(uf, method)(*args, **kw)
            return o
        kw.pop('dtype', None) if kw.get('dtype') is not object else None
        if uf in CMP and method == '__call__':
            r = np.frompyfunc(CMP[uf], 2, 1)(*args)
            if isinstance(r, np.ndarray):
                return tobool(r)
            return bool(r)
        if uf in SPECIAL1 and method == '__call__':
            return SPECIAL1[uf](args[0])
        if uf in (np.add, np.maximum, np.minimum, np.multiply) and method == 'reduce':
            kw.pop('where', None) if kw.get('where', True) is True else None
        r = getattr(uf, method)(*args, **kw)
        return wrap(r, kind)


CMP = {np.less: operator.lt, np.less_equal: operator.le, np.greater: operator.gt,
       np.greater_equal: operator.ge, np.equal: operator.eq, np.not_equal: operator.ne}
UF1 = {np.exp, np.sqrt, np.cos, np.sin, np.log, np.cosh, np.sinh, np.tanh, np.rint, np.arccos, np.conjugate, np.expm1,
       np.log1p}


def _isnan(x):
    a = np.asarray(x, dtype=object)
    r = np.array([v.sp is not None and v.sp != v.sp if isinstance(v, Num) else False for v in a.ravel()],
                 dtype=bool).reshape(a.shape)
    return r if r.shape else bool(r)


def _isinf(x):
    a = np.asarray(x, dtype=object)
    r = np.array([v.sp is not None and v.sp == v.sp if isinstance(v, Num) else False for v in a.ravel()],
                 dtype=bool).reshape(a.shape)
    return r if r.shape else bool(r)


def _mk1(name):
    def f(a):
        return vmap(lambda x: getattr(x, name)(), asnum(a), kindof(a))
    return f


SPECIAL1 = {np.isnan: _isnan, np.isinf: _isinf, np.isfinite: lambda x: ~(np.asarray(_isnan(x)) | np.asarray(_isinf(x))),
            np.floor: _mk1('floor'), np.ceil: _mk1('ceil'), np.trunc: _mk1('trunc')}


def fixidx(idx):
    if isinstance(idx, tuple):
        return tuple(fixidx(i) for i in idx)
    if isinstance(idx, Num):
        return idx.__index__()
    if isinstance(idx, SymArray) and np.ndarray.dtype.__get__(idx) == object:
        return toint(idx)
    if isinstance(idx, list) and any(isinstance(i, (Num, SBool)) for i in idx):
        return [bool(i) if isinstance(i, SBool) else i.__index__() if isinstance(i, Num) else i for i in idx]
    return idx


def tobool(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a.view(np.ndarray)
    return np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)


def toint(a):
    a = np.asarray(a)
    if a.dtype != object:
        return a.astype(int)
    return np.array([int(x) for x in a.ravel()], dtype=int).reshape(a.shape)


def kindof(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, Num):
        return 'f' if x.isreal() else 'c'
    if isinstance(x, complex):
        return 'c'
    if isinstance(x, np.ndarray) and x.dtype.kind == 'c':
        return 'c'
    if isinstance(x, np.complexfloating):
        return 'c'
    if isinstance(x, (list, tuple)):
        return 'c' if any(kindof(y) == 'c' for y in x) else 'f'
    return 'f'


def vmap(f, a, kind=None):
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    rf = r.ravel() if r.flags.c_contiguous else None
    flat = [f(x) for x in a.ravel()]
    for i, x in enumerate(flat):
        rf[i] = x
    out = rf.reshape(a.shape).view(SymArray)
    out.kind = kind or 'f'
    return out


def wrap(r, kind=None):
    if isinstance(r, tuple):
        return tuple(wrap(x, kind) for x in r)
    if isinstance(r, np.ndarray):
        if r.dtype == object and not isinstance(r, SymArray):
            flat = r.ravel()
            if flat.size and all(isinstance(x, (bool, np.bool_)) for x in flat):
                return r.astype(bool)
            if flat.size and any(x is None or isinstance(x, (str, SBool)) for x in flat):
                return r
            if any(not isinstance(x, Num) for x in flat):
                if all(Num.of(x) is not None for x in flat):
                    r = vmap(Num.of, r)
                else:
                    return r
            r = r.view(SymArray)
        if isinstance(r, SymArray):
            if kind:
                r.kind = kind
            return r
        if r.dtype.kind in 'fc':
            return asnum(r)
        return r
    if isinstance(r, (float, complex)) and not isinstance(r, Num):
        return Num.of(r)
    return r


def symarray(x, kind=None):
    """array-like -> SymArray of Num"""
    if isinstance(x, SymArray) and np.ndarray.dtype.__get__(x) == object:
        r = np.ndarray.copy(x)
        if kind:
            r.kind = kind
        return r
    k = kind or kindof(x)
    a = np.array(x, dtype=object)
    return vmap(_fromobj, a, k)


def asnum(x):
    """convert float/complex data to SymArray; ints/bools/objects untouched unless Num inside"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, Num):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            return symarray(x, 'c' if x.dtype.kind == 'c' else 'f')
        if x.dtype.kind in 'iu' or x.dtype == bool:
            return symarray(x)
        return wrap(x)
    if isinstance(x, (list, tuple)):
        return wrap(np.array(x, dtype=object) if hasnum(x) else np.array(x)) if not allint(x) else symarray(x)
    n = Num.of(x)
    return n if n is not None else x


def allint(x):
    try:
        return np.array(x).dtype.kind in 'iu'
    except Exception:
        return False


def hasnum(x, depth=0):
    if isinstance(x, (Num, SBool)):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Num) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 8:
        return any(hasnum(y, depth + 1) for y in x)
    return False


FLOATS = ('float', 'double', 'complex', 'float64', 'complex128', 'd', 'D', 'f', 'single', 'float32', 'cdouble',
          'clongdouble', 'longdouble', 'f8', 'c16')


def dkind(dtype):
    """dtype argument -> 'f','c','i','b','O',None"""
    if dtype is None:
        return None
    if getattr(dtype, '_sym_kind', None):
        return dtype._sym_kind
    if isinstance(dtype, str):
        d = np.dtype(dtype)
    elif dtype is int or dtype is bool or dtype is float or dtype is complex or dtype is object:
        d = np.dtype(dtype)
    else:
        d = np.dtype(dtype)
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'U': 'U', 'S': 'U'}.get(d.kind, 'O')


def issingle(dtype):
    if dtype is None or dtype is object:
        return False
    if getattr(dtype, '_sym_kind', None):
        return getattr(dtype, '_single', False)
    try:
        d = np.dtype(dtype)
    except TypeError:
        return False
    return d.kind == 'f' and d.itemsize < 8 or d.kind == 'c' and d.itemsize < 16


NROUND = [0]


def round1(x):
    """the nearest number of single precision: x (1 + e), e unknown and small"""
    if not isinstance(x, Num) or x.sp is not None:
        return x
    parts = []
    for p in (x.real, x.imag):
        if p.isconst():
            try:
                f = p.fraction()
            except Unsupported:
                parts.append(p)
                continue
            parts.append(Num(N.rconst(F(float(np.float32(float(f)))))))
        else:
            NROUND[0] += 1
            parts.append(p * (Num.of(1) + svar('single!%d' % NROUND[0], F(-1, 2 ** 24), F(1, 2 ** 24))))
    return parts[0] if x.isreal() else parts[0] + parts[1] * Num.of(1j)


def rounded(a):
    if isinstance(a, np.ndarray):
        if a.dtype.kind in 'fc':
            return a.astype('c8' if a.dtype.kind == 'c' else 'f4').astype(a.dtype)
        return vmap(round1, a, kindof(a)) if isinstance(a, SymArray) else a
    if isinstance(a, (list, tuple)):
        return rounded(symarray(a))
    return round1(Num.of(a) if isinstance(a, (float, complex)) else a)


def cast(a, dtype):
    k = dkind(dtype)
    if k in ('f', 'c') and issingle(dtype):
        r = rounded(cast(a, complex if k == 'c' else float))
        r.kind, r.single = k, True
        return r
    if k in ('f', 'c'):
        r = symarray(a, k)
        r.single = False
        if k == 'f':
            r = r.real
        else:
            r.kind = 'c'
        return r
    if k == 'i':
        return toint(a)
    if k == 'b':
        return tobool(a)
    return np.ndarray.copy(a)


def _wrapfn(fn):
    @functools.wraps(fn)
    def g(*args, **kw):
        args2 = [conv(a) for a in args]
        kw2 = {}
        for k, v in kw.items():
            if k == 'dtype' and v is not None and dkind(v) in ('f', 'c'):
                continue
            kw2[k] = conv(v)
        kind = 'c' if any(kindof(a) == 'c' for a in args) else 'f'
        r = fn(*args2, **kw2)
        if isinstance(r, list):
            return [wrap(x, kind) for x in r]
        return wrap(r, kind if _objres(r) else None)
    return g


def _objres(r):
    return isinstance(r, np.ndarray) and r.dtype == object or isinstance(r, tuple)


def conv(a):
    if isinstance(a, (list, tuple)) and hasnum(a):
        if any(isinstance(x, np.ndarray) for x in a):
            return type(a)(conv(x) for x in a)
        r = np.array(a, dtype=object)
        return r
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind in 'fc':
        return asnum(a)
    if isinstance(a, SBool):
        return bool(a)
    return a


class _NS(types.ModuleType):
    pass


def exact(x):
    return Num.of(x)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = None
    for j in range(n):
        if m[0][j].isconst() and m[0][j].isreal() and not m[0][j].re.n.t:
            continue
        sub = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        t = m[0][j] * det(sub)
        if j % 2:
            t = -t
        s = t if s is None else s + t
    return s if s is not None else Num.of(0)


def inv(a):
    a = symarray(a)
    if a.ndim > 2:
        return stack([inv(x) for x in a])
    m = [list(r) for r in a.view(np.ndarray)]
    n = len(m)
    d = det(m)
    if d.isconst() and d.isreal() and not d.re.n.t:
        raise np.linalg.LinAlgError('Singular matrix')
    di = d.inv()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = Num.of(1)
            else:
                c = det([[m[r][k] for k in range(n) if k != i] for r in range(n) if r != j])
            out[i, j] = (c if (i + j) % 2 == 0 else -c) * di
    r = out.view(SymArray)
    r.kind = a.kind
    return r


def stack(xs, kind=None):
    r = np.array([np.asarray(x) for x in xs], dtype=object)
    return wrap(r, kind or kindof(list(xs)))


def norm(x, ord=None, axis=None, keepdims=False):
    x = symarray(x)
    if ord in (1, float('inf'), float('-inf')) and (x.ndim == 1 or isinstance(axis, int)):
        ab = vmap(abs, x)
        f = {1: NP.sum, float('inf'): NP.max, float('-inf'): NP.min}[ord]
        return f(ab, axis=axis)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    if ord == 2 and x.ndim == 2 and axis is None:
        raise Unsupported('spectral norm')
    sq = vmap(lambda v: v * v.conjugate(), x)
    if axis is None:
        s = Num.of(0)
        for v in sq.ravel():
            s = s + v
        r = s.sqrt()
        return r
    r = np.sum(sq.view(np.ndarray), axis=axis, keepdims=keepdims)
    return vmap(lambda v: v.sqrt(), r)


def dft(x, n=None, axis=-1, inverse=False, norm=None):
    if norm not in (None, 'backward'):
        raise Unsupported('fft norm')
    x = symarray(x, 'c')
    x = np.moveaxis(x, axis, -1)
    m = x.shape[-1]
    n = m if n is None else int(n)
    xs = np.asarray(x).reshape(-1, m)
    out = np.empty((xs.shape[0], n), dtype=object)
    two_pi = Num(N.R_PI) * 2
    w = []
    for k in range(n):
        ang = two_pi * F(k, n)
        c, s = ang.cos(), ang.sin()
        w.append(Num(c.re, s.re if inverse else N.rneg(s.re)))
    for r in range(xs.shape[0]):
        for k in range(n):
            s = Num.of(0)
            for j in range(min(m, n)):
                s = s + xs[r, j] * w[(j * k) % n]
            out[r, k] = s * F(1, n) if inverse else s
    res = out.reshape(x.shape[:-1] + (n,))
    res = np.moveaxis(res, -1, axis)
    res = np.ascontiguousarray(res).view(SymArray)
    res.kind = 'c'
    return res


def fft(a, n=None, axis=-1, norm=None, **k):
    return dft(a, n, axis, False, norm)


def ifft(a, n=None, axis=-1, norm=None, **k):
    return dft(a, n, axis, True, norm)


def rfft(a, n=None, axis=-1, norm=None):
    r = dft(a, n, axis, False, norm)
    m = r.shape[axis]
    return r.take(range(m // 2 + 1), axis=axis)


def fftfreq(n, d=1.0, device=None):
    n = int(n)
    idx = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    s = Num.of(1) / (Num.of(d) * n)
    return symarray([Num.of(i) * s for i in idx])


def correlate(a, v, mode='valid'):
    a, v = symarray(a), symarray(v)
    kind = 'c' if 'c' in (a.kind, v.kind) else 'f'
    n1, n2 = len(a), len(v)
    if n1 == 0 or n2 == 0:
        raise ValueError('empty array')
    swap = n1 < n2
    x, y = (v, a) if swap else (a, v)
    nx, ny = len(x), len(y)
    # full correlation c_k = sum_n x[n+k] conj(y[n]), k = -(ny-1) .. nx-1
    def c(k):
        s = Num.of(0)
        for n in range(ny):
            if 0 <= n + k < nx:
                s = s + (x[n + k] * y[n].conjugate() if not swap else x[n + k].conjugate() * y[n])
        return s
    if mode in ('full', 2):
        ks = range(-(ny - 1), nx)
    elif mode in ('same', 1):
        left = ny // 2
        ks = range(-left, -left + nx)
    else:
        ks = range(0, nx - ny + 1)
    out = [c(k) for k in ks]
    if swap:
        out = out[::-1]
    return symarray(out, kind)


def convolve(a, v, mode='full'):
    v2 = symarray(v)[::-1]
    return correlate(a, v2.conj(), mode) if len(a) >= len(v) else correlate(symarray(v), symarray(a)[::-1].conj(), mode)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    scalar = not isinstance(x, (list, tuple, np.ndarray))
    xs = [_fromobj(v) for v in (np.array([x], dtype=object) if scalar else np.asarray(symarray(x)).ravel())]
    xp = [_fromobj(v) for v in xp]
    fp_ = [_fromobj(v) for v in fp]
    out = []
    for v in xs:
        if v < xp[0]:
            out.append(fp_[0] if left is None else _fromobj(left))
            continue
        if v > xp[-1]:
            out.append(fp_[-1] if right is None else _fromobj(right))
            continue
        for i in range(len(xp)):
            if v == xp[i]:
                out.append(fp_[i])
                break
            if i + 1 < len(xp) and xp[i] < v and v < xp[i + 1]:
                t = (v - xp[i]) / (xp[i + 1] - xp[i])
                out.append(fp_[i] + t * (fp_[i + 1] - fp_[i]))
                break
        else:
            raise Unsupported('interp on unsorted abscissae')
    return out[0] if scalar else symarray(out, kindof(fp))


def gradient(f, *varargs, axis=None, edge_order=1):
    f = symarray(f)
    if edge_order != 1:
        raise Unsupported('gradient edge_order')
    if f.ndim != 1:
        axes = range(f.ndim) if axis is None else ([axis] if np.isscalar(axis) else axis)
        axes = list(axes)
        if len(varargs) == 0:
            hs = [1] * len(axes)
        elif len(varargs) == 1:
            hs = [varargs[0]] * len(axes)
        else:
            hs = list(varargs)
        res = []
        for ax, h in zip(axes, hs):
            m = np.moveaxis(f, ax, 0)
            flat = m.reshape(m.shape[0], -1)
            cols = [gradient(flat[:, i], h) for i in range(flat.shape[1])]
            arr = stack(cols, f.kind).T.reshape(m.shape)
            res.append(np.moveaxis(arr, 0, ax))
        return res[0] if len(res) == 1 else tuple(res)
    h = varargs[0] if varargs else 1
    n = len(f)
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    out = [None] * n
    if isinstance(h, (list, tuple, np.ndarray)) and np.ndim(h) == 1:
        t = [_fromobj(v) for v in h]
        dx = [t[i + 1] - t[i] for i in range(n - 1)]
        for i in range(1, n - 1):
            d1, d2 = dx[i - 1], dx[i]
            out[i] = (-(d2) / (d1 * (d1 + d2))) * f[i - 1] + ((d2 - d1) / (d1 * d2)) * f[i] + (d1 / (d2 * (d1 + d2))) * f[i + 1]
        out[0] = (f[1] - f[0]) / dx[0]
        out[-1] = (f[-1] - f[-2]) / dx[-1]
    else:
        h = _fromobj(h)
        for i in range(1, n - 1):
            out[i] = (f[i + 1] - f[i - 1]) / (h * 2)
        out[0] = (f[1] - f[0]) / h
        out[-1] = (f[-1] - f[-2]) / h
    return symarray(out, f.kind)


def simpson(y, *, x=None, dx=1.0, axis=-1, even=None):
    """scipy's simpson is linear in y: take its weights on the concrete abscissae"""
    from scipy.integrate import simpson as real
    y = symarray(y)
    if y.ndim != 1:
        y = np.moveaxis(y, axis, -1)
        flat = y.reshape(-1, y.shape[-1])
        return symarray([simpson(r, x=x, dx=dx) for r in flat]).reshape(y.shape[:-1])
    n = len(y)
    if x is not None:
        xs = [_fromobj(v) for v in x]
        if len(xs) != n:
            raise ValueError('y and x must have the same length')
        h = None
        if not all(v.isconst() for v in xs):
            # uniform symbolic grid: weights scale with the step
            h = xs[1] - xs[0]
            if any((xs[i + 1] - xs[i] - h).re.n.t for i in range(n - 1)):
                if n % 2 == 0:
                    raise Unsupported('simpson on a non-uniform symbolic grid')
                # odd number of points: the interpolating parabola of every other triple, as scipy does
                s = _fromobj(0)
                for i in range(0, n - 2, 2):
                    a, b = xs[i + 1] - xs[i], xs[i + 2] - xs[i + 1]
                    s = s + (a + b) / _fromobj(6) * (y[i] * (2 - b / a) + y[i + 1] * ((a + b) * (a + b) / (a * b)) + y[i + 2] * (2 - a / b))
                return s
            xf = np.arange(n, dtype=float)
        else:
            xf = np.array([float(v) for v in xs])
            if n > 1 and all(((xs[i + 1] - xs[i]) - (xs[1] - xs[0])).re.n.t == {} for i in range(n - 1)):
                h = xs[1] - xs[0]
                xf = np.arange(n, dtype=float)
    else:
        h = _fromobj(dx)
        xf = np.arange(n, dtype=float)
    w = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        wi = Num.of(float(real(e, x=xf)))
        w.append(wi if h is None else wi * h)
    s = Num.of(0)
    for a, b in zip(w, y):
        s = s + a * b
    return s


class SFloat(float):
    _sym_kind = 'f'

    def __new__(cls, x=0.0):
        if isinstance(x, Num):
            if not x.isreal():
                raise TypeError('float() argument must be a real number, not complex')
            return x
        if isinstance(x, (str, bytes)):
            return parse_number(x)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cls.__new__(cls, x.reshape(-1)[0])
        n = Num.of(x)
        if n is None:
            return float(x)
        return n


class SComplex(complex):
    _sym_kind = 'c'

    def __new__(cls, re=0, im=0):
        if isinstance(re, str):
            t = Ctx.cur.untoken(re.strip().strip('()')) if Ctx.cur else None
            if t is None:
                s = re.strip().strip('()')
                if s.endswith('j'):
                    k = max(s.rfind('+7.'), s.rfind('-7.'))
                    if k > 0:
                        return parse_number(s[:k]) + parse_number(s[k:-1]) * Num(N.R0, N.R1)
                return Num.of(complex(s))
            return t
        return Num.of(re) + Num.of(im) * Num(N.R0, N.R1)


class SInt(int):
    _sym_kind = 'i'

    def __new__(cls, x=0, *a):
        if isinstance(x, (str, bytes)) and not a:
            t = Ctx.cur.untoken(x if isinstance(x, str) else x.decode()) if Ctx.cur else None
            if t is not None:
                return int(t)
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return int(x, *a)


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Num):
        for k in ts:
            if k in (SFloat, float, np.floating, np.float64, object):
                if x.isreal():
                    return True
            elif k in (SComplex, complex):
                if not x.isreal():
                    return True
            elif isinstance(k, type) and isinstance(x, k):
                return True
        return False
    ts = tuple({SFloat: float, SComplex: complex, SInt: int}.get(k, k) for k in ts)
    return isinstance(x, ts)


def s_pow(a, b, *m):
    return pow(a, b, *m)


def s_round(x, nd=None):
    if isinstance(x, Num):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


# ------------------------------------------------------------------ the module
class NPModule(types.ModuleType):
    def __getattr__(self, name):
        r = getattr(np, name)
        if isinstance(r, np.ufunc):
            f = _ufunc(r)
        elif isinstance(r, type):
            f = r
        elif callable(r):
            f = _wrapfn(r)
        elif isinstance(r, float):
            f = Num.of(r)
        else:
            f = r
        setattr(self, name, f)
        return f


def _ufunc(uf):
    class W:
        __name__ = uf.__name__

        def __call__(self, *args, **kw):
            kw.pop('dtype', None)
            a = []
            kind = 'f'
            for x in args:
                if isinstance(x, (list, tuple)):
                    x = wrap(np.array(x, dtype=object)) if hasnum(x) else np.array(x)
                if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
                    x = asnum(x)
                if uf in UF1 or uf in (np.divide, np.power):
                    x = asnum(x)
                if uf in SPECIAL1 and not isinstance(x, (np.ndarray, Num)):
                    x = Num.of(x)
                if kindof(x) == 'c':
                    kind = 'c'
                a.append(x)
            scalar = not any(isinstance(x, np.ndarray) for x in a)
            if scalar and uf in CMP:
                return bool(CMP[uf](*a))
            if scalar and any(isinstance(x, Num) for x in a):
                a = [symarray([x]) for x in a]
                return self(*a, **kw)[0]
            return wrap(uf(*a, **kw), None if uf in (np.absolute,) else kind)

        def __getattr__(self, n):
            return _wrapfn(getattr(uf, n))
    return W()


NP = NPModule('numpy')
class SSingle(SFloat):
    _single = True

    def __new__(cls, x=0.0):
        r = SFloat(x)
        return rounded(asnum(r) if isinstance(r, np.ndarray) else r)


class SCSingle(SComplex):
    _single = True

    def __new__(cls, *a):
        return rounded(SComplex(*a))


NP.__path__ = []
NP.pi = Num(N.R_PI)
NP.e = Num.of(1).exp()
NP.inf = float('inf')
NP.nan = Num(N.R0, N.R0, float('nan'))
NP.newaxis = None
NP.ndarray = np.ndarray
NP.float64 = SFloat
NP.double = SFloat
NP.float32 = NP.single = SSingle
NP.complex128 = SComplex
NP.cdouble = SComplex
NP.complex64 = NP.csingle = SCSingle


def _array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    kd = dkind(dtype)
    if kd in ('f', 'c') and issingle(dtype):
        return cast(_array(x, complex if kd == 'c' else float, copy, ndmin), dtype)
    if isinstance(x, types.GeneratorType) or isinstance(x, (range, map, zip)):
        x = list(x)
    if kd in ('f', 'c'):
        if isinstance(x, SymArray) or not isinstance(x, np.ndarray):
            if x is None:
                r = symarray([Num(N.R0, N.R0, float('nan'))]).reshape(())
                return r
        r = symarray(_tolist(x), kd) if not isinstance(x, np.ndarray) else symarray(x, kd)
        if kd == 'f':
            if any(not v.isreal() for v in r.ravel()):
                if isinstance(x, np.ndarray):
                    r = r.real
                else:
                    raise TypeError('float() argument must be a string or a real number, not complex')
        r.kind = kd
    elif kd == 'i':
        a = np.array(_tolist(x), dtype=object) if (isinstance(x, SymArray) or hasnum(x)) else None
        if a is not None:
            r = toint(a)
        else:
            r = np.array(_itok(x), dtype=int)
    elif kd == 'b':
        r = tobool(np.array(x, dtype=object))
    elif kd is not None:
        r = np.array(x, dtype=dtype)
    elif isinstance(x, SymArray):
        r = symarray(x, x.kind)
    elif hasnum(x):
        kk = kindof(x)
        r = np.array(_tolist(x), dtype=object)
        r = wrap(r, kk)
    else:
        r = np.array(x)
        if r.dtype.kind in 'fc':
            r = asnum(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _itok(x):
    return x


def _tolist(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return [_tolist(y) if not isinstance(y, np.ndarray) else (y.tolist() if y.ndim else y.item()) for y in x]
    return x


def _asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return asnum(x) if x.dtype.kind in 'fc' else x
    if isinstance(x, SymArray) and dkind(dtype) == x.kind:
        return x
    return _array(x, dtype)


NP.array = _array
NP.asarray = _asarray
NP.asanyarray = _asarray
NP.ascontiguousarray = lambda x, dtype=None: _array(x, dtype)


def _filled(shape, v, dtype):
    kd = dkind(dtype) if dtype is not None else 'f'
    if kd in ('f', 'c'):
        sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        r = np.empty(tuple(int(s) for s in sh), dtype=object)
        r.fill(v)
        r = r.view(SymArray)
        r.kind = kd
        r.single = issingle(dtype)
        return r
    return None


NP.zeros = lambda shape, dtype=None, order='C': (lambda r: r if r is not None else np.zeros(shape, dtype))(_filled(shape, Num.of(0), dtype))
NP.ones = lambda shape, dtype=None, order='C': (lambda r: r if r is not None else np.ones(shape, dtype))(_filled(shape, Num.of(1), dtype))
NP.empty = lambda shape, dtype=None, order='C': (lambda r: r if r is not None else np.zeros(shape, dtype))(_filled(shape, Num(N.R0, N.R0, float('nan')), dtype))


def _full(shape, v, dtype=None):
    if dtype is None and not isinstance(v, (Num, float, complex)):
        return np.full(shape, v)
    r = _filled(shape, Num.of(v), dtype or ('c' if kindof(v) == 'c' else 'f'))
    return r if r is not None else np.full(shape, v, dtype)


NP.full = _full


def _like(v):
    def f(a, dtype=None, **k):
        a = a if isinstance(a, np.ndarray) else _array(a)
        if dtype is None:
            if isinstance(a, SymArray):
                dtype = complex if a.kind == 'c' else float
            elif a.dtype.kind in 'fc':
                dtype = a.dtype
            else:
                r = np.zeros_like(a)
                if v == 'one':
                    r[...] = 1
                return r
        return {'zero': NP.zeros, 'one': NP.ones, 'empty': NP.empty}[v](a.shape, dtype)
    return f


NP.zeros_like = _like('zero')
NP.ones_like = _like('one')
NP.empty_like = _like('empty')
NP.copy = lambda a, *k, **kk: _array(a)


def _identity(n, dtype=None):
    if dkind(dtype) == 'i':
        return np.identity(n, dtype=int)
    return symarray(np.identity(n))


NP.identity = _identity
NP.eye = lambda n, dtype=None: _identity(n, dtype)


def _arange(*a, **k):
    step_kw = k.pop('step', None)
    k.pop('dtype', None)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a[:3]
    if step_kw is not None:
        step = step_kw
    vals = [start, stop, step]
    if all(isinstance(v, (int, np.integer)) for v in vals):
        return np.arange(int(start), int(stop), int(step))
    s, e, h = (_fromobj(v) for v in vals)
    n = (e - s) / h
    n = int(n.ceil())
    return symarray([s + h * i for i in range(max(n, 0))]) if n > 0 else symarray(np.zeros(0))


NP.arange = _arange


def _linspace(a, b, num=50, endpoint=True, **k):
    a, b = _fromobj(a), _fromobj(b)
    num = int(num)
    d = num - 1 if endpoint else num
    return symarray([a + (b - a) * F(i, d) if d else a for i in range(num)])


NP.linspace = _linspace
NP.dot = _wrapfn(np.dot)


def _average(a, axis=None, weights=None, **k):
    a = symarray(a if isinstance(a, np.ndarray) else _ragged(a))
    if weights is None:
        s = np.sum(a.view(np.ndarray), axis=axis)
        n = a.size if axis is None else a.shape[axis]
        return wrap(s * F(1, n) if not isinstance(s, Num) else s * F(1, n), a.kind)
    w = symarray(weights)
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        wb = w.reshape(sh)
    else:
        wb = w
    num = np.sum((a * wb).view(np.ndarray), axis=axis)
    return wrap(num / np.sum(w.view(np.ndarray)), a.kind)


def _ragged(a):
    a = list(a)
    sh = {np.shape(x) for x in a}
    if len(sh) > 1:
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    return _tolist(a)


NP.average = _average


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if where is not None or out is not None:
        raise Unsupported('options of numpy.mean')
    if isinstance(axis, tuple) or keepdims:
        a = symarray(a if isinstance(a, np.ndarray) else _ragged(a))
        n = a.size
        if axis is not None:
            n = 1
            for i in (axis if isinstance(axis, tuple) else (axis,)):
                n *= a.shape[i]
        return wrap(np.sum(a.view(np.ndarray), axis=axis, keepdims=keepdims) * F(1, n), a.kind)
    return _average(a, axis)


NP.mean = _mean


def _var(a, axis=None, ddof=0, **k):
    a = symarray(a)
    n = a.size if axis is None else a.shape[axis]
    m = np.sum(a.view(np.ndarray), axis=axis, keepdims=True) * F(1, n)
    d = vmap(lambda x: x * x.conjugate(), a - m)
    return wrap(np.sum(d.view(np.ndarray), axis=axis) * F(1, n - ddof))


NP.var = _var
NP.std = lambda a, axis=None, ddof=0, **k: NP.sqrt(_var(a, axis, ddof))


def _round(a, decimals=0, out=None):
    a = asnum(a)
    if isinstance(a, Num):
        return a.round(decimals)
    return vmap(lambda x: x.round(decimals), a, a.kind)


NP.round = NP.around = _round
NP.round_ = _round
NP.fix = NP.trunc


def _real(a):
    a = asnum(a)
    return a.real


NP.real = _real
NP.imag = lambda a: asnum(a).imag


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asnum(x)
    def f(v):
        if v.sp is None:
            return v
        if v.sp != v.sp:
            return Num.of(nan)
        import sys
        return Num.of(sys.float_info.max if v.sp > 0 else -sys.float_info.max)
    if isinstance(x, Num):
        return f(x)
    return vmap(f, x, x.kind)


NP.nan_to_num = _nan_to_num


def _nansum(a, axis=None, **k):
    a = vmap(lambda v: Num.of(0) if (v.sp is not None and v.sp != v.sp) else v, symarray(a), kindof(a))
    return wrap(np.sum(a.view(np.ndarray), axis=axis), a.kind)


NP.nansum = _nansum
NP.linalg = _NS('numpy.linalg')
NP.linalg.inv = inv
NP.linalg.det = lambda a: det([list(r) for r in symarray(a).view(np.ndarray)])
NP.linalg.norm = norm
NP.linalg.LinAlgError = np.linalg.LinAlgError


def _solve(a, b):
    return wrap(np.dot(np.asarray(inv(a)), np.asarray(symarray(b))), 'c' if 'c' in (kindof(a), kindof(b)) else 'f')


NP.linalg.solve = _solve


def _mpower(a, n):
    r = symarray(np.identity(len(a)))
    b = inv(a) if n < 0 else symarray(a)
    for _ in range(abs(n)):
        r = wrap(np.dot(np.asarray(r), np.asarray(b)))
    return r


NP.linalg.matrix_power = _mpower
NP.linalg.multi_dot = lambda xs: functools.reduce(lambda p, q: NP.dot(p, q), xs)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported('numpy.' + name)
    return f


for _n in ('eig', 'eigh', 'eigvals', 'eigvalsh', 'svd', 'qr', 'pinv', 'lstsq', 'cholesky'):
    setattr(NP.linalg, _n, _unsup('linalg.' + _n))
NP.fft = _NS('numpy.fft')
NP.fft.fft = fft
NP.fft.ifft = ifft
NP.fft.rfft = rfft
NP.fft.fftfreq = fftfreq
NP.fft.rfftfreq = lambda n, d=1.0: symarray([Num.of(i) / (Num.of(d) * n) for i in range(n // 2 + 1)])
NP.fft.fftshift = _wrapfn(np.fft.fftshift)
NP.fft.ifftshift = _wrapfn(np.fft.ifftshift)
NP.correlate = correlate
NP.convolve = convolve
NP.interp = interp
NP.gradient = gradient


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = symarray(y)
    s = Num.of(0)
    for i in range(len(y) - 1):
        h = _fromobj(dx) if x is None else _fromobj(x[i + 1]) - _fromobj(x[i])
        s = s + (y[i] + y[i + 1]) * h / 2
    return s


NP.trapezoid = NP.trapz = _trapz


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asnum(a), asnum(b)
    d = NP.abs(a - b)
    return d <= (NP.abs(b) * Num.of(rtol) + Num.of(atol))


NP.isclose = _isclose
NP.allclose = lambda a, b, **k: bool(np.all(tobool(np.asarray(_isclose(a, b, **k)))))


def _array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def _array_equiv(a, b):
    a, b = np.asarray(a), np.asarray(b)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


NP.array_equal = _array_equal
NP.array_equiv = _array_equiv
NP.all = lambda a, *k, **kk: np.all(tobool(_array(a)), *k, **kk)
NP.any = lambda a, *k, **kk: np.any(tobool(_array(a)), *k, **kk)


def _where(c, *xy):
    c = tobool(_array(c))
    if not xy:
        return np.where(c)
    return wrap(np.where(c, np.asarray(asnum(xy[0]), dtype=object), np.asarray(asnum(xy[1]), dtype=object)),
                'c' if 'c' in (kindof(xy[0]), kindof(xy[1])) else 'f')


NP.where = _where
NP.argwhere = lambda c: np.argwhere(tobool(_array(c)))
NP.nonzero = lambda c: np.nonzero(tobool(_array(c)))
NP.count_nonzero = lambda c, **k: np.count_nonzero(tobool(_array(c)), **k)


def _pyfirst(cmpop):
    def f(a, axis=None, **k):
        if isinstance(a, np.ndarray) and a.dtype.kind in 'iub':
            return (np.argmin if cmpop is operator.lt else np.argmax)(a, axis=axis)
        a = np.asarray(symarray(a))
        if axis is None:
            a = a.ravel()
            b = 0
            for i in range(1, len(a)):
                if cmpop(a[i], a[b]):
                    b = i
            return b
        a = np.moveaxis(a, axis, -1)
        return np.array([f(r) for r in a.reshape(-1, a.shape[-1])], dtype=int).reshape(a.shape[:-1])
    return f


NP.argmin = _pyfirst(operator.lt)
NP.argmax = _pyfirst(operator.gt)


def _ext(cmpop):
    pick = _pyfirst(cmpop)
    red = np.min if cmpop is operator.lt else np.max

    def f(a, axis=None, **k):
        a = a if isinstance(a, np.ndarray) else _array(a)
        if a.dtype.kind in 'iub':
            return red(a, axis=axis)
        a = np.asarray(symarray(a))
        if axis is None:
            a = a.ravel()
            return a[pick(symarray(a))]
        m = np.moveaxis(a, axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = m[i][pick(symarray(m[i]))]
        return wrap(r)
    return f


NP.min = NP.amin = _ext(operator.lt)
NP.max = NP.amax = _ext(operator.gt)
SymArray.min = lambda self, axis=None, **k: NP.min(self, axis)
SymArray.max = lambda self, axis=None, **k: NP.max(self, axis)
SymArray.argmin = lambda self, axis=None, **k: NP.argmin(self, axis)
SymArray.argmax = lambda self, axis=None, **k: NP.argmax(self, axis)


def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = a if isinstance(a, np.ndarray) else _array(a)
    if a.dtype.kind in 'iubU':
        return np.argsort(a, axis=axis, kind=kind)
    if a.ndim != 1:
        raise Unsupported('argsort of a 2D symbolic array')
    idx = list(range(len(a)))
    vals = [x for x in np.asarray(a)]
    def cmp(i, j):
        if vals[i] < vals[j]:
            return -1
        if vals[j] < vals[i]:
            return 1
        return 0
    idx.sort(key=functools.cmp_to_key(cmp))
    return np.array(idx, dtype=int)


NP.argsort = _argsort
SymArray.argsort = lambda self, *a, **k: _argsort(self, *a, **k)


def _sort(a, axis=-1, **k):
    a = a if isinstance(a, np.ndarray) else _array(a)
    if a.dtype.kind in 'iubU':
        return np.sort(a, axis=axis)
    if axis is None:
        a = a.ravel()
    if a.ndim == 1:
        return a[_argsort(a)]
    r = a.copy()
    rows = np.moveaxis(r.view(np.ndarray), axis, -1)
    for i in np.ndindex(rows.shape[:-1]):
        v = wrap(rows[i].copy(), a.kind)
        rows[i] = np.asarray(v[_argsort(v)])
    return r


NP.sort = _sort


def _abs(a):
    a = asnum(a)
    return abs(a) if isinstance(a, Num) else vmap(abs, a)


NP.abs = NP.absolute = NP.fabs = _abs


def _sum(a, axis=None, dtype=None, **k):
    a = a if isinstance(a, np.ndarray) else _array(a)
    if isinstance(a, SymArray):
        if a.size == 0 and axis is None:
            return Num.of(0)
        w = k.pop('where', None)
        if w is not None:
            a = NP.where(w, a, Num.of(0))
        return wrap(np.sum(a.view(np.ndarray), axis=axis, **k), a.kind)
    return np.sum(a, axis=axis, **k)


NP.sum = _sum
SymArray.sum = lambda self, axis=None, **k: _sum(self, axis, **k)


def _hist(a, bins=10, range=None, density=None, weights=None):
    """equal bins; the last one is closed; forks on the position of every sample"""
    if weights is not None or not isinstance(bins, (int, np.integer)):
        raise Unsupported('numpy.histogram')
    xs = [Num.of(x) for x in np.asarray(a, dtype=object).ravel()]
    lo, hi = (NP.min(a), NP.max(a)) if range is None else range
    lo, hi = Num.of(lo), Num.of(hi)
    if bool(lo == hi):
        lo, hi = lo - 0.5, hi + 0.5
    n = int(bins)
    edges = [lo + (hi - lo) * i / n for i in builtins.range(n + 1)]
    cnt = [0] * n
    for x in xs:
        if bool(x < lo) or bool(x > hi):
            continue
        for i in builtins.range(n):
            if i == n - 1 or bool(x < edges[i + 1]):
                cnt[i] += 1
                break
    if density:
        w = (hi - lo) / n
        tot = sum(cnt)
        cnt = [c / (w * tot) for c in cnt]
    return _array(cnt), _array(edges)


NP.histogram = _hist


def _mod(a, b):
    return NP.remainder(a, b)


NP.mod = _mod
NP.vectorize = lambda f, **k: (lambda *a: wrap(np.frompyfunc(f, len(a), 1)(*a)))


def _savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
    import re
    X = X if isinstance(X, np.ndarray) else _array(X)
    if X.ndim == 1:
        X = X[:, None]
    if X.ndim != 2:
        raise ValueError('Expected 1D or 2D array, got %dD array instead' % X.ndim)
    cplx = getattr(X, 'kind', None) == 'c' or X.dtype.kind == 'c'
    n = X.shape[1]
    spec = re.compile(r'%([-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])')
    if isinstance(fmt, (list, tuple)):
        if len(fmt) != n:
            raise AttributeError('fmt has wrong shape')
        line = delimiter.join(' (%s+%sj)' % (q, q) if cplx else q for q in fmt)
    else:
        c = fmt.count('%')
        if c == 1:
            q = ' (%s+%sj)' % (fmt, fmt) if cplx else fmt
            line = delimiter.join([q] * n)
        elif (cplx and c == 2 * n) or (not cplx and c == n):
            line = fmt
        else:
            raise ValueError('fmt has wrong number of %% formats:  %s' % fmt)
    own = isinstance(fname, str)
    f = open(fname, 'w') if own else fname
    if header:
        f.write(comments + header + '\n')
    for row in np.asarray(X):
        vals = []
        for v in row:
            v = Num.of(v)
            vals += [v.real, v.imag] if cplx else [v]
        it = iter(vals)

        def put(m):
            t = format(next(it), m.group(1))
            return t if '+' not in m.group(1) or t.lstrip()[0] in '+-' else '+' + t
        f.write(spec.sub(put, line) + newline)
    if footer:
        f.write(comments + footer + '\n')
    if own:
        f.close()


NP.savetxt = _savetxt


def _loadtxt(fname, dtype=float, comments='#', unpack=False, **k):
    with open(fname) as f:
        rows = [[parse_number(t) for t in l.split('#')[0].split()] for l in f if l.split('#')[0].strip()]
    r = symarray(rows)
    if r.shape[0] == 1:
        r = r[0]
    return r.T if unpack else r


NP.loadtxt = NP.genfromtxt = _loadtxt
NP.random = _NS('numpy.random')


class MemMap(SymArray):
    """np.memmap: same-file objects share storage; mode w+ zero-fills the file"""
    filename = None

    def __array_finalize__(self, obj):
        SymArray.__array_finalize__(self, obj)
        f = getattr(obj, 'filename', None)
        if f is not None and np.may_share_memory(self, obj):
            self.filename = f

    def flush(self):
        pass


MEMFILES = {}


def _memmap(filename, dtype='uint8', mode='r+', offset=0, shape=None, order='C'):
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    sh = tuple(int(s) for s in sh)
    n = 1
    for s in sh:
        n *= s
    kd = dkind(dtype)
    if kd not in ('f', 'c'):
        raise Unsupported('memmap dtype')
    import os
    key = os.path.abspath(str(filename))
    if mode == 'w+':
        buf = MEMFILES.get(key) if os.path.exists(key) else None
        if buf is None or len(buf) < n:
            nb = np.empty(n, dtype=object)
            # growing a file: old mappings keep their view of the common prefix (approximated
            # by keeping one buffer when it is large enough)
            buf = nb
        buf[:] = Num.of(0)
        MEMFILES[key] = buf
        open(key, 'wb').close()
    else:
        buf = MEMFILES[key]
    r = buf[:n].reshape(sh).view(MemMap)
    r.kind = kd
    r.single = issingle(dtype)
    r.filename = key
    return r


NP.memmap = _memmap


def _block(x):
    if not isinstance(x, list):
        return x
    if isinstance(x[0], list):
        return NP.concatenate([_block(r) for r in x], axis=-2)
    return NP.concatenate([_array(b) if not isinstance(b, np.ndarray) else b for b in x], axis=-1)


NP.block = _block
NP.iscomplexobj = lambda x: kindof(x) == 'c' or (isinstance(x, np.ndarray) and x.dtype.kind == 'c')
NP.isrealobj = lambda x: not NP.iscomplexobj(x)


def _bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([int(i) for i in x])
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = [Num.of(v) for v in np.asarray(weights, dtype=object).ravel()]
    r = [Num.of(0)] * max(minlength, int(x.max()) + 1 if len(x) else 0)
    for i, v in zip(x, w):
        r[int(i)] = r[int(i)] + v
    return symarray(r)


NP.bincount = _bincount
NP.deg2rad = NP.radians = lambda x: x * (NP.pi / 180)
NP.rad2deg = NP.degrees = lambda x: x * (180 / NP.pi)
NP.hypot = lambda a, b: NP.sqrt(a * a + b * b)
NP.divmod = lambda a, b: (NP.floor_divide(a, b), NP.mod(a, b))
NP.fmod = lambda a, b: a - NP.trunc(a / b) * b
NP.exp2 = lambda x: NP.exp(x * NP.log(Num.of(2)))
NP.copysign = lambda a, b: NP.where(NP.asarray(b) < 0, -NP.abs(a), NP.abs(a))
NP.heaviside = lambda x, h: NP.where(NP.asarray(x) < 0, Num.of(0), NP.where(NP.asarray(x) > 0, Num.of(1), Num.of(h)))


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k:
        raise Unsupported('numpy.cov')
    x = symarray(m)
    x = NP.atleast_2d(x) if x.ndim < 2 else x
    if not rowvar and x.shape[0] > 1:
        x = x.T
    n = x.shape[1] - (ddof if ddof is not None else (0 if bias else 1))
    d = x - NP.mean(x, axis=1)[:, None]
    r = NP.dot(d, NP.conj(d).T) * F(1, n)
    return r[0, 0] if r.shape == (1, 1) else r


NP.cov = _cov


def _pinv(m, *a, **k):
    m = symarray(m)
    h = NP.conj(m).T
    if m.shape[0] == m.shape[1]:
        return NP.linalg.inv(m)
    if m.shape[0] > m.shape[1]:
        return NP.dot(NP.linalg.inv(NP.dot(h, m)), h)
    return NP.dot(h, NP.linalg.inv(NP.dot(m, h)))


def _lstsq(a, b, rcond=None):
    """full rank only (a singular matrix divides by zero and is reported so)"""
    a, b = symarray(a), symarray(b)
    x = NP.dot(_pinv(a), b)
    return x, None, min(a.shape), None


def _polyfit(x, y, deg, **k):
    if k:
        raise Unsupported('options of numpy.polyfit')
    x = symarray(x)
    v = NP.stack([x ** i for i in range(deg, -1, -1)], axis=1)
    return _lstsq(v, y)[0]


NP.linalg.pinv = _pinv
NP.linalg.lstsq = _lstsq
NP.polyfit = _polyfit
