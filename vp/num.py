"""Exact symbolic numbers.

A real value is a rational function  num / prod(factor**k)  whose numerator and
factors are canonical multivariate polynomials with Fraction coefficients over
*atoms*.  An atom is an input variable, pi, or the application of a function
(cos, sin, exp, sqrt, log, round, abs ...) to a value; equal applications share
one atom.  Every atom carries the axioms the solver gets about it.
"""
import math
from fractions import Fraction as F
import z3

ZERO, ONE = F(0), F(1)


class Unsupported(Exception):
    """the symbolic engine cannot encode this operation"""


class Ctx:
    opaque = 0
    digits = 0          # decimal places below which a number printed is not the number
    """Per-exploration state: atoms, path condition, decisions (set by driver)."""
    cur = None


class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'isint', 'pos', 'lo', 'hi', '_z', 'approx')

    def __init__(self, id, name, kind, args=(), isint=False, pos=False, lo=None, hi=None):
        self.id, self.name, self.kind, self.args = id, name, kind, args
        self.isint, self.pos, self.lo, self.hi = isint, pos, lo, hi
        self._z = None

    def z(self):
        if self._z is None:
            self._z = z3.ToReal(z3.Int(self.name)) if self.isint else z3.Real(self.name)
        return self._z


ATOMS = []          # global, append-only (hash-consed)
_BY_KEY = {}


def new_atom(key, kind, args=(), isint=False, pos=False, lo=None, hi=None, name=None):
    a = _BY_KEY.get(key)
    if a is None:
        i = len(ATOMS)
        a = Atom(i, name or '%s_%d' % (kind, i), kind, args, isint, pos, lo, hi)
        ATOMS.append(a)
        _BY_KEY[key] = a
    return a


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_h', '_z')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.t == o.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), ZERO)


P0 = Poly({})
P1 = Poly({(): ONE})


def pconst(c):
    return Poly({(): c}) if c else P0


def padd(a, b, sb=1):
    if not b.t:
        return a
    if not a.t and sb == 1:
        return b
    t = dict(a.t)
    for m, c in b.t.items():
        c = t.get(m, ZERO) + (c if sb == 1 else -c)
        if c:
            t[m] = c
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(a, k):
    if k == 1:
        return a
    if not k:
        return P0
    return Poly({m: c * k for m, c in a.t.items()})


REDUCIBLE = ('sin', 'sqrt', 'abs', 'sgn')


def mmul(m1, m2):
    """product of monomials -> (monomial, list of atoms needing reduction)"""
    if not m1:
        return m2, ()
    if not m2:
        return m1, ()
    d = dict(m1)
    red = ()
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
            if n >= 2 and ATOMS[a].kind in REDUCIBLE:
                red += (a,)
    return tuple(sorted(d.items())), red


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if a.isconst():
        return pscale(b, a.const())
    if b.isconst():
        return pscale(a, b.const())
    if len(a.t) * len(b.t) > 400000:
        raise Unsupported('polynomial product too large')
    t = {}
    todo = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, red = mmul(m1, m2)
            if red:
                todo.append((m, c1 * c2, red))
                continue
            c = t.get(m, ZERO) + c1 * c2
            if c:
                t[m] = c
            else:
                t.pop(m, None)
    r = Poly(t)
    for m, c, red in todo:
        r = padd(r, preduce(m, c, red))
    return r


def preduce(m, c, red):
    d = dict(m)
    out = P1
    for a in red:
        e = d.get(a, 0)
        at = ATOMS[a]
        if e < 2:
            continue
        q, rr = divmod(e, 2)
        if at.kind == 'sin':
            ca = cos_atom(at.args[0])
            sq = Poly({(): ONE, ((ca.id, 2),): -ONE})
        elif at.kind == 'sqrt':
            sq = at.args[0].as_poly()
            if sq is None:
                continue
        elif at.kind == 'abs':
            sq0 = at.args[0].as_poly()
            if sq0 is None:
                continue
            sq = pmul(sq0, sq0)
        elif at.kind == 'sgn':
            sq = P1
        d.pop(a)
        if rr:
            d[a] = 1
        for _ in range(q):
            out = pmul(out, sq)
    return pmul(Poly({tuple(sorted(d.items())): c}), out)


def _lead(t):
    return max(t, key=lambda m: (sum(e for _, e in m), m))


def pdivexact(a, b):
    """a / b if exact else None (b not constant)"""
    if len(b.t) > 60 or len(a.t) > 4000:
        return None
    bl = _lead(b.t)
    bc = b.t[bl]
    rem = dict(a.t)
    q = {}
    bitems = [(m, c) for m, c in b.t.items()]
    n = 0
    while rem:
        n += 1
        if n > 3000:
            return None
        ml = _lead(rem)
        d = dict(ml)
        for at, e in bl:
            if d.get(at, 0) < e:
                return None
            d[at] -= e
            if not d[at]:
                d.pop(at)
        qm = tuple(sorted(d.items()))
        qc = rem[ml] / bc
        q[qm] = q.get(qm, ZERO) + qc
        for m, c in bitems:
            mm, red = mmul(m, qm)
            if red:
                return None
            v = rem.get(mm, ZERO) - c * qc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return Poly(q)


def pnormfactor(p):
    """p = c * p' with p' leading coefficient 1"""
    c = p.t[_lead(p.t)]
    return c, pscale(p, 1 / c)


def pz(p):
    """z3 Real expression"""
    if p._z is None:
        terms = []
        for m, c in p.key():
            fs = []
            for a, e in m:
                z = ATOMS[a].z()
                if isinstance(e, F) and e.denominator != 1:
                    z = root_atom(a, e.denominator).z()
                    e = e.numerator
                e = int(e)
                if e < 0:
                    fs.extend([1 / z] * (-e))
                else:
                    fs.extend([z] * e)
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            x = fs[0]
            for f in fs[1:]:
                x = x * f
            terms.append(x)
        p._z = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
    return p._z


def root_atom(a, n):
    """n-th root of a positive (exp) atom"""
    return new_atom(('root', a, n), 'root', (a, n), pos=True)


def patoms(p, acc):
    for m in p.t:
        for a, e in m:
            if a not in acc:
                acc.add(a)
                for x in ATOMS[a].args:
                    if isinstance(x, Rat):
                        ratoms(x, acc)
            if isinstance(e, F) and e.denominator != 1:
                acc.add(root_atom(a, e.denominator).id)


def ratoms(r, acc):
    patoms(r.n, acc)
    for f in r.d:
        patoms(f, acc)


# ---------------------------------------------------------- rational functions
class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def key(self):
        return (self.n.key(), tuple(sorted((f.key(), e) for f, e in self.d.items())))

    def isconst(self):
        return not self.d and self.n.isconst()

    def const(self):
        return self.n.const()

    def as_poly(self):
        return self.n if not self.d else None


def rconst(c):
    return Rat(pconst(c))


R0, R1 = Rat(P0), Rat(P1)


def _dpoly(d):
    p = P1
    for f, e in d.items():
        for _ in range(e):
            p = pmul(p, f)
    return p


def _cancel(n, d):
    if not d:
        return Rat(n)
    if not n.t:
        return R0
    d2 = {}
    for f, e in d.items():
        k = e
        while k:
            if len(f.t) == 1:
                (fm, fc), = f.t.items()
                ok = True
                t = {}
                for m, c in n.t.items():
                    dd = dict(m)
                    for a, ee in fm:
                        v = dd.get(a, 0) - ee
                        if v < 0 and ATOMS[a].kind != 'exp':
                            ok = False
                            break
                        if v:
                            dd[a] = v
                        else:
                            dd.pop(a, None)
                    if not ok:
                        break
                    t[tuple(sorted(dd.items()))] = c / fc
                q = Poly(t) if ok else None
            else:
                q = pdivexact(n, f)
            if q is None:
                break
            n = q
            k -= 1
        if k:
            d2[f] = k
    return Rat(n, d2)


def radd(a, b, s=1):
    if not a.d and not b.d:
        return Rat(padd(a.n, b.n, s))
    if a.d == b.d:
        return _cancel(padd(a.n, b.n, s), a.d)
    d = dict(a.d)
    for f, e in b.d.items():
        if d.get(f, 0) < e:
            d[f] = e
    na, nb = a.n, b.n
    for f, e in d.items():
        for _ in range(e - a.d.get(f, 0)):
            na = pmul(na, f)
        for _ in range(e - b.d.get(f, 0)):
            nb = pmul(nb, f)
    return _cancel(padd(na, nb, s), d)


def rmul(a, b):
    if not a.d and not b.d:
        return Rat(pmul(a.n, b.n))
    if a.isconst():
        k = a.const()
        return Rat(pscale(b.n, k), b.d) if k else R0
    if b.isconst():
        k = b.const()
        return Rat(pscale(a.n, k), a.d) if k else R0
    # cancel crosswise first: keeps the numerators small
    x = _cancel(a.n, b.d)
    y = _cancel(b.n, a.d)
    d = dict(y.d)
    for f, e in x.d.items():
        d[f] = d.get(f, 0) + e
    n = pmul(x.n, y.n)
    return Rat(n, d) if n.t else R0


def rinv(a):
    if a.isconst():
        return rconst(1 / a.const())
    n = _dpoly(a.d)
    c, f = pnormfactor(a.n)
    if len(f.t) == 1:                       # monomial: split into atoms
        (m, _), = f.t.items()
        d = {}
        up = P1
        for at, e in m:
            if ATOMS[at].kind == 'exp':
                up = pmul(up, Poly({((at, -e),): ONE}))
            else:
                d[Poly({((at, 1),): ONE})] = int(e)
        nz_assume(a)
        return _cancel(pscale(pmul(n, up), 1 / c), d)
    # pull exp atoms' content out so factors stay canonical
    nz_assume(a)
    up = {}
    for at in {x for m in f.t for x, _ in m if ATOMS[x].kind == 'exp'}:
        lo = min(dict(m).get(at, 0) for m in f.t)
        if lo:
            up[at] = -lo
    if up:
        mono = Poly({tuple(sorted(up.items())): ONE})
        f = pmul(f, mono)
        n = pmul(n, mono)
        c2, f = pnormfactor(f)
        c = c * c2
    return _cancel(pscale(n, 1 / c), {f: 1})


def rquo(a, b):
    """a/b as one opaque atom keyed by the normalised pair (axiom: q*b == a)"""
    if not a.n.t:
        return R0
    ca, fa = pnormfactor(a.n)
    cb, fb = pnormfactor(b.n)
    x, y = Rat(fa, a.d), Rat(fb, b.d)
    k = rconst(ca / cb)
    if x.key() == y.key():
        return k
    nz_assume(b)
    return rmul(k, atom_rat(new_atom(('quo', x.key(), y.key()), 'quo', (x, y))))


def rneg(a):
    return Rat(pscale(a.n, -ONE), a.d)


def rz(r):
    z = pz(r.n)
    if r.d:
        z = z / pz(_dpoly(r.d))
    return z


def nz_assume(a):
    if Ctx.cur is not None:
        Ctx.cur.note_nonzero(a)


def rsign_expr(r):
    """a polynomial expression with the sign of r (z3)"""
    n = r.n
    size = len(n.t)
    for f, e in r.d.items():
        if e % 2:
            size *= len(f.t)
    if size <= 400:
        for f, e in r.d.items():
            if e % 2:
                n = pmul(n, f)
        return pz(n)
    n = pz(r.n)
    for f, e in r.d.items():
        if e % 2:
            n = n * pz(f)
    return n


# ------------------------------------------------------------------ functions
def V(name, isint=False, lo=None, hi=None):
    pos = lo is not None and lo >= 0
    a = new_atom(('var', name), 'var', (), isint, pos, lo, hi, name=name)
    a.pos, a.lo, a.hi = pos, lo, hi
    return Rat(Poly({((a.id, 1),): ONE}))


def atom_rat(a):
    return Rat(Poly({((a.id, 1),): ONE}))


_pi = new_atom(('pi',), 'pi', (), pos=True, name='PI')
R_PI = atom_rat(_pi)
PI_ID = _pi.id
PI_FLOATS = (math.pi,)


def cos_atom(arg):
    return new_atom(('cos', arg.key()), 'cos', (arg,))


def sin_atom(arg):
    return new_atom(('sin', arg.key()), 'sin', (arg,))


_TRIG12 = {}


def _trig_const(r):
    """(cos, sin) of pi*r for rational r as Rat pairs"""
    r = r % 2
    k = r * 12
    if k.denominator == 1 or (r * 8).denominator == 1 and False:
        k = int(k)
        s2, s3 = rsqrt_const(F(2)), rsqrt_const(F(3))
        h = F(1, 2)
        q = rconst(F(1, 4))
        s6 = rmul(s2, s3)
        c15 = rmul(q, radd(s6, s2))
        s15 = rmul(q, radd(s6, s2, -1))
        table = {0: (R1, R0), 1: (c15, s15), 2: (rmul(rconst(h), s3), rconst(h)),
                 3: (rmul(rconst(h), s2), rmul(rconst(h), s2)), 4: (rconst(h), rmul(rconst(h), s3)),
                 5: (s15, c15), 6: (R0, R1)}
        quad, rem = divmod(k, 6)
        c, s = table[rem]
        for _ in range(quad):
            c, s = rneg(s), c
        return c, s
    # reduce to [0, 1/2] and keep an atom
    neg = False
    if r > 1:
        r = 2 - r
        neg = True
    flip = False
    if r > F(1, 2):
        r = 1 - r
        flip = True
    arg = Rat(Poly({((PI_ID, 1),): r}))
    c, s = atom_rat(cos_atom(arg)), atom_rat(sin_atom(arg))
    if flip:
        c = rneg(c)
    if neg:
        s = rneg(s)
    return c, s


ANGLE_BASE = {}     # monomial -> base coefficient, for multiple-angle expansion


def rcossin(arg):
    p = arg.as_poly()
    if p is None:
        c, a2 = F(1), arg
        lead = arg.n.t[_lead(arg.n.t)]
        if lead < 0:
            a2 = rneg(arg)
            return atom_rat(cos_atom(a2)), rneg(atom_rat(sin_atom(a2)))
        return atom_rat(cos_atom(a2)), atom_rat(sin_atom(a2))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and ATOMS[m[0][0]].kind in ('arccos', 'arcsin'):
            a = ATOMS[m[0][0]]
            x = a.args[0]
            y = rsqrt(radd(R1, rmul(x, x), -1))
            c1, s1 = (x, y) if a.kind == 'arccos' else (y, x)
            return c1, (s1 if c > 0 else rneg(s1))
    k = ZERO
    rest = {}
    for m, c in p.t.items():
        d = dict(m)
        if d.get(PI_ID) == 1:
            others = [x for x in m if x[0] != PI_ID]
            if not others:
                k = c
                continue
            if all(ATOMS[a].isint for a, e in others) and (c / 2).denominator == 1:
                continue                    # multiple of 2 pi
        rest[m] = c
    ck, sk = _trig_const(k)
    if not rest:
        return ck, sk
    lead = rest[_lead(rest)]
    neg = lead < 0
    if neg:
        rest = {m: -c for m, c in rest.items()}
    if len(rest) == 1:
        (m, c), = rest.items()
        b = ANGLE_BASE.setdefault(m, abs(c))
        if b and (c / b).denominator == 1 and abs(c / b) <= 24:
            n = int(abs(c / b))
            a1 = Rat(Poly({m: abs(b)}))
            c1, s1 = atom_rat(cos_atom(a1)), atom_rat(sin_atom(a1))
            cc, ss = R1, R0
            for _ in range(n):
                cc, ss = radd(rmul(cc, c1), rmul(ss, s1), -1), radd(rmul(ss, c1), rmul(cc, s1))
        else:
            a1 = Rat(Poly(rest))
            cc, ss = atom_rat(cos_atom(a1)), atom_rat(sin_atom(a1))
    else:
        a1 = Rat(Poly(rest))
        cc, ss = atom_rat(cos_atom(a1)), atom_rat(sin_atom(a1))
    if neg:
        ss = rneg(ss)
    if k == 0:
        return cc, ss
    return (radd(rmul(ck, cc), rmul(sk, ss), -1), radd(rmul(sk, cc), rmul(ck, ss)))


_EXPUNIT = {}


def _expatom(shape, c):
    """(atom, exponent) for exp(c*shape), c>0 or <0: exponents are small ratios of the first coefficient seen"""
    units = _EXPUNIT.setdefault(shape.key(), [])
    for u in units:
        q = c / u
        e = q.limit_denominator(64)
        if e and abs(e) <= 64 and abs(q - e) <= abs(e) * F(1, 10**13):
            return _expbase(shape, u), _ie(e)
    u = abs(c)
    units.append(u)
    return _expbase(shape, u), 1 if c > 0 else -1


def _expbase(shape, u):
    base = Rat(pscale(shape.n, u), shape.d)
    return new_atom(('exp', base.key()), 'exp', (base,), pos=True)


def rexp(arg):
    if arg.isconst() and arg.const() == 0:
        return R1
    p = arg.as_poly()
    if p is None or any(ATOMS[a].kind == 'log' for m in p.t for a, e in m):
        lead = arg.n.t[_lead(arg.n.t)]
        a, e = _expatom(Rat(pscale(arg.n, 1 / lead), arg.d), lead)
        return Rat(Poly({((a.id, e),): ONE}))
    out = P1
    for m, c in p.t.items():
        a, e = _expatom(Rat(Poly({m: ONE})), c)
        out = pmul(out, Poly({((a.id, e),): ONE}))
    return Rat(out)


def _ie(e):
    return int(e) if e.denominator == 1 else e


def rlog(arg):
    if arg.isconst() and arg.const() == 1:
        return R0
    if arg.isconst() and arg.const() <= 0:
        raise Unsupported('log of a non-positive constant')
    # log(u) = sum of the logs of its (absolute) factors; exponentials come out
    out = _logpoly(arg.n)
    for f, k in _dfactors(arg.d):
        out = radd(out, rmul(_logpoly(f), rconst(F(k))), -1)
    return out


def _dfactors(d):
    return list(d.items()) if isinstance(d, dict) else list(d)


def _logpoly(p):
    out = R0
    low = {}
    for a in {x for m in p.t for x, _ in m if ATOMS[x].kind == 'exp'}:
        low[a] = min(dict(m).get(a, 0) for m in p.t)
    low = {a: e for a, e in low.items() if e}
    if low:
        t = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in low.items():
                d[a] = d.get(a, 0) - e
                if not d[a]:
                    del d[a]
            t[tuple(sorted(d.items()))] = c
        p = Poly(t)
        for a, e in low.items():
            out = radd(out, rmul(ATOMS[a].args[0], rconst(F(e))))
    lead = abs(p.t[_lead(p.t)])
    if p.t[_lead(p.t)] < 0:
        p = pscale(p, F(-1))
    p = pscale(p, 1 / lead)
    if lead != 1:
        c = rconst(lead)
        out = radd(out, atom_rat(new_atom(('log', c.key()), 'log', (c,))))
    if not p.isconst():
        r = Rat(p)
        out = radd(out, atom_rat(new_atom(('log', r.key()), 'log', (r,))))
    return out


def _sqfree(n):
    out, rest, p = 1, {}, 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        out *= p ** (e // 2)
        if e % 2:
            rest[p] = 1
        p += 1
        if p > 2000000:
            break
    if n > 1:
        rest[n] = 1
    return out, sorted(rest)


def rsqrt_const(c):
    if c < 0:
        raise Unsupported('sqrt of negative constant')
    if c == 0:
        return R0
    n = c.numerator * c.denominator
    r = math.isqrt(n)
    if r * r == n:
        return rconst(F(r, c.denominator))
    if n > 10 ** 13:
        arg = rconst(c)
        return atom_rat(new_atom(('sqrt', arg.key()), 'sqrt', (arg,), pos=True))
    o, ps = _sqfree(n)
    res = rconst(F(o, c.denominator))
    for p in ps:
        arg = rconst(F(p))
        res = rmul(res, atom_rat(new_atom(('sqrt', arg.key()), 'sqrt', (arg,), pos=True)))
    return res


def rsqrt(arg):
    if arg.isconst():
        return rsqrt_const(arg.const())
    if arg.d:
        dp = _dpoly(arg.d)
        return rmul(rsqrt(Rat(pmul(arg.n, dp))), rinv(rabs(Rat(dp))))
    p = arg.n
    # content
    g = None
    for c in p.t.values():
        g = c if g is None else F(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                  g.denominator * c.denominator)
    g = abs(g)
    pre = rsqrt_const(g)
    p = pscale(p, 1 / g)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1:
            ok = True
            out = pre
            for a, e in m:
                x = atom_rat(ATOMS[a])
                if ATOMS[a].kind == 'exp':
                    out = rmul(out, Rat(Poly({((a, _ie(F(e) / 2)),): ONE})))
                    continue
                q, r = divmod(e, 2)
                if r and not ATOMS[a].pos:
                    ok = False
                    break
                for _ in range(q):
                    out = rmul(out, x if ATOMS[a].pos else rabs(x))
                if r:
                    sa = new_atom(('sqrt', x.key()), 'sqrt', (x,), pos=True)
                    out = rmul(out, atom_rat(sa))
            if ok:
                return out
    root = poly_sqrt(p)
    if root is not None:
        return rmul(pre, rabs(Rat(root)))
    arg2 = Rat(p)
    return rmul(pre, atom_rat(new_atom(('sqrt', arg2.key()), 'sqrt', (arg2,), pos=True)))


def poly_sqrt(p):
    """exact square root of a polynomial if it is a perfect square (small ones)"""
    if len(p.t) > 40 or len(p.t) < 3:
        return None
    lead = _lead(p.t)
    c = p.t[lead]
    if c < 0 or any(e % 2 for _, e in lead if not isinstance(e, F)):
        return None
    if any(isinstance(e, F) for m in p.t for _, e in m):
        return None
    n = c.numerator * c.denominator
    r = math.isqrt(n)
    if r * r != n:
        return None
    rm = tuple((a, e // 2) for a, e in lead)
    rc = F(r, c.denominator)
    root = Poly({rm: rc})
    rem = padd(p, pmul(root, root), -1)
    for _ in range(12):
        if not rem.t:
            return root
        ml = _lead(rem.t)
        d = dict(ml)
        for a, e in rm:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                d.pop(a)
        t = Poly({tuple(sorted(d.items())): rem.t[ml] / (2 * rc)})
        root = padd(root, t)
        rem = padd(p, pmul(root, root), -1)
    return None


class Linear(object):
    """every nonlinear monomial replaced by a fresh real: a relaxation, so unsat carries over"""

    def __init__(self):
        self.memo = {}
        self.mono = {}

    def fresh(self, key):
        if key not in self.mono:
            self.mono[key] = z3.Real('lin!%d' % len(self.mono))
        return self.mono[key]

    def _factors(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = []
            for c in e.children():
                r += self._factors(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return [z3.RealVal(-1)] + self._factors(e.arg(0))
        return [e]

    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            c, rest = z3.RealVal(1), []
            for f in self._factors(e):
                if z3.is_rational_value(f) or z3.is_int_value(f):
                    c = z3.simplify(c * f)
                else:
                    f = self(f)
                    rest.append(f)
            if len(rest) == 0:
                r = c
            elif len(rest) == 1:
                r = c * rest[0]
            else:
                rest.sort(key=lambda f: f.get_id())
                r = c * self.fresh(('m',) + tuple(f.get_id() for f in rest))
                self.memo[('k', r.get_id())] = (rest, r)
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
            r = self.fresh(('d', e.arg(0).get_id(), e.arg(1).get_id()))
        elif e.num_args() == 0:
            r = e
        else:
            r = e.decl()(*[self(c) for c in e.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD) else (
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum}[k]([self(c) for c in e.children()]))
        self.memo[i] = (e, r)
        return r


def known_sign(r):
    """+1/-1/0/None without calling the solver"""
    if r.isconst():
        c = r.const()
        return (c > 0) - (c < 0)
    if r.d:
        return None
    s = None
    for m, c in r.n.t.items():
        for a, e in m:
            if not ATOMS[a].pos and (isinstance(e, F) or e % 2):
                return None
        k = 1 if c > 0 else -1
        if s is None:
            s = k
        elif s != k:
            return None
    return s


def rabs(r):
    s = known_sign(r)
    if s is not None:
        return r if s >= 0 else rneg(r)
    if r.n.t[_lead(r.n.t)] < 0:
        r = rneg(r)
    a = new_atom(('abs', r.key()), 'abs', (r,), pos=True)
    return atom_rat(a)


def rround(r, kind='round'):
    """nearest integer (any tie rule) / floor / ceil / trunc, as an Int atom.
    Integer-valued addends are pulled out of round/floor/ceil."""
    if r.isconst():
        c = r.const()
        if kind == 'round':
            return rconst(F(round(c)))
        if kind == 'roundaway':
            return rconst(F(math.floor(c + F(1, 2)) if c >= 0 else math.ceil(c - F(1, 2))))
        if kind == 'floor':
            return rconst(F(math.floor(c)))
        if kind == 'ceil':
            return rconst(F(math.ceil(c)))
        return rconst(F(math.trunc(c)))
    if is_integral(r):
        return r
    if kind in ('round', 'roundaway'):
        key = ('round', r.key())
        kd = 'round'
    else:
        key = (kind, r.key())
        kd = kind
    return atom_rat(new_atom(key, kd, (r,), isint=True))


def is_integral(r):
    if r.d:
        return False
    return all(c.denominator == 1 and all(ATOMS[a].isint and not isinstance(e, F) and e > 0 for a, e in m)
               for m, c in r.n.t.items())


def axioms(ids):
    """solver facts about a set of atoms"""
    out = []
    ids = set(ids)
    # close under dependencies
    work = list(ids)
    while work:
        i = work.pop()
        at = ATOMS[i]
        new = set()
        for x in at.args:
            if isinstance(x, Rat):
                ratoms(x, new)
        if at.kind == 'root':
            new.add(at.args[0])
        if at.kind == 'cos':
            new.add(sin_atom(at.args[0]).id)
        if at.kind == 'sin':
            new.add(cos_atom(at.args[0]).id)
        for j in new - ids:
            ids.add(j)
            work.append(j)
    for i in sorted(ids):
        at = ATOMS[i]
        z = at.z()
        k = at.kind
        if k == 'var':
            if at.lo is not None:
                out.append(z >= z3.RealVal(str(at.lo)))
            if at.hi is not None:
                out.append(z <= z3.RealVal(str(at.hi)))
        elif k == 'pi':
            out.append(z > z3.RealVal('3.1415926535'))
            out.append(z < z3.RealVal('3.1415926536'))
        elif k == 'cos':
            s = sin_atom(at.args[0]).z()
            out.append(z * z + s * s == 1)
            out.append(z <= 1)
            out.append(z >= -1)
            b = const_angle(at.args[0])
            if b is not None:
                out += bracket(z, math.cos(b))
        elif k == 'sin':
            out.append(z <= 1)
            out.append(z >= -1)
            b = const_angle(at.args[0])
            if b is not None:
                out += bracket(z, math.sin(b))
        elif k == 'sqrt':
            out.append(z >= 0)
            out.append(z * z == rz(at.args[0]))
            if at.args[0].isconst():
                out += bracket(z, math.sqrt(at.args[0].const()))
        elif k == 'abs':
            x = rz(at.args[0])
            out.append(z3.If(x >= 0, z == x, z == -x))
        elif k == 'exp':
            out.append(z > 0)
            b = at.args[0]
            if b.isconst():
                v = math.exp(float(b.const()))
                out += bracket(z, v, 1e-9 * v)
            else:
                # exp(x) >= 1 + x ; sign
                x = rz(b)
                out.append(z >= 1 + x)
        elif k == 'quo':
            a, b = at.args
            out.append(z * rz(b) == rz(a))
        elif k == 'root':
            b, n = at.args
            x = z
            for _ in range(n - 1):
                x = x * z
            out.append(z > 0)
            out.append(x == ATOMS[b].z())
        elif k == 'round':
            x = rz(at.args[0])
            out.append(x - z <= z3.RealVal('1/2'))
            out.append(z - x <= z3.RealVal('1/2'))
            if at.args[0].d:
                u = radd(at.args[0], atom_rat(at), -1)
                out.append(rsign_expr(radd(u, rconst(F(1, 2)), -1)) <= 0)
                out.append(rsign_expr(radd(u, rconst(F(1, 2)))) >= 0)
        elif k == 'floor':
            x = rz(at.args[0])
            out.append(z <= x)
            out.append(x < z + 1)
        elif k == 'ceil':
            x = rz(at.args[0])
            out.append(z >= x)
            out.append(z < x + 1)
        elif k == 'trunc':
            x = rz(at.args[0])
            out.append(z3.If(x >= 0, z3.And(z <= x, x < z + 1), z3.And(z >= x, z < x + 1)))
    return out


def const_angle(r):
    if r.isconst():
        return float(r.const())
    if not r.d and set(r.n.t) == {((PI_ID, 1),)}:
        return float(r.n.t[((PI_ID, 1),)]) * math.pi
    return None


def bracket(z, v, eps=1e-9):
    lo, hi = F(v - eps).limit_denominator(10 ** 14), F(v + eps).limit_denominator(10 ** 14)
    return [z > z3.RealVal(str(lo)), z < z3.RealVal(str(hi))]


# --------------------------------------------------------- numeric evaluation
def rfloat(r, env):
    """evaluate at float inputs env: name -> float"""
    n = pfloat(r.n, env)
    for f, e in r.d.items():
        n /= pfloat(f, env) ** e
    return n


def pfloat(p, env):
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            v *= afloat(a, env) ** (float(e) if isinstance(e, F) else e)
        s += v
    return s


def afloat(i, env):
    cache = env.setdefault('__cache__', {})
    if i in cache:
        return cache[i]
    at = ATOMS[i]
    k = at.kind
    if k == 'var':
        v = float(env[at.name])
    elif k == 'pi':
        v = math.pi
    elif k == 'quo':
        v = rfloat(at.args[0], env) / rfloat(at.args[1], env)
    elif k == 'root':
        v = afloat(at.args[0], env) ** (1.0 / at.args[1])
    else:
        x = rfloat(at.args[0], env)
        v = {'cos': math.cos, 'sin': math.sin, 'exp': math.exp, 'sqrt': lambda y: math.sqrt(max(y, 0.0)), 'abs': abs,
             'log': math.log, 'round': lambda y: float(round(y)), 'floor': math.floor, 'ceil': math.ceil,
             'trunc': math.trunc}[k](x)
    cache[i] = v
    return v
