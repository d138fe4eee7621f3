# -*- coding: utf-8 -*-
r"""Symbolic reals that flow through the REAL (unmodified) phyem functions.

A ``Sym`` is a hash-consed expression node over exact rationals, pi, named real variables, the
elementary functions and undefined (universally quantified, smooth) functions.  The functions of /repo
are executed by CPython on numpy object arrays of ``Sym``; every result is therefore an expression that
is *generated from the current source*.  Equality obligations are decided by a normal form (sparse
Laurent polynomials over atoms, modulo sin^2+cos^2=1 and sqrt(a)^2=a, with denominators kept as
multisets of factors); path conditions and inequalities go to z3.
"""
import math
import sys
from fractions import Fraction
import numpy as np

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    r"""The code left the subset the engine can decide."""


class SymbolicEscape(Unsupported, TypeError):
    r"""A symbolic value was forced into a concrete number."""


# ----------------------------------------------------------------------------------------------
_lift_cache = {}
_PI_DENS = (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 18, 20, 24, 30, 32, 36, 45, 60, 64, 90, 100, 120, 180, 360)


def lift_float(f):
    r"""Idealise a float literal to the exact real it stands for (documented assumption A-REAL)."""
    if f in _lift_cache:
        return _lift_cache[f]
    r = None
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported(f"non finite constant {f}")
    fr = Fraction(f)
    if abs(f) < 1e-15:
        fr = Fraction(0)      # rounding residue of concrete arithmetic
    if fr.denominator <= 1 << 20:
        r = const(fr)
    if r is None:
        c = fr.limit_denominator(1000)
        if abs(float(c) - f) <= 4.5e-16 * abs(f) and abs(c) < 10**6:
            r = const(c)
    if r is None:
        for base, node in ((math.pi, PI), (math.pi ** 2, PI * PI)):
            q = Fraction(f / base).limit_denominator(400)
            if q != 0:
                val = float(q) * base
                if abs(val - f) <= 4e-16 * abs(f):
                    r = node * const(q)
                    break
    if r is None:
        q = Fraction(f * f).limit_denominator(400)
        if q != 0 and abs(math.copysign(math.sqrt(q), f) - f) <= 4e-16 * abs(f):
            r = sqrt(const(q))
            if f < 0:
                r = -r
    if r is None:
        r = const(fr)
    _lift_cache[f] = r
    return r


class Sym:
    __slots__ = ('k', 'a', 'id', '_nf', '__weakref__')
    _table = {}
    _next = 0

    # numpy calls elem.<ufunc>() on object arrays
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def tan(self): return sin(self) / cos(self)
    def exp(self): return exp(self)
    def sqrt(self): return sqrt(self)
    def log(self): return _mk('f', ('log', self))
    def arctan(self): return _mk('f', ('atan', self))
    def arccos(self): return _inverse_trig('acos', self)
    def arcsin(self): return _inverse_trig('asin', self)
    def hypot(self, o): return sqrt(self * self + S(o) * S(o))
    def degrees(self): return self * const(180) / PI
    def radians(self): return self * PI / const(180)
    def arctan2(self, x): return _mk('f', ('atan2', self, S(x)))
    def tanh(self): return _mk('f', ('tanh', self))
    def square(self): return self * self
    def conjugate(self): return self
    def rint(self): raise SymbolicEscape('rint of symbolic')
    def fabs(self): return abs(self)
    def isnan(self): return False

    def __add__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        if self.k == 'c' and o.k == 'c':
            return const(self.a + o.a)
        if self.k == 'c' and self.a == 0:
            return o
        if o.k == 'c' and o.a == 0:
            return self
        return _mk('+', (self, o))
    __radd__ = __add__

    def __mul__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        if self.k == 'c' and o.k == 'c':
            return const(self.a * o.a)
        for u, v in ((self, o), (o, self)):
            if u.k == 'c':
                if u.a == 0:
                    return ZERO
                if u.a == 1:
                    return v
        return _mk('*', (self, o))
    __rmul__ = __mul__

    def __neg__(self): return const(-1) * self
    def __pos__(self): return self

    def __sub__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __truediv__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        if o.k == 'c':
            if o.a == 0:
                raise ZeroDivisionError('symbolic division by the constant zero')
            return self * const(1 / o.a)
        return _mk('/', (self, o))

    def __rtruediv__(self, o):
        o = S(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.k != 'c':
                raise Unsupported('symbolic exponent')
            n = n.a
        if isinstance(n, (float, np.floating)):
            n0 = n
            n = lift_float(float(n))
            n = n.a if n.k == 'c' else Fraction(float(n0))
        if isinstance(n, Fraction):
            if n.denominator == 2:
                return sqrt(self) ** int(n.numerator)
            if n.denominator != 1:
                return exp(self.log() * n)       # a positive base: numpy returns nan otherwise
        n = int(n)
        if n == 0:
            return ONE
        if n == 1:
            return self
        if self.k == 'c':
            return const(self.a ** n)
        if n < 0:
            return ONE / (self ** (-n))
        return _mk('^', (self, n))

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    def __round__(self, n=None):
        return uf('round', self, const(n or 0))

    def __abs__(self):
        if self.k == 'c':
            return const(abs(self.a))
        if self >= 0:      # forks
            return self
        return -self

    def __mod__(self, o): raise Unsupported('mod on symbolic real')
    __rmod__ = __mod__

    def __floordiv__(self, o): raise Unsupported('floordiv on symbolic real')
    __rfloordiv__ = __floordiv__

    def __float__(self):
        v = self.const_value()
        if v is None:
            raise SymbolicEscape(f'float() of symbolic value {self!r}')
        return float(v)

    def __int__(self):
        v = self.const_value()
        if v is None:
            raise SymbolicEscape(f'int() of symbolic value {self!r}')
        return int(v)

    def const_value(self):
        if self.k == 'c':
            return self.a
        n = nf(self)
        if not n[1]:
            p = n[0]
            if not p:
                return Fraction(0)
            if len(p) == 1 and () in p:
                return p[()]
        return None

    # comparisons -> Cond
    def __lt__(self, o): return cond('<', self, o)
    def __le__(self, o): return cond('<=', self, o)
    def __gt__(self, o): return cond('<', S(o), self)
    def __ge__(self, o): return cond('<=', S(o), self)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (Sym, int, float, Fraction, np.number)):
            return cond('==', self, o)
        return NotImplemented

    def __ne__(self, o):
        if o is self:
            return False
        if isinstance(o, (Sym, int, float, Fraction, np.number)):
            return cond('!=', self, o)
        return NotImplemented

    def __hash__(self):
        return self.id

    def __bool__(self):
        r = cond('!=', self, 0)
        return r if isinstance(r, bool) else bool(r)

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return show(self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _mk(k, a):
    if k == 'f' or k == 'uf':
        key = (k,) + tuple((x.id if isinstance(x, Sym) else
                            (tuple(y.id if isinstance(y, Sym) else y for y in x) if isinstance(x, tuple) else x))
                           for x in a)
    elif k in '+*/':
        key = (k, a[0].id, a[1].id)
    elif k == '^':
        key = (k, a[0].id, a[1])
    else:
        key = (k, a)
    t = Sym._table
    if key in t:
        return t[key]
    n = object.__new__(Sym)
    n.k = k
    n.a = a
    n.id = Sym._next
    n._nf = None
    Sym._next += 1
    t[key] = n
    return n


def const(x):
    return _mk('c', Fraction(x))


ZERO = const(0)
ONE = const(1)
PI = _mk('pi', ())


def var(name):
    return _mk('v', name)


def S(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return const(int(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, (float, np.floating)):
        return lift_float(float(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return S(x.item())
    return NotImplemented


def _closed(x):
    r"""float value of an expression whose normal form holds no variable, else None."""
    n, d = nf(x)
    todo = [a for p in [n] + [_factors[f] for f in d] for m in p for a, _ in m]
    for a in todo:
        i = _atom_info[a]
        if a == _PI_ID or i['key'][0] == 'pi':
            continue
        f = i.get('fn')
        if f and f[0] == 'sqrt' and _closed(f[1]) is not None:
            continue
        return None
    return _evalp(n) / math.prod((_evalp(_factors[f]) ** e for f, e in d.items()), start=1.0)


def _evalp(p):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            i = _atom_info[a]
            t *= (math.pi if i['key'][0] == 'pi' else math.sqrt(_closed(i['fn'][1]))) ** e
        s += t
    return s


def _inverse_trig(f, x):
    v = _closed(x)
    if v is not None and abs(v) <= 1 + 1e-12:
        g = lift_float(getattr(math, f)(max(-1.0, min(1.0, v))))
        if is_zero((cos(g) if f == 'acos' else sin(g)) - x):
            return g
    return _mk('f', (f, x))


_ATRIG = ('acos', 'asin', 'atan', 'atan2')


def _split_atrig(x):
    r"""x = sign * (inverse trig node) + rest, or None."""
    if x.k == 'f' and x.a[0] in _ATRIG:
        return 1, x, ZERO
    if x.k == '*' and x.a[0].k == 'c' and abs(x.a[0].a) == 1:
        r = _split_atrig(x.a[1])
        return r and (int(x.a[0].a) * r[0], r[1], x.a[0] * r[2])
    if x.k == '*' and x.a[1].k == 'c' and abs(x.a[1].a) == 1:
        r = _split_atrig(x.a[0])
        return r and (int(x.a[1].a) * r[0], r[1], x.a[1] * r[2])
    if x.k == '+':
        for i in (0, 1):
            r = _split_atrig(x.a[i])
            if r:
                return r[0], r[1], r[2] + x.a[1 - i]
    return None


def _cs(n):
    f, y = n.a[0], n.a[1]
    if f == 'acos':
        return y, sqrt(ONE - y * y)
    if f == 'asin':
        return sqrt(ONE - y * y), y
    if f == 'atan':
        h = sqrt(ONE + y * y)
        return ONE / h, y / h
    x = n.a[2]
    h = sqrt(x * x + y * y)
    return x / h, y / h


def _trig_split(kind, x):
    r = _split_atrig(x)
    if not r:
        return None
    sg, n, rest = r
    c, s_ = _cs(n)
    s_ = s_ if sg > 0 else -s_
    if rest.k == 'c' and rest.a == 0:
        return s_ if kind == 'sin' else c
    if kind == 'sin':
        return s_ * cos(rest) + c * sin(rest)
    return c * cos(rest) - s_ * sin(rest)


def sin(x):
    x = S(x)
    if x.k == 'c' and x.a == 0:
        return ZERO
    r = _trig_split('sin', x)
    if r is not None:
        return r
    return _mk('f', ('sin', x))


def cos(x):
    x = S(x)
    if x.k == 'c' and x.a == 0:
        return ONE
    r = _trig_split('cos', x)
    if r is not None:
        return r
    return _mk('f', ('cos', x))


def exp(x):
    x = S(x)
    if x.k == 'c' and x.a == 0:
        return ONE
    return _mk('f', ('exp', x))


def sqrt(x):
    x = S(x)
    if x.k == 'c':
        if x.a < 0:
            raise Unsupported('sqrt of a negative constant')
        n, d = x.a.numerator, x.a.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    return _mk('f', ('sqrt', x))


def uf(name, *args, d=None):
    args = tuple(S(a) for a in args)
    d = tuple(d) if d is not None else (0,) * len(args)
    return _mk('uf', (name, args, d))


def show(n, depth=0):
    if depth > 12:
        return '...'
    k = n.k
    if k == 'c':
        return str(n.a)
    if k == 'v':
        return n.a
    if k == 'pi':
        return 'pi'
    if k == '+':
        return f"({show(n.a[0], depth+1)} + {show(n.a[1], depth+1)})"
    if k == '*':
        return f"{show(n.a[0], depth+1)}*{show(n.a[1], depth+1)}"
    if k == '/':
        return f"({show(n.a[0], depth+1)})/({show(n.a[1], depth+1)})"
    if k == '^':
        return f"({show(n.a[0], depth+1)})**{n.a[1]}"
    if k == 'f':
        return f"{n.a[0]}({', '.join(show(_, depth+1) for _ in n.a[1:])})"
    if k == 'uf':
        dd = '' if not any(n.a[2]) else "'" + ''.join(map(str, n.a[2]))
        return f"{n.a[0]}{dd}({', '.join(show(_, depth+1) for _ in n.a[1])})"
    return '?'


# ---- differentiation --------------------------------------------------------------------------
_dcache = {}


def diff(n, v):
    n = S(n)
    key = (n.id, v.id)
    if key in _dcache:
        return _dcache[key]
    k = n.k
    if k in ('c', 'pi'):
        r = ZERO
    elif k == 'v':
        r = ONE if n is v else ZERO
    elif k == '+':
        r = diff(n.a[0], v) + diff(n.a[1], v)
    elif k == '*':
        a, b = n.a
        r = diff(a, v) * b + a * diff(b, v)
    elif k == '/':
        a, b = n.a
        da, db = diff(a, v), diff(b, v)
        r = da / b
        if not (db.k == 'c' and db.a == 0):
            r = r - a * db / (b * b)
    elif k == '^':
        a, e = n.a
        r = const(e) * a ** (e - 1) * diff(a, v)
    elif k == 'f':
        f, x = n.a[0], n.a[1]
        dx = diff(x, v)
        if f == 'atan2':
            y, x = n.a[1], n.a[2]
            r = (x * diff(y, v) - y * diff(x, v)) / (x * x + y * y)
        elif dx.k == 'c' and dx.a == 0:
            r = ZERO
        elif f == 'sin':
            r = cos(x) * dx
        elif f == 'cos':
            r = -sin(x) * dx
        elif f == 'exp':
            r = n * dx
        elif f == 'sqrt':
            r = dx / (const(2) * n)
        elif f == 'log':
            r = dx / x
        elif f == 'atan':
            r = dx / (ONE + x * x)
        elif f == 'tanh':
            r = (ONE - n * n) * dx
        elif f == 'acos':
            r = -dx / sqrt(ONE - x * x)
        elif f == 'asin':
            r = dx / sqrt(ONE - x * x)
        else:
            raise Unsupported(f'derivative of {f}')
    elif k == 'uf':
        name, args, d = n.a
        r = ZERO
        for i, a in enumerate(args):
            da = diff(a, v)
            if not (da.k == 'c' and da.a == 0):
                dd = list(d)
                dd[i] += 1
                r = r + uf(name, *args, d=dd) * da
    else:
        raise Unsupported(k)
    _dcache[key] = r
    return r


def subst(n, env):
    r"""simultaneous substitution {variable node: expression}."""
    memo = {}
    env = {v.id: S(e) for v, e in env.items()}

    def go(n):
        if n.id in env:
            return env[n.id]
        if n.id in memo:
            return memo[n.id]
        k = n.k
        if k in ('c', 'pi', 'v'):
            r = n
        elif k in ('+', '*', '/'):
            a, b = go(n.a[0]), go(n.a[1])
            r = a + b if k == '+' else a * b if k == '*' else a / b
        elif k == '^':
            r = go(n.a[0]) ** n.a[1]
        elif k == 'f':
            x = [go(y) for y in n.a[1:]]
            r = (sin(x[0]) if n.a[0] == 'sin' else cos(x[0]) if n.a[0] == 'cos' else exp(x[0]) if n.a[0] == 'exp'
                 else sqrt(x[0]) if n.a[0] == 'sqrt' else _mk('f', (n.a[0],) + tuple(x)))
        elif k == 'uf':
            r = uf(n.a[0], *[go(y) for y in n.a[1]], d=n.a[2])
        else:
            raise Unsupported(k)
        memo[n.id] = r
        return r
    return go(S(n))


# ---- polynomial normal form -----------------------------------------------------------------
# atoms
_atoms = {}        # key -> id
_atom_info = []    # id -> dict


def _atom(key, **info):
    if key in _atoms:
        return _atoms[key]
    i = len(_atom_info)
    _atoms[key] = i
    info['key'] = key
    _atom_info.append(info)
    return i


def pkey(p):
    return frozenset(p.items())


def padd(p, q, c=1):
    if not q:
        return p
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + c * v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()} if c else {}


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


_red = {}  # atom id -> polynomial equal to atom**2


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    need = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            w = r.get(m, 0) + c1 * c2
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    if len(r) > 400000:
        raise Unsupported('polynomial too large')
    for m in r:
        for a, e in m:
            if e >= 2 and a in _red:
                need = True
                break
        if need:
            break
    return _reduce(r) if need else r


def _reduce(p):
    out = {}
    extra = []
    for m, c in p.items():
        hit = None
        for a, e in m:
            if e >= 2 and a in _red:
                hit = (a, e)
                break
        if hit is None:
            w = out.get(m, 0) + c
            if w:
                out[m] = w
            else:
                out.pop(m, None)
        else:
            a, e = hit
            rest = tuple((b, f) for b, f in m if b != a)
            if e % 2:
                rest = _mmul(rest, ((a, 1),))
            t = {rest: c}
            sq = _red[a]
            for _ in range(e // 2):
                t = pmul(t, sq)
            extra.append(t)
    for t in extra:
        out = padd(out, t)
    return out


def ppow(p, n):
    r = {(): Fraction(1)}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


_PONE = {(): Fraction(1)}
_factors = {}      # key -> poly (canonical factor)


def _canon_factor(p):
    r"""p -> (content c, monomial m, canonical factor key or None): p = c * m * factor."""
    # common monomial
    it = iter(p)
    first = dict(next(it))
    common = dict(first)
    for m in it:
        d = dict(m)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                common[a] = min(common[a], 0)
        for a in d:
            if a not in common and d[a] < 0:
                common[a] = d[a]
        common = {a: e for a, e in common.items() if e}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    q = {_mmul(m, inv): c for m, c in p.items()} if cm else dict(p)
    lead = min(q)   # deterministic
    c = q[lead]
    q = pscale(q, 1 / c)
    if len(q) == 1 and () in q:
        return c, cm, None
    k = pkey(q)
    _factors.setdefault(k, q)
    return c, cm, k


def rmul(x, y):
    den = dict(x[1])
    for k, e in y[1].items():
        den[k] = den.get(k, 0) + e
    return _cancel(pmul(x[0], y[0]), den)


def _cancel(num, den):
    if not num:
        return {}, {}
    if not den:
        return num, den
    # cancel when the numerator is exactly (multiple of) a factor
    c, cm, k = _canon_factor(num) if len(num) > 1 else (None, None, None)
    if k is not None and k in den:
        den = dict(den)
        den[k] -= 1
        if not den[k]:
            del den[k]
        return {cm: c}, den
    return num, den


def radd(x, y):
    if not x[0]:
        return y
    if not y[0]:
        return x
    if x[1] == y[1]:
        return _cancel(padd(x[0], y[0]), x[1])
    den = dict(x[1])
    fx, fy = _PONE, _PONE
    for k in set(x[1]) | set(y[1]):
        ex, ey = x[1].get(k, 0), y[1].get(k, 0)
        e = max(ex, ey)
        den[k] = e
        if e > ex:
            fx = pmul(fx, ppow(_factors[k], e - ex))
        if e > ey:
            fy = pmul(fy, ppow(_factors[k], e - ey))
    return _cancel(padd(pmul(x[0], fx), pmul(y[0], fy)), den)


def rinv(x):
    num, den = x
    if not num:
        raise Unsupported('division by an expression that is identically zero')
    c, cm, k = _canon_factor(num)
    n = {tuple((a, -e) for a, e in cm): 1 / c}
    for f, e in den.items():
        n = pmul(n, ppow(_factors[f], e))
    return n, ({} if k is None else {k: 1})


EXPAND = True    # expand sin/cos/exp of sums


def _split_args(p):
    return sorted(p.items())


def _trig(kind, p):
    r"""sin/cos of a polynomial argument -> polynomial, expanded by the addition theorems; every
    monomial contributes an atom pair (sin g*m, cos g*m) with a rational base g."""
    # p: {mono: coeff}
    s, c = {}, dict(_PONE)
    for m, q in _split_args(p):
        s1, c1 = _trig_mono(m, q)
        s, c = padd(pmul(s, c1), pmul(c, s1)), padd(pmul(c, c1), pmul(s, s1), -1)
    return s if kind == 'sin' else c


_PI_ID = None


def _pi_mono():
    global _PI_ID
    if _PI_ID is None:
        _PI_ID = _atom(('pi',), node=PI)
    return ((_PI_ID, 1),)


_trig_base = {}   # monomial -> base coefficient


def _trig_mono(m, q):
    if m == _pi_mono():
        k = q * 2
        if k.denominator == 1:
            k = int(k) % 4
            return ([{}, dict(_PONE), {}, {(): Fraction(-1)}][k],
                    [dict(_PONE), {}, {(): Fraction(-1)}, {}][k])
        k4 = q * 4
        if k4.denominator == 1:
            h = nf(sqrt(const(Fraction(1, 2))))[0]
            k4 = int(k4) % 8
            sg = {1: (1, 1), 3: (1, -1), 5: (-1, -1), 7: (-1, 1)}[k4]
            return pscale(h, sg[0]), pscale(h, sg[1])
    if q < 0:
        s, c = _trig_mono(m, -q)
        return pscale(s, -1), c
    # base: use 1/(denominator) with denominators collected lazily: base = 1/den(q) ;
    base = Fraction(1, q.denominator)
    if m in _trig_base:
        b0 = _trig_base[m]
        r = q / b0
        if r.denominator == 1:
            base = b0
    else:
        _trig_base[m] = base if q.numerator <= 24 else q
        base = _trig_base[m]
    n = q / base
    if n.denominator != 1 or n > 24:
        base, n = q, Fraction(1)
    n = int(n)
    sa = _atom(('sin', m, base), trig=('sin', m, base))
    ca = _atom(('cos', m, base), trig=('cos', m, base))
    if ca not in _red:
        _red[ca] = {(): Fraction(1), ((sa, 2),): Fraction(-1)}
    s1, c1 = {((sa, 1),): Fraction(1)}, {((ca, 1),): Fraction(1)}
    s, c = {}, dict(_PONE)
    for _ in range(n):
        s, c = padd(pmul(s, c1), pmul(c, s1)), padd(pmul(c, c1), pmul(s, s1), -1)
    return s, c


def nf(n):
    if n._nf is not None:
        return n._nf
    # iterative to avoid deep recursion
    stack = [n]
    while stack:
        x = stack[-1]
        if x._nf is not None:
            stack.pop()
            continue
        kids = _kids(x)
        todo = [y for y in kids if y._nf is None]
        if todo:
            stack.extend(todo)
            continue
        x._nf = _nf1(x)
        stack.pop()
    return n._nf


def _kids(x):
    if x.k in ('+', '*', '/'):
        return x.a
    if x.k == '^':
        return (x.a[0],)
    if x.k == 'f':
        return x.a[1:]
    if x.k == 'uf':
        return x.a[1]
    return ()


def rkey(r):
    return pkey(r[0]), frozenset(r[1].items())


POSITIVE = set()    # names of variables assumed non-negative (recorded as assumptions of the obligation)


def _positive(t):
    n = _atom_info[t].get('node')
    return n is not None and n.k == 'v' and n.a in POSITIVE


def _nf1(x):
    k = x.k
    if k == 'c':
        return ({(): x.a} if x.a else {}), {}
    if k == 'v':
        return {((_atom(('v', x.a), node=x), 1),): Fraction(1)}, {}
    if k == 'pi':
        return {_pi_mono(): Fraction(1)}, {}
    if k == '+':
        return radd(x.a[0]._nf, x.a[1]._nf)
    if k == '*':
        return rmul(x.a[0]._nf, x.a[1]._nf)
    if k == '/':
        return rmul(x.a[0]._nf, rinv(x.a[1]._nf))
    if k == '^':
        b, e = x.a[0]._nf, x.a[1]
        return ppow(b[0], e), {f: g * e for f, g in b[1].items()}
    if k == 'f':
        f = x.a[0]
        a = x.a[1]._nf
        if f in ('sin', 'cos') and not a[1] and EXPAND and len(a[0]) <= 6:
            return _trig(f, a[0]), {}
        if f == 'exp' and not a[1]:
            out = {(): Fraction(1)}
            mono = ()
            for m, q in a[0].items():
                at = _atom(('exp', m, Fraction(1, q.denominator)), expm=(m, Fraction(1, q.denominator)))
                mono = _mmul(mono, ((at, q.numerator),))
            return {mono: Fraction(1)}, {}
        if f == 'sqrt':
            if not a[0]:
                return {}, {}
            if not a[1] and len(a[0]) == 1:
                (m, q), = a[0].items()
                rt = sqrt(const(q)) if q > 0 and m else None
                if rt is not None and all(e % 2 == 0 and (e % 4 == 0 or _atom_info[t].get('pos') or
                                                          t == _PI_ID or _positive(t)) for t, e in m):
                    return pmul(nf(rt)[0] if rt.k != 'c' else {(): rt.a},
                                {tuple((t, e // 2) for t, e in m): Fraction(1)}), {}
            at = _atom(('sqrt', rkey(a)), fn=('sqrt', x.a[1]))
            if not a[1]:
                _red.setdefault(at, a[0])
            else:
                _atom_info[at]['sqrt_rat'] = a
            return {((at, 1),): Fraction(1)}, {}
        at = _atom((f,) + tuple(rkey(y._nf) for y in x.a[1:]), fn=x.a)
        return {((at, 1),): Fraction(1)}, {}
    if k == 'uf':
        at = _atom(('uf', x.a[0], tuple(rkey(y._nf) for y in x.a[1]), x.a[2]), node=x)
        return {((at, 1),): Fraction(1)}, {}
    raise Unsupported(k)


def _clear(p):
    r"""multiply a Laurent polynomial by a monomial to clear negative exponents; reduce."""
    for _ in range(50):
        mn = {}
        for m in p:
            for a, e in m:
                if e < mn.get(a, 0):
                    mn[a] = e
        if not mn:
            return p
        mult = tuple(sorted((a, -e) for a, e in mn.items()))
        p = pmul(p, {mult: Fraction(1)})
        if not p:
            return p
    return p


def is_zero(n):
    r"""decide n == 0 in the quotient ring (sound; complete up to independence of the atoms)."""
    n = S(n)
    p = nf(n)[0]
    if not p:
        return True
    p = _clear(p)
    if not p:
        return True
    # rational radicands
    for _ in range(20):
        sats = sorted({a for m in p for a, e in m if 'sqrt_rat' in _atom_info[a]}, reverse=True)
        if not sats:
            return not p
        a = sats[0]
        nn, dd = _atom_info[a]['sqrt_rat']
        dpoly = _PONE
        for f, e in dd.items():
            dpoly = pmul(dpoly, ppow(_factors[f], e))
        mx = max(dict(m).get(a, 0) for m in p)
        h = (mx + 1) // 2
        even, odd = {}, {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            t = {tuple(sorted(d.items())): c}
            t = pmul(pmul(t, ppow(nn, e // 2)), ppow(dpoly, h - e // 2))
            if e % 2:
                odd = padd(odd, t)
            else:
                even = padd(even, t)
        if not even and not odd:
            return True
        even, odd = _clear(even), _clear(odd)
        if not even and not odd:
            return True
        if odd:
            return False if not any('sqrt_rat' in _atom_info[b] for m in odd for b, e in m if b != a) else _zero_both(even, odd)
        p = even
    return False


def atom_sym(a):
    i = _atom_info[a]
    if 'node' in i:
        return i['node']
    if 'trig' in i:
        k, m, b = i['trig']
        return _mk('f', (k, mono_sym(m) * const(b)))
    if 'expm' in i:
        m, b = i['expm']
        return exp(mono_sym(m) * const(b))
    return _mk('f', tuple(i['fn'])) if isinstance(i['fn'][0], str) else i['fn']


def mono_sym(m):
    r = ONE
    for a, e in m:
        r = r * atom_sym(a) ** e
    return r


def poly_sym(p):
    r = ZERO
    for m, c in p.items():
        r = r + const(c) * mono_sym(m)
    return r


def residue_only(d, g, w, tol=1e-12):
    r"""d vanishes once the closed constants (floats, pi, radicals of rationals) are evaluated: what remains are
    rounding residues of the concrete float constants that entered g and w."""
    p, den = nf(d)
    if den:
        return False

    def fold(q):
        out = {}
        for m, c in q.items():
            t, rest = float(c), []
            for a, e in m:
                i = _atom_info[a]
                if i['key'][0] == 'pi':
                    t *= math.pi ** e
                elif i['key'][0] == 'sqrt' and _closed(i['fn'][1]) is not None:
                    t *= math.sqrt(_closed(i['fn'][1])) ** e
                else:
                    rest.append((a, e))
            rest = tuple(rest)
            v = out.get(rest, (0.0, 0.0))
            out[rest] = (v[0] + t, max(v[1], abs(t)))
        return out

    scale = 0.0
    for x in (g, w):
        n, dn = nf(x)
        if dn:
            return False
        for s, mx in fold(n).values():
            scale = max(scale, mx)
    scale = max(scale, 1e-3)     # absolute floor 1e-15
    return all(abs(s) <= tol * scale for s, _ in fold(p).values())


def sqrt_split(n):
    r"""n == 0 iff even + odd*sqrt(rad) == 0, for the outermost radical; or None."""
    p = _clear(nf(S(n))[0])
    sats = sorted({a for m in p for a, e in m if _atom_info[a]['key'][0] == 'sqrt'}, reverse=True)
    for a in sats:
        info = _atom_info[a]
        nn, dd = info.get('sqrt_rat') or (_red[a], {})
        dpoly = _PONE
        for f, e in dd.items():
            dpoly = pmul(dpoly, ppow(_factors[f], e))
        even, odd = {}, {}
        ok = True
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e not in (0, 1):
                ok = False
                break
            t = {tuple(sorted(d.items())): c}
            if e:
                odd = padd(odd, t)
            else:
                even = padd(even, t)
        if not ok or not odd or not even:
            continue
        # even^2 * den == odd^2 * num ?
        z = padd(pmul(pmul(even, even), dpoly), pmul(pmul(odd, odd), nn), -1)
        if not _clear(z) or is_zero(poly_sym(z)):
            return poly_sym(even), poly_sym(odd)
    return None


def _zero_both(even, odd):
    return False


# ---- numeric evaluation ---------------------------------------------------------------------
class Env(dict):
    r"""variable name -> float ; undefined functions get a fixed analytic interpretation."""

    def __init__(self, *a, seed=0, **k):
        super().__init__(*a, **k)
        self.seed = seed
        self._uf = {}

    def uf_params(self, name, n):
        key = (name, n)
        if key not in self._uf:
            import zlib
            rng = np.random.default_rng((zlib.crc32(name.encode()) + 7919 * self.seed) % 2**32)
            self._uf[key] = [(float(rng.uniform(-1.5, 1.5)), rng.uniform(-1.3, 1.3, n), float(rng.uniform(0, 6)))
                             for _ in range(4)]
        return self._uf[key]

    def uf_value(self, name, args, d):
        s = 0.0
        for a, kv, ph in self.uf_params(name, len(args)):
            w = a
            for ki, di in zip(kv, d):
                w *= ki ** di
            s = s + w * np.sin(sum(ki * x for ki, x in zip(kv, args)) + ph + sum(d) * math.pi / 2)
        return s


def evalf(n, env):
    n = S(n)
    memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [y for y in _kids(x) if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        k = x.k
        if k == 'c':
            v = float(x.a)
        elif k == 'v':
            if x.a not in env:
                import zlib
                rng = np.random.default_rng((zlib.crc32(x.a.encode()) + 104729 * getattr(env, 'seed', 0)) % 2**32)
                env[x.a] = float(rng.uniform(0.1, 0.9))
            v = env[x.a]
        elif k == 'pi':
            v = math.pi
        elif k == '+':
            v = memo[x.a[0].id] + memo[x.a[1].id]
        elif k == '*':
            v = memo[x.a[0].id] * memo[x.a[1].id]
        elif k == '/':
            v = memo[x.a[0].id] / memo[x.a[1].id]
        elif k == '^':
            v = memo[x.a[0].id] ** x.a[1]
        elif k == 'f':
            f = x.a[0]
            a = [memo[y.id] for y in x.a[1:]]
            v = getattr(math, f)(*a)
        else:
            v = env.uf_value(x.a[0], [memo[y.id] for y in x.a[1]], x.a[2])
        memo[x.id] = v
        stack.pop()
    return memo[n.id]


def variables(n, acc=None):
    seen, out, stack = set(), {}, [S(n)]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == 'v':
            out[x.a] = x
        stack.extend(_kids(x))
    return out


# ---- conditions and path exploration ----------------------------------------------------------
class Cond:
    __slots__ = ('op', 'e', 'parts')

    def __init__(self, op, e=None, parts=()):
        self.op, self.e, self.parts = op, e, parts

    def negate(self):
        o = self.op
        if o == '<':
            return Cond('<=', -self.e)
        if o == '<=':
            return Cond('<', -self.e)
        if o == '==':
            return Cond('!=', self.e)
        if o == '!=':
            return Cond('==', self.e)
        if o == 'and':
            return Cond('or', parts=tuple(p.negate() for p in self.parts))
        return Cond('and', parts=tuple(p.negate() for p in self.parts))

    def __bool__(self):
        if Explorer.current is None:
            raise SymbolicEscape(f'branch on a symbolic condition {self!r}')
        return Explorer.current.decide(self)

    def __invert__(self): return self.negate()

    def _comb(self, op, o):
        if isinstance(o, (bool, np.bool_)):
            if op == 'and':
                return self if o else False
            return True if o else self
        return Cond(op, parts=(self, o))

    def __and__(self, o): return self._comb('and', o)
    __rand__ = __and__
    def __or__(self, o): return self._comb('or', o)
    __ror__ = __or__
    def logical_and(self, o): return self._comb('and', o)
    def logical_or(self, o): return self._comb('or', o)
    def logical_not(self): return self.negate()

    def __repr__(self):
        if self.parts:
            return '(' + f' {self.op} '.join(map(repr, self.parts)) + ')'
        return f'{self.e!r} {self.op} 0'

    def holds(self, env, tol=0.0):
        if self.op == 'and':
            return all(p.holds(env, tol) for p in self.parts)
        if self.op == 'or':
            return any(p.holds(env, tol) for p in self.parts)
        v = evalf(self.e, env)
        return {'<': v < -tol, '<=': v <= -tol, '==': abs(v) <= 1e-12, '!=': abs(v) > 1e-12}[self.op]


def cond(op, a, b):
    b = S(b)
    if b is NotImplemented:
        return NotImplemented
    e = a - b
    v = e.const_value()
    if v is not None:
        return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]
    if op in ('==', '!=') and is_zero(e):
        return op == '=='
    return Cond(op, e)


class Explorer:
    current = None

    def __init__(self, assumptions=(), max_paths=256):
        self.assume = list(assumptions)
        self.max_paths = max_paths
        self.forks = 0
        self.scoped = 0

    quick = None        # a hook settling conditions without a solver (boxes)

    def decide(self, c):
        if self.quick is not None:
            q = self.quick(c)
            if q is not None:
                return q
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            from . import smt
            t = smt.feasible(self.assume + self.pc + [c])
            f = smt.feasible(self.assume + self.pc + [c.negate()])
            if t and f:
                self.pending.append(self.taken + [False])
                d = True
                self.forks += 1
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise Unsupported('infeasible path')
            if not (t and f) and (self.scoped or self.quick is not None):
                d = (d,)        # implied: no new fact (and none after the loop whose variable's range implies it)
            self.script.append(d)
        self.pos += 1
        self.taken.append(d)
        if isinstance(d, tuple):
            return d[0]
        self.pc.append(c if d else c.negate())
        return d

    def run(self, fn):
        r"""-> list of (path condition, result); all paths covered or Unsupported."""
        out = []
        work = [[]]
        while work:
            script = work.pop()
            self.script, self.pos, self.taken, self.pc, self.pending = list(script), 0, [], [], []
            self.scoped = 0
            old = Explorer.current
            Explorer.current = self
            try:
                res = fn()
            finally:
                Explorer.current = old
            out.append((list(self.pc), res))
            work.extend(self.pending)
            if len(out) + len(work) > self.max_paths:
                raise Unsupported('too many paths')
        return out


# ---- helpers -----------------------------------------------------------------------------------
def oarr(x):
    r"""object array from (nested) list of Sym."""
    a = np.array(x, dtype=object)
    return a


def symarr(name, shape):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        a[idx] = var(name + '_' + '_'.join(map(str, idx)))
    return a


def flat(x):
    r"""flatten whatever a real function returned into a list of Sym/numbers (structure preserved in order)."""
    if isinstance(x, np.ndarray):
        return [y for y in x.ravel()]
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(flat(y))
        return r
    return [x]
