# -*- coding: utf-8 -*-
r"""Symbolic sizes: the real array code is executed with symbolic degrees / element counts.

Arrays are (symbolic shape, index -> expression); a loop `for i in range(N)` with symbolic N is executed once for an
arbitrary iteration 0 <= i < N (the loop rule for bodies that only write array entries: checked on the AST), so the writes of
a loop nest are the quantified set {E[row(i..), col(i..)] = value | i..}. Index bounds are obligations for z3 (integers).
"""
import ast
import inspect
import sys
import itertools
import textwrap
import numpy as _np
from . import sym, smt, cells
from .sym import Sym, S, Unsupported
import pv.run as R

ctx = None
_serial = [0]       # never reset: assumptions about a variable must not meet those of another path


class Ctx:
    def __init__(self, mk):
        self.mk, self.loops, self.obl = mk, [], []

    def fresh(self, name='i', nonneg=True):
        _serial[0] += 1
        if nonneg:
            sym.POSITIVE.add(f'#{name}{_serial[0]}')
        return sym.var(f'#{name}{_serial[0]}')

    def here(self):
        r"""what is known of the enclosing loop variables."""
        return ranges(self.loops)

    def require(self, c, label):
        if c is True:
            return
        self.obl.append((label, c, True, self.here()))

    def equal(self, a, b, label):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return
        self.obl.append((label, S(a), S(b), self.here()))


def ranges(loops):
    out = []
    for v, lo, hi in loops:
        for c in (S(lo) <= v, v < S(hi)):
            if c is not True:
                out.append(c)
    return out


def issym(x): return isinstance(x, Sym) and x.const_value() is None


def same(a, b):
    return sym.is_zero(S(a) - S(b))


def le(a, b):
    c = S(a) <= S(b)
    return c


class Arr:
    r"""a symbolic integer array."""

    def __init__(self, shape, fn, block=None, what='array'):
        self.shape, self.fn, self.block, self.what = tuple(shape), fn, block, what
        self.regions = []
        self.owned = False      # a fresh array nothing else refers to
        self.ndim = len(self.shape)

    # reading
    def at(self, idx):
        for reg, val in reversed(self.regions):
            inside = True
            rel = []
            for i, r in zip(idx, reg):
                if r[0] == 'i':
                    if not eq(i, r[1]):
                        inside = False
                        break
                else:
                    lo, ln = r[1], r[2]
                    if not (holds(S(lo) <= S(i)) and holds(S(i) < S(lo) + S(ln))):
                        inside = False
                        break
                    rel.append(S(i) - S(lo))
            if inside:
                return val.at(rel) if isinstance(val, Arr) else val
        return self.fn(tuple(idx))

    def frozen(self):
        r"""the values now (numpy copies where it assigns or computes)."""
        a = Arr(self.shape, self.fn, self.block, self.what)
        a.regions = list(self.regions)
        return a

    def _axis(self, k, n, label):
        r"""normalise one subscript: ('i', index), ('s', lo, length) or ('r', length) (reversed)."""
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                return ('r', n)
            if k.step not in (None, 1):
                raise Unsupported('step')
            lo = 0 if k.start is None else k.start
            hi = n if k.stop is None else k.stop
            lo = n + lo if isinstance(lo, int) and lo < 0 else lo
            hi = n + hi if isinstance(hi, int) and hi < 0 else hi
            ctx.require(S(0) <= S(lo), f'{label}: slice start')
            ctx.require(S(lo) <= S(hi), f'{label}: slice order')
            ctx.require(S(hi) <= S(n), f'{label}: slice end')
            return ('s', lo, S(hi) - S(lo))
        if isinstance(k, int) and k < 0:
            k = n + k
        if not isinstance(k, (int, Sym)):
            if isinstance(k, _np.integer):
                k = int(k)
            else:
                raise Unsupported(f'index {type(k).__name__}')
        ctx.require(S(0) <= S(k), f'{label}: index >= 0')
        ctx.require(S(k) < S(n), f'{label}: index in range')
        return ('i', k)

    def _key(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:j] + (slice(None),) * (self.ndim - len(key) + 1) + key[j + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) != self.ndim:
            raise Unsupported('index rank')
        return [self._axis(k, n, self.what) for k, n in zip(key, self.shape)]

    def __getitem__(self, key):
        r = self._key(key)
        if all(x[0] == 'i' for x in r):
            return self.at([x[1] for x in r])
        return View(self, r)

    def _store(self, r, val):
        self.regions.append((r, val))

    def __setitem__(self, key, val):
        if ctx.loops:
            raise Unsupported('array region written inside a loop')
        r = self._key(key)
        if any(x[0] == 'r' for x in r):
            raise Unsupported('writing reversed')
        if isinstance(val, (Ravel, Concat)):
            raise Unsupported('writing a flattened array')
        if isinstance(val, Arr):
            shape = [x[2] for x in r if x[0] == 's']
            if len(shape) != val.ndim:
                raise Unsupported('broadcast')
            for a, b in zip(shape, val.shape):
                ctx.equal(a, b, f'{self.what}: region extent')
            val = val.frozen()
        self._store(r, val)

    def __iter__(self):
        if issym(self.shape[0]):
            raise Unsupported('iterating a symbolic array')
        return iter([self[i] for i in range(int(self.shape[0]))])

    def __contains__(self, x):
        return contains(x)

    def copy(self):
        a = Arr(self.shape, self.fn, self.block, self.what)
        a.regions = list(self.regions)
        a.owned = True
        return a

    @property
    def size(self):
        r = S(1)
        for x in self.shape:
            r = r * S(x)
        return r

    def __len__(self):
        raise Unsupported('len of a symbolic array')

    def __add__(self, o):
        a = self.frozen()
        if isinstance(o, Arr):
            o = o.frozen()
            return Arr(self.shape, lambda idx: S(a.at(idx)) + S(o.at(idx)), what=self.what)
        return Arr(self.shape, lambda idx: S(a.at(idx)) + S(o), what=self.what)

    __radd__ = __add__

    def __sub__(self, o): return self + (-S(o) if not isinstance(o, Arr) else Arr(o.shape, lambda i: -S(o.at(i))))

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)

    def _inplace(self, r):
        if not self.owned:
            raise Unsupported('an array changed in place that others may refer to')
        r.owned = True
        return r

    def __mul__(self, o):
        a = self.frozen()
        if isinstance(o, (Arr, Ravel, Concat)):
            raise Unsupported('array product')
        return Arr(self.shape, lambda idx: S(a.at(idx)) * S(o), what=self.what)
    __rmul__ = __mul__
    def __neg__(self): return self * -1

    def astype(self, *a, **k): return self

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
            return self.ravel(order)
        if any(isinstance(x, int) and x == -1 for x in shape):
            raise Unsupported('reshape to -1')
        if self.ndim != 1:
            raise Unsupported('reshape of a nd array')
        ctx.equal(self.size, prod(shape), f'{self.what}: sizes agree in reshape')
        axes = list(range(len(shape)))
        if order == 'C':
            axes = axes[::-1]

        def fn(idx):
            r, st = S(0), S(1)
            for a in axes:
                r = r + S(idx[a]) * st
                st = st * S(shape[a])
            return me.at([r])
        me = self.frozen()
        b = Arr(shape, fn, block=self.block, what=self.what)
        return b

    def ravel(self, order='C'):
        return Ravel(self, order)

    def flatten(self, order='C'): return Ravel(self, order)


class View(Arr):
    r"""basic indexing: writes go through to the array, reads see later writes."""

    def __init__(self, parent, r):
        super().__init__([x[2] if x[0] == 's' else x[1] for x in r if x[0] != 'i'], None, what=parent.what)
        self.parent, self.r = parent, r

    def _up(self, idx):
        it = iter(idx)
        return [x[1] if x[0] == 'i' else add(x[1], next(it)) if x[0] == 's' else S(x[1]) - 1 - S(next(it)) for x in self.r]

    def at(self, idx): return self.parent.at(self._up(idx))

    def frozen(self): return View(self.parent.frozen(), self.r)

    def copy(self):
        f = self.frozen()
        a = Arr(self.shape, lambda idx: f.at(idx), what=self.what)
        a.owned = True
        return a

    def _store(self, r, val):
        it = iter(r)
        out = []
        for x in self.r:
            if x[0] == 'i':
                out.append(x)
                continue
            if x[0] == 'r':
                raise Unsupported('writing reversed')
            y = next(it)
            out.append(('i', add(x[1], y[1])) if y[0] == 'i' else ('s', add(x[1], y[1]), y[2]))
        self.parent._store(out, val)


def add(a, b):
    return a + b if isinstance(a, int) and isinstance(b, int) else S(a) + S(b)


def eq(i, j):
    if isinstance(i, int) and isinstance(j, int):
        return i == j
    d = (S(i) - S(j)).const_value()
    if d is not None:
        return d == 0
    return holds(S(i) == S(j))


_decided = {}


def holds(c):
    r"""decide a comparison; signs of polynomials with coefficients of one sign in nonnegative symbols are known."""
    return c if isinstance(c, bool) else bool(c)


def settled(c):
    if c.e is None:
        return None
    key = c.op, c.e.id
    if key not in _decided:
        _decided[key] = quick(c)
    return _decided[key]


def quick(c):
    if not (isinstance(c, sym.Cond) and c.op in ('<', '<=', '==', '!=') and c.e is not None):
        return None
    for hull in (False, True):
        lo, hi = (c.e, c.e) if not hull else bounds(c.e)
        if lo is None:
            break
        a, b = sign(lo), sign(hi)
        if c.op in ('==', '!='):
            if (a and a[0] > 0 and a[1]) or (b and b[0] < 0 and b[1]):
                return c.op == '!='
        elif c.op == '<':
            if b and b[0] < 0 and b[1]:
                return True
            if a and a[0] > 0:
                return False
        else:
            if b and b[0] < 0:
                return True
            if a and a[0] > 0 and a[1]:
                return False
    return None


_upper = {}     # bounded index variable -> its exclusive upper bound (0 is the lower one)


def bounds(e):
    r"""(lower, upper) estimates of e by the ends of the index variables that occur linearly with a constant factor."""
    lo = hi = e
    hit = False
    for name in sym.variables(e):
        if name not in _upper:
            continue
        t = sym.var(name)
        c = (sym.subst(e, {t: sym.ONE}) - sym.subst(e, {t: sym.ZERO}))
        v = c.const_value()
        if v is None:
            num, den = sym.nf(c)
            v = num.get(()) if not den and len(num) == 1 and () in num else None
        if v is None or not sym.is_zero(e - sym.subst(e, {t: sym.ZERO}) - sym.const(v) * t):
            continue
        hit = True
        top = _upper[name] - 1
        lo = sym.subst(lo, {t: sym.ZERO if v > 0 else top})
        hi = sym.subst(hi, {t: top if v > 0 else sym.ZERO})
    return (lo, hi) if hit else (None, None)


def sign(e):
    try:
        num, den = sym.nf(S(e))
    except Unsupported:
        return None
    if den:
        return None
    sg = set()
    for m, v in num.items():
        if not all(_pos(at) for at, _ in m):
            return None
        sg.add(v > 0)
    if len(sg) != 1:
        return None
    return (1 if sg.pop() else -1), () in num


def _pos(at):
    n = sym._atom_info[at].get('node')
    return n is not None and n.k == 'v' and n.a in sym.POSITIVE


def contains(x):
    if x != -1 or isinstance(x, Sym):
        raise Unsupported('membership in a symbolic array')
    return False        # `-1 in numbering` is only asserted; the obligations on the numbering are stronger


class Ravel:
    r"""a flattened array, kept as the array and the order (compared structurally)."""

    def __init__(self, arr, order):
        self.arr, self.order = arr.frozen(), order
        self.ndim = 1

    def __contains__(self, x): return contains(x)

    def copy(self): return self


class Concat:
    def __init__(self, parts, axis=0): self.parts, self.axis = list(parts), axis

    def __contains__(self, x): return contains(x)


def prod(t):
    r = S(1)
    for x in t:
        r = r * S(x)
    return r


class Mat:
    r"""a symbolic matrix: quantified entry writes."""

    def __init__(self, shape):
        self.shape, self.writes = shape, []

    def __setitem__(self, key, v):
        r, c = key
        ctx.require(S(0) <= S(r), 'row >= 0')
        ctx.require(S(0) <= S(c), 'col >= 0')
        self.writes.append(dict(vars=list(ctx.loops), row=S(r), col=S(c), val=v))

    def __getitem__(self, key):
        raise Unsupported('reading matrix entries')

    def copy(self): return self
    def tocsr(self): return self


class NP:
    r"""the part of numpy used by the sized code."""
    int64, int32, ndarray = int, int, Arr

    def __getattr__(self, n):
        raise Unsupported(f'np.{n} with symbolic sizes')

    @staticmethod
    def arange(*a, dtype=None):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported('arange step')
        return Arr((S(hi) - S(lo),), lambda idx: S(lo) + S(idx[0]), block=(lo, hi), what=f'arange({lo!r}, {hi!r})')

    @staticmethod
    def zeros(shape, dtype=None, **k):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return ZArr(shape, lambda idx: S(0), what='zeros')

    @staticmethod
    def ones(shape, dtype=None, **k):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return ZArr(shape, lambda idx: S(1), what='ones')

    @staticmethod
    def shape(a): return a.shape

    @staticmethod
    def prod(a): return prod(a)

    @staticmethod
    def max(a):
        if a.block is None or a.regions:
            raise Unsupported('max')
        return S(a.block[1]) - 1        # of an increasing range

    @staticmethod
    def min(a):
        if a.block is None or a.regions:
            raise Unsupported('min')
        return S(a.block[0])

    @staticmethod
    def concatenate(parts, axis=0): return Concat(parts, axis)

    @staticmethod
    def hstack(parts):
        parts = list(parts)
        return Concat(parts, 1 if isinstance(parts[0], Arr) and parts[0].ndim > 1 else 0)

    @staticmethod
    def array(rows, dtype=None):
        if not isinstance(rows, (list, tuple)):
            raise Unsupported('np.array of something symbolic')
        return list(rows)

    @staticmethod
    def ravel(a, order='C'): return a.ravel(order)


class ZArr(Arr):
    r"""np.zeros: an array, or (when indexed by matrix entries in loops) a matrix."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mat = None

    def __setitem__(self, key, v):
        if self.ndim == 2 and isinstance(key, tuple) and len(key) == 2 and not any(isinstance(k, slice) for k in key) and \
                (ctx.loops or isinstance(v, int)):
            if self.mat is None:
                self.mat = Mat(self.shape)
            self.mat[key] = v
            return
        super().__setitem__(key, v)


def csr(E, *a, **k):
    if isinstance(E, ZArr):
        return E.mat if E.mat is not None else Mat(E.shape)
    return E


def box_range(*a):
    if not any(isinstance(x, Sym) and x.const_value() is None for x in a):
        return range(*[int(x.const_value()) if isinstance(x, Sym) else x for x in a])
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2:
        raise Unsupported('range step')
    fr = sys._getframe(1)
    if (fr.f_code, fr.f_lineno) not in _checked:
        loops_ok(fr.f_code, fr.f_lineno)
        _checked.add((fr.f_code, fr.f_lineno))
    ex = sym.Explorer.current

    def gen():
        v = ctx.fresh(nonneg=isinstance(lo, int) and lo >= 0)
        rec = (v, lo, hi)
        cs = ranges([rec])
        live = ctx.mk.assumptions
        live.extend(cs)
        ctx.loops.append(rec)
        ex.scoped += 1
        yield v
        ex.scoped -= 1
        ctx.loops.pop()
        for c in cs:
            live.pop(max(i for i, x in enumerate(live) if x is c))
    return gen()


_checked = set()


def loops_ok(code, line):
    r"""the loop rule needs bodies without loop-carried scalars, break, continue, while or return."""
    try:
        lines, first = inspect.getsourcelines(code)
        tree = ast.parse(textwrap.dedent(''.join(lines)))
    except (OSError, SyntaxError) as e:
        raise Unsupported(f'source of {code.co_name}: {e}')
    line = line - max(first, 1) + 1
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.For) and n.iter.lineno <= line <= n.iter.end_lineno]
    if len(loops) != 1:
        raise Unsupported('a symbolic range outside a for statement')
    loop = loops[0]
    if not (isinstance(loop.iter, ast.Call) and getattr(loop.iter.func, 'id', '') == 'range'):
        raise Unsupported('a symbolic range inside another iterator')
    if loop.orelse or any(isinstance(n, (ast.Return, ast.While, ast.Break, ast.Continue, ast.Yield)) for n in ast.walk(loop)):
        raise Unsupported('return, break, continue, while or else in a sized loop')
    _body(loop.body, tree, loop)


def _names(st, kind):
    return [(n.lineno, n.col_offset, n.id) for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, kind)]


def _body(body, tree, loop):
    stored = {n for st in body for _, _, n in _names(st, ast.Store)}
    inside = {id(n) for n in ast.walk(loop)}
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                raise Unsupported('loop-carried scalar')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'extend', 'add', 'update', 'pop', 'insert', 'sort', 'remove'):
                raise Unsupported('container changed in a sized loop')
    for nm in stored:
        after = [n for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)
                 and id(n) not in inside]
        if after and not any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store) and id(n) not in inside
                             for n in ast.walk(tree)):
            raise Unsupported('scalar of a loop used after it')
        first = None
        for st in body:     # the first statement of the body that mentions the name must define it
            if any(x == nm for _, _, x in _names(st, ast.Load) + _names(st, ast.Store)):
                first = st
                break
        if isinstance(first, ast.Assign):
            if any(x == nm for _, _, x in _names(first.value, ast.Load)):
                raise Unsupported('loop-carried scalar')
        elif isinstance(first, (ast.For, ast.If)):
            others = [st for st in body if st is not first]
            if any(x == nm for st in others for _, _, x in _names(st, ast.Load)):
                raise Unsupported('possibly loop-carried scalar')
            if isinstance(first, ast.For):
                if any(x == nm for _, _, x in _names(first.iter, ast.Load)):
                    raise Unsupported('possibly loop-carried scalar')
                if any(x == nm for _, _, x in _names(first.target, ast.Store)):
                    continue
                _inner(first.body, nm)
            else:
                if any(x == nm for _, _, x in _names(first.test, ast.Load)):
                    raise Unsupported('possibly loop-carried scalar')
                _inner(first.body, nm)
                _inner(first.orelse, nm)
        else:
            raise Unsupported('possibly loop-carried scalar')


def _inner(body, nm):
    r"""within this block the name is defined before it is used."""
    for n, st in enumerate(body):
        L = [x for _, _, x in _names(st, ast.Load) if x == nm]
        W = [x for _, _, x in _names(st, ast.Store) if x == nm]
        if not L and not W:
            continue
        if isinstance(st, ast.Assign):
            if not any(x == nm for _, _, x in _names(st.value, ast.Load)):
                return
        elif isinstance(st, (ast.For, ast.If)):
            head = st.iter if isinstance(st, ast.For) else st.test
            rest = any(x == nm for s in body[n + 1:] for _, _, x in _names(s, ast.Load))
            if not rest and not any(x == nm for _, _, x in _names(head, ast.Load)):
                if isinstance(st, ast.For) and any(x == nm for _, _, x in _names(st.target, ast.Store)):
                    return
                _inner(st.body, nm)
                _inner(st.orelse, nm)
                return
        raise Unsupported('possibly loop-carried scalar')


class boxed:
    r"""run the functions of the modules with symbolic sizes."""

    def __init__(self, mk, *mods, **repl):
        self.mk = mk
        self.mods = mods
        self.repl = dict(np=NP(), arange=NP.arange, ones=NP.ones, zeros=NP.zeros, concatenate=NP.concatenate, csr_matrix=csr, range=box_range, csc_matrix=csr)
        self.repl.update(repl)

    def __enter__(self):
        global ctx
        ctx = Ctx(self.mk)
        self.saved = []
        sym.Explorer.quick = staticmethod(settled)
        for m in self.mods:
            d = m.__dict__
            for n, v in self.repl.items():
                if n in d or n == 'range':
                    self.saved.append((d, n, d.get(n, self)))
                    d[n] = v
        return ctx

    def __exit__(self, *a):
        sym.Explorer.quick = None
        for d, n, v in reversed(self.saved):
            if v is self:
                del d[n]
            else:
                d[n] = v


def array_items(label, got, shape, spec):
    r"""obligations that the symbolic array `got` has the shape and, at an arbitrary index, the value spec(idx)."""
    out = []
    if isinstance(got, ZArr) and got.mat is not None:
        raise Unsupported('matrix')
    if not isinstance(got, Arr) or got.ndim != len(shape):
        raise Unsupported(f'{label}: not an array of rank {len(shape)}')
    for a, (x, y) in enumerate(zip(got.shape, shape)):
        out.append((f'{label}: extent {a}', S(x), S(y)))
    vs = [(ctx.fresh('x'), 0, n) for n in shape]
    loc = ranges(vs)
    with scope(loc):
        g = S(got.at([v for v, _, _ in vs]))
        w = S(spec([v for v, _, _ in vs]))
    out.append((f'{label}: at every index', g, w, loc))
    return out


def empty(loc):
    r"""there is no such index on the current path."""
    ex = sym.Explorer.current
    if not ex.pc:
        return False
    from . import smt
    return not smt.feasible(ex.assume + ex.pc + list(loc))


class scope:
    r"""local assumptions while forking on an arbitrary index."""

    def __init__(self, loc): self.loc = loc

    def __enter__(self):
        for c in self.loc:      # t < n with t nonnegative
            if isinstance(c, sym.Cond) and c.op == '<':
                for name in sym.variables(c.e):
                    if name in sym.POSITIVE and name not in _upper:
                        t = sym.var(name)
                        n = -sym.subst(c.e, {t: sym.ZERO})
                        if sym.is_zero(c.e - t + n):
                            _upper[name] = n
        ctx.mk.assumptions.extend(self.loc)
        sym.Explorer.current.scoped += 1

    def __exit__(self, *a):
        sym.Explorer.current.scoped -= 1
        del ctx.mk.assumptions[len(ctx.mk.assumptions) - len(self.loc):]


def matrix_items(label, mat, n, k, ori, p, tri=False):
    r"""obligations that the symbolic matrix is the boundary operator: each row of each component is written once, for an
    arbitrary cell, with exactly the faces of that cell."""
    N, D = cells.Numbering(n, k, ori, p, tri), cells.Numbering(n, k + 1, ori, p, tri)
    if not isinstance(mat, Mat):
        raise Unsupported(f'{label}: not a matrix')
    out = [(f'{label}: rows', S(mat.shape[0]), S(D.total)), (f'{label}: columns', S(mat.shape[1]), S(N.total))]
    groups = []
    for w in mat.writes:
        g = next((g for g in groups if len(g[0]) == len(w['vars']) and all(a[0] is b[0] for a, b in zip(g[0], w['vars'])) and
                  same(g[1], w['row'])), None)
        if g is None:
            groups.append((w['vars'], w['row'], [w]))
        else:
            g[2].append(w)
    done = {}
    for gi, (vs, row, ws) in enumerate(groups):
        hit = _component(D, vs, row, tri)
        if hit is None:
            raise Unsupported(f'{label}: row {row!r} not recognised')
        c, idx, perm = hit
        if c in done:
            raise Unsupported(f'{label}: component {c} written by two groups')
        done[c] = True
        shape = D.shapes[c]
        for a, (v, lo, hi) in enumerate(perm):
            out.append((f'{label}: component {c}: loop {a} starts at', S(lo), S(0)))
            out.append((f'{label}: component {c}: loop {a} ends at', S(hi), S(shape[a])))
        loc = ranges(vs)
        with scope(loc):
            want = []
            for d, off, sg in cells.boundary(n, k, ori, c):
                q = N.dof(d, tuple(S(i) + o for i, o in zip(idx, off)))
                if q is not None:
                    want.append((d, off, q, sg))
        got = []
        for w in ws:        # a later write of the same entry wins
            got = [x for x in got if not same(x['col'], w['col'])] + [w]
        for d, off, q, sg in want:
            m = [x for x in got if same(x['col'], q)]
            got = [x for x in got if not any(x is y for y in m)]
            out.append((f'{label}: component {c}, face {d}{off}', S(m[0]['val']) if m else S(0), S(sg), loc))
        for x in got:
            out.append((f'{label}: component {c}, entry in column {x["col"]!r} which is no face', S(x['val']), S(0), loc))
    for c in range(len(D.comps)):
        out.append((f'{label}: the rows of component {c} are written', c in done, True))
    return out


def _component(D, vs, row, tri):
    for c, (e, _) in enumerate(D.comps):
        lo = 1 if (tri and e[0] == 0 and D.k > 0) else 0
        for perm in itertools.permutations(vs):
            if len(perm) != D.n:
                return None
            idx = tuple(S(v[0]) + (lo if a == 0 else 0) for a, v in enumerate(perm))
            r = _dof(D, c, idx, tri)
            if same(r, row):
                return c, idx, perm
    return None


def _dof(D, c, idx, tri):
    e = D.comps[c][0]
    i0 = idx[0] - 1 if tri and e[0] == 0 else idx[0]
    r, st = D.starts[c] + i0, D.shapes[c][0]
    for a in range(1, D.n):
        r = r + idx[a] * st
        st = st * D.shapes[c][a]
    return r


def spec_array(num, c):
    r"""the contract of a local numbering function: component c as a symbolic array."""
    e, lo = num.comps[c][0], 1 if (num.tri and num.comps[c][0][0] == 0 and num.k > 0) else 0
    b = cells.box(e, num.p)
    shape = (b[0] - lo,) + tuple(b[1:])
    size = prod(shape)
    return Arr(shape, lambda idx: S(num.dof(c, (S(idx[0]) + lo,) + tuple(idx[1:]))), block=(num.starts[c], num.starts[c] + size),
               what=f'numbering {c}')
