# -*- coding: utf-8 -*-
r"""Formal arrays: arrays of arbitrary sizes and arbitrary entries, known by name only.

A Formal is a linear combination of monomials in named arrays with free (axis) and bound (summed) indices; the code under contract runs on it through einsum, @,
+, -, scalar and elementwise products.  Two Formals with the same normal form are equal for every size of every axis and every entry.  Axis sizes are names too: an
operation on axes of different sizes is an error of the code, exactly as numpy would raise.  Anything else asked of a Formal is Unsupported."""
import itertools
from fractions import Fraction
import numpy as np
from pv.run import Unsupported


def _cancel(mono):
    r"""a[i] * (1/a)[i] = 1 where another factor keeps the index."""
    mono = list(mono)
    for a, ix in mono:
        if a.startswith('1/') and (a[2:], ix) in mono:
            rest = list(mono)
            rest.remove((a, ix))
            rest.remove((a[2:], ix))
            if all(any(i in jx for _, jx in rest) for i in ix): return _cancel(rest)
    return mono


def _canon(mono):
    r"""mono: list of (atom, indices), axes >= 0, bound < 0 -> the least renaming of the bound indices."""
    mono = _cancel(mono)
    bound = sorted({i for _, ix in mono for i in ix if i < 0})
    best = None
    for perm in itertools.permutations(range(1, len(bound) + 1)):
        ren = {b: -q for b, q in zip(bound, perm)}
        m = tuple(sorted((a, tuple(ren.get(i, i) for i in ix)) for a, ix in mono))
        if best is None or m < best: best = m
    return best


class Formal:
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, shape, terms):
        self.__dict__['shape'] = tuple(shape)
        self.__dict__['terms'] = {m: c for m, c in terms.items() if c != 0}

    @staticmethod
    def atom(name, *shape): return Formal(shape, {((name, tuple(range(len(shape)))),): Fraction(1)})

    @property
    def ndim(self): return len(self.shape)

    def same(self, o): return isinstance(o, Formal) and self.shape == o.shape and self.terms == o.terms

    def __repr__(self):
        return ' + '.join(f'{c}*' + '*'.join(f'{a}{list(ix)}' for a, ix in m) for m, c in sorted(self.terms.items())) or '0'

    def _lin(self, o, s):
        if not isinstance(o, Formal):
            if isinstance(o, (int, float)) and o == 0: return self
            raise Unsupported(f'Formal + {type(o).__name__}')
        if self.shape != o.shape:
            if self.ndim == o.ndim: raise ValueError(f'shapes {self.shape} and {o.shape}')
            raise Unsupported('broadcast')
        t = dict(self.terms)
        for m, c in o.terms.items(): t[m] = t.get(m, 0) + s * c
        return Formal(self.shape, t)

    def __add__(self, o): return self._lin(o, 1)
    def __sub__(self, o): return self._lin(o, -1)
    __radd__ = __add__
    def __rsub__(self, o): return (-self)._lin(o, 1)
    def __neg__(self): return self._scale(-1)
    def __pos__(self): return self

    def _scale(self, k):
        k = Fraction(k)
        return Formal(self.shape, {m: c * k for m, c in self.terms.items()})

    def __mul__(self, o):
        if isinstance(o, Formal):
            n = max(self.ndim, o.ndim)
            ix = 'abcdef'[:n]
            return einsum(f'{ix[n - self.ndim:]},{ix[n - o.ndim:]}->{ix}', self, o)
        if isinstance(o, (int, float, np.integer, np.floating, Fraction)): return self._scale(o)
        raise Unsupported(f'Formal * {type(o).__name__}')
    __rmul__ = __mul__

    def reciprocal(self):
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if len(m) == 1 and all(i >= 0 for i in m[0][1]):
                a = m[0][0]
                return Formal(self.shape, {((a[2:] if a.startswith('1/') else '1/' + a, m[0][1]),): 1 / c})
        raise Unsupported('reciprocal of a sum')

    def __pow__(self, k):
        if k == 2: return self * self
        if k == 1: return self
        if k == -1: return self.reciprocal()
        if k == .5: return Root(self)
        raise Unsupported('Formal ** .')

    def __rtruediv__(self, o): return self.reciprocal() * o

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)): shape = tuple(shape[0])
        return Shaped(self, tuple(shape), order)

    def __truediv__(self, o):
        if isinstance(o, Formal): return self * o.reciprocal()
        if isinstance(o, (int, float, Fraction)): return self._scale(Fraction(1) / Fraction(o))
        raise Unsupported('Formal / .')

    def __matmul__(self, o):
        if not isinstance(o, Formal): raise Unsupported(f'Formal @ {type(o).__name__}')
        if self.ndim not in (1, 2) or o.ndim not in (1, 2): raise Unsupported('@ of higher arrays')
        a, b = 'ab'[2 - self.ndim:], 'bc'[:o.ndim]
        return einsum(f'{a},{b}->' + a[:-1] + b[1:], self, o)

    @property
    def T(self): return einsum('abcdef'[:self.ndim] + '->' + 'abcdef'[:self.ndim][::-1], self)
    def transpose(self, *axes):
        if axes: raise Unsupported('transpose with axes')
        return self.T

    def toarray(self): return self
    tocsr = tocsc = todense = copy = toarray

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'a Formal has no {n}')

    def _no(self, *a, **k): raise Unsupported('a Formal has no entries')
    __array__ = __array_function__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __float__ = __int__ = __rmatmul__ = _no
    __lt__ = __gt__ = __le__ = __ge__ = __abs__ = _no

    def value(self, env, sizes):
        r"""numeric value; env: {atom name: array}."""
        out = np.zeros([sizes[s] for s in self.shape])
        L = 'abcdefghijklmnopqrstuvwxyz'
        for m, c in self.terms.items():
            names = {}

            def l(i):
                return L[i] if i >= 0 else L[12 - i]
            spec = ','.join(''.join(l(i) for i in ix) for _, ix in m)
            out = out + float(c) * np.einsum(spec + '->' + L[:self.ndim], *[env[a] if a in env else 1 / env[a[2:]] for a, _ in m])
        return out


class Shaped:
    r"""a Formal in another shape (the sizes are those the code states)."""
    __array_ufunc__ = None
    def __init__(self, f, shape, order): self.f, self.shape, self.order = f, shape, order
    def same(self, o): return isinstance(o, Shaped) and self.f.same(o.f) and self.shape == o.shape and self.order == o.order
    def __repr__(self): return f'{self.f!r} reshaped to {self.shape} in order {self.order}'


class Root:
    r"""a square root."""
    def __init__(self, f): self.f = f
    def __repr__(self): return f'sqrt({self.f!r})'


class Blocks:
    r"""a block array; None: zeros.  rows: list of lists."""
    def __init__(self, rows): self.rows = [[None if isinstance(x, Formal) and not x.terms else x for x in r] for r in rows]
    @property
    def T(self): return Blocks([[None if x is None else x.T for x in r] for r in zip(*self.rows)])
    def same(self, o):
        return isinstance(o, Blocks) and [len(r) for r in self.rows] == [len(r) for r in o.rows] and all(
            (x is None and y is None) or (x is not None and y is not None and x.same(y)) for r, q in zip(self.rows, o.rows) for x, y in zip(r, q))
    def toarray(self): return self
    tocsr = tocsc = toarray
    def __repr__(self): return f'blocks {self.rows}'


def bmat(rows, **k):
    import scipy.sparse as sp
    if any(isinstance(x, Formal) for r in rows for x in r): return Blocks(rows)
    return sp.bmat(rows, **k)


def stored(cls):
    r"""csr_matrix and the like: of a Formal, the Formal."""
    return lambda x, *a, **k: x if isinstance(x, (Formal, Blocks)) else cls(x, *a, **k)


class Stack(Formal):
    r"""one row per element."""
    def __init__(self, rows):
        Formal.__init__(self, ('elements',) + rows[0].shape, {})
        self.__dict__['rows'] = rows

    def __getitem__(self, e):
        if not isinstance(e, (int, np.integer)): raise Unsupported('rows of a stack')
        return self.rows[e]


def einsum(spec, *ops, **k):
    if not any(isinstance(o, Formal) for o in ops): return np.einsum(spec, *ops, **k)
    if not all(isinstance(o, Formal) for o in ops): raise Unsupported('einsum of mixed operands')
    spec = spec.replace(' ', '')
    if '...' in spec: raise Unsupported('ellipsis')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        one = ''.join(ins)
        out = ''.join(sorted(c for c in set(one) if one.count(c) == 1))
    if len(ins) != len(ops): raise ValueError(f'einsum: {len(ops)} operands for {spec}')
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise ValueError(f'einsum: {s} for an array of {o.ndim} axes')
        for c, d in zip(s, o.shape):
            if size.setdefault(c, d) != d: raise ValueError(f'einsum {spec}: axes of sizes {size[c]} and {d} share {c}')
    if len(set(out)) != len(out) or any(c not in size for c in out): raise ValueError(f'einsum: output {out}')
    letters = {c: i for i, c in enumerate(out)}
    for c in size:
        if c not in letters: letters[c] = -1 - len([x for x in letters.values() if x < 0])
    terms = {}
    nb = len([x for x in letters.values() if x < 0])
    for combo in itertools.product(*[o.terms.items() for o in ops]):
        c, mono, fresh = Fraction(1), [], nb
        for s, (m, k_) in zip(ins, combo):
            c *= k_
            ren = {}
            for a, ix in m:
                jx = []
                for i in ix:
                    if i >= 0: jx.append(letters[s[i]])
                    else:
                        if i not in ren:
                            fresh += 1
                            ren[i] = -fresh
                        jx.append(ren[i])
                mono.append((a, tuple(jx)))
        m = _canon(mono)
        terms[m] = terms.get(m, 0) + c
    return Formal([size[c] for c in out], terms)


class NP:
    r"""numpy, with the operations a Formal has."""
    einsum = staticmethod(einsum)
    def __getattr__(self, n): return getattr(np, n)
    @staticmethod
    def dot(a, b): return a @ b if isinstance(a, Formal) else np.dot(a, b)
    @staticmethod
    def multiply(a, b): return a * b if isinstance(a, Formal) else np.multiply(a, b)
    @staticmethod
    def add(a, b): return a + b
    @staticmethod
    def reciprocal(a): return a.reciprocal() if isinstance(a, Formal) else np.reciprocal(a)
    @staticmethod
    def square(a): return a * a
    @staticmethod
    def vstack(rows): return Blocks([[x] for x in rows]) if any(isinstance(x, Formal) for x in rows) else np.vstack(rows)
    @staticmethod
    def hstack(rows):
        if not any(isinstance(x, Formal) for x in rows): return np.hstack(rows)
        return Blocks([[x] for x in rows]) if all(x.ndim == 1 for x in rows) else Blocks([list(rows)])
    @staticmethod
    def concatenate(rows, axis=0):
        if not any(isinstance(x, Formal) for x in rows): return np.concatenate(rows, axis)
        return Blocks([[x] for x in rows]) if axis == 0 else Blocks([list(rows)])
    @staticmethod
    def tensordot(a, b, axes=2):
        if isinstance(a, Formal) and axes == 0: return einsum('a,b->ab', a, b)
        return np.tensordot(a, b, axes=axes)
    @staticmethod
    def swapaxes(a, i, j):
        if isinstance(a, Formal):
            x = list('abcdef'[:a.ndim])
            x[i], x[j] = x[j], x[i]
            return einsum('abcdef'[:a.ndim] + '->' + ''.join(x), a)
        return np.swapaxes(a, i, j)
    @staticmethod
    def sum(x, *a, **k):
        if isinstance(x, (list, tuple)) and any(isinstance(y, Formal) for y in x) and not a and not k:
            t = x[0]
            for y in x[1:]: t = t + y
            return t
        if isinstance(x, Formal) and not a and not k: return einsum('abcdef'[:x.ndim] + '->', x)
        return np.sum(x, *a, **k)


class Source:
    r"""named arrays: Formal, or (numeric) random ones."""
    def __init__(self, symbolic, seed=0, sizes=None):
        self.symbolic, self.rng, self.sizes, self.made = symbolic, np.random.default_rng(seed), dict(sizes or {}), {}

    def size(self, s):
        if s not in self.sizes: self.sizes[s] = int(self.rng.integers(2, 5))
        return self.sizes[s]

    def __call__(self, name, *shape):
        if name not in self.made:
            self.made[name] = Formal.atom(name, *shape) if self.symbolic else self.rng.uniform(-1, 1, [self.size(s) for s in shape])
        return self.made[name]

    def einsum(self, spec, *ops): return einsum(spec, *ops) if self.symbolic else np.einsum(spec, *ops)

    def item(self, label, got, want):
        if hasattr(got, 'toarray') and not isinstance(got, Formal): got = got.toarray()
        if not self.symbolic: return label, np.asarray(got), np.asarray(want)
        if isinstance(got, (Blocks, Shaped)) or isinstance(want, (Blocks, Shaped)):
            if isinstance(got, (Blocks, Shaped, Formal)) and got.same(want): return label, 'the same', 'the same'
            return label, f'{got!r}', f'{want!r}'
        if not isinstance(got, Formal): raise Unsupported(f'{label}: {type(got).__name__}')
        if not got.same(want) and got.shape == want.shape:
            names = {}
            for f in (got, want):
                for m in f.terms:
                    for a, ix in m: names[a[2:] if a.startswith('1/') else a] = None
            for s in range(3):
                src = Source(False, s)
                try: env = {a: src(a, *self.made[a].shape) for a in names}
                except KeyError: break
                if not np.allclose(got.value(env, {s: src.size(s) for s in got.shape}), want.value(env, {s: src.size(s) for s in want.shape})): break
            else: raise Unsupported(f'{label}: normal forms differ, values agree')
        return label, f'{got.shape} {got!r}', f'{want.shape} {want!r}'
