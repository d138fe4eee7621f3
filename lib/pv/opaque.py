# -*- coding: utf-8 -*-
r"""Opaque operands: `Op` values carry no data, only how they were computed; the code under contract is executed on them as on any matrix or vector.

Whatever it returns is read off as a term, so an equation between terms holds for every value of the operands; an arbitrary element is a token the code can do
nothing with but compare and pass on. Anything else a function tries to do with these raises (the obligation is then not proved)."""
import numpy as np
from pv.run import Unsupported


class Tok:
    r"""an arbitrary index."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

    def _no(self, *a, **k): raise Unsupported(f'arithmetic with the arbitrary index {self.name}')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __mod__ = __int__ = __index__ = __float__ = __bool__ = _no


class Op:
    __array_ufunc__ = None

    def __init__(self, *term): self.__dict__['term'] = term
    def __repr__(self): return '(' + ' '.join(map(repr, self.term)) + ')'

    def __neg__(self): return Op('neg', self)
    def __add__(self, o): return Op('+', self, o)
    def __sub__(self, o): return Op('-', self, o)
    def __matmul__(self, o): return Op('@', self, o)
    def __rmul__(self, o): return Op('scaled', o, self)
    def __mul__(self, o): return Op('scaled', o, self)
    def copy(self): return self
    def tocsr(self): return self
    def tocsc(self): return self
    @property
    def T(self): return self.term[1] if self.term[0] == 'T' else Op('T', self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'an opaque value has no {n}')

    def __setitem__(self, *a): raise Unsupported('an operand is written to')
    def __iadd__(self, o): raise Unsupported('an operand is changed in place')
    __isub__ = __imul__ = __iadd__


def norm(t):
    if isinstance(t, Op):
        return tuple(norm(x) for x in t.term)
    if isinstance(t, (list, tuple)):
        return tuple(norm(x) for x in t)
    return t


def value(t):
    r"""the value of a term for random 3 by 3 operands."""
    if isinstance(t, np.ndarray):
        return t
    h, a = t.term[0], t.term[1:]
    if h == 'neg':
        return -value(a[0])
    if h in '+-@':
        x, y = value(a[0]), value(a[1])
        return x + y if h == '+' else x - y if h == '-' else x @ y
    if h == 'scaled':
        return a[0] * value(a[1])
    if h == 'T':
        return value(a[0]).T
    if h == 'inv':
        return np.linalg.inv(value(a[0]))
    if h == 'bmat':
        return np.block([[np.zeros((3, 3)) if x is None else value(x) for x in r] for r in a])
    if h == 'concatenate':
        return np.concatenate([value(x) for x in a])
    seed = sum(ord(c) * 31 ** i for i, c in enumerate(repr(norm(t)))) % 2 ** 31
    return np.random.default_rng(seed).uniform(1, 2, (3, 3))


class Choice:
    r"""membership that may go either way (both are followed)."""
    def __init__(self, yes, value=None): self.yes, self.value, self.written = yes, value, []
    def __contains__(self, k): return self.yes
    def __len__(self): return 1 if self.yes else 0
    def __getitem__(self, k):
        if not self.yes:
            raise KeyError(k)
        return self.value(k) if callable(self.value) else self.value

    def __setitem__(self, k, v): self.written.append((k, v))


class Gather:
    r"""a gathering matrix: all its contract gives here is an element index set."""
    _signature = 'g'
    num_elements = 1

    def __init__(self, *gms): self._gms = gms
    def __contains__(self, e): return True
    def __iter__(self): return iter(())
    def __len__(self): return 1
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    shape = None


def bmat(data, format=None): return Op('bmat', *[tuple(r) for r in data])
def concatenate(v): return Op('concatenate', *v)
def is_sparse(x): return isinstance(x, Op)


class NP:
    ones = zeros = None

    def __getattr__(self, n): return getattr(np, n)
    concatenate = staticmethod(concatenate)


class Inv:
    @staticmethod
    def inv(M): return Op('inv', M)
