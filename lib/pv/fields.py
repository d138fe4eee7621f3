r"""contracts and specification helpers shared by the checks of time-dependent fields."""
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, _bc
from pv import sym
import pv.run as R

TS = 'phyem.tools.functions.time_space.'
NU = 'phyem.tools.numerical.time_space.'
W = {n: TS + f'_{n}d.wrappers.' for n in (1, 2, 3)}
DIMS = {1: 'x', 2: 'xy', 3: 'xyz'}


# ---------------------------------------------------------------- callee contract: the numerical derivative is exact
def _dnd(f, x, n):
    e = sym.S(np.asarray(x, dtype=object).ravel()[0])
    if e.k == 'v':
        return R._map(lambda y: R._nd(sym.S(y), e, n), f(x))
    if np.size(x) != 1:
        raise R.Unsupported('derivative at several expressions')
    v = sym.var(f'dv{e.id}')                  # differentiate at a fresh variable, then put the argument back
    y = np.empty(np.shape(x), dtype=object)
    y[...] = v
    return R._map(lambda z: sym.subst(R._nd(sym.S(z), v, n), {v: e}), f(y if np.ndim(x) else v))


def exact_derivative(f, x, method='central', h=None):
    return _dnd(f, x, 1)


class ExactND:
    r"""contract of numdifftools.Derivative (external): the derivative of order n."""
    def __init__(self, f, step=None, n=1, order=2):
        self.f, self.n = f, n

    def __call__(self, x):
        return _dnd(self.f, x, self.n)


def env():
    r"""symbolic runs: numpy proxies + the contract of `derivative` (proved below for its own body)."""
    mods = [get(W[1] + 'scalar')]
    mods += [get(W[n] + x) for n in (2, 3) for x in ('scalar', 'vector', 'tensor')]
    mods += [get(NU + f'_{n}d.{x}') for n in (1, 2, 3) for x in ('partial_derivative', 'partial_derivative_as_functions')]
    mods += [get(W[2] + 'helpers.' + x) for x in
             ('log_helper', 'exp_helper', 'norm_helper', 'scalar_mul')] + [get(W[3] + 'helpers.scalar_mul')]
    mods += [get('phyem.tools.vector_calculus'), get(W[2] + 'scalar_on_lines'), get(W[2] + 'vector_on_lines'),
             get(TS + '_2d.constant')]
    return np_patched(*mods, **(dict(derivative=exact_derivative, nd=Stub(Derivative=ExactND)) if R.MODE['symbolic'] else {}))


def arity(n, g):
    r"""a plain function of (t, x[, y[, z]]): the code inspects the argument count."""
    return {1: lambda t, x: g(t, x), 2: lambda t, x, y: g(t, x, y), 3: lambda t, x, y, z: g(t, x, y, z)}[n]


def field(mk, name, n, d=None, steady=False):
    if steady:
        return arity(n, lambda t, *X: mk.uf(name, list(X), None if d is None else d[1:]))
    return arity(n, lambda t, *X: mk.uf(name, [t] + list(X), d))


def unit_d(n, i):
    r"""derivative multi-index: i = 0 is t."""
    d = [0] * (n + 1)
    for j in (i if isinstance(i, (list, tuple)) else [i]):
        d[j] += 1
    return tuple(d)


def at(mk, n):
    return [mk.real('t', 0, 1)] + [mk.pt('X' + c, -1, 1) for c in DIMS[n]]


def val(mk, name, P, *ds):
    n = len(P) - 1
    return mk.uf(name, P, unit_d(n, list(ds)) if ds else None)


def ap(mk, fn, x):
    return _bc(lambda a: getattr(sym.S(a), fn)(), [x]) if mk.symbolic else getattr(np, fn)(x)


def mkscalar(mk, name, n, given=(), steady=False):
    C = get(W[n] + f'scalar:T{n}dScalar')
    kw = {}
    if given:
        D = [None] * (n + 1)
        for i in given:
            D[i] = field(mk, name, n, unit_d(n, i))
        kw['derivative'] = D
    if steady:
        kw['steady'] = True
    return C(field(mk, name, n), **kw)


def mkvector(mk, name, n, given=(), **kw):
    C = get(W[n] + f'vector:T{n}dVector')
    JM = [[None] * n for _ in range(n)]
    TD = [None] * n
    for i, j in given:
        f = field(mk, name + str(i), n, unit_d(n, j))
        if j == 0:
            TD[i] = f
        else:
            JM[i][j - 1] = f
    if given:
        kw['Jacobian_matrix'] = JM
        kw['time_derivative'] = TD
    return C(*[field(mk, name + str(i), n) for i in range(n)], **kw)


def mktensor(mk, name, n):
    C = get(W[n] + f'tensor:T{n}dTensor')
    return C(*[field(mk, f'{name}{i}{j}', n) for i in range(n) for j in range(n)])


# expected values ------------------------------------------------------------
def grad(mk, s, P): return [val(mk, s, P, j) for j in range(1, len(P))]


def V(mk, v, P): return [val(mk, f'{v}{i}', P) for i in range(len(P) - 1)]


def JV(mk, v, P): return [[val(mk, f'{v}{i}', P, j) for j in range(1, len(P))] for i in range(len(P) - 1)]


def div(mk, v, P):
    J = JV(mk, v, P)
    return sum(J[i][i] for i in range(len(J)))


def rot(mk, v, P):
    J = JV(mk, v, P)
    return J[1][0] - J[0][1]


def curl3(mk, v, P):
    J = JV(mk, v, P)
    return [J[2][1] - J[1][2], J[0][2] - J[2][0], J[1][0] - J[0][1]]


def lap(mk, s, P): return sum(val(mk, s, P, j, j) for j in range(1, len(P)))


def shape_kind(f, n, kind):
    k = {'s': (1,), 'v': (n,), 't': (n, n)}[kind]
    return [('ndim', f.ndim, n), ('shape', tuple(f.shape), k), ('is a time-space field', f._is_time_space_func(), True)]


def SP(mk, n, names):
    P = at(mk, n)
    return P


def givens(n):
    yield ()
    for i in range(n + 1):
        yield (i,)
    yield tuple(range(n + 1))
