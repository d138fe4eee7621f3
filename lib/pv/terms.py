# -*- coding: utf-8 -*-
r"""A term of three (four) forms in a weak formulation, carried to the local systems of both implementations, and the integral it denotes.

The system of the experiment is, with the test form T (one of the operands) and its unknown mate X,
    (X, T) + s c <term> = (G, T),      (U, t_U) = (G_U, t_U)  for every operand U that is neither T nor known,
so that the first block row, at given cochains, is a linear functional of T's cochain whose value is known from the reconstructed forms.
"""
import copy
import random
import numpy as np
import phyem as ph
from phyem.src.wf.main import WeakFormulation
from . import geo, world


GAMMA = (r"\Gamma_{\alpha}", r"\Gamma_{\beta}")


def htt_config(name): return next(t[1:] for t in geo.MSEHTT + MORE_HTT if t[0] == name)
def py_config(name): return next(t[1:] for t in geo.MSEPY + MORE_PY if t[0] == name)


def lattice(nx, ny, a=(1., -.2), b=(.3, 1.1)):
    r"""equal parallelograms, each with its own first node."""
    P = [[i * a[0] + j * b[0], i * a[1] + j * b[1]] for j in range(ny + 1) for i in range(nx + 1)]
    num = lambda i, j: j * (nx + 1) + i
    typ, par, maps = {}, {}, {}
    for j in range(ny):
        for i in range(nx):
            e = j * nx + i
            ring = [num(i, j), num(i + 1, j), num(i + 1, j + 1), num(i, j + 1)]
            r = (i + 2 * j) % 4
            ring = ring[r:] + ring[:r]
            typ[e], maps[e], par[e] = 9, ring, [P[q] for q in ring]
    return {'element_type_dict': typ, 'element_parameter_dict': par, 'element_map_dict': maps}


PARALLELOGRAMS = lattice(3, 2)
MORE_HTT = [('2d straight', 2, 'crazy', dict(element_layout=[3, 2], c=0., bounds=([0, 1], [0, 1]))),
            ('3d straight', 3, 'crazy', dict(element_layout=[2, 2, 1], c=0., bounds=([0, 1], [0, 1], [0, 1]))),
            ('2d parallelograms', 2, PARALLELOGRAMS, {}),
            ('2d mild', 2, 'crazy', dict(element_layout=2, c=0.04, bounds=([0.5, 2], [-1, 1]))),
            ('3d mild', 3, 'crazy', dict(element_layout=[2, 1, 2], c=0.04, bounds=([0.5, 2], [-1, 1], [0, 1])))]
MORE_PY = [('2d straight', 2, [3, 2], 'crazy', dict(c=0., bounds=[[0, 1], [0, 1]])),
           ('3d straight', 3, [2, 2, 1], 'crazy', dict(c=0., bounds=[[0, 1], [0, 1], [0, 1]])),
           ('2d mild', 2, [2, [1, 2]], 'crazy', dict(c=0.04, bounds=[[0.5, 2], [-1, 1]])),
           ('3d mild', 3, [2, 1, [1, 2]], 'crazy', dict(c=0.04, bounds=[[0.5, 2], [-1, 1], [0, 1]]))]


# ------------------------------------------------------------------------------------------------ pointwise algebra of vector proxies
def cross(a, b):
    if len(a) == 3: return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    if len(a) == 1: return (-a[0] * b[1], a[0] * b[0])
    if len(b) == 1: return (a[1] * b[0], -a[0] * b[0])
    return (a[0] * b[1] - a[1] * b[0],)


def mul(a, b):
    if len(a) == 1: return tuple(a[0] * x for x in b)
    if len(b) == 1: return tuple(x * b[0] for x in a)
    raise ValueError


def dot(a, b):
    if len(a) != len(b): raise ValueError('different value types')
    return sum(x * y for x, y in zip(a, b))


class Quadrature:
    r"""nodes, and the weights times the (absolute) area of the image, of every element: from differences of the mapping."""
    def __init__(self, n, N, mapping, elements):
        x, w = np.polynomial.legendre.leggauss(N)
        self.nodes = [x] * n
        g = np.meshgrid(*self.nodes, indexing='ij')
        self.points = [a.ravel('F') for a in g]
        W = np.meshgrid(*[w] * n, indexing='ij')
        self.w = np.prod([a.ravel('F') for a in W], axis=0)
        self.J = {}
        h = 1e-3
        self.jac = {}
        for e in elements:
            cols = []
            for j in range(n):
                def at(s):
                    q = [a.copy() for a in self.points]
                    q[j] = q[j] + s
                    return np.array(mapping(e, q))
                cols.append((8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h))
            M = np.array(cols)                               # [j][i][point]
            self.jac[e] = np.moveaxis(M, -1, 0).swapaxes(1, 2)
            self.J[e] = self.w * np.abs(np.linalg.det(self.jac[e]))


class Problem:
    def __init__(self, lib, mesh, p, spaces, build, known=(), test='C', factor=None, sign='+', t=.5, seed=0, extra=None, bc=None, natural=None):
        self.lib, self.p, self.test, self.known, self.t = lib, p, test, tuple(known), t
        self.rng = np.random.default_rng(seed)
        self.factor, self.sign = factor, sign
        conf = (py_config if lib == 'msepy' else htt_config)(mesh)
        self.n = n = conf[0]
        ph.config.set_embedding_space_dim(n)
        periodic = bool(conf[-1].get('periodic', False))
        manifold = ph.manifold(n, periodic=True) if periodic and lib == 'msepy' else ph.manifold(n)
        amesh = ph.mesh(manifold)
        ph.space.set_mesh(amesh)
        sp = {}

        def new(name, ko):
            if ko not in sp: sp[ko] = ph.space.new('Lambda', ko[0], orientation=ko[1])
            return sp[ko].make_form(name, name)
        self.spaces = dict(spaces)
        F = {k: new(k, v) for k, v in spaces.items()}
        unk = [k for k in spaces if k != test and k not in known]
        self.unk = unk
        F['X'], F['G'] = new('X', spaces[test]), new('G', spaces[test])
        for u in unk:
            F['t' + u], F['G' + u] = new('t' + u, spaces[u]), new('G' + u, spaces[u])
        # the spaces of the derivatives, through forms the formulation does not contain
        for k, (j, o) in spaces.items():
            if j < n: F['d' + k] = new('d' + k, (j + 1, o))
        self.F = F
        term = build(F, factor)
        if known: term.add_extra_info({'known-forms': F[known[0]] if len(known) == 1 else [F[k] for k in known]})
        self.pattern = term._simple_pattern
        itp = dict(X0=ph.inner(F['X'], F[test]), S=term, G0=ph.inner(F['G'], F[test]))
        ex = [f'X0 {sign} S']
        for i, u in enumerate(unk):
            itp[f'U{i}'], itp[f'W{i}'] = ph.inner(F[u], F['t' + u]), ph.inner(F['G' + u], F['t' + u])
            ex.append(f'U{i}')
        for q, (i, sg, tm) in enumerate(extra(F) if extra else ()):
            itp[f'E{q}'] = tm
            ex[i] += f' {sg} E{q}'
        ex = [x + ' = ' + ('G0' if i == 0 else f'W{i - 1}') for i, x in enumerate(ex)]
        for k in ['X'] + unk: F['z' + k] = new('z' + k, spaces[test if k == 'X' else k])
        wf = WeakFormulation([F[test]] + [F['t' + u] for u in unk], expression=ex, interpreter=itp)
        wf.unknowns = [F['X']] + [F[u] for u in unk]
        if bc:
            wf.bc.partition(*GAMMA)
            wf.bc.define_bc(dict(zip(GAMMA, bc(F))))
        if all(k in known for k in spaces if k != test):
            wf = wf.derive.rearrange({0: '0 = 1, 2'})
        ph.space.finite(p)
        nonlinear = len(unk) >= 2
        self.nonlinear = nonlinear
        mp = wf.mp()
        system = mp.nls() if nonlinear else mp.ls()
        tgm = tpm = None
        env = dict(manifold=manifold, mesh=amesh, system=system, **F)
        if lib == 'msepy':
            ms, ob = ph.fem.apply('msepy', env)
            kw = copy.deepcopy(conf[3])
            if 'periodic' not in kw and conf[2] == 'crazy': kw['periodic'] = False
            ms.config(ob['manifold'])(conf[2], **kw)
            if bc:
                self.gamma = [ms.base['manifolds'][g] for g in GAMMA]
                ms.config(self.gamma[0])(ob['manifold'], natural if isinstance(natural, dict) else {0: list(natural)})
            ms.config(ob['mesh'])(copy.deepcopy(conf[1]))
            self.mesh = ob['mesh']
            self.E = list(range(self.mesh.elements._num))
        else:
            ms, ob = ph.fem.apply('msehtt-s', env)
            tgm = ms.tgm()
            random.seed(7)
            np.random.seed(7)
            ms.config(tgm)(copy.deepcopy(conf[1]), **copy.deepcopy(conf[2]))
            tpm = ms.base['meshes'][amesh._sym_repr]
            ms.config(tpm)(tgm, including='all')
            self.mesh, self.tgm = tpm, tgm
            if bc:
                ms_ = {x.abstract.manifold._sym_repr: x for x in ms.base['meshes'].values()}
                self.gamma = [ms_[g] for g in GAMMA]
                normals = [[q if i == ax else 0 for i in range(n)] for ax in range(n) for q in (-1, 1)]
                for g, w in zip(self.gamma, (1, 0)):
                    ms.config(g)(tgm, including={'type': 'boundary_section', 'partial elements': tpm, 'ounv': tuple(v for v, x in zip(normals, natural) if x == w)})
            self.E = list(tpm.composition)
        self.ob = ob
        self.f = {k: ob[k] for k in F}
        self.system = ob['system'].apply()
        N = 2 * int(np.max(p)) + 4
        self.Q = Quadrature(n, N, self.mapping, self.E)

    # ---------------------------------------------------------------- geometry, cochains, values
    def mapping(self, e, q):
        if self.lib == 'msepy':
            if not hasattr(self, '_mc') or self._mc[0] is not q[0] and not all(np.array_equal(a, b) for a, b in zip(self._mc[1], q)):
                self._mc = (q[0], [a.copy() for a in q], [np.asarray(a) for a in self.mesh.ct.mapping(*q)])
            return [a[:, e] for a in self._mc[2]]
        return self.mesh.composition[e].ct.mapping(*q)

    def random(self, name):
        G = self.f[name].cochain.gathering_matrix
        if self.lib == 'msepy':
            v = self.rng.uniform(-1, 1, G.num_dofs)
            return v[G._gm]
        v = self.rng.uniform(-1, 1, G.num_global_dofs)
        return {e: v[G[e]] for e in self.E}

    def set(self, name, c, t=None):
        t = self.t if t is None else t
        self.f[name][t].cochain = c

    def values(self, name, c):
        r"""components at the quadrature nodes: {e: tuple of arrays}."""
        f = self.f[name]
        if self.lib == 'msepy':
            _, v = f.space.reconstruct(c, f._degree, *self.Q.nodes, **({} if self.n == 1 else dict(ravel=True)))
            return {e: tuple(x[e] for x in v) for e in self.E}
        _, v = f.space.reconstruct(f._degree if hasattr(f, '_degree') else f.degree, c, *self.Q.nodes, ravel=True)
        return {e: tuple(x[e] for x in v) for e in self.E}

    def d(self, name, c):
        f = self.f[name]
        if self.lib == 'msepy':
            E = f.coboundary.incidence_matrix._data
            return np.array([(E(e) if callable(E) else E[e] if isinstance(E, (dict, list)) else E) @ c[e] for e in self.E])
        E = f.incidence_matrix
        return {e: E[e] @ c[e] for e in self.E}

    def mass(self, name):
        f = self.f[name]
        M = f.space.mass_matrix(f._degree if self.lib == 'msepy' else f.degree)
        if self.lib == 'msepy': return lambda e: M(e) if callable(M) else M[e] if isinstance(M, (dict, list)) else M
        return lambda e: M[0][e]

    def dvalues(self, name, c): return self.values('d' + name, self.d(name, c))

    def integral(self, g):
        return np.array([np.sum(self.Q.J[e] * g(e)) for e in self.E])

    # ---------------------------------------------------------------- the denotation and the code
    def denoted(self, c, integrand, v):
        r"""the first equation at the cochains c (by name), for the test cochain v, per element."""
        T = self.test
        V = {k: self.values(k, c[k]) for k in self.spaces if k != T}
        V[T] = self.values(T, v)
        M = self.mass('X')
        D = {}

        class At:
            def __init__(s, e): s.e = e
            def __getitem__(s, k):
                if k in V: return V[k][s.e]
                if k not in D: D[k] = self.dvalues(k[1:], v if k[1:] == T else c[k[1:]])
                return D[k][s.e]
        s = (1 if self.sign == '+' else -1) * (1 if self.factor is None else self.factor)
        out = s * self.integral(lambda e: integrand(At(e))) + np.array([v[e] @ (M(e) @ (c['X'][e] - c['G'][e])) for e in self.E])
        scale = max(1., np.abs(out).max())
        return out / scale, scale

    def cochains(self):
        c = {k: self.random(k) for k in self.spaces if k != self.test}
        for k in ['X', 'G'] + ['G' + u for u in self.unk]: c[k] = self.random(k)
        for k, x in c.items(): self.set(k, x)
        return c

    def static(self): return self.system(self.t)

    def residual(self, s, c, v):
        r"""v . (first block row of the static system s at the cochains c), per element."""
        x = ['X'] + self.unk
        if self.nonlinear:
            r = s.evaluate_f([self.vec(k, c[k]) for k in x])[0]
            return np.array([v[e] @ r[e] for e in self.E])
        A, b = s.A._A[0], s.b._b[0]
        out = []
        for e in self.E:
            r = -b[e]
            for j, k in enumerate(x): r = r + A[j][e] @ c[k][e]
            out.append(v[e] @ r)
        return np.array(out)

    def vec(self, k, c, t=None):
        r"""the static vector of the form k, with the cochain c."""
        f = self.f[k]
        t = self.t + 1. + self.rng.random() if t is None else t
        f[t].cochain = copy.deepcopy(c)
        return f.cochain.static_vec(t)


# ------------------------------------------------------------------------------------------------ the structures of product terms
def _other(o): return 'inner' if o == 'outer' else 'outer'


def _multi(a, b, ko):
    return a.multi(b, ph.space.new('Lambda', ko[0], orientation=ko[1]))


def _structures():
    from phyem.src.wf.term.main import inner, duality_pairing as dp
    from phyem.src.form.operators import Hodge
    ABC = lambda V: dot(cross(V['A'], V['B']), V['C'])
    ABdC = lambda V: dot(cross(V['A'], V['B']), V['dC'])
    up = lambda ko: (ko[0] + 1, ko[1])
    dual = lambda n, ko: (n - ko[0], _other(ko[1]))
    return {
        '(AxB,C)': (lambda F, f, S, n: inner(F['A'].cross_product(F['B']), F['C'], factor=f), ABC),
        '(*(AxB),C)': (lambda F, f, S, n: inner(Hodge(F['A'].cross_product(F['B'])), F['C'], factor=f), ABC),
        '(AxB,dC)': (lambda F, f, S, n: inner(F['A'].cross_product(F['B']), F['C'].exterior_derivative(), factor=f), ABdC),
        '<AxB|C>': (lambda F, f, S, n: dp(F['A'].cross_product(F['B']), F['C'], factor=f), ABC),
        '<AxB|dC>': (lambda F, f, S, n: dp(F['A'].cross_product(F['B']), F['C'].exterior_derivative(), factor=f), ABdC),
        '(AXB,C)': (lambda F, f, S, n: inner(F['A'].Cross_Product(F['B']), F['C'], factor=f), ABC),
        '(AxxB,C)': (lambda F, f, S, n: inner(F['A'].CrossProduct(F['B']), F['C'], factor=f), ABC),
        '(AB,C)': (lambda F, f, S, n: inner(_multi(F['A'], F['B'], S['C']), F['C'], factor=f),
                   lambda V: dot(mul(V['A'], V['B']), V['C'])),
        '(AB,dC)': (lambda F, f, S, n: inner(_multi(F['A'], F['B'], up(S['C'])), F['C'].exterior_derivative(), factor=f),
                    lambda V: dot(mul(V['A'], V['B']), V['dC'])),
        '(AdB,dC)': (lambda F, f, S, n: inner(_multi(F['A'], F['B'].exterior_derivative(), up(S['C'])), F['C'].exterior_derivative(), factor=f),
                     lambda V: dot(mul(V['A'], V['dB']), V['dC'])),
        '(A,BC)': (lambda F, f, S, n: inner(F['A'], _multi(F['B'], F['C'], S['A']), factor=f),
                   lambda V: dot(V['A'], mul(V['B'], V['C']))),
        '<AB|C>': (lambda F, f, S, n: dp(_multi(F['A'], F['B'], dual(n, S['C'])), F['C'], factor=f),
                   lambda V: dot(mul(V['A'], V['B']), V['C'])),
        '<AB|dC>': (lambda F, f, S, n: dp(_multi(F['A'], F['B'], dual(n, up(S['C']))), F['C'].exterior_derivative(), factor=f),
                    lambda V: dot(mul(V['A'], V['B']), V['dC'])),
        '<AdB|C>': (lambda F, f, S, n: dp(_multi(F['A'], F['B'].exterior_derivative(), dual(n, S['C'])), F['C'], factor=f),
                    lambda V: dot(mul(V['A'], V['dB']), V['C'])),
        '<AxB|CxD>': (lambda F, f, S, n: dp(F['A'].cross_product(F['B']), F['C'].cross_product(F['D']), factor=f),
                      lambda V: dot(cross(V['A'], V['B']), cross(V['C'], V['D']))),
    }


MESH = {('msehtt', 2): '2d parallelograms', ('msehtt', 3): '3d crazy linear', ('msepy', 2): 'crazy 2d linear', ('msepy', 3): 'crazy 3d linear'}


def table():
    r"""{(lib, n, structure): [(test, known, {name: (k, orientation)})]}: the product terms both the language and the implementation take up."""
    import json, os
    raw = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'terms_table.json')))
    out = {}
    for key, combos in raw.items():
        lib, n, st, test, known = key.split('|', 2)[:2] + _tail(key)
        for c in combos.split():
            sp = {q: (int(c[2 * i]), {'o': 'outer', 'i': 'inner'}[c[2 * i + 1]]) for i, q in enumerate('ABCD'[:len(c) // 2])}
            out.setdefault((lib, int(n), st), []).append((test, tuple(known), sp))
    return out


def _tail(key):
    st, test, known = key.split('|', 2)[2].rsplit('|', 2)
    return [st, test, known]


def compare(lib, n, st, test, known, sp, mesh=None, p=1, factor=2.5, sign='-', seed=0):
    r"""(denoted, assembled) contributions per element of one product term."""
    build, integrand = _structures()[st]
    P = Problem(lib, mesh or MESH[lib, n], p, sp, lambda F, f: build(F, f, sp, n), known=known, test=test, factor=factor, sign=sign, seed=seed)
    c = P.cochains()
    s = P.static()
    v = P.random(P.test)
    want, sc = P.denoted(c, integrand, v)
    return want, P.residual(s, c, v) / sc


# ------------------------------------------------------------------------------------------------ nonlinear systems
def coupled(n, orientation='outer'):
    r"""three unknowns X, A, B (test forms C, tA, tB), four product terms of either sign, every unknown in several of them."""
    from phyem.src.wf.term.main import inner
    o = {'outer': ((n - 2, 'outer'), (n - 1, 'outer')), 'inner': ((2, 'inner'), (1, 'inner'))}[orientation]
    sp = dict(A=o[0], B=o[1], C=o[1])
    if n == 3 and orientation == 'inner': sp = dict(A=(2, 'inner'), B=(2, 'outer'), C=(2, 'outer'))
    build = lambda F, f: inner(F['A'].cross_product(F['B']), F['C'], factor=f)
    extra = lambda F: [(0, '+', inner(F['A'].cross_product(F['X']), F['C'], factor=.7)),
                       (2, '-', inner(F['A'].cross_product(F['X']), F['tB'], factor=-1.3))] + \
        ([(1, '-', inner(F['B'].cross_product(F['X']), F['tA']))] if orientation == 'outer' else [])
    integrands = {0: [(-1, .5, lambda V: dot(cross(V['A'], V['B']), V['T'])), (1, .7, lambda V: dot(cross(V['A'], V['X']), V['T']))],
                  1: [(-1, 1., lambda V: dot(cross(V['B'], V['X']), V['T']))] if orientation == 'outer' else [],
                  2: [(-1, -1.3, lambda V: dot(cross(V['A'], V['X']), V['T']))]}
    return sp, build, extra, integrands


class Nonlinear(Problem):
    r"""cochains are one global vector per unknown here."""
    def names(self): return ['X'] + self.unk

    def gm(self, k):
        G = self.f[k].cochain.gathering_matrix
        return {e: np.asarray(G._gm[e] if self.lib == 'msepy' else G[e]) for e in self.E}

    def size(self, k):
        G = self.f[k].cochain.gathering_matrix
        return int(G.num_dofs if self.lib == 'msepy' else G.num_global_dofs)

    def local(self, k, v):
        g = self.gm(k)
        c = {e: v[g[e]] for e in self.E}
        return np.array([c[e] for e in self.E]) if self.lib == 'msepy' else c

    def glob(self, k, c):
        r"""the global vector of the local cochains c, and how much they differ on shared dofs."""
        v, g, spread = np.full(self.size(k), np.nan), self.gm(k), 0.
        for e in self.E:
            x = np.asarray(c[e])
            old = v[g[e]]
            m = ~np.isnan(old)
            if m.any(): spread = max(spread, float(np.abs(old[m] - x[m]).max()))
            v[g[e]] = x
        return v, spread

    def at(self, k, t):
        c = self.f[k].cochain[t]
        return {e: np.array(c.local[e] if self.lib == 'msepy' else c[e], dtype=float) for e in self.E}

    def F_at(self, s, vectors, neg=False):
        r"""the assembled residual, per equation."""
        f = s.evaluate_f([self.vec(k, self.local(k, v)) for k, v in zip(self.names(), vectors)], neg=neg)
        out = []
        for i, k in enumerate(self.names()):
            v, g = np.zeros(self.size(k)), self.gm(k)
            for e in self.E: np.add.at(v, g[e], np.asarray(f[i][e]))
            out.append(v)
        return out

    def tangent(self, s, x, d):
        r"""the derivative of the assembled residual at x in direction d: exact for polynomials up to degree 4."""
        F = {h: self.F_at(s, [a + h * b for a, b in zip(x, d)]) for h in (-2, -1, 1, 2)}
        return [(8 * (F[1][i] - F[-1][i]) - (F[2][i] - F[-2][i])) / 12 for i in range(len(x))]

    def start(self, scale=1.):
        r"""random data, and the initial guesses in the forms zX, zA, ..."""
        z = []
        for k in self.names():
            g = 'G' if k == 'X' else 'G' + k
            self.set(g, self.local(g, scale * self.rng.uniform(-1, 1, self.size(g))))
            v = scale * self.rng.uniform(-1, 1, self.size(k))
            self.f['z' + k][.1].cochain = self.local(k, v)
            z.append(v)
        return z

    def solve(self, s, maxiter, **kw):
        x, _, info = s.solve([self.f['z' + k] for k in self.names()], maxiter=maxiter, inner_solver_scheme='spsolve', **kw)
        return [self.glob(k, v) for k, v in zip(self.names(), x)], info
