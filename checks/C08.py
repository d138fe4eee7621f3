r"""C08: 1d Lagrange / edge bases, quadrature rules, node distributions and tensor-product bases."""
import itertools
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check, _bc, bounded_scenario
from pv import sym, geo
import pv.run as R

check = Check('C08')
POL = 'phyem.msepy.tools.polynomials'
QD = 'phyem.tools.quadrature'
BF = 'phyem.msehtt.static.space.basis_function.Lambda.'
BFS = [BF + x for x in ('bf_m2n2k0', 'bf_m2n2k1', 'bf_m2n2k2', 'bf_m3n3k0', 'bf_m3n3k1', 'bf_m3n3k2', 'bf_m3n3k3')]
MISS = dict(ndarray_key_comparer=lambda *a, **k: (False, None), add_to_ndarray_cache=lambda *a, **k: None)


def pol_env():
    r"""the cache callees by their contract (C19: a hit returns what recomputing would)."""
    return np_patched(get(POL), **(MISS if R.MODE['symbolic'] else {}))


def nodes_of(mk, p):
    r"""arbitrary increasing nodes from -1 to 1."""
    if mk.symbolic:
        inner = [mk.real(f'n{i}', -1, 1) for i in range(1, p)]
        full = [sym.S(-1)] + inner + [sym.S(1)]
        for a, b in zip(full[:-1], full[1:]):
            mk.assume(a < b)
        return np.array([-1] + inner + [1], dtype=object)
    g = np.array([.2 + abs(mk.real(f'g{i}', 0, 1)) for i in range(p)])
    n = np.concatenate([[-1], -1 + 2 * np.cumsum(g) / g.sum()])
    n[-1] = 1.
    return n


def lag(nodes, i, x):
    r"""the Lagrange polynomial, by definition."""
    r = 1
    for j in range(len(nodes)):
        if j != i:
            r = r * (x - nodes[j]) / (nodes[i] - nodes[j])
    return r


def dlag(nodes, i, x):
    r"""its derivative, by the product rule."""
    s = 0
    for m in range(len(nodes)):
        if m == i:
            continue
        t = 1
        for j in range(len(nodes)):
            if j != i and j != m:
                t = t * (x - nodes[j])
        s = s + t
    for j in range(len(nodes)):
        if j != i:
            s = s / (nodes[i] - nodes[j])
    return s


for _p in (1, 2, 3, 4):
    @check.scenario(f'1d bases on arbitrary nodes, degree {_p}', tol=1e-7)
    def _(mk, p=_p):
        C = get(POL + ':_OneDimPolynomial')
        mk.fn(C.__init__, C.node_basis, C.lagrange_basis, C.edge_basis, C._derivative_poly_,
              C.__derivative_poly_nodes__ if hasattr(C, '__derivative_poly_nodes__') else C)
        n = nodes_of(mk, p)
        with pol_env():
            b = C(n)
            x = mk.array('x', (2,), -1, 1)
            N, E = b.node_basis(x), b.edge_basis(x)
            at = b.node_basis(n)
            X = mk.pt('X', -1, 1)
            out = [('degree', b.p, p), ('shape', list(np.shape(N)) + list(np.shape(E)), [p + 1, 2, p, 2])]
            for i in range(p + 1):
                out.append((f'node basis {i} is the Lagrange polynomial', list(N[i]), [lag(n, i, a) for a in x]))
                out.append((f'node basis {i} is Kronecker at the nodes', list(at[i]), [int(i == j) for j in range(p + 1)]))
            if p < 4:
                out.append(('partition of unity', list(np.sum(N, axis=0)), [1, 1]))
            for i in range(p):
                w = [0, 0]
                for j in range(i + 1):
                    w = [w[a] - dlag(n, j, x[a]) for a in (0, 1)]
                out.append((f'edge basis {i} is minus the cumulated derivative of the node basis', list(E[i]), w))
            # hence int_{n_j}^{n_j+1} e_i = -sum_{k<=i} (l_k(n_j+1) - l_k(n_j)) = delta_ij
            for i in range(p):
                for j in range(p):
                    out.append((f'edge basis {i} integrates to delta over the interval {j}',
                                -sum(at[k][j + 1] - at[k][j] for k in range(i + 1)), int(i == j)))
            out.append(('derivative matrix', [v for row in C._OneDimPolynomial__derivative_poly_nodes__(p, n) for v in row]
                        if hasattr(C, '_OneDimPolynomial__derivative_poly_nodes__') else
                        [v for row in C.__derivative_poly_nodes__(p, n) for v in row],
                        [dlag(n, j, n[k]) for k in range(p + 1) for j in range(p + 1)]))
        return out


@check.scenario('1d bases: higher degrees and the Lobatto nodes (bounded)', samples=1)
def _(mk):
    if mk.symbolic:
        raise sym.Unsupported('float quadrature nodes: bounded by design')
    C = get(POL + ':_OneDimPolynomial')
    Lob, on = get(POL + ':Lobatto_polynomials_of_degree'), get(POL + ':polynomials_on_nodes')
    mk.fn(Lob, on, C.node_reference_mass_matrix, C.edge_reference_mass_matrix)
    out = []
    gx, gw = np.polynomial.legendre.leggauss(20)
    sets = [(f'Lobatto {p}', Lob(p), p, lobatto(p)[0]) for p in range(1, 15)]
    n7 = nodes_of(mk, 7)
    sets.append(('custom 7', C(n7), 7, n7))
    part = [.5, .125, .25, .125]
    sets.append(('CUS-NODES', on('CUS-NODES@' + '-'.join(map(str, part))), 4, np.array([-1, 0, .25, .75, 1.])))
    sets.append(('nd', on('nd@-1.0=-0.5=0.25=1.0'), 3, np.array([-1, -.5, .25, 1])))
    # the polynomials of one object are not those of another with the same degree
    sets.append(('CUS-NODES reversed', on('CUS-NODES@' + '-'.join(map(str, part[::-1]))), 4, np.array([-1, -.75, -.25, 0, 1.])))
    sets.append(('nd close', on('nd@-1.0=-0.500001=0.25=1.0'), 3, np.array([-1, -.500001, .25, 1])))
    x = np.linspace(-1, 1, 7)
    for nm, b, p, n in sets:
        out += [(f'{nm}: nodes', b.nodes, n), (f'{nm}: degree', b.p, p),
                (f'{nm}: node basis', b.node_basis(x), np.array([[lag(n, i, a) for a in x] for i in range(p + 1)])),
                (f'{nm}: edge basis', b.edge_basis(x),
                 np.array([[-sum(dlag(n, k, a) for k in range(i + 1)) for a in x] for i in range(p)]))]
        for i in range(p):
            for j in range(p):
                h = (n[j + 1] - n[j]) / 2
                pts = n[j] + h * (gx + 1)
                out.append((f'{nm}: edge {i} over interval {j}', float(np.sum(b.edge_basis(pts)[i] * gw) * h), int(i == j)))
        V = np.array([[lag(n, i, a) for a in gx] for i in range(p + 1)])
        W = np.array([[-sum(dlag(n, k, a) for k in range(i + 1)) for a in gx] for i in range(p)])
        out += [(f'{nm}: reference mass matrix', b.node_reference_mass_matrix, (V * gw) @ V.T),
                (f'{nm}: edge reference mass matrix', b.edge_reference_mass_matrix, (W * gw) @ W.T)]
    return out


def lobatto(p):
    r"""reference Lobatto rule from the eigenvalues of the Jacobi matrix of P_p'."""
    if p == 1:
        return np.array([-1., 1.]), np.array([1., 1.])
    c = np.zeros(p + 1)
    c[p] = 1
    r = np.sort(np.real(np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c))))
    for _ in range(3):      # polish with the exact ODE
        d1 = np.polynomial.legendre.legval(r, np.polynomial.legendre.legder(c))
        d2 = np.polynomial.legendre.legval(r, np.polynomial.legendre.legder(c, 2))
        r = r - d1 / d2
    n = np.concatenate([[-1.], r, [1.]])
    w = 2 / (p * (p + 1) * np.polynomial.legendre.legval(n, c) ** 2)
    return n, w


@check.scenario('quadrature rules integrate polynomials exactly (bounded: p <= 30)', samples=1, tol=2e-10)
def _(mk):
    if mk.symbolic:
        raise sym.Unsupported('float quadrature nodes: bounded by design')
    Q = get(QD + ':Quadrature')
    mk.fn(Q.quad, Q._Quadrature___PRIVATE_compute_Lobatto___ if hasattr(Q, '_Quadrature___PRIVATE_compute_Lobatto___') else Q.quad_nodes)
    out = []
    for p in range(0, 31):
        for cat, top in (('Gauss', 2 * p + 1), ('Lobatto', 2 * p - 1)):
            if cat == 'Lobatto' and p == 0:
                continue
            for q in (Q(p, category=cat), Q((p,), category=[cat])):
                n, w = q.quad
                out += [(f'{cat} {p}: count', len(n), p + 1), (f'{cat} {p}: increasing', bool(np.all(np.diff(n) > 0)), True),
                        (f'{cat} {p}: inside', bool(np.all(np.abs(n) <= 1)), True),
                        (f'{cat} {p}: positive weights', bool(np.all(w > 0)), True),
                        (f'{cat} {p}: nodes only', q.quad_nodes, n)]
                # the integral of the k-th Legendre polynomial is 2 for k = 0 and 0 otherwise
                for k in range(top + 1):
                    c = np.zeros(k + 1)
                    c[k] = 1
                    out.append((f'{cat} {p}: exact for degree {k}', float(np.sum(np.polynomial.legendre.legval(n, c) * w)),
                                2 if k == 0 else 0))
            if cat == 'Lobatto':
                out += [(f'{cat} {p}: end points', [n[0], n[-1]], [-1, 1])]
    return out


@check.scenario('Legendre derivatives and the Newton step', samples=2, tol=1e-6)
def _(mk):
    Q = get(QD + ':Quadrature')
    q = Q(3)
    nm = {k.split('___PRIVATE_')[-1]: k for k in dir(Q)}
    g = lambda k: getattr(q, nm[k])
    mk.fn(g('legendre_prime___'), g('legendre_prime_lobatto___'), g('legendre_double_prime___'), g('newton_method___'))
    from scipy.special import legendre
    x = mk.real('x', -.9, .9)
    out = []

    def P(n, v):
        a, b = 1, v
        if n == 0:
            return a + 0 * v
        for k in range(1, n):
            a, b = b, ((2 * k + 1) * v * b - k * a) / (k + 1)
        return b
    for n in range(2, 8):
        d1 = mk.D(lambda v: P(n, v), [x], 0)
        d2 = mk.D(lambda v: P(n, v), [x], 0, 2) if mk.symbolic else (2 * x * d1 - n * (n + 1) * P(n, x)) / (1 - x * x)
        out += [(f'P{n} prime', g('legendre_prime___')(x, n), d1),
                (f'P{n} Lobatto function', g('legendre_prime_lobatto___')(x, n), (1 - x * x) ** 2 * d1),
                (f'P{n} double prime', g('legendre_double_prime___')(x, n), (1 - x * x) ** 2 * d2)]
    f, df = mk.func('f'), mk.func('df')
    x0 = mk.real('x0', -.9, .9)
    if mk.symbolic:
        with np_patched(get(QD)):
            step = g('newton_method___')(f, df, x0, 2, -1)
        out.append(('Newton step', step, x0 - f(x0) / df(x0)))
    return out


@check.scenario('quadrature in n dimensions is the tensor product', tol=1e-12, samples=1)
def _(mk):
    Q = get(QD + ':Quadrature')
    mod = get(QD)
    mk.fn(Q.quad, Q.quad_ndim, Q.quad_ndim_ravel, Q.quad_weights_ravel, Q.quad_nodes, mod.quadrature)
    out = []
    rules = {}

    def rule(name):
        def f(self, p=None):
            p = self if p is None else p
            k = (name, p)
            if k not in rules:
                rules[k] = mk.array(f'{name}n{p}', (p + 1,)), mk.array(f'{name}w{p}', (p + 1,))
            return rules[k]
        return f
    saved, nm = {}, {k.split('___PRIVATE_compute_')[-1][:-3]: k for k in dir(Q) if '___PRIVATE_compute_' in k}
    for c in ('Gauss', 'Lobatto'):
        saved[c] = Q.__dict__[nm[c]]
        setattr(Q, nm[c], rule(c) if c == 'Lobatto' else staticmethod(rule(c)))
    caches = [v for k, v in vars(mod).items() if isinstance(v, dict) and 'cache' in k.lower()]
    keep = [dict(c) for c in caches]
    try:
        for c in caches:
            c.clear()
        with np_patched(mod):
            for p, cat in (((1, 2), 'Gauss'), ((2, 1), 'Lobatto'), ((1, 2, 1), 'Gauss'), ((2, 1, 3), ['Gauss', 'Lobatto', 'Gauss']),
                           ((2, 2), ['Lobatto', 'Gauss']), ((2,), 'Gauss'), (3, 'Lobatto')):
                cs = [cat] * (1 if isinstance(p, int) else len(p)) if isinstance(cat, str) else cat
                ps = [p] if isinstance(p, int) else list(p)
                one = [rule(c)(k) for c, k in zip(cs, ps)]
                for q in (Q(p, category=cat), mod.quadrature(p, cat if isinstance(cat, str) else tuple(cat))):
                    lab = f'{p} {cat}'
                    if len(ps) == 1:
                        out += [(f'{lab}: nodes', list(q.quad[0]), list(one[0][0])), (f'{lab}: weights', list(q.quad[1]), list(one[0][1])),
                                (f'{lab}: ravel', [list(a) for a in q.quad_ndim_ravel], [list(a) for a in one[0]]),
                                (f'{lab}: weights ravel', list(q.quad_weights_ravel), list(one[0][1]))]
                        continue
                    for d in range(len(ps)):
                        out += [(f'{lab}: nodes of axis {d}', list(q.quad[0][d]), list(one[d][0])),
                                (f'{lab}: weights of axis {d}', list(q.quad[1][d]), list(one[d][1]))]
                    nd, rv = q.quad_ndim, q.quad_ndim_ravel
                    wr = q.quad_weights_ravel
                    shape = [k + 1 for k in ps]
                    out += [(f'{lab}: shape', [list(np.shape(a)) for a in nd], [shape] * (len(ps) + 1)),
                            (f'{lab}: ravel size', [len(a) for a in rv] + [len(wr)], [int(np.prod(shape))] * (len(ps) + 2))]
                    for idx in np.ndindex(*shape):
                        w = 1
                        for d, i in enumerate(idx):
                            w = w * one[d][1][i]
                        want = [one[d][0][i] for d, i in enumerate(idx)] + [w]
                        m = sum(i * int(np.prod(shape[:d])) for d, i in enumerate(idx))
                        out += [(f'{lab}: point {idx}', [a[idx] for a in nd], want),
                                (f'{lab}: point {idx} first axis fastest', [a[m] for a in rv], want),
                                (f'{lab}: weight {idx} first axis fastest', wr[m], w)]
    finally:
        for c in ('Gauss', 'Lobatto'):
            setattr(Q, nm[c], saved[c])
        for c, k in zip(caches, keep):
            c.clear()
            c.update(k)
    return out


@check.scenario('degrees: nodes, node types and intervals (bounded)', samples=1, tol=1e-9)
def _(mk):
    if mk.symbolic:
        raise sym.Unsupported('float quadrature nodes: bounded by design')
    D = get('phyem.msepy.space.degree:PySpaceDegree')
    mk.fn(D._parse_degree, D.edges, D.bfs, D.p)
    out = []
    for ind in ('Lambda', 'bundle-diagonal', 'bundle'):
        for m in (1, 2, 3):
            for deg in (2, 3, tuple(range(1, m + 1)), tuple(range(4, 4 - m, -1))):
                if ind == 'bundle':
                    deg = deg if isinstance(deg, int) else tuple([d + j for j in range(m)] for d in deg)
                sp = Stub(n=m, m=m, abstract=Stub(indicator=ind))
                d = D(sp, deg)
                ps = np.full((m, m) if ind == 'bundle' else (m,), deg) if isinstance(deg, int) else np.array(deg)
                lab = f'{ind} m{m} degree {deg}'
                out.append((lab + ': p', np.array(d.p), ps))
                for ij in np.ndindex(*ps.shape):
                    pick = lambda a: (a[ij[0]] if len(ij) == 1 else a[ij[0]][ij[1]])
                    n = lobatto(int(ps[ij]))[0]
                    out += [(f'{lab}: nodes {ij}', pick(d.nodes), n), (f'{lab}: intervals {ij}', pick(d.edges), np.diff(n)),
                            (f'{lab}: basis {ij}', pick(d.bfs).nodes, n), (f'{lab}: type {ij}', pick(d.ntype) == 'Lobatto', True)]
    B = get('phyem.msehtt.static.mesh.great.elements.types.orthogonal_rectangle:MseHttGreatMeshOrthogonalRectangleElement')
    H = get('phyem.msehtt.static.mesh.great.elements.types.orthogonal_hexahedron:MseHttGreatMeshOrthogonalHexahedronElement')
    Q = get(QD + ':Quadrature')
    mk.fn(B.degree_parser)
    on = get(POL + ':polynomials_on_nodes')
    for E, n in ((B, 2), (H, 3)):
        for deg in (1, 3, tuple(range(2, 2 + n)), list(range(1 + n, 1, -1))):
            p, t = E.degree_parser(deg)
            out += [(f'{n}d parser {deg}', list(p), [deg] * n if isinstance(deg, int) else list(deg)),
                    (f'{n}d parser {deg} type', list(t) == ['Lobatto'] * n, True)]
        deg = ([1, 2, 3, 2.5], [1, 1], [.1, .7, .2])[:n]
        p, t = E.degree_parser(deg)
        out.append((f'{n}d custom parser', list(p), [len(d) for d in deg]))
        for d, ti in zip(deg, t):
            out.append((f'{n}d custom nodes {d}', on(ti).nodes, np.concatenate([[-1], -1 + 2 * np.cumsum(d) / np.sum(d)])))
        for N in (3, 4, 5):
            for lv in (0, 1, 2):
                from phyem.src.config import ___modify_multigrid_degree_indicator___ as sep
                s = f'MG-N{N}' + sep + f'method:uniform=rff:2=lvl:{lv}=max_levels:3'
                p, t = E.degree_parser(s)
                out.append((f'{n}d multigrid {N} level {lv} p', list(p), [N] * n))
                x = on(t[0]).nodes
                out += [(f'{n}d multigrid {N} level {lv} symmetric', x, -x[::-1]),
                        (f'{n}d multigrid {N} level {lv} same on all axes', len(set(t)), 1)]
                if lv == 2:
                    out.append((f'{n}d multigrid {N} finest level: Lobatto', x, lobatto(N)[0]))
                else:      # every coarse node is a node of the two half-size fine elements
                    f = on(E.degree_parser(s.replace(f'lvl:{lv}', f'lvl:{lv + 1}'))[1][0]).nodes
                    two = np.concatenate([(f - 1) / 2, (f + 1) / 2])
                    out.append((f'{n}d multigrid {N} level {lv} nested', [float(np.min(abs(two - a))) for a in x], [0] * (N + 1)))
    return out


# ================================================================ tensor-product bases
COMP = {
    'm1n1k0': ['N'], 'm1n1k1': ['E'],
    'm2n2k0': ['NN'], 'm2n2k1_outer': ['NE', 'EN'], 'm2n2k1_inner': ['EN', 'NE'], 'm2n2k2': ['EE'],
    'm3n3k0': ['NNN'], 'm3n3k1': ['ENN', 'NEN', 'NNE'], 'm3n3k2': ['NEE', 'ENE', 'EEN'], 'm3n3k3': ['EEE'],
}
ORDERS2 = [(1, 2), (3, 1), (2, 2)]
ORDERS3 = [(1, 2, 1), (2, 1, 3)]


class Bas1:
    r"""contract of a 1d basis: p+1 node and p edge functions of the point only."""
    def __init__(self, mk, key, p):
        self.mk, self.key, self.p = mk, key, p

    def _e(self, kind, x, k):
        x = np.asarray(x)
        o = np.empty((k, len(x)), dtype=object if self.mk.symbolic else float)
        for i in range(k):
            for j in range(len(x)):
                o[i, j] = self.mk.uf(f'{kind}{self.key}_{i}', [x[j]])
        return o

    def node_basis(self, x): return self._e('N', x, self.p + 1)
    def edge_basis(self, x): return self._e('E', x, self.p)


def tensor(kinds, bases, grid, drop=None):
    r"""{(i, j, ..): values at the points, first axis fastest}."""
    tab = [b.node_basis(g) if k == 'N' else b.edge_basis(g) for k, b, g in zip(kinds, bases, grid)]
    rows = []
    ns = [t.shape[0] for t in tab]
    for idx in itertools.product(*[range(n) for n in ns[::-1]]):
        idx = idx[::-1]
        vals = []
        for pt in itertools.product(*[range(t.shape[1]) for t in tab[::-1]]):
            pt = pt[::-1]
            v = 1
            for t, i, a in zip(tab, idx, pt):
                v = v * t[i, a]
            vals.append(v)
        rows.append((idx, vals))
    return rows


def grid_pts(grid):
    out = [[] for _ in grid]
    for pt in itertools.product(*[range(len(g)) for g in grid[::-1]]):
        for d, a in enumerate(pt[::-1]):
            out[d].append(grid[d][a])
    return out


def mkgrid(mk, n):
    g = []
    for d in range(n):
        a = mk.array('xyz'[d], (1 + (d + 1) % 3,), -1, 1)
        if len(a) > 1:
            if mk.symbolic:
                for i in range(len(a) - 1):
                    mk.assume(a[i] < a[i + 1])
            else:
                a = np.sort(a)
        g.append(a)
    return g


for _ind, _cs in COMP.items():
    for _p in ([(2,), (3,)] if _ind[1] == '1' else ORDERS2 if _ind[1] == '2' else ORDERS3):
        @check.scenario(f'msepy {_ind} basis, degree {_p}', tol=1e-11, samples=1)
        def _(mk, ind=_ind, cs=_cs, p=_p):
            M = get('phyem.msepy.space.basis_functions.Lambda')
            C = M.MsePyBasisFunctionsLambda
            ori = ind.split('_')[1] if '_' in ind else None
            n, k = len(p), int(ind[5])
            bases = [Bas1(mk, str(d), q) for d, q in enumerate(p)]

            class Sp:
                abstract = Stub(k=k, n=n, m=n, orientation=ori or 'outer')

                def __getitem__(self, d): return Stub(bfs=tuple(bases))
            f = C(Sp(), p)
            mk.fn(C.__call__, C.__init__, getattr(C, '_' + '_'.join([ind[:2], ind[2:4], ind[4:6]] + ([ori] if ori else []))))
            g = mkgrid(mk, n)
            with np_patched(M):
                pts, bf = f(*g)
            out = [('points', [list(a) for a in pts], grid_pts(g)), ('components', len(bf), len(cs))]
            for c, (kinds, b) in enumerate(zip(cs, bf)):
                rows = tensor(kinds, bases, g)
                out.append((f'component {c} size', np.shape(b)[0], len(rows)))
                for r, (idx, vals) in enumerate(rows):
                    out.append((f'component {c} function {idx}', list(b[r]), vals))
            return out


def htt_case(ind, mesh, n, degree, custom=False):
    @check.scenario(f'msehtt {ind} basis on {mesh}, degree {degree}', tol=1e-11, samples=1)
    def _(mk):
        nn, ms, obj = geo.build_msehtt(mesh, {'f': (0, 'outer')}, 2)
        els = obj['tgm'].elements
        base = get('phyem.msehtt.static.mesh.great.elements.types.base')
        mods = [get(b) for b in BFS]
        seen, out = set(), []
        L = lambda p: Bas1(mk, f'L{p}', p)
        O = lambda t: Bas1(mk, 'C' + t[10:16], len(t[10:].split('-')))
        repl = dict(MISS, Lobatto_polynomials_of_degree=L, polynomials_on_nodes=O)
        for i in els:
            e = els[i]
            rev = e.dof_reverse_info
            key = (e.etype, str(sorted((a, tuple(b)) for a, b in rev.items())))
            if key in seen:
                continue
            seen.add(key)
            p, bt = e.degree_parser(degree)
            mk.fn(type(e).bf)
            bases = [L(q) if t == 'Lobatto' else O(t) for q, t in zip(p, bt)]
            g = mkgrid(mk, n)
            with np_patched(*mods, **repl):
                pts, bf = e.bf(ind, degree, *g)
            tri = e.etype in (5, 'unique msepy curvilinear triangle')
            lab = f'{e.etype} {rev}'
            out += [(f'{lab}: points', [list(a) for a in pts], grid_pts(g)), (f'{lab}: components', len(bf), len(COMP[ind]))]
            flips = face_flips(ind, e, p, tri)
            for c, kinds in enumerate(COMP[ind]):
                rows = tensor(kinds, bases, g)
                if tri and kinds == 'NN':      # the collapsed edge xi = -1 carries one function
                    col = [v for idx, v in rows if idx[0] == 0]
                    rows = [('vertex', [sum(a[1:], a[0]) for a in zip(*col)])] + [(idx, v) for idx, v in rows if idx[0] > 0]
                elif tri and kinds == 'NE':    # no function on the collapsed edge
                    rows = [(idx, v) for idx, v in rows if idx[0] > 0]
                b = bf[c]
                out.append((f'{lab}: component {c} size', np.shape(b)[0], len(rows)))
                for r, (idx, vals) in enumerate(rows):
                    s = -1 if (c, idx) in flips else 1
                    out.append((f'{lab}: component {c} function {idx}', list(b[r]), [s * v for v in vals]))
        return out


def face_flips(ind, e, p, tri):
    r"""(component, index) of the functions on the reversed faces (2d, by face number and axis)."""
    out = set()
    if ind not in e.dof_reverse_info:
        return out
    for f in e.dof_reverse_info[ind]:
        if tri:       # faces of the triangle: eta=-1, xi=1, eta=1 ... found from the collapsed reference square
            ax, end = TRI_FACES[f]
        else:
            ax, end = QUAD_FACES[f]
        q = p[ax]
        kinds = ('NE' if ax == 0 else 'EN')
        c = COMP[ind].index(kinds)
        for j in range(p[1 - ax]):
            idx = (q if end else 0, j) if ax == 0 else (j, q if end else 0)
            out.add((c, idx))
    return out


QUAD_FACES = {0: (0, 0), 1: (0, 1), 2: (1, 0), 3: (1, 1)}
TRI_FACES = {0: (1, 0), 1: (0, 1), 2: (1, 1)}

for _m, _n, _ds in (('2d crazy', 2, ORDERS2), ('2d crazy linear', 2, ORDERS2), ('2d crazy triangles', 2, ORDERS2),
                    ('2d crazy triangles linear', 2, ORDERS2[:1]), ('2d triangles', 2, ORDERS2),
                    ('2d quads', 2, ORDERS2), ('2d quads and triangles', 2, ORDERS2),
                    ('2d crazy', 2, [([1, 3], [2, 1, 1])]), ('2d crazy triangles', 2, [([1, 3], [2, 1, 1])]),
                    ('2d triangles', 2, [([1, 3], [2, 1, 1])]),
                    ('3d crazy', 3, ORDERS3), ('3d crazy linear', 3, ORDERS3 + [([1, 3], [2, 1, 1], [1])])):
    for _ind in [i for i in COMP if i[1] == str(_n)]:
        for _d in _ds:
            htt_case(_ind, _m, _n, _d)

@check.scenario('mixed node types', tol=1e-11, samples=1)
def _(mk):
    out = []
    L = lambda p: Bas1(mk, f'L{p}', p)
    O = lambda t: Bas1(mk, 'C', len(t[10:].split('-')))
    fs = dict(bf_m2n2k0=['___bf220_msepy_quadrilateral___'], bf_m2n2k2=['___bf222_msepy_quadrilateral___'],
              bf_m2n2k1=['___bf221o_outer_msepy_quadrilateral___', '___bf221i_inner_msepy_quadrilateral___'],
              bf_m3n3k0=['___bf330_msepy_quadrilateral___'], bf_m3n3k1=['___bf331_msepy_quadrilateral___'],
              bf_m3n3k2=['___bf332_msepy_quadrilateral___'], bf_m3n3k3=['___bf333_msepy_quadrilateral___'])
    for mod, names in fs.items():
        M = get(BF + mod)
        for nm in names:
            f = get(BF + mod + ':' + nm)
            mk.fn(f)
            n = int(mod[4])
            p = (2, 1, 2)[:n]
            for bt in itertools.product(('Lobatto', 'CUS'), repeat=n):
                if len(set(bt)) == 1 and bt[0] == 'Lobatto':
                    continue
                t = tuple('Lobatto' if b == 'Lobatto' else 'CUS-NODES@' + '-'.join(['1'] * q) for b, q in zip(bt, p))
                bases = [L(q) if b == 'Lobatto' else O(x) for b, q, x in zip(bt, p, t)]
                g = mkgrid(mk, n)
                with np_patched(M, **dict(MISS, Lobatto_polynomials_of_degree=L, polynomials_on_nodes=O)):
                    pts, bf = f(p, t, *g)
                ind = f'm{n}n{n}k{mod[6:].split("k")[1]}'
                ind += ('_outer' if 'outer' in nm else '_inner' if 'inner' in nm else '')
                for c, kinds in enumerate(COMP[ind]):
                    rows = tensor(kinds, bases, g)
                    out.append((f'{nm} {bt} component {c}', [list(r) for r in bf[c]], [v for _, v in rows]))
    return out


if __name__ == '__main__':
    check.main()
