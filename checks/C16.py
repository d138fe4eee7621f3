r"""C16: reduction, reconstruction, mass matrices, errors, norms, integrals of discrete forms."""
import numpy as np
import phyem as ph
from phyem.src.config import _setting
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import geo, refel, terms
from pv import tensor as T
import pv.run as R

check = Check('C16', trusted=['the mappings, metric quantities and basis functions are those of C06-C08',
                              'numpy.polynomial.legendre (reference quadrature)', 'one MPI rank'])

from pv.whole import LAMBDAS, SP, W, _poly, attempt, field, mesh_form, own_nodes, points, some


def reconstruction(w):
    out = []
    for a, k, o, f in w.forms():
        S, c, nodes = w.space(k, o), w.random(f, k, o), own_nodes(w.n)
        got = attempt(lambda: points(w, f, c, nodes))
        if got is None:
            out.append((f'{a}: reconstruction is stated as absent', sorted(map(str, w.types())), sorted(map(str, w.types()))))
            continue
        two = mesh_form(w, f, c, nodes) if w.n > 1 else None
        rm = attempt(lambda: f.reconstruction_matrix(*nodes))
        pts = refel.grid(nodes)
        for e in some(w):
            X, V = got[e]
            want = S.values(e, c[e], pts)
            out += [(f'{a} element {e}: points', np.array(X), S.x(e, pts)), (f'{a} element {e}: values', np.array(V), want)]
            if two:
                out += [(f'{a} element {e}: points, meshgrid', np.array(two[e][0]), S.x(e, pts)), (f'{a} element {e}: values, meshgrid', np.array(two[e][1]), want),
                        (f'{a} element {e}: shape, meshgrid', list(two[e][2]), [len(x) for x in nodes])]
            if rm is not None:
                out.append((f'{a} element {e}: reconstruction matrix', np.array([np.asarray(m).T for m in (rm[e] if w.lib == 'msepy' else [m[e] for m in rm])]),
                            S.matrix(e, pts)))
    return out


def rule(w, e, k):
    r"""the quadrature rule mass matrices state."""
    S0 = w.space(0, 'outer')
    pp = S0.pp
    lobatto = lambda i, q: refel.gauss(q) if S0.own[i] else refel.lobatto_rule(q)
    if w.lib == 'msepy':
        if w.elements._is_linear(): return refel.Rule([refel.gauss(p + 1) if _setting['high_accuracy'] else refel.lobatto_rule(p) for p in pp])
        return refel.Rule([refel.gauss(p + 2) for p in pp])
    if w.elements[e].etype in ('orthogonal rectangle', 'orthogonal hexahedron'): return refel.Rule([lobatto(*p) for p in enumerate(pp)])
    if w.n == 3: return refel.Rule([refel.gauss(p) if k == 3 else lobatto(i, p + (2 if k < 2 else 0)) for i, p in enumerate(pp)])
    return refel.Rule([refel.gauss(p + 1) for p in pp])


def mass(w):
    out = []
    for a, k, o, f in w.forms():
        S = w.space(k, o)
        M = attempt(lambda: f.space.mass_matrix(f.degree))
        if M is None: continue
        if w.lib == 'msehtt': M = M[0]
        if callable(M) and not isinstance(M, dict): get_ = M
        elif isinstance(M, dict): get_ = M.__getitem__
        else: get_ = lambda e, M=M: M
        for e in some(w):
            out.append((f'{a} element {e}: mass matrix', get_(e).toarray(), S.mass(e, rule(w, e, k))))
    return out


def projection(w):
    r"""a 1-form to 0-forms, one per component: its components at the nodes of its degree, in the numbering of the 0-forms."""
    out = []
    for a, k, o, f in w.forms():
        if w.lib == 'msepy' or k != 1: continue
        S, c, t = w.space(k, o), w.random(f, k, o, 3), .5
        f[t].cochain = c
        got = attempt(lambda: f[t].project.to(f'm{w.n}n{w.n}k0'))
        if got is None: continue
        out.append((f'{a}: as many 0-forms as components', len(got), w.n))
        g = next(h for _, kk, oo, h in w.forms() if kk == 0 and oo == o)
        for e in some(w):
            want = S.values(e, c[e], refel.grid(S.nodes))
            for i in range(w.n): out.append((f'{a} element {e}: component {i} at the nodes', np.asarray(got[i][e]), want[i]))
            out.append((f'{a} element {e}: one number for each dof of the 0-form', len(got[0][e]), len(g.cochain.gathering_matrix[e])))
    return out


def reduction(w):
    out = []
    for a, k, o, f in w.forms():
        S = w.space(k, o)
        vc, fn = field(w.n, k, 5 + k)
        f.cf = vc
        t = .75
        if w.lib == 'msepy':
            c = f.reduce(t, update_cochain=False)
            c2 = f.reduce(t, update_cochain=False, target=vc)
            f[t].reduce()
            c3 = f.cochain[t].local
        else:
            c = f.reduce(f.cf[t])
            c2 = f.reduce(f.cf[t])
            f[t].reduce()
            c3 = f[t].cochain
        for e in some(w):
            want = S.reduction(e, lambda *x: [g(t, *x) for g in fn])
            out += [(f'{a} element {e}: dofs are the integrals', np.asarray(c[e]), want), (f'{a} element {e}: reduced again', np.asarray(c2[e]), np.asarray(c[e])),
                    (f'{a} element {e}: stored at the instant', np.asarray(c3[e]), np.asarray(c[e]))]
    return out


def commuting(w):
    out = []
    t = .5
    for a, k, o, f in w.forms():
        if k == w.n: continue
        vc, fn = field(w.n, k, 5 + k)
        f.cf = vc
        f[t].reduce()
        df = attempt(f.d)
        if df is None: continue
        if w.lib == 'msepy':
            got, want = df.cochain[t].local if t in getattr(df.cochain, '_tcd', {t: 0}) else df.cochain[t].local, df.reduce(t, update_cochain=False)
        else:
            got, want = df[t].cochain, df.reduce(f.cf.exterior_derivative()[t])
        out += [(f'd {a} element {e}: reduction commutes with d', np.asarray(got[e]), np.asarray(want[e])) for e in some(w)]
    return out


def integrals(w):
    r"""errors, norms, masses, inner products."""
    out, t = [], .25
    keep = {}
    for a, k, o, f in w.forms():
        S, c = w.space(k, o), w.random(f, k, o, 4)
        vc, fn = field(w.n, k, 5 + k)
        f.cf = vc
        f[t].cochain = c
        keep[a] = (S, c, f, k, o)
        plus = 3 if w.lib == 'msepy' else 2
        r = refel.Rule([refel.gauss(p + plus) for p in S.pp])
        diff = lambda e, g=None: sum((u - v) ** 2 for u, v in zip(S.values(e, c[e], r.pts), [g_(t, *S.x(e, r.pts)) for g_ in fn]))
        L2 = np.sqrt(sum(S.integral(e, diff(e), r) for e in w.range))
        got = attempt(lambda: f[t].error() if w.lib == 'msehtt' else f.error(t))
        if got is not None: out.append((f'{a}: L2 error', float(got), L2))
        if k < w.n:
            got = attempt(lambda: (f[t].error('H1') if w.lib == 'msehtt' else f.error(t, etype='H1')))
            if got is not None:
                d = w.space(k + 1, o)
                E = attempt(lambda: f.d())
                dc = E[t].cochain if w.lib == 'msehtt' else E.cochain[t].local
                dcf = f.cf.exterior_derivative()[t] if w.lib == 'msehtt' else None
                if w.lib == 'msehtt': ev = lambda e, *x: dcf(*x)
                else: ev = lambda e, *x: E.cf.field[w.elements._get_region_of_element(e) if hasattr(w.elements, '_get_region_of_element') else next(iter(E.cf.field))][t](*x)
                h = sum(d.integral(e, sum((u - v) ** 2 for u, v in zip(d.values(e, dc[e], r.pts), ev(e, *S.x(e, r.pts)))), r) for e in w.range)
                out.append((f'{a}: H1 error', float(got), np.sqrt(L2 ** 2 + h)))
        if w.lib == 'msehtt':
            got = attempt(lambda: f[t].norm())
            if got is not None: out.append((f'{a}: norm', float(got), np.sqrt(sum(c[e] @ S.mass(e, rule(w, e, k)) @ c[e] for e in w.range))))
            got = attempt(lambda: f[t].norm(component_wise=True))
            if got is not None:
                r2 = refel.Rule([refel.gauss(p + 2) for p in S.pp])
                if k in (0, w.n): want = [np.sqrt(sum(c[e] @ S.mass(e, rule(w, e, k)) @ c[e] for e in w.range))]
                else: want = [np.sqrt(sum(S.integral(e, S.values(e, c[e], r2.pts)[i] ** 2, r2) for e in w.range)) for i in range(len(got))]
                out.append((f'{a}: component-wise norms', [float(x) for x in got], want))
            if k in (0, w.n):
                got = attempt(lambda: f[t].mass())
                if got is not None:
                    r2 = refel.Rule([refel.gauss(p + 2) for p in S.pp])
                    out.append((f'{a}: mass', float(got), sum(S.integral(e, S.values(e, c[e], r2.pts)[0], r2) for e in w.range)))
        else:
            got = attempt(lambda: f.norm(t))
            if got is not None:
                r2 = refel.Rule([refel.gauss(p + 1) for p in S.pp])
                out.append((f'{a}: norm', float(got), np.sqrt(sum(S.integral(e, sum(v ** 2 for v in S.values(e, c[e], r2.pts)), r2) for e in w.range))))
                for d in (3, 4):
                    out.append((f'{a}: L{d} norm', float(f.norm(t, d=d)), sum(S.integral(e, sum(np.abs(v) ** d for v in S.values(e, c[e], r2.pts)), r2) for e in w.range) ** (1 / d)))
                    out.append((f'{a}: L{d} error', float(f.error(t, d=d)), sum(S.integral(e, sum(np.abs(u - g_(t, *S.x(e, r.pts))) ** d for u, g_ in zip(S.values(e, c[e], r.pts), fn)), r) for e in w.range) ** (1 / d)))
    names = list(keep)
    for i, a in enumerate(names):
        for b in names[i:]:
            S, c, f, k, o = keep[a]
            S2, c2, g, k2, o2 = keep[b]
            val = lambda k: 1 if k in (0, w.n) else w.n
            if val(k) != val(k2) or w.n == 1: continue
            got = attempt(lambda: f.inner_product(t, g, t) if w.lib == 'msepy' else f[t].inner_product(g[t]))
            if got is None: continue
            ev = lambda e, r: S.integral(e, sum(u * v for u, v in zip(S.values(e, c[e], r.pts), S2.values(e, c2[e], r.pts))), r)
            rr = (lambda e: rule(w, e, k)) if w.lib == 'msepy' else (lambda e: refel.Rule([refel.gauss(p + 2) for p in S.pp]))
            out.append((f'({a}, {b}): inner product', float(got), sum(ev(e, rr(e)) for e in w.range)))
    return out


AFFINE = [('msepy', 'crazy 1d linear', 2), ('msepy', 'crazy 2d linear', 2), ('msepy', 'crazy 2d linear', (1, 3)), ('msepy', 'crazy 3d linear', 1), ('msepy', 'crazy 3d linear', (2, 1, 2)),
          ('msepy', 'crazy_multi 2d linear', 1), ('msehtt', '2d crazy linear', 2), ('msehtt', '2d crazy linear', (1, 3)), ('msehtt', '2d parallelograms', 2),
          ('msehtt', '2d crazy triangles linear', 2), ('msehtt', '2d triangles', 1), ('msehtt', '2d triangles', 2), ('msehtt', '3d crazy linear', 1), ('msehtt', '3d crazy linear', (2, 1, 2))]
CURVED = [('msepy', 'crazy 1d', 2), ('msepy', 'crazy 2d', 2), ('msepy', 'crazy 2d', (1, 3)), ('msepy', 'crazy 3d', 1), ('msepy', 'crazy_multi 2d', 1), ('msepy', 'backward_step 2d', 1), ('msepy', 'cylinder_channel', 2),
          ('msehtt', '2d crazy', 2), ('msehtt', '2d crazy', (1, 3)), ('msehtt', '2d crazy triangles', 2), ('msehtt', '2d chaotic', 1), ('msehtt', '2d chaotic quads', 2), 
          ('msehtt', '2d quads', 2), ('msehtt', '2d quads and triangles', 2), ('msehtt', '2d cylinder_channel', 1), ('msehtt', '3d mild', 1), ('msehtt', '3d mild', (2, 1, 2)), ('msehtt', '3d backward_step', 1)]
OWN2, OWN3 = ([1, 2, 1], [3, 1]), ([1, 2], [2, 1, 1], [1])
AFFINE += [('msehtt', '2d crazy linear', OWN2), ('msehtt', '2d parallelograms', ([1, 2, 1],) * 2), ('msehtt', '3d crazy linear', OWN3), ]
CURVED += [('msehtt', '2d crazy', OWN2), ('msehtt', '2d chaotic quads', ([1, 2, 1],) * 2), ('msehtt', '3d mild', OWN3)]
PARTS = {'reconstruction': reconstruction, 'mass matrices': mass, 'projection to 0-forms': projection, 'reduction': reduction, 'd': commuting, 'integrals': integrals}

for _kind, _list in (('affine', AFFINE), ('curved', CURVED)):
    for _lib, _name, _p in _list:
        @check.unit(f'{_lib} {_name}, degree {_p}', limit=240)
        def _(led, lib=_lib, name=_name, p=_p, kind=_kind):
            for part, fn in PARTS.items():
                tol = 1e-8 if part in ('reconstruction', 'mass matrices', 'integrals', 'projection to 0-forms') or kind == 'affine' else 2e-3
                R.bounded_scenario(led, f'{lib} {name}, degree {p}: {part}', lambda mk, fn=fn: fn(W(lib, name, p)), samples=1, tol=tol)


# ---- formal part: the formulas, for arrays of any size and any entries ----------------------------------------------------------
from pv import cells
from pv.formal import formal, mod, Duck
HTT, PY = 'phyem.msehtt.static.space.', 'phyem.msepy.space.'
KINDS = [(2, 0, 'outer'), (2, 1, 'inner'), (2, 1, 'outer'), (2, 2, 'outer'), (3, 0, 'outer'), (3, 1, 'outer'), (3, 2, 'outer'), (3, 3, 'outer')]
ORTHO = ('orthogonal rectangle', 'orthogonal hexahedron')
ETYPES = {2: ['orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9, 'unique curvilinear quad', 5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle'],
          3: ['orthogonal hexahedron', 'unique msepy curvilinear hexahedron']}
MASSES = {2: ['orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9], 3: ETYPES[3]}   # the types those are implemented for
REBUILT = {2: [t for t in ETYPES[2] if t != 'unique curvilinear triangle'], 3: ['orthogonal hexahedron']}


def under(mk, m):
    r"""the functions and methods of a module are under contract here."""
    for x in vars(m).values():
        if getattr(x, '__module__', None) != m.__name__: continue
        mk.fn(*([x] if not isinstance(x, type) else [f for f in vars(x).values() if hasattr(f, '__code__')]))


def zero(x): return isinstance(x, int) and x == 0


def plus(*xs):
    out = 0
    for x in xs: out = x if zero(out) else out if zero(x) else out + x
    return out


def times(*xs):
    if any(zero(x) for x in xs): return 0
    out = xs[0]
    for x in xs[1:]: out = out * x
    return out


def minus(x): return 0 if zero(x) else -x


def cofactor(A, i, j):
    n = len(A)
    if n == 2: return A[1 - i][1 - j] if (i + j) % 2 == 0 else minus(A[1 - i][1 - j])
    (a, b), (c, d) = [(i + 1) % 3, (i + 2) % 3], [(j + 1) % 3, (j + 2) % 3]
    return plus(times(A[a][c], A[b][d]), minus(times(A[a][d], A[b][c])))


class Metric(Duck):
    r"""metric data of one element at the nodes: names with a tag."""
    def __init__(self, src, n, tag, ortho, axis='m'):
        self.src, self.n, self.tag, self.ax = src, n, tag, axis
        self.A = [[0 if ortho and i != j else src(f'iJ{i}{j} @{tag}', axis) for j in range(n)] for i in range(n)]
        self.det = src(f'det @{tag}', axis)
        self.idet = T.NP.reciprocal(self.det)
        self.G = [[plus(*[times(self.A[i][c], self.A[j][c]) for c in range(n)]) for j in range(n)] for i in range(n)]

    def factor(self, k, ori):
        r"""coef[c][j]: component c of the value = sum_j coef[c][j] * (reference component j)."""
        if k == 0: return None
        if k == self.n: return [[self.idet]]
        if k == 1 and (self.n == 3 or ori == 'inner'): return [[self.A[j][c] for j in range(self.n)] for c in range(self.n)]
        return [[cofactor(self.A, j, c) for j in range(self.n)] for c in range(self.n)]


def mass_blocks(src, met, k, ori, bf, w):
    F, N = met.factor(k, ori), len(bf)
    rows = []
    for j in range(N):
        rows.append([])
        for l in range(N):
            if F is None: g = w * met.det
            else:
                g = plus(*[times(F[c][j], F[c][l]) for c in range(len(F))])
                g = 0 if zero(g) else w * met.det * g
            rows[-1].append(None if zero(g) else src.einsum('m,im,jm->ij', g, bf[j], bf[l]))
    return rows


def rows_of(src, met, k, ori, bf):
    r"""component c -> its row of blocks (m x dofs)."""
    F, N = met.factor(k, ori), len(bf)
    if F is None: return [[bf[0].T]]
    return [[None if zero(F[c][j]) else (bf[j] * F[c][j]).T for j in range(N)] for c in range(len(F))]


def dense(rows, shapes):
    return np.block([[np.zeros(s) if x is None else x for x, s in zip(r, q)] for r, q in zip(rows, shapes)])


def block_items(src, label, got, want, sizes):
    r"""got: array, Formal or Blocks; want: rows of blocks; sizes: (rows, columns) of the blocks."""
    if not src.symbolic:
        got = got.toarray() if hasattr(got, 'toarray') else got
        return [(label, np.asarray(got), dense(want, [[(src.size(a), src.size(b)) for b in sizes[1]] for a in sizes[0]]))]
    G = got.rows if isinstance(got, T.Blocks) else [[got]]
    if [len(r) for r in G] != [len(r) for r in want]: return [(label, f'{[len(r) for r in G]} blocks', f'{[len(r) for r in want]} blocks')]
    out = []
    for i, (r, q) in enumerate(zip(G, want)):
        for j, (x, y) in enumerate(zip(r, q)):
            if x is None or y is None:
                zx = x is None or (isinstance(x, T.Formal) and not x.terms)
                zy = y is None or (isinstance(y, T.Formal) and not y.terms)
                out.append((f'{label} block {i}{j}', 'zero' if zx else repr(x), 'zero' if zy else repr(y)))
            else: out.append(src.item(f'{label} block {i}{j}', x, y))
    return out


class Token(Duck):
    def __init__(self, name): self.name = name


class HttElement(Duck):
    r"""an element whose metric data at the nodes of its basis functions are names; anything evaluated elsewhere is refused."""
    dof_reverse_info = {}
    def __init__(self, src, n, k, ori, etype, tag, p):
        self.src, self.n, self.etype, self.tag, self.p = src, n, etype, tag, p
        self.key = f'm{n}n{n}k{k}' + (f'_{ori}' if (n, k) == (2, 1) else '')
        self.N = len(cells.comps(n, k, ori))
        self.met = Metric(src, n, tag, etype in ORTHO)
        self.metric_signature = self.signature = f'metric {tag}'
        self.nodes = tuple(Token(f'node coordinate {i}') for i in range(n))
        self.ct = Stub(Jacobian=self.at(self.met.det), inverse_Jacobian=self.at(self.met.idet), inverse_Jacobian_matrix=self.at(self.met.A), inverse_metric_matrix=self.at(self.met.G),
                       mapping=self.at([src(f'x{i} @{tag}', 'm') for i in range(n)]))
        self.degrees, self.asked = [], []

    def at(self, value):
        def f(*x):
            if len(x) != len(self.nodes) or any(a is not b for a, b in zip(x, self.nodes)): raise R.Violation('metric data evaluated at the nodes of the basis functions', f'{x}')
            return value
        return f

    def degree_parser(self, degree): return self.p, ('Lobatto',) * self.n
    def arrays(self): return [self.src(f'bf{j}', f'n{j}', 'm') for j in range(self.N)]
    def bf(self, key, degree, *nodes):
        self.asked.append((key, degree, nodes))
        if key != self.key: raise R.Violation('the basis functions of the form', f'{key} instead of {self.key}')
        return self.nodes, self.arrays()


def sizes_for(n, k, ori, p, nodes):
    s = {f'n{j}': int(np.prod(cells.box(e, p))) for j, (e, _) in enumerate(cells.comps(n, k, ori))}
    s['m'] = int(np.prod([len(x) for x in nodes]))
    return s


def clean(m): return {x: {} for x in dir(m) if x.startswith('_cache') and isinstance(getattr(m, x), dict)}
def symbolic_only(mk, **repl): return repl if mk.symbolic else {}


def name_of(n, k, ori): return f'{n}d {k}-forms' + (f' ({ori})' if (n, k) == (2, 1) else '')


def quad_stub(src, asked, n=2):
    def q(degrees, category='Gauss'):
        asked.append((degrees, category))
        t = tuple(Token(f'quadrature node {i}') for i in range(3))
        return Stub(quad_nodes=t, quad_weights_ravel=src('w', 'm'), quad=(t[0] if n == 1 else t, src('w', 'm')))
    return q


class Tpm:
    def __init__(self, comp): self.composition = comp


for _n, _k, _o in KINDS:
    _suffix = f'm{_n}n{_n}k{_k}' + (f'_{_o}' if (_n, _k) == (2, 1) else '')
    _file = f'm{_n}n{_n}k{_k}'
    for _et in ETYPES[_n]:
        def _mm(mk, n=_n, k=_k, o=_o, et=_et, suffix=_suffix, file=_file):
            M = mod(HTT + f'mass_matrix.Lambda.MM_{file}')
            under(mk, M)
            src, p = T.Source(mk.symbolic, 3), (2, 3, 1)[:n]
            els = {e: HttElement(src, n, k, o, et, tag, p) for e, tag in ((0, 'a'), (1, 'b'), (2, 'a'))}
            asked = []
            import scipy.sparse as sp
            with np_patched(M, quadrature=quad_stub(src, asked), **clean(M), **symbolic_only(mk, np=T.NP(), csr_matrix=T.stored(sp.csr_matrix), bmat=T.bmat)):
                D, keys = getattr(M, f'mass_matrix_Lambda__{suffix}')(Tpm(els), 2)
            out = []
            for e, el in els.items():
                want = mass_blocks(src, el.met, k, o, el.arrays(), src('w', 'm'))
                ax = [f'n{j}' for j in range(el.N)]
                out += block_items(src, f'element {e} (metric {el.tag})', D[e], want, (ax, ax))
                for _, _, nodes in el.asked: out.append((f'element {e}: at quadrature nodes', [x.name for x in nodes], [f'quadrature node {i}' for i in range(3)]))
            same = keys[0] == keys[1] and keys[0] != 'unique'
            out.append(('elements of different metric share no cached matrix', same, False))
            return out

        def _rm(mk, n=_n, k=_k, o=_o, et=_et, suffix=_suffix, file=_file):
            M = mod(HTT + f'reconstruction_matrix.Lambda.RM_{file}')
            under(mk, M)
            nodes = own_nodes(n)
            p = (2, 3, 1)[:n]
            src = T.Source(mk.symbolic, 3, sizes_for(n, k, o, p, nodes))
            els = {e: HttElement(src, n, k, o, et, tag, p) for e, tag in ((0, 'a'), (1, 'b'), (2, 'a'))}
            with np_patched(M, **clean(M), **symbolic_only(mk, np=T.NP(), ndarray_key_comparer=lambda *a, **k: (False, None), add_to_ndarray_cache=lambda *a, **k: None)):
                D = getattr(M, f'rm__{suffix}')(Tpm(els), 2, *nodes)
            out = []
            for e, el in els.items():
                want = rows_of(src, el.met, k, o, el.arrays())
                out.append((f'element {e}: number of components', len(D), len(want)))
                for c, r in enumerate(want):
                    out += block_items(src, f'element {e} (metric {el.tag}) component {c}', D[c][e], [r], (['m'], [f'n{j}' for j in range(el.N)]))
            return out

        def _rc(mk, n=_n, k=_k, o=_o, et=_et, suffix=_suffix, file=_file):
            M = mod(HTT + f'reconstruct.Lambda.Rc_{file}')
            under(mk, M)
            nodes, out = own_nodes(n), []
            tri = et in geo.TRI_TYPES or et == 5
            for p in ([(2, 3, 1), (1, 1, 1), (3, 2, 2), (1, 3, 2)] if not tri else [(2, 2), (1, 1), (3, 3)]):
                p = p[:n]
                num = cells.Numbering(n, k, o, p, tri)
                dims = [int(np.prod(s)) for s in num.shapes]
                if tri and k == 0: dims = [dims[0] + 1]
                sizes = {f'n{j}': d for j, d in enumerate(dims)}
                sizes['m'] = int(np.prod([len(x) for x in nodes]))
                src = T.Source(mk.symbolic, 3, sizes)
                els = {e: HttElement(src, n, k, o, et, tag, p) for e, tag in ((0, 'a'), (1, 'b'))}
                parts = {e: [src(f'c{j} @{e}', f'n{j}') for j in range(len(dims))] for e in els}
                co = {e: (parts[e][0] if len(dims) == 1 else Cut(parts[e], dims)) if mk.symbolic else np.concatenate(parts[e]) for e in els}
                for ravel in (True, False):
                    with np_patched(M, **clean(M), **symbolic_only(mk, np=T.NP())):
                        X, V = getattr(M, f'reconstruct_Lambda__{suffix}')(Tpm(els), 2, co, *nodes, ravel=ravel)
                    shaped = lambda f: f if ravel else f.reshape([len(x) for x in nodes], order='F')
                    for e, el in els.items():
                        F, bf = el.met.factor(k, o), el.arrays()
                        r = [src.einsum('im,i->m', b, c) for b, c in zip(bf, parts[e])]
                        want = r if F is None else [plus(*[times(F[c][j], r[j]) for j in range(len(r))]) for c in range(len(F))]
                        lab = f'degree {p} ravel={ravel} element {e}'
                        out += [src.item(f'{lab}: coordinate {i}', X[i][e], shaped(src(f'x{i} @{el.tag}', 'm'))) for i in range(n)]
                        out += [src.item(f'{lab}: component {i}', V[i][e], shaped(x)) for i, x in enumerate(want)]
            return out

        for _what, _f in (('mass matrix', _mm), ('reconstruction matrix', _rm), ('reconstruction', _rc)):
            if _et not in (REBUILT if _what == 'reconstruction' else MASSES)[_n]: continue
            check.scenario(f'msehtt {_what}: {name_of(_n, _k, _o)}, {_et} (any arrays)', samples=1)(formal(_f))


class Cut:
    r"""a cochain known by its components' names: only whole components are cut out of it."""
    def __init__(self, parts, dims): self.parts, self.b = parts, [sum(dims[:i]) for i in range(len(dims) + 1)]
    def __getitem__(self, s):
        if not isinstance(s, slice): raise R.Unsupported('entries of a formal cochain')
        a, z, st = s.indices(self.b[-1])
        if st != 1 or a not in self.b or z not in self.b or self.b.index(z) != self.b.index(a) + 1: raise R.Violation('the dofs of a component are those of the numbering', f'{a}:{z} of {self.b}')
        return self.parts[self.b.index(a)]


class Refs(dict):
    r"""data per reference element."""
    types = {}
    def get_mtype_of_reference_element(self, r): return self.types[r]


class PyData(Duck):
    r"""msepy's element-wise data, kept per cache index; an array over the elements is cut into, and composed of, the parts of the cache indices."""
    def __init__(self, src, per):
        self.src, self.per = src, per
        self.cache_indices = list(range(len(per)))
    def get_data_of_cache_index(self, i): return self.per[i]
    def select(self, i): return self.src.selection[i]
    def split(self, a, axis=0):
        if axis != 0: raise R.StubMiss('axis')
        return [self.src.einsum('ae,ej->aj', self.src(f'select {i}', f'e{i}', 'e'), a) for i in self.cache_indices]
    def merge(self, parts, axis=0):
        if axis != 0 or len(parts) != len(self.per): raise R.StubMiss('merge')
        return plus(*[self.src.einsum('ae,aj->ej', self.src(f'select {i}', f'e{i}', 'e'), x) for i, x in zip(self.cache_indices, parts)])


class PyMesh(Duck):
    r"""three reference elements 0 (axis-aligned), 1, 2 of different metric; elements 0..4."""
    E2C = [0, 1, 2, 1, 0]
    def __init__(self, src, n):
        self.src, self.n = src, n
        self.nodes = tuple(Token(f'node coordinate {i}') for i in range(n))
        self.met = {r: Metric(src, n, f'ref {r}', r == 0) for r in range(3)}
        whole = lambda f: Refs({r: f(m) for r, m in self.met.items()})
        Refs.types = {0: 'Linear x', 1: 'other', 2: 'unique'}
        self.jm = Token('JM')
        self.ijm = Token('iJM')
        at, pick = self.at, self.pick
        self.whole = {'det': whole(lambda m: m.det), 'idet': whole(lambda m: m.idet), 'A': whole(lambda m: m.A), 'G': whole(lambda m: m.G)}
        self.elements = Stub(_is_linear=lambda: False, _num=len(self.E2C), _index_mapping=Stub(_e2c=self.E2C, distribute_according_to_reference_elements_dict=lambda M: M),
                             ct=Stub(inverse_Jacobian_matrix=at('A', pick), inverse_Jacobian=at('idet', pick)))

    def at(self, what, how):
        def f(*x, element_range=None, **k):
            if len(x) != len(self.nodes) or any(a is not b for a, b in zip(x, self.nodes)): raise R.Violation('metric data evaluated at the nodes of the basis functions', f'{x}')
            for a, v in k.items():
                if (a, v) not in (('JM', self.jm), ('iJM', self.ijm)): raise R.StubMiss(a)
            return how(what, element_range)
        return f

    def pick(self, what, element_range): return {e: self.whole[what][self.E2C[e]] for e in element_range}
    def use_whole(self):
        w = lambda what, er: self.whole[what] if er is None else 1 / 0
        self.ct = Stub(Jacobian_matrix=self.at('JM', lambda *a: self.jm), inverse_Jacobian_matrix=self.at('iJM', lambda *a: self.ijm), Jacobian=self.at('det', w), inverse_metric_matrix=self.at('G', w))
        return self
    def use_split(self):
        w = lambda what, er: PyData(self.src, [self.whole[what][r] for r in range(3)])
        self.ct = Stub(inverse_Jacobian_matrix=self.at('A', w), inverse_Jacobian=self.at('idet', w), mapping=self.at('x', lambda *a: [self.src(f'x{i}', 'm', 'e') for i in range(self.n)]))
        return self


class PySpace(Duck):
    def __init__(self, src, n, k, ori, mesh, p):
        self.src, self.n, self.k, self.ori, self.mesh, self.p = src, n, k, ori, mesh, p
        self.abstract = Stub(m=n, n=n, k=k, orientation=ori)
        self.N = len(cells.comps(n, k, ori))
        self.asked = []
        self.basis_functions = {2: self.bf}

    def __getitem__(self, degree): return Stub(p=self.p, ntype=('Lobatto',) * self.n)
    def arrays(self): return [self.src(f'bf{j}', f'n{j}', 'm') for j in range(self.N)]
    def bf(self, *nodes):
        self.asked.append(nodes)
        return self.mesh.nodes, self.arrays()
    def num_local_dof_components(self, degree): return [int(np.prod(cells.box(e, self.p))) for e, _ in cells.comps(self.n, self.k, self.ori)]


class Cut2(Cut):
    r"""the same with a leading element axis."""
    def __getitem__(self, s):
        if not (isinstance(s, tuple) and len(s) == 2 and s[0] == slice(None)): raise R.Unsupported('entries of a formal cochain')
        return Cut.__getitem__(self, s[1])


for _n, _k, _o in [(1, 0, 'outer'), (1, 1, 'outer')] + KINDS:
    def _mm(mk, n=_n, k=_k, o=_o):
        import scipy.sparse as sp
        under(mk, mod(PY + 'mass_matrix.Lambda'))
        M, src, asked = mod(PY + 'mass_matrix.Lambda'), T.Source(mk.symbolic, 4), []
        mesh = PyMesh(src, n).use_whole()
        space = PySpace(src, n, k, o, mesh, (2, 3, 1)[:n])
        with np_patched(M, Quadrature=quad_stub(src, asked, n), **symbolic_only(mk, np=T.NP(), csr_matrix=T.stored(sp.csr_matrix), bmat=T.bmat)):
            D = M.MsePyMassMatrixLambda(space)(2)
        out = [('reference elements', sorted(D), [0, 1, 2])]
        for r, met in mesh.met.items():
            ax = [f'n{j}' for j in range(space.N)]
            out += block_items(src, f'reference element {r}', D[r], mass_blocks(src, met, k, o, space.arrays(), src('w', 'm')), (ax, ax))
        for nodes in space.asked: out.append(('at quadrature nodes', [x.name for x in nodes][:n], [f'quadrature node {i}' for i in range(n)]))
        return out

    def _rm(mk, n=_n, k=_k, o=_o):
        under(mk, mod(PY + 'reconstruction_matrix.Lambda'))
        M, nodes, out = mod(PY + 'reconstruction_matrix.Lambda'), own_nodes(n), []
        src = T.Source(mk.symbolic, 4, sizes_for(n, k, o, (2, 3, 1)[:n], nodes))
        mesh = PyMesh(src, n)
        space = PySpace(src, n, k, o, mesh, (2, 3, 1)[:n])
        for er in (None, [3, 0], 2):
            with np_patched(M, **symbolic_only(mk, np=T.NP())): D = M.MsePyReconstructMatrixLambda(space)(2, *nodes, element_range=er)
            out.append((f'elements of range {er}', sorted(D), sorted({None: [0, 1, 2, 3, 4], 2: [2]}.get(er if not isinstance(er, list) else 0, er))))
            for e in D:
                want = rows_of(src, mesh.met[mesh.E2C[e]], k, o, space.arrays())
                out.append((f'range {er} element {e}: number of components', len(D[e]), len(want)))
                for c, r in enumerate(want): out += block_items(src, f'range {er} element {e} component {c}', D[e][c], [r], (['m'], [f'n{j}' for j in range(space.N)]))
        return out

    def _rc(mk, n=_n, k=_k, o=_o):
        under(mk, mod(PY + 'reconstruct.Lambda'))
        M, nodes, out = mod(PY + 'reconstruct.Lambda'), own_nodes(n), []
        for p in [(2, 3, 1), (1, 1, 1), (3, 2, 2), (1, 3, 2)]:
            p = p[:n]
            src = T.Source(mk.symbolic, 4, sizes_for(n, k, o, p, nodes))
            mesh = PyMesh(src, n).use_split()
            space = PySpace(src, n, k, o, mesh, p)
            dims = space.num_local_dof_components(2)
            parts = [src(f'c{j}', 'e', f'n{j}') for j in range(len(dims))]
            if mk.symbolic: co = parts[0] if len(dims) == 1 else Cut2(parts, dims)
            else: co = np.concatenate(parts, axis=1)
            D = PyData(src, [mesh.met[r] for r in range(3)])
            kw = {} if n == 1 else {'ravel': True}
            with np_patched(M, **symbolic_only(mk, np=T.NP())): X, V = M.MsePySpaceReconstructLambda(space)(co, 2, *nodes, **kw)
            r = [src.einsum('im,ei->em', b, c) for b, c in zip(space.arrays(), parts)]
            out += [src.item(f'degree {p}: coordinate {i}', X[i], src(f'x{i}', 'm', 'e').T) for i in range(n)]
            if k == 0: want = [r[0]]
            else:
                cut = [D.split(x) for x in r]
                F = [met.factor(k, o) for met in D.per]
                want = [D.merge([plus(*[times(cut[j][i], F[i][c][j]) for j in range(len(r))]) for i in range(3)]) for c in range(len(F[0]))]
            out.append((f'degree {p}: number of components', len(V), len(want)))
            out += [src.item(f'degree {p}: component {i}', V[i], x) for i, x in enumerate(want)]
        return out

    for _what, _f in (('mass matrix', _mm), ('reconstruction matrix', _rm), ('reconstruction', _rc)):
        check.scenario(f'msepy {_what}: {name_of(_n, _k, _o)} (any arrays)', samples=1)(formal(_f))


class Comm(Duck):
    r"""one rank."""
    def gather(self, x, root=0): return [x]
    def allgather(self, x): return [x]
    def allreduce(self, x, op=None): return x
    def bcast(self, x, root=0): return x


class GridElement(Duck):
    r"""an element with its Jacobian on the mesh grid of the quadrature nodes."""
    def __init__(self, src, n, etype, tag, p, nodes):
        self.src, self.n, self.etype, self.tag, self.p, self.q = src, n, etype, tag, p, nodes
        self.ax = [f'q{i}' for i in range(n)]
        self.J = src(f'J @{tag}', *self.ax)
        self.ct = Stub(Jacobian=self.jacobian)
    def degree_parser(self, degree): return self.p, ('Lobatto',) * self.n
    def jacobian(self, *x):
        g = np.meshgrid(*self.q, indexing='ij')
        if len(x) != len(g) or any(np.shape(a) != b.shape or not np.array_equal(a, b) for a, b in zip(x, g)):
            raise R.Violation('the Jacobian is taken at the quadrature points', f'{[np.shape(a) for a in x]}')
        return self.J


class GridWorld:
    def __init__(self, mk, n, k, o, etype, same=False):
        self.n, self.k, self.o = n, k, o
        sizes = {f'q{i}': 3 + (0 if same else i) for i in range(n)}
        self.src = T.Source(mk.symbolic, 7, sizes)
        self.q = [np.linspace(-.9, .8, sizes[f'q{i}']) for i in range(n)]
        self.w = [self.src(f'w{0 if same else i}', f'q{0 if same else i}') for i in range(n)]
        self.N = len(cells.comps(n, k, o))
        self.els = {e: GridElement(self.src, n, etype, e, (2, 3, 1)[:n], self.q) for e in (0, 3)}
        self.asked = []

    def quad(self, degrees, category='Gauss'):
        self.asked.append((tuple(degrees), category))
        return Stub(quad=(tuple(self.q), tuple(self.w)))

    def values(self, tag, e, o=None): return [self.src(f'{tag}{j} {o or self.o} @{e}', *self.els[e].ax) for j in range(self.N)]
    def coo(self, e): return [self.src(f'x{i} @{e}', *self.els[e].ax) for i in range(self.n)]
    def rc_local(self, name):
        o = self.o if (self.n, self.k) != (2, 1) else {'i': 'inner', 'o': 'outer'}[name.split('rc221')[1][0]]
        def f(element, degree, local_cochain, *nodes, ravel=False):
            if ravel or len(nodes) != self.n or any(not np.array_equal(a, b) for a, b in zip(nodes, self.q)): raise R.Violation('reconstructed on the mesh grid of the quadrature nodes', f'{nodes}')
            if (self.n, self.k) == (2, 1) and ('vtu_5' in name) != (element.etype == 5 or 'triangle' in str(element.etype)): raise R.Violation('reconstructed as the element is', f'{name} for {element.etype}')
            if local_cochain != f'cochain {element.tag}': raise R.Violation('each element with its own cochain', local_cochain)
            return (*self.coo(element.tag), *self.values('u', element.tag, o))
        return f

    def rc_global(self, o=None, tag='u'):
        def f(tpm, degree, cochain, *nodes, ravel=False, element_range=None):
            if ravel or len(nodes) != self.n or any(not np.array_equal(a, b) for a, b in zip(nodes, self.q)): raise R.Violation('reconstructed on the mesh grid of the quadrature nodes', f'{nodes}')
            v = {e: self.values(cochain if isinstance(cochain, str) else tag, e, o) for e in self.els}
            return [{e: self.coo(e)[i] for e in v} for i in range(self.n)], [{e: v[e][j] for e in v} for j in range(self.N)]
        return f

    def cf(self, *x):
        for e in self.els:
            if all(a is b for a, b in zip(x, self.coo(e))): return self.values('exact', e)
        raise R.Violation('the exact field is taken at the physical points', f'{len(x)}')

    def integral(self, g):
        ax = 'abc'[:self.n]
        return plus(*[self.src.einsum(f'{ax},{",".join(ax)}->', el.J * g(e), *self.w) for e, el in self.els.items()])

    def repl(self, m):
        r = {x: self.rc_local(x) for x in dir(m) if x.startswith('___rc')}
        for x in dir(m):
            if x.startswith('reconstruct_Lambda__'): r[x] = self.rc_global(x.rsplit('_', 1)[1] if x.endswith(('inner', 'outer')) else None)
        return {**r, **{x: v for x, v in (('COMM', Comm()), ('quadrature', self.quad)) if hasattr(m, x)}}


def square_root(src, label, got, want):
    r"""got = want ** .5"""
    if src.symbolic:
        if not isinstance(got, T.Root): return [(label, repr(got), 'a square root')]
        return [src.item(label, got.f, want)]
    return [(label, float(got), float(want) ** .5)]


for _n, _k, _o in KINDS:
    _file = f'm{_n}n{_n}k{_k}'
    _suffix = _file + (f'_{_o}' if (_n, _k) == (2, 1) else '')
    for _et in REBUILT[_n]:
        def _er(mk, n=_n, k=_k, o=_o, et=_et, file=_file, suffix=_suffix):
            M, W_ = mod(HTT + f'error.Lambda.Er_{file}'), GridWorld(mk, n, k, o, et)
            under(mk, M)
            with np_patched(M, **W_.repl(M), **symbolic_only(mk, np=T.NP())):
                got = getattr(M, f'error__{suffix}')(Tpm(W_.els), W_.cf, {e: f'cochain {e}' for e in W_.els}, 2, 'L2')
            want = W_.integral(lambda e: plus(*[times(a - b, a - b) for a, b in zip(W_.values('u', e), W_.values('exact', e))]))
            return square_root(W_.src, 'L2 error', got, want) + [('quadrature', [list(map(str, x)) for x in W_.asked], [[str(tuple(q + 2 for q in (2, 3, 1)[:n])), 'Gauss']] * len(W_.els))]
        check.scenario(f'msehtt error: {name_of(_n, _k, _o)}, {_et} (any arrays)', samples=1)(formal(_er))
        if _k not in (0, _n): continue

        def _ma(mk, n=_n, k=_k, o=_o, et=_et, file=_file, suffix=_suffix):
            M, W_ = mod(HTT + f'mass.Lambda.mass_{file}'), GridWorld(mk, n, k, o, et)
            under(mk, M)
            with np_patched(M, **W_.repl(M), **symbolic_only(mk, np=T.NP())):
                got = getattr(M, f'mass_Lambda__{suffix}')(Tpm(W_.els), 2, {e: f'cochain {e}' for e in W_.els})
            return [W_.src.item('mass', got, W_.integral(lambda e: W_.values('u', e)[0]))]
        check.scenario(f'msehtt mass: {name_of(_n, _k, _o)}, {_et} (any arrays)', samples=1)(formal(_ma))

    def _no(mk, n=_n, k=_k, o=_o, file=_file, suffix=_suffix):
        M, src = mod(HTT + f'norm.Lambda.norm_{file}'), T.Source(mk.symbolic, 5)
        under(mk, M)
        name = f'mass_matrix_Lambda__{suffix}'
        mm = {e: src(f'M @{e}', 'i', 'i') for e in (0, 1, 4)}
        c = {e: src(f'c @{e}', 'i') for e in mm}
        with np_patched(M, COMM=Comm(), **{name: lambda tpm, degree: (mm, {})}, **symbolic_only(mk, np=T.NP())):
            got = getattr(M, f'norm_Lambda__{suffix}')(Tpm({e: None for e in mm}), 2, c)
        return square_root(src, 'L2 norm', got, plus(*[src.einsum('i,ij,j->', c[e], mm[e], c[e]) for e in mm]))
    check.scenario(f'msehtt norm: {name_of(_n, _k, _o)} (any arrays)', samples=1)(formal(_no))

    if (_n, _k) in ((3, 1), (3, 2)):
        def _nc(mk, n=_n, k=_k, o=_o, file=_file, suffix=_suffix):
            M, W_ = mod(HTT + f'norm.Lambda.norm_{file}'), GridWorld(mk, n, k, o, 'orthogonal hexahedron')
            with np_patched(M, **W_.repl(M), **symbolic_only(mk, np=T.NP())):
                got = getattr(M, f'norm_Lambda__{suffix}')(Tpm(W_.els), 2, {e: f'cochain {e}' for e in W_.els}, component_wise=True)
            out = [('three norms', len(got), 3)]
            for j in range(3): out += square_root(W_.src, f'norm of component {j}', got[j], W_.integral(lambda e: times(W_.values('u', e)[j], W_.values('u', e)[j])))
            return out
        check.scenario(f'msehtt component-wise norm: {name_of(_n, _k, _o)} (any arrays)', samples=1)(formal(_nc))

for _a in ('inner', 'outer'):
    for _b in ('inner', 'outer'):
        def _ip(mk, a=_a, b=_b):
            M, W_ = mod(HTT + 'inner_product.Lambda_Lambda.IP_LL_m2n2k1'), GridWorld(mk, 2, 1, a, 'any', same=True)
            under(mk, M)
            W_.src.sizes['q1'] = W_.src.size('q0')
            W_.q = [W_.q[0]] * 2
            for el in W_.els.values():
                el.q, el.ax = W_.q, ['q0', 'q0']
                el.J = W_.src(f'Jq @{el.tag}', 'q0', 'q0')
            asked = []
            def quad(d, category='Gauss'):
                asked.append((d, category))
                return Stub(quad_nodes=W_.q[0], quad_weights_ravel=W_.w[0])
            tpm = Tpm(W_.els)
            sp = [Stub(tpm=tpm, abstract=Stub(orientation=x)) for x in (a, b)]
            with np_patched(M, **{**W_.repl(M), 'quadrature': quad}, **symbolic_only(mk, np=T.NP())):
                got = M.___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(sp[0], 1, 'f', sp[1], 3, 'g')
            want = W_.integral(lambda e: plus(*[times(x, y) for x, y in zip(W_.values('f', e, a), W_.values('g', e, b))]))
            return [W_.src.item('inner product', got, want), ('quadrature of the larger degree + 2', str(asked), "[(5, 'Gauss')]")]
        check.scenario(f'msehtt inner product: 2d 1-forms {_a}, {_b} (any arrays)', samples=1)(formal(_ip))


if __name__ == '__main__':
    check.main()


# ---- the geometric object of a dof: the cell it stands for (bounded, whole meshes)
def vertices(g):
    r"""(kind, corners in order) of a point, segment, polygon, or axis-parallel 3d segment, rectangle, box."""
    name = type(g).__name__
    if name in ('Point2', 'Point3'): return 'point', np.array([[float(g.x), float(g.y)] + ([float(g.z)] if name == 'Point3' else [])])
    if name == 'StraightSegment2': return 'line', np.array([[g.A.x, g.A.y], [g.B.x, g.B.y]], dtype=float)
    if name == 'Polygon2': return 'face', np.array([[v.x, v.y] for v in g], dtype=float)
    if name == 'OrthogonalSegment3':
        a = 'xyz'.index(g._axis)
        out = np.zeros((2, 3))
        out[:, a], out[:, (a + 1) % 3], out[:, (a + 2) % 3] = g._bounds, g._line[0], g._line[1]
        return 'line', out
    if name == 'PerpRectangle':
        a = 'xyz'.index(g._perp_axis)
        out = np.zeros((4, 3))
        out[:, a] = g._face
        for i, (u, v) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))): out[i, (a + 1) % 3], out[i, (a + 2) % 3] = g._bounds0[u], g._bounds1[v]
        return 'face', out
    if name == 'OrthogonalHexahedron': return 'box', np.array([[g._bounds0[i], g._bounds1[j], g._bounds2[k]] for i in (0, 1) for j in (0, 1) for k in (0, 1)], dtype=float)
    raise R.Unsupported(f'object {name}')


def affine_integral(n, k, o, kind, V):
    r"""integral of the affine test field over the object, up to its orientation."""
    A = np.array([[.3, -.7, .4], [1.1, .2, -.5], [-.6, .9, .8]])[:n, :n]
    b = np.array([.7, -1.3, .45])[:n]
    F = lambda x: A @ x + b
    s = lambda x: float(F(x)[0])
    mid = V.mean(axis=0)
    if kind == 'point': return s(mid)
    if kind == 'line':
        t = V[1] - V[0]
        return float(F(mid) @ (t if (n, o) != (2, 'outer') else np.array([t[1], -t[0]])))
    if kind == 'box': return s(mid) * float(np.prod(V.max(axis=0) - V.min(axis=0)))
    if n == 3: return float(F(mid) @ np.cross(V[1] - V[0], V[3] - V[0]))
    total = 0.                                     # two triangles
    for T in (V[[0, 1, 2]], V[[0, 2, 3]]):
        p, q = T[1] - T[0], T[2] - T[0]
        total += s(T.mean(axis=0)) * (p[0] * q[1] - p[1] * q[0]) / 2
    return total


def affine_field(n, k):
    A, b = [[.3, -.7, .4], [1.1, .2, -.5], [-.6, .9, .8]], [.7, -1.3, .45]
    if n == 2: comp = [(lambda i: lambda t, x, y: A[i][0] * x + A[i][1] * y + b[i])(i) for i in range(2)]
    else: comp = [(lambda i: lambda t, x, y, z: A[i][0] * x + A[i][1] * y + A[i][2] * z + b[i])(i) for i in range(3)]
    return ph.vc.scalar(comp[0]) if k in (0, n) else ph.vc.vector(*comp)


def dof_objects(name, p):
    def scn(mk):
        w, out = W('msehtt', name, p), []
        for a, k, o, f in w.forms():
            f.cf = affine_field(w.n, k)
            c, gm = f.reduce(f.cf[0]), f.cochain.gathering_matrix
            here = {}
            mk.fn(type(f.space.find_dof_geometry).local_dof)
            for e in w.range:
                for i, d in enumerate(gm[e]):
                    g = f.space.find_dof_geometry.local_dof(f.degree, e, i)
                    kind, V = vertices(g)
                    out.append((f'{a}: element {e} dof {i}: the kind of object', kind, ('point', 'line', 'face', 'box')[k]))
                    out.append((f'{a}: element {e} dof {i}: its integral', abs(float(c[e][i])), abs(affine_integral(w.n, k, o, kind, V))))
                    here.setdefault(int(d), []).append((e, i, g, V))
            for d, L in here.items():
                for e, i, g, V in L[1:]:
                    out.append((f'{a}: dof {d} in elements {L[0][0]} and {e}: the same object', bool(np.allclose(sorted(map(tuple, np.round(V, 7) + 0.)), sorted(map(tuple, np.round(L[0][3], 7) + 0.)), atol=1e-6)), True))
                    if w.n == 3 or k < 2: out.append((f'{a}: dof {d} in elements {L[0][0]} and {e}: equal objects', bool(g == L[0][2]), True))
            first = [L[0] for _, L in sorted(here.items())]
            rng = np.random.default_rng(1)
            for x, y in zip(first, [first[j] for j in rng.permutation(len(first))]):
                if x is not y: out.append((f'{a}: dofs {x[:2]} and {y[:2]}: different objects', bool(x[2] == y[2]), False))
        return out
    return scn


for _name, _p in (('2d crazy linear', 2), ('2d crazy linear', (1, 3)), ('2d parallelograms', 2), ('2d chaotic quads', 2), ('3d crazy linear', 1), ('3d crazy linear', (2, 1, 2))):
    @check.unit(f'the objects of dofs: {_name}, degree {_p}', real=True)
    def _(led, name=_name, p=_p): R.bounded_scenario(led, f'{name}, degree {p}: objects of dofs', dof_objects(name, p), samples=1, tol=1e-7)
