r"""C17: the data of the product terms, their reductions, the nonlinear operators and Newton's linearisation."""
import itertools
import random
import traceback
import numpy as np
from fractions import Fraction
from pv.run import *
from pv.run import get, np_patched, Stub, Check
import pv.run as R
from pv import tensor as T
from pv import terms as tm

check = Check('C17', trusted=['numpy.einsum, @ and the elementwise arithmetic of arrays', 'scipy.sparse.csr_matrix of a dense block is that block',
                              'reconstruction matrices, incidence matrices and Jacobians are what C01, C07 and C16 say they are', 'one MPI rank'])
HTT, PY = 'phyem.msehtt.static.form.addons.nop_data_computer.', 'phyem.msepy.form.addons.noc.'


from pv.formal import mod, formal, Duck


def unit_vectors(n): return [tuple(1 if i == j else 0 for j in range(n)) for i in range(n)]


def multilinear(src, integrand, names, comps, arrays, out):
    r"""sum over components of the integrand's coefficients times the product of the arrays, the weights and the Jacobian.
    comps: number of components per name; arrays(name, c): the (L x dofs) array."""
    total = None
    letters = dict(zip(names, out))
    for idx in itertools.product(*[range(comps[x]) for x in names]):
        V = {x: unit_vectors(comps[x])[i] for x, i in zip(names, idx)}
        c = integrand(V)
        if c == 0: continue
        t = src.einsum(','.join('l' + letters[x] for x in names) + ',l,l->' + out, *[arrays(x, i) for x, i in zip(names, idx)], src('w', 'L'), arrays(None, None))
        t = c * t
        total = t if total is None else total + t
    return total


# ------------------------------------------------------------------------------------------------ the three-form data of msehtt
class HttForm(Duck):
    def __init__(self, world, name, space, comps, degree):
        self.world, self.name, self.sname, self.comps, self.degree = world, name, space, comps, degree
        self.tpm, self.tgm = world.tpm, world.tgm
        self.space = Named(space)

    def array(self, c, e):
        return self.world.src(f'R {self.sname}{self.degree} {c} @{self.world.cls[e]}', 'L', f'n({self.sname}{self.degree})')

    def reconstruction_matrix(self, *nodes):
        self.world.at(nodes)
        return [{e: self.array(c, e) for e in self.world.elements} for c in range(self.comps)]

    @property
    def incidence_matrix(self):
        return {e: self.world.src(f'E {self.sname}{self.degree} @{self.world.rev[e]}', f'n(d{self.sname}{self.degree})', f'n({self.sname}{self.degree})') for e in self.world.elements}

    def d(self): return HttForm(self.world, 'd' + self.name, 'd' + self.sname, self.world.dcomps[self.name], self.degree)


class Named(Duck):
    def __init__(self, s): self.s = s
    def __repr__(self): return f'<space {self.s}>'


class HttWorld:
    r"""elements of one type: metric signatures, reverse information, and what distinguishes their arrays."""
    def __init__(self, src, n, etype, dcomps=None):
        self.src = src
        self.n, self.dcomps, self.asked, self.checks = n, dcomps or {}, [], []
        rows = [('s', None, None), ('t', None, None), ('s', None, None), ('t', None, None)]
        if etype == 9:
            rows = [('s', o, i) for o in (None, (0,), (0, 2)) for i in (None, (1,), (0,))]
            rows = rows + rows[::2] + [('t', (0,), (1,)), ('t', None, (0,)), ('t', (0,), None)]
        if etype == 'unique msepy curvilinear hexahedron':
            rows = [('u', None, None), ('v', None, None), ('w', None, None)]
        self.cls = {e: r for e, r in enumerate(rows)}
        self.rev = {e: r[1:] for e, r in enumerate(rows)}
        W = self

        class CT:
            def __init__(s, e): s.e = e
            def Jacobian(s, *coo):
                q = W.asked[-1]
                want = [x.ravel('F') for x in np.meshgrid(*q, indexing='ij')]
                W.checks.append(len(coo) == n and all(np.shape(a) == np.shape(b) and np.array_equal(a, b) for a, b in zip(coo, want)))
                return W.src(f'J @{W.cls[s.e]}', 'L')
        self.elements = {e: Stub(metric_signature=r[0], etype=etype, ct=CT(e),
                                 dof_reverse_info={**({'m2n2k1_outer': list(r[1])} if r[1] is not None else {}), **({'m2n2k1_inner': list(r[2])} if r[2] is not None else {})})
                         for e, r in self.cls.items()}
        self.tpm = Stub(abstract=Stub(m=n, n=n), composition=self.elements)
        self.tgm = Stub()
        self.quad = None

    def at(self, nodes): self.asked.append(nodes)

    def quadrature(self, real):
        W = self

        def f(p, category='Gauss'):
            q = real(p, category)
            W.rule = (tuple(p), category)
            nodes = q.quad_nodes
            W.nodes = nodes
            return Stub(quad_nodes=nodes, quad_weights_ravel=W.src('w', 'L'))
        return f


TYPES = {2: ['orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9], 3: ['orthogonal hexahedron', 'unique msepy curvilinear hexahedron']}
CROSS = lambda V: tm.dot(tm.cross(V['A'], V['B']), V['C'])
MUL = lambda V: tm.dot(tm.mul(V['A'], V['B']), V['C'])
KERNELS = [
    ('trilinear_AxB_ip_C', 'AxB_ip_C', '', CROSS, {2: [(1, 2, 2), (2, 2, 1)], 3: [(3, 3, 3)]}),
    ('trilinear_AxB_dp_C', 'AxB_dp_C', '', CROSS, {2: [(1, 2, 2), (2, 2, 1)], 3: [(3, 3, 3)]}),
    ('trilinear_AxB_ip_dC', 'AxB_ip_dC', 'C', CROSS, {2: [(1, 2, 2), (2, 2, 1)], 3: [(3, 3, 3)]}),
    ('trilinear_AB_ip_dC', 'AB_ip_dC', 'C', MUL, {2: [(1, 2, 2), (1, 1, 1)]}),
    ('trilinear_AdB_ip_C', 'AdB_ip_C', 'B', MUL, {2: [(1, 2, 2), (1, 1, 1)]}),
    ('trilinear_AdB_ip_dC', 'AdB_ip_dC', 'BC', MUL, {2: [(1, 2, 2), (1, 1, 1)]}),
    ('trilinear_ABC', 'T_ABC', '', MUL, {2: [(1, 2, 2), (1, 1, 1)]}),
]


def exact_enough(rule, p, n, times=3):
    r"""a Gauss rule of degree q (q + 1 nodes) integrates the product of polynomials of degree p exactly."""
    q, cat = rule
    q = [q] * n if isinstance(q, (int, np.integer)) else list(q)
    return cat == 'Gauss' and len(q) == n and all(2 * x + 1 >= times * y for x, y in zip(q, p))


for _m, _cl, _der, _f, _shapes in KERNELS:
    @check.scenario(f'msehtt {_cl}: the data of every element', samples=2)
    @formal
    def _(mk, m=_m, cl=_cl, der=_der, f=_f, shapes=_shapes):
        M = mod(HTT + m)
        K = getattr(M, cl)
        own = mod(K._generate_data_.__module__)
        from phyem.tools.quadrature import quadrature
        mk.fn(K.__init__, K._make_3d_data, K._generate_data_, K.clean_cache)
        out = []
        for n, variants in shapes.items():
            for etype in TYPES[n]:
                if etype == 'unique msepy curvilinear hexahedron' and cl not in ('AxB_ip_C', 'AxB_dp_C', 'ABC'): continue
                for comps in variants:
                    K.clean_cache()
                    src = T.Source(mk.symbolic, n)
                    for degrees in ((2, 1, 1), (1, 3, 2), (1, 1, 3), (2, 1, 1)):      # the last one meets the data of the first
                        c = dict(zip('ABC', comps))
                        W = HttWorld(src, n, etype, dcomps={x: c[x] for x in der})
                        F = {x: HttForm(W, x, 'S' + x, 7 if x in der else c[x], d) for x, d in zip('ABC', degrees)}
                        repl = dict(MseHttForm=HttForm, quadrature=W.quadrature(quadrature))
                        if mk.symbolic: repl['np'] = T.NP()
                        with np_patched(M, own, **repl):
                            o = K(F['A'], F['B'], F['C'])
                            o._make_3d_data()
                            o._make_3d_data()
                            data = o._3d_data
                        lab = f'{n}d {etype} {comps} degrees {degrees}'
                        out.append((f'{lab}: elements', repr(sorted(data)), repr(sorted(W.elements))))
                        if W.asked:
                            out.append((f'{lab}: nodes', all(W.checks) and all(x is W.nodes or all(np.array_equal(a, b) for a, b in zip(x, W.nodes)) for x in W.asked), True))
                            out.append((f'{lab}: the rule is exact', exact_enough(W.rule, [max(degrees)] * n, n), True))
                        for e in W.elements:
                            def arrays(x, i, e=e):
                                if x is None: return W.src(f'J @{W.cls[e]}', 'L')
                                if x not in der: return F[x].array(i, e)
                                d = F[x].d().array(i, e)
                                return d @ F[x].incidence_matrix[e]
                            out.append(W.src.item(f'{lab}: element {e}', data[e], multilinear(W.src, f, 'ABC', c, arrays, 'ijk')))
                    K.clean_cache()
        return out


# ------------------------------------------------------------------------------------------------ the three- and four-form data of msepy
class PyForm(Duck):
    def __init__(self, world, name, space, comps, degree, bundle=False):
        self.world, self.name, self.sname, self.comps, self.degree, self._degree = world, name, space, comps, degree, degree
        self.mesh = world.mesh
        self.space = PySpace(space, degree, world.n, world.Bundle if bundle else world.Scalar, bundle)
        W = self
        self.coboundary = Stub(incidence_matrix=Stub(_data=Dense(world.src(f'E {space}{degree}', f'n(d{space}{degree})', f'n({space}{degree})'))),
                               _make_df=lambda: PyForm.derivative(W))

    @staticmethod
    def derivative(f): return PyForm(f.world, 'd' + f.name, 'd' + f.sname, f.world.dcomps[f.name], f.degree)

    def array(self, c, e): return self.world.src(f'R {self.sname}{self.degree} {c} @{self.world.e2c[e]}', 'L', f'n({self.sname}{self.degree})')

    def reconstruction_matrix(self, *nodes):
        self.world.at(nodes)
        if isinstance(self.comps, tuple):
            return {e: tuple(tuple(self.array((i, j), e) for j in range(self.comps[1])) for i in range(self.comps[0])) for e in self.world.e2c}
        return {e: tuple(self.array(c, e) for c in range(self.comps)) for e in self.world.e2c}


class Dense(Duck):
    def __init__(self, x): self.x = x
    def toarray(self): return self.x


class PySpace(Duck):
    def __init__(self, name, degree, n, cls, bundle):
        self.name, self.n, self.bundle = name, n, bundle
        self.abstract = cls()

    def __repr__(self): return f'<space {self.name}>'
    def __getitem__(self, degree): 
        p = tuple(degree for _ in range(self.n))
        return Stub(p=(p,) * self.n if self.bundle else p)


class PyWorld:
    def __init__(self, src, n, dcomps=None):
        self.src, self.n, self.dcomps, self.asked, self.checks = src, n, dcomps or {}, [], []
        self.e2c = {0: 0, 1: 1, 2: 0, 3: 3, 4: 1}
        W = self
        self.Scalar, self.Bundle = type('Scalar', (), {}), type('Bundle', (), {})

        class CT:
            @staticmethod
            def Jacobian(*coo):
                want = [x.ravel('F') for x in np.meshgrid(*W.asked[-1], indexing='ij')]
                W.checks.append(len(coo) == n and all(np.shape(a) == np.shape(b) and np.array_equal(a, b) for a, b in zip(coo, want)))
                return {e: W.src(f'J @{c}', 'L') for e, c in W.e2c.items()}

        class Elements:
            ct = CT
            _index_mapping = Stub(_e2c=self.e2c)
            def __iter__(s): return iter(W.e2c)
        self.mesh = Stub(n=n, elements=Elements())

    def at(self, nodes): self.asked.append(nodes)

    def Quadrature(self, real):
        W = self

        def f(p, category='Gauss'):
            q = real([int(x) for x in p], category=category)
            W.rule, W.nodes = (tuple(int(x) for x in p), category), q.quad_nodes
            return Stub(quad_nodes=q.quad_nodes, quad_weights_ravel=W.src('w', 'L'))
        return f


TENSOR = lambda V: sum(V['A'][i][j] * V['B'][i] * V['C'][j] for i in range(2) for j in range(2))
CROSS4 = lambda V: tm.dot(tm.cross(V['A'], V['B']), tm.cross(V['C'], V['D']))
PYKERNELS = [
    ('diff_3_entries_AxB_ip_C', '_AxBipC', '', CROSS, [(2, (1, 2, 2)), (2, (2, 2, 1)), (3, (3, 3, 3))], '_3d_data'),
    ('diff_3_entries_AxB_ip_C', '_AxBdpC', '', CROSS, [(2, (1, 2, 2)), (2, (2, 2, 1)), (3, (3, 3, 3))], '_3d_data'),
    ('diff_3_entries_dA_ip_BtpC', '__dA_ip_BtpC__', 'A', TENSOR, [(2, ((2, 2), 2, 2))], '_3d_data'),
    ('diff_3_entries_A__ip__B_tp_C', '_A__ip__B_tp_C_', '', TENSOR, [(2, ((2, 2), 2, 2))], '_3d_data'),
    ('AxB_ip_CxD', 'AxB_ip_CxD', '', CROSS4, [(2, (2, 2, 2, 2))], '_4d_data'),
]


def matrices(shape):
    r"""(components, unit values) of a scalar-, vector- or matrix-valued form."""
    if isinstance(shape, tuple):
        for i in range(shape[0]):
            for j in range(shape[1]):
                yield (i, j), tuple(tuple(int((a, b) == (i, j)) for b in range(shape[1])) for a in range(shape[0]))
    else:
        for i, v in enumerate(unit_vectors(shape)): yield i, v


for _m, _cl, _der, _f, _variants, _attr in PYKERNELS:
    @check.scenario(f'msepy {_cl.strip("_")}: the data of every element', samples=2)
    @formal
    def _(mk, m=_m, cl=_cl, der=_der, f=_f, variants=_variants, attr=_attr):
        M = mod(PY + m)
        K = getattr(M, cl, None) or next(v for k, v in vars(M).items() if isinstance(v, type) and v.__module__ == M.__name__ and cl.strip('_').lower() in k.lower())
        from phyem.tools.quadrature import Quadrature
        make = getattr(K, '_make' + attr)
        mk.fn(K.__init__, make)
        caches = [v for k, v in vars(M).items() if isinstance(v, dict) and 'cache' in k]
        saved = [dict(c) for c in caches]
        out = []
        names = 'ABCD'[:4 if attr == '_4d_data' else 3]
        idx = 'ijkm'[:len(names)]
        try:
            for n, comps in variants:
                for c in caches: c.clear()
                src = T.Source(mk.symbolic, n)
                for degrees in ((2, 1, 1, 1), (1, 3, 2, 1), (1, 1, 3, 2), (2, 1, 1, 1)):
                    c = dict(zip(names, comps))
                    W = PyWorld(src, n, {x: c[x] for x in der})
                    bundle = f is TENSOR
                    F = {x: PyForm(W, x, 'S' + x, 7 if x in der else c[x], d, bundle) for x, d in zip(names, degrees)}
                    repl = dict(MsePyRootForm=PyForm, Quadrature=W.Quadrature(Quadrature), ScalarValuedFormSpace=W.Scalar, BundleValuedFormSpace=W.Bundle)
                    if mk.symbolic: repl['np'] = T.NP()
                    with np_patched(M, **repl):
                        o = K(*[F[x] for x in names])
                        getattr(o, '_make' + attr)()
                        getattr(o, '_make' + attr)()
                        data = getattr(o, attr)
                    lab = f'{n}d {comps} degrees {degrees}'
                    out.append((f'{lab}: elements', repr(sorted(data)), repr(sorted(W.e2c))))
                    if W.asked:
                        out.append((f'{lab}: nodes', all(W.checks) and all(all(np.array_equal(a, b) for a, b in zip(x, W.nodes)) for x in W.asked), True))
                        out.append((f'{lab}: the rule is exact', exact_enough(W.rule, [max(degrees[:len(names)])] * n, n, len(names)), True))
                    for e in W.e2c:
                        def array(x, i):
                            if x not in der: return F[x].array(i, e)
                            return PyForm.derivative(F[x]).array(i, e) @ F[x].coboundary.incidence_matrix._data.toarray()
                        total = None
                        for combo in itertools.product(*[list(matrices(c[x])) for x in names]):
                            k = f({x: v for x, (_, v) in zip(names, combo)})
                            if k == 0: continue
                            t = k * W.src.einsum(','.join('l' + i for i in idx) + ',l,l->' + idx, *[array(x, i) for x, (i, _) in zip(names, combo)], W.src('w', 'L'), W.src(f'J @{W.e2c[e]}', 'L'))
                            total = t if total is None else total + t
                        out.append(W.src.item(f'{lab}: element {e}', data[e], total))
        finally:
            for c, s in zip(caches, saved):
                c.clear()
                c.update(s)
        return out


@check.scenario('the quadrature rules integrate the products', samples=1)
def _(mk):
    r"""nodes, raveled weights and exactness of the real rule, in the order of the raveled nodes (degrees up to 12)."""
    from phyem.tools.quadrature import Quadrature, quadrature
    mk.fn(Quadrature.__init__)
    out = []
    for n in (1, 2, 3):
        for q in ([1, 2, 3], [4, 2, 5], [7, 3, 1], [12, 2, 2]):
            for make in (Quadrature, quadrature):
                o = make(tuple(q[:n]), 'Gauss') if n > 1 else make(q[0], 'Gauss')
                nodes = o.quad_nodes if n > 1 else [o.quad_nodes[0] if isinstance(o.quad_nodes, (list, tuple)) else o.quad_nodes]
                g = [x.ravel('F') for x in np.meshgrid(*nodes, indexing='ij')]
                w = o.quad_weights_ravel
                for d in itertools.product(*[sorted({0, 1, 2 * a, 2 * a + 1}) for a in q[:n]]):
                    want = float(np.prod([0 if x % 2 else 2 / (x + 1) for x in d]))
                    out.append((f'{n}d {q[:n]} {d}', float(np.sum(w * np.prod([a ** x for a, x in zip(g, d)], axis=0))), want))
    if mk.symbolic: raise R.Unsupported('floating-point rules')
    return out


# ------------------------------------------------------------------------------------------------ reductions of the data
class Gm(Duck):
    def __init__(self, name): self.name = name
    def __repr__(self): return f'gm {self.name}'


class Time(Duck):
    def __init__(self, f, args, kwargs): self.key = (f.name, args, tuple(sorted(kwargs.items())))
    def __repr__(self): return f'time {self.key}'


class RForm(Duck):
    r"""a form whose cochain at the instant the arguments make is one named array per element."""
    def __init__(self, W, name):
        self.W, self.name, self.mesh, self.tpm, self.tgm, self._f = W, name, W.mesh, W.tpm, W.tgm, self
        self.cochain = RCochain(self)

    def __getitem__(self, t):
        if not isinstance(t, Time) or t.key[0] != self.name: raise KeyError(f'{self.name} at {t}')
        return Copy(self, t)


class RCochain(Duck):
    def __init__(self, f): self.f, self.gathering_matrix = f, Gm(f.name)
    def _ati_time_caller(self, *a, **k): return Time(self.f, a, k)
    def _callable_cochain(self, *a, **k): return self.f[Time(self.f, a, k)].cochain


class Copy(Duck):
    def __init__(self, f, t): self._f, self._t, self.tpm, self.tgm, self.mesh, self.cochain = f, t, f.tpm, f.tgm, f.mesh, Cochain(f, t)


class Cochain(Duck):
    def __init__(self, f, t):
        self.f, self.t = f, t
        self.per = {e: f.W.src(f'{f.name}{t} @{e}', f'n{f.name}') for e in f.W.E}
        self.local = self.data = self.per

    def __getitem__(self, e): return self.per[e]


class Vec(Duck):
    r"""a vector of given local data."""
    def __init__(self, W, name, axis):
        self.per = {e: W.src(f'{name} @{e}', f'n{axis}') for e in W.E}
        self.data = T.Stack([self.per[e] for e in W.E]) if W.src.symbolic else np.array([self.per[e] for e in W.E])

    def __getitem__(self, e): return self.per[e]


class RWorld:
    def __init__(self, mk, n, seed=0):
        self.src, self.E = T.Source(mk.symbolic, seed), list(range(3))
        elements = Stub(__iter__=None)
        E = self.E

        class Elements:
            def __iter__(s): return iter(E)
            def __len__(s): return len(E)
        self.mesh, self.tpm, self.tgm = Stub(elements=Elements()), Stub(composition={e: None for e in E}), Stub()
        self.F = [RForm(self, x) for x in 'ABCD'[:n]]
        self.data = {e: self.src(f'data @{e}', *[f'n{x}' for x in 'ABCD'[:n]]) for e in E}


class Made(Duck):
    r"""records what a matrix or vector was made from."""
    def __init__(self, data, *gms, cache_key=None, **k): self.data, self.gms = data, gms
    def __getitem__(self, e): return self.data(e) if callable(self.data) else self.data[e]


def dense(x): return x


LIBS = {
    'msehtt': dict(base=HTT + 'trilinear_base', ops=['phyem.msehtt.tools.nonlinear_system.operator.local_multilinear', 'phyem.msehtt.tools.nonlinear_system.operator.dynamic'],
                   vec='_OneDimVectorCaller', mat='_TwoDimMatrixCaller', op='MseHttStatic_Local_Multi_Linear_NonlinearOperator', dyn='MseHttDynamicLocalNonlinearOperator', flag='multi_linear'),
    'msepy': dict(base=PY + 'diff_3_entries__BASE', ops=['phyem.msepy.tools.nonlinear_operator.static.local', 'phyem.msepy.tools.nonlinear_operator.dynamic'],
                  vec='_OneDimVector', mat='_D2MatrixCallerRowCol', op='MsePyStaticLocalNonlinearOperator', dyn='MsePyDynamicLocalNonlinearOperator', flag='direct_derivative_contribution'),
    'msepy, four forms': dict(base=PY + '_4_entries__BASE', vec='_B4E_1DimVector', mat='_B4E_2DimMatrix')}


def stand_ins(lib, symbolic):
    htt = lib == 'msehtt'
    d = {('MseHtt' if htt else 'MsePy') + 'StaticLocalVector': Made, ('MseHtt' if htt else 'MsePy') + 'StaticLocalMatrix': Made}
    if htt: d.update(MseHttForm=RForm, MseHttFormStaticCopy=Copy, MseHttTimeInstantCochain=Cochain, MseHttStaticCochainVector=Vec)
    else: d.update(MsePyRootForm=RForm, MsePyRootFormStaticCopy=Copy, _CochainAtOneTime=Cochain, MsePyRootFormStaticCochainVector=Vec)
    if symbolic:
        N = T.NP()
        N.ndarray, N.vstack, N.array = T.Formal, lambda x: x, lambda x: x if isinstance(x, list) else np.array(x)
        d.update(np=N, csr_matrix=dense)
    return d


def row(x, e):
    x = x[e]
    return x.toarray() if hasattr(x, 'toarray') else x


ARGS = ((3.5,), dict(s=2))


def contracted(W, letters, given, left):
    r"""the data with the axes of `given` (index: array) summed, the rest in the order `left`."""
    ix = 'ijkm'[:letters]
    return lambda e: W.src.einsum(ix + ',' + ','.join(ix[i] for i in given) + '->' + ''.join(ix[i] for i in left) if given else ix + '->' + ''.join(ix[i] for i in left),
                                  W.data[e], *[given[i](e) for i in given])


for _lib, _L in LIBS.items():
    @check.scenario(f'{_lib}: reductions to vectors and matrices', samples=2)
    @formal
    def _(mk, lib=_lib, L=_L):
        B = mod(L['base'])
        n = 4 if 'four' in lib else 3
        VC, MC = getattr(B, L['vec']), getattr(B, L['mat'])
        mk.fn(VC.__init__, VC.__call__, VC._time_caller, MC.__init__, MC.__call__)
        K = B.MseHttTrilinearBase if lib == 'msehtt' else B.Base3Entries if n == 3 else B.Base4Entries
        mk.fn(K.__call__)
        out = []
        name = '_4d_data' if n == 4 else '_3d_data'
        dyn = {x: Dyn for x in ('MseHttDynamicLocalVector', 'MseHttDynamicLocalMatrix', 'MsePyDynamicLocalVector', 'MsePyDynamicLocalMatrix')}
        with np_patched(B, **stand_ins(lib.split(',')[0], mk.symbolic), **dyn):
            for i in range(n):
                W = RWorld(mk, n, 1)
                o = operator(K, W, name)
                v, times = o(1, W.F[i])
                rest = [j for j in range(n) if j != i]
                out.append((f'vector {i}: times', repr([t.key for t in times(*ARGS[0], **ARGS[1])]), repr([Time(W.F[j], *ARGS).key for j in rest])))
                x = v.made(*ARGS[0], **ARGS[1])
                out.append((f'vector {i}: gathering', repr(x.gms), repr((W.F[i].cochain.gathering_matrix,))))
                want = contracted(W, n, {j: W.F[j][Time(W.F[j], *ARGS)].cochain.__getitem__ for j in rest}, [i])
                for e in W.E: out.append(W.src.item(f'vector {i} element {e}', x[e], want(e)))
                for j in range(n):
                    if j == i: continue
                    W = RWorld(mk, n, 1)
                    o = operator(K, W, name)
                    m = o(2, W.F[i], W.F[j])
                    rest = [q for q in range(n) if q not in (i, j)]
                    if n == 4:
                        m, times = m
                        out.append((f'matrix {i}{j}: times', repr([t.key for t in times(*ARGS[0], **ARGS[1])]), repr([Time(W.F[q], *ARGS).key for q in rest])))
                    x = m.made(*ARGS[0], **ARGS[1])
                    out.append((f'matrix {i}{j}: gathering', repr(x.gms), repr((W.F[i].cochain.gathering_matrix, W.F[j].cochain.gathering_matrix))))
                    want = contracted(W, n, {q: W.F[q][Time(W.F[q], *ARGS)].cochain.__getitem__ for q in rest}, [i, j])
                    for e in W.E: out.append(W.src.item(f'matrix {i}{j} element {e}', row(x, e), want(e)))
        return out


class Dyn(Duck):
    def __init__(self, made): self.made = made


def operator(K, W, name):
    o = K.__new__(K)
    for k, v in {name: W.data, '_ABC': tuple(W.F), '_ABCD': tuple(W.F), '_mesh': W.mesh, **{'_' + f.name: f for f in W.F}}.items(): object.__setattr__(o, k, v)
    return o


for _lib in ('msehtt', 'msepy'):
    @check.scenario(f'{_lib}: nonlinear operators', samples=2)
    @formal
    def _(mk, lib=_lib, L=LIBS[_lib]):
        S, D = mod(L['ops'][0]), mod(L['ops'][1])
        Op, Dy = getattr(S, L['op']), getattr(D, L['dyn'])
        mk.fn(Op.__init__, Op.__call__, Op._make_operands, Op.__rmul__, Op.eliminate, Op.matrix, Op._derivative_contribution, Op._evaluate, S._Matrix.__call__, S._RmulFactorHelper.__call__,
              Dy.__init__, Dy.__call__, Dy._time_caller)
        if hasattr(Op, '_get_raw_data'): mk.fn(Op._get_raw_data)
        out = []
        with np_patched(S, D, **stand_ins(lib, mk.symbolic)):
            for n in (2, 3, 4):
                for test in range(n):
                    W = RWorld(mk, n, 1)
                    d = Dy(W.data, *W.F, **{L['flag']: True})
                    d.test_form = W.F[test]
                    op = d(*ARGS[0], **ARGS[1])
                    co = op.correspondence
                    lab = f'{n} forms, test {test}'
                    out.append((f'{lab}: the forms', repr([(c.name if isinstance(c, RForm) else (c._f.name, c._t.key)) for c in co]),
                                repr([(f.name if i == test else (f.name, Time(f, *ARGS).key)) for i, f in enumerate(W.F)])))
                    for c in (None, 2, -1.5):
                        o, k = (op, 1) if c is None else (c * op, c)
                        out.append((f'{lab} {c}: same forms', all(a is b for a, b in zip(o.correspondence, co)) and len(o.correspondence) == n, True))
                        for given in itertools.product((0, 1), repeat=n):
                            if not any(given):
                                if c is None:
                                    for e in W.E: out.append(W.src.item(f'{lab}: data {e}', o(e), W.data[e]))
                                continue
                            V = {i: Vec(W, f'x{i}', 'ABCD'[i]) for i in range(n) if given[i]}
                            left = [i for i in range(n) if not given[i]]
                            want = contracted(W, n, {i: V[i].__getitem__ for i in V}, left)
                            prov = [V.get(i) for i in range(n)]
                            if left:
                                r = o.eliminate(prov)
                                out.append((f'{lab} {c} {given}: the forms left', all(a is co[i] for a, i in zip(r.correspondence, left)) and len(r.correspondence) == len(left), True))
                                for e in W.E:
                                    out.append(W.src.item(f'{lab} {c} {given}: element {e}', r(e), k * want(e)))
                                if len(left) == 2:
                                    for tr in (False, True):
                                        M = r.matrix(transpose=tr)
                                        for e in W.E: out.append(W.src.item(f'{lab} {c} {given} matrix {tr} {e}', row(M, e), k * contracted(W, n, {i: V[i].__getitem__ for i in V}, left[::-1] if tr else left)(e)))
                                        out.append((f'{lab} {c} {given} matrix {tr} gathering', repr(M.gms), repr(tuple(W.F[i].cochain.gathering_matrix for i in (left[::-1] if tr else left)))))
                            if len(left) == 1 and left[0] == test:
                                for order in (1, -1):
                                    pairs = [[co[i], V[i]] for i in range(n) if i != test][::order] + [[Copy(W.F[0], Time(W.F[0], (9,), {})), Vec(W, 'other', 'A')]]
                                    got = o._evaluate(pairs)
                                    for e in W.E: out.append(W.src.item(f'{lab} {c} evaluate {order} {e}', got[e], k * want(e)))
                        for u in range(n):
                            if u == test or n == 2: continue
                            V = {i: Vec(W, f'x{i}', 'ABCD'[i]) for i in range(n) if i not in (u, test)}
                            for order in (1, -1):
                                M = o._derivative_contribution(W.F[test], co[u], *[[co[i], V[i]] for i in V][::order])
                                out.append((f'{lab} {c}: derivative by {u} {order} gathering', repr(M.gms), repr(tuple(W.F[i].cochain.gathering_matrix for i in (test, u)))))
                                for e in W.E:
                                    out.append(W.src.item(f'{lab} {c}: derivative by {u} {order} {e}', row(M, e), k * contracted(W, n, {i: V[i].__getitem__ for i in V}, [test, u])(e)))
                        out.append((f'{lab} {c}: derivative by a stranger', o._derivative_contribution(W.F[test], Copy(W.F[0], Time(W.F[0], (9,), {}))) is None, True))
        return out


# ---- the terms the two implementations take up: what the assembled system adds is the integral of the reconstructed forms -----
TABLE = tm.table()


def product_unit(key, part):
    lib, n, st = key
    rows = TABLE[key][part]

    def scn(mk):
        seed = int(mk.int('seed', 0, 10 ** 6))
        out = []
        for test, known, sp in rows:
            want, got = tm.compare(lib, n, st, test, known, sp, factor=2.5 if seed % 2 else None, sign='-+'[seed % 3 == 0], seed=seed)
            out.append((f'{st} test {test} known {"".join(known)} {" ".join(f"{k}{o[0]}" for k, o in sp.values())}', got, want))
        return out
    return scn


CHUNK = 400
for _key in TABLE:
    for _i in range(0, len(TABLE[_key]), CHUNK):
        _name = f'{_key[0]} {_key[1]}d: {_key[2]}' + (f' {_i // CHUNK}' if len(TABLE[_key]) > CHUNK else '')

        def unit(led, key=_key, i=_i, name=_name): R.bounded_scenario(led, name, product_unit(key, slice(i, i + CHUNK)), samples=1, limit=400)
        check.unit(f'assembled terms: {_name}', limit=420)(unit)


def curved(lib, n):
    r"""curved elements, higher (different) degrees: the integral of a rational integrand, to quadrature accuracy."""
    def scn(mk):
        seed = int(mk.int('seed', 0, 10 ** 6))
        rng = np.random.default_rng(seed)
        keys = [k for k in TABLE if k[:2] == (lib, n)]
        out = []
        for key in keys:
            test, known, sp = TABLE[key][int(rng.integers(len(TABLE[key])))]
            p = 2 if n == 3 else int(rng.integers(2, 4))
            want, got = tm.compare(lib, n, key[2], test, known, sp, mesh=f'{n}d mild', p=p, factor=-1.5, sign='+', seed=seed)
            out.append((f'{key[2]} test {test} known {"".join(known)} {sp} p={p}', got + (np.abs(got - want) < 3e-3) * (want - got), want))
        return out
    return scn


for _lib in ('msepy', 'msehtt'):
    for _n in (2, 3):
        if (_lib, _n) == ('msehtt', 3): continue      # 2-forms are not reconstructed in curved hexahedra

        def unit(led, lib=_lib, n=_n): R.bounded_scenario(led, f'{lib} {n}d: curved elements', curved(lib, n), samples=3 if n == 2 else 1)
        check.unit(f'assembled terms on curved elements: {_lib} {_n}d', limit=200)(unit)


# ---- nonlinear systems: residual, Newton's steps, fixed dofs, boundary conditions ---------------------------------------------
def bcs(n, lib, rng, sp):
    import phyem as ph
    a = rng.uniform(-1, 1, 12)

    def one(ko):
        r = rng.uniform(-1, 1, 12)
        if n == 2:
            if ko[0] in (0, 2): return ph.vc.scalar(lambda t, x, y: r[0] + r[1] * x + r[2] * y + t)
            return ph.vc.vector(lambda t, x, y: r[0] + r[1] * x - y + t, lambda t, x, y: r[2] + r[3] * x * y)
        if ko[0] in (0, 3): return ph.vc.scalar(lambda t, x, y, z: r[0] + r[1] * x + r[2] * y + t * z)
        return ph.vc.vector(lambda t, x, y, z: r[0] + r[1] * x - y + t, lambda t, x, y, z: r[2] + r[3] * x * z, lambda t, x, y, z: r[4] * z - y)
    return one


BOX = ((0., 2.), (-1., 1.))                      # of the multi-region mesh, 3 x 2 regions


def regions():
    r"""(region, face) of all sides of the regions on the boundary of the multi-region box."""
    return [(j * 3 + i, f) for j in range(2) for i in range(3) for f, on in enumerate((i == 0, i == 2, j == 0, j == 1)) if on]


def section_dofs(P, k, face, box=((0., 1.),) * 3, region=None):
    r"""dofs of the unknown k on the side face = 2 m + s of the (box) domain (of the region), by geometry of the elements."""
    m, q = divmod(face, 2)
    f, out = P.f[k], set()
    g = P.gm(k)
    n = P.n
    for e in P.E:
        c = np.array(P.mapping(e, [np.array([(1. if q else -1.) if i == m else 0.]) for i in range(n)]))[:, 0]
        if abs(c[m] - box[m][q]) > 1e-9: continue
        if region is not None:
            i, j = region % 3, region // 3
            if not (2 * i / 3 - 1e-9 < c[0] < 2 * (i + 1) / 3 + 1e-9 and j - 1 - 1e-9 < c[1] < j + 1e-9): continue
        if P.lib == 'msepy': loc = f._find_local_dofs_on(m, q)
        else: loc = P.tgm.elements[e].find_local_dofs_on_face(f.space.str_indicator, f.degree, face, component_wise=False)
        out |= {int(d) for d in np.ravel(g[e][np.ravel(loc)])}
    return out


def newton(lib, n, orientation, bc, multi=False):
    def scn(mk):
        import phyem as ph
        seed = int(mk.int('seed', 0, 10 ** 6))
        rng = np.random.default_rng(seed)
        sp, build, extra, integrands = tm.coupled(n, orientation)
        kw, pair = {}, 'XB' if (n, orientation) == (2, 'inner') else 'AB'
        if bc:
            nat = [int(x) for x in rng.integers(0, 2, 2 * n)]
            nat[0], nat[-1] = 1, 0
            sides = [(x, dict(face=face)) for face, x in enumerate(nat)]
            if multi:
                chosen = {rf: int(rng.integers(0, 2)) for rf in regions()}
                nat = {r: [chosen.get((r, f), 0) for f in range(4)] for r in range(6)}
                sides = [(x, dict(face=f, region=r, box=BOX)) for (r, f), x in chosen.items()]
            kw = dict(bc=lambda F: [[ph.trace(F[pair[0]])], [ph.trace(F[pair[1]])]], natural=nat)
        p = 1 if n == 3 else int(rng.integers(1, 3))
        P = tm.Nonlinear(lib, ('crazy_multi 2d linear' if multi else f'{n}d straight') if bc else tm.MESH[lib, n], p, sp, build, factor=.5, sign='-', extra=extra, seed=seed, **kw)
        names, tests = P.names(), ['C'] + ['t' + u for u in P.unk]
        z = P.start(.3)
        fixed, value = {k: {} for k in names}, {}
        if bc:
            mkvc = bcs(n, lib, rng, sp)
            for g, k in enumerate(pair):
                v = mkvc(sp['C' if k == 'X' else k])
                if lib == 'msepy': P.system.bc.config(P.gamma[g])(v)
                else: P.system.config(['essential bc', 1], P.gamma[g], v, root_form=P.f[k])
                loc = P.f[k].reduce(P.t, update_cochain=False, target=v) if lib == 'msepy' else P.f[k].reduce(v @ P.t)
                full, spread = P.glob(k, loc)
                if spread > 1e-8: raise R.Skip('reduction differs between elements')
                for x, side in sides:
                    if x == 1 - g:
                        for d in section_dofs(P, k, **side): fixed[k][d] = full[d]
        s = P.static()
        mk.fn(type(s).evaluate_f, type(s)._evaluate_nonlinear_terms, type(s.solve).__call__, type(s.customize).__init__,
              *([get('phyem.msepy.tools.nonlinear_system.static.solve.Newton_Raphson:MsePyNonlinearSystemNewtonRaphsonSolve').__call__] if lib == 'msepy' else
                [get('phyem.msehtt.tools.nonlinear_system.static.solve.Newton_Raphson:MseHttNonlinearSystemNewtonRaphsonSolve').__call__]))
        out = []
        # the residual of every equation is what it reads
        W = {**{k: z[i] for i, k in enumerate(names)}}
        loc = {k: P.local(k, z[i]) for i, k in enumerate(names)}
        vals = {k: P.values(k, loc[k]) for k in names}
        if not (bc and lib == 'msehtt'):      # there, essential conditions of linear rows have changed them already
            for neg in (False, True):
                F = s.evaluate_f([P.vec(k, loc[k]) for k in names], neg=neg)
                for i, (k, t) in enumerate(zip(names, tests)):
                    v = P.random(t)
                    tv = P.values(t, v)
                    gk = 'G' if k == 'X' else 'G' + k
                    G = P.at(gk, P.t)
                    M = P.mass(k)
                    want = np.array([v[e] @ (M(e) @ (loc[k][e] - G[e])) for e in P.E])
                    for sg, c, f in integrands[i]:
                        want = want + sg * c * P.integral(lambda e: f({**{q: vals[q][e] for q in names}, 'T': tv[e]}))
                    got = np.array([v[e] @ F[i][e] for e in P.E])
                    sc = max(1., np.abs(want).max())
                    out.append((f'residual of equation {i}, neg {neg}', got / sc, (-want if neg else want) / sc))
        # dofs fixed by hand
        acts = []

        def by(s, name, *args):
            acts.append((name, args))
            getattr(s.customize, name)(*args)
        essential = {k: set(fixed[k]) for k in names}
        how = int(rng.integers(0, 5))
        q = int(rng.integers(len(names)))
        k = names[q]
        off = int(sum(P.size(x) for x in names[:q]))
        g = P.gm(k)
        if lib == 'msepy':
            if how == 1:
                d = int(rng.integers(P.size(k)))
                by(s, 'set_no_evaluation', off + d)
                fixed[k].setdefault(d, z[q][d])
            elif how == 2:
                d = int(rng.integers(P.size(k)))
                if d not in fixed[k]:
                    by(s, 'set_dof', off + d, .4)
                    fixed[k][d] = .4
            elif how == 3:
                for q2 in rng.permutation(len(names))[:2]:
                    k2, g2 = names[q2], P.gm(names[q2])
                    els = [int(e) for e in rng.permutation(P.E)[:2]]
                    lds = [np.sort(rng.permutation(len(g2[e]))[:2]) for e in els]
                    by(s, 'set_no_evaluation_of_local_dofs', int(q2), els, lds)
                    for e, l in zip(els, lds):
                        for d in g2[e][l]: fixed[k2].setdefault(int(d), z[q2][d])
        else:
            if how == 1:
                for q2 in rng.permutation(len(names))[:2]:
                    ds = [int(d) for d in rng.permutation(P.size(names[q2]))[:3] if int(d) not in fixed[names[q2]]]
                    if not ds: continue
                    by(s, 'fixed_global_dofs_for_unknown', int(q2), ds)
                    for d in ds: fixed[names[q2]][d] = z[q2][d]
            elif how == 4:
                d = int(rng.integers(P.size(k)))
                if d not in fixed[k]:
                    by(s, 'add_additional_constrain__fix_a_global_dof', q, d)
                    fixed[k][d] = z[q][d]
            elif how == 2 or how == 3:
                ds = [int(d) for d in rng.permutation(P.size(k))[:3] if int(d) not in fixed[k]]
                vs = [float(x) for x in rng.uniform(-.3, .3, len(ds))]
                if ds:
                    by(s, 'set_x0_for_unknown', q, ds, vs)
                    if how == 3: by(s, 'fixed_global_dofs_for_unknown', q, ds)
                    for d, v in zip(ds, vs):
                        if how == 3: fixed[k][d] = v
                        else: z[q][d] = v
        by_hand = {k: set(fixed[k]) - essential[k] for k in names}
        x0 = [a.copy() for a in z]
        ends = [a.copy() for a in z]      # values of the fixed dofs after the step
        for i, k in enumerate(names):
            for d, v in fixed[k].items():
                ends[i][d] = v
                # a condition on a row without nonlinear terms is one of the linear equations: the step ends there, wherever it starts
                if not (lib == 'msehtt' and bc and not integrands[i] and d not in by_hand[k]): x0[i][d] = v
        # one step from x0
        before = {k: P.at('z' + k, .1) for k in names}
        sol, info = P.solve(s, '1')
        for i, k in enumerate(names):
            out.append((f'the given cochain of {k} is untouched', np.concatenate([P.at('z' + k, .1)[e] for e in P.E]), np.concatenate([before[k][e] for e in P.E])))
            out.append((f'{k}: same values in all elements', sol[i][1] if sol[i][1] > 1e-11 else 0., 0.))
            new = P.at(k, P.t)
            out.append((f'{k}: given to the unknown', P.glob(k, new)[0], sol[i][0]))
        x1 = [v for v, _ in sol]
        free = [np.array([d not in fixed[k] for d in range(P.size(k))]) for k in names]
        for i, k in enumerate(names):
            out.append((f'{k}: fixed dofs (how {how})', x1[i][~free[i]], ends[i][~free[i]]))
        d = [a - b for a, b in zip(x1, x0)]
        clean = P.static()
        F0, T = P.F_at(clean, x0), P.tangent(clean, x0, d)
        sc = max(1., max(np.abs(a).max() for a in d))
        for i, k in enumerate(names):
            out.append((f'{k}: rows not fixed satisfy the linearised equation (how {how})', (F0[i] + T[i])[free[i]] / sc, np.zeros(int(free[i].sum()))))
        # the second step linearises at the result of the first
        s = P.static()
        for name, args in list(acts): by(s, name, *args)
        sol, info = P.solve(s, '2')
        x2 = [v for v, _ in sol]
        if all(np.isfinite(a).all() for a in x1 + x2):
            for i, k in enumerate(names): out.append((f'{k}: fixed dofs after two steps (how {how})', x2[i][~free[i]], ends[i][~free[i]]))
            d = [a - b for a, b in zip(x2, x1)]
            F1, T = P.F_at(clean, x1), P.tangent(clean, x1, d)
            sc = max(1., max(np.abs(a).max() for a in d), max(np.abs(a).max() for a in x1) ** 2)
            for i, k in enumerate(names):
                out.append((f'{k}: the second step solves the equations linearised at the result of the first (how {how})', (F1[i] + T[i])[free[i]] / sc, np.zeros(int(free[i].sum()))))
        # until it stops
        z = P.start(.02)
        s2 = P.static()
        sol, info = P.solve(s2, 12, atol=1e-10)
        if info['convergence info'] == 0:
            x1 = [v for v, _ in sol]
            F = P.F_at(P.static(), x1)
            bf = {k: ({d: v for d, v in fixed[k].items()} if bc and k in pair else {}) for k in names}
            for i, k in enumerate(names):
                sec = [dd for g_, kk in enumerate(pair) if kk == k for x, side in sides if x == 1 - g_ for dd in section_dofs(P, k, **side)] if bc else []
                m = np.ones(P.size(k), dtype=bool)
                m[sec] = False
                out.append((f'{k}: converged', F[i][m] * (np.abs(F[i][m]) > 1e-7), np.zeros(int(m.sum()))))
                if sec: out.append((f'{k}: boundary values kept', x1[i][sorted(set(sec))], np.array([bf[k][dd] for dd in sorted(set(sec))])))
        return out
    return scn


def unit(led): R.bounded_scenario(led, 'msepy 2d several regions', newton('msepy', 2, 'outer', True, multi=True), samples=10, limit=180)


check.unit('nonlinear system: msepy 2d several regions with essential conditions', limit=200, real=True)(unit)
for _lib in ('msepy', 'msehtt'):
    for _n, _o in ((2, 'outer'), (2, 'inner'), (3, 'outer'), (3, 'inner')):
        for _bc in (False, True):
            _name = f'{_lib} {_n}d {_o}' + (' with essential conditions' if _bc else '')

            def unit(led, a=(_lib, _n, _o, _bc), name=_name): R.bounded_scenario(led, name, newton(*a), samples=10, limit=180)
            check.unit(f'nonlinear system: {_name}', limit=200)(unit)


def functional(name, n):
    r"""<A x B, C> and the integral of a field over the mesh, as the mesh computes them: against quadrature of the values."""
    from pv import whole
    import phyem as ph
    w = whole.W('msehtt', name, 3 if n == 2 else 2)
    comp = w.obj['mesh'].composition
    fs = list(w.forms())
    N = w.p + 8
    Q = tm.Quadrature(n, N, w.mapping, w.range)

    def scn(mk):
        seed = int(mk.int('seed', 0, 10 ** 6))
        rng = np.random.default_rng(seed)
        t, out = .5, []
        mk.fn(type(comp.compute).a, type(comp.compute).integrate)
        X, V = np.polynomial.legendre.leggauss(N)
        val = {}
        for a, k, o, f in fs:
            f[t].cochain = w.random(f, k, o, int(rng.integers(1e6)))
            v = f[t].reconstruct(*[X] * n, ravel=True)[1]
            val[a] = {e: [np.ravel(c[e]) for c in v] for e in w.range}
        size = {a: len(val[a][w.range[0]]) for a in val}
        W_ = np.ones(1)
        for _ in range(n): W_ = np.multiply.outer(V, W_).ravel()
        grid = [g.ravel('F') for g in np.meshgrid(*[X] * n, indexing='ij')]
        J = {e: np.abs(np.ravel(w.elements[e].ct.Jacobian(*grid))) for e in w.range}
        form = {a: f for a, k, o, f in fs}
        names = [(a, b, c) for a in val for b in val for c in val if (size[a], size[b], size[c]) == ((1, 2, 2) if n == 2 else (3, 3, 3))]
        for i in rng.permutation(len(names))[:6]:
            a, b, c = names[int(i)]
            got = comp.compute.a(form[a][t], form[b][t], form[c][t])
            want, big = 0., 0.
            for e in w.range:
                x = np.cross(*[np.array(val[q][e] if n == 3 else ([0 * grid[0]] * 2 + val[q][e] if size[q] == 1 else val[q][e] + [0 * grid[0]])) for q in (a, b)], axis=0)
                z = (x[:n] * np.array(val[c][e])).sum(0) * W_ * J[e]
                want, big = want + z.sum(), big + (np.abs(x[:n]) * np.abs(np.array(val[c][e]))).sum(0) @ (W_ * J[e])
            out.append((f'<{a}x{b},{c}>', got / big, want / big))
        if n == 2:
            r = rng.uniform(-1, 1, 6)
            field = lambda t, x, y: r[0] + r[1] * x + r[2] * y * t + r[3] * x * y + r[4] * x ** 2 + r[5] * y ** 2 * t
            T = float(rng.uniform(-1, 1))
            want = sum((field(T, *w.mapping(e, grid)) * W_ * J[e]).sum() for e in w.range)
            out.append(('integral of a field', comp.compute.integrate(ph.vc.scalar(field), t=T), want))
        return out
    return scn


for _name, _n in (('2d straight', 2), ('2d tiny linear', 2), ('2d chaotic linear', 2), ('3d crazy linear', 3)):
    def unit(led, a=(_name, _n)): R.bounded_scenario(led, f'{a[0]}: <AxB,C> over the mesh', functional(*a), samples=4)
    check.unit(f'the mesh computes <AxB,C>: {_name}', limit=200)(unit)


def picard(orientation, bc):
    r"""one Picard step, and its limit; the scheme asks for a system not shared with others (one block 'unique')."""
    def scn(mk):
        import phyem as ph
        from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix as MM
        seed = int(mk.int('seed', 0, 10 ** 6))
        rng = np.random.default_rng(seed)
        sp, build, extra, integrands = tm.coupled(2, orientation)
        kw, pair = {}, 'XB' if orientation == 'inner' else 'AB'
        if bc:
            nat = [1, 0, int(rng.integers(0, 2)), 0]
            kw = dict(bc=lambda F: [[ph.trace(F[pair[0]])], [ph.trace(F[pair[1]])]], natural=nat)
        P = tm.Nonlinear('msehtt', '2d straight' if bc or rng.random() < .5 else '2d mild', int(rng.integers(1, 3)), sp, build, factor=.5, sign='-', extra=extra, seed=seed, **kw)
        names = P.names()
        z = P.start(.05)
        fixed = {k: {} for k in names}
        if bc:
            mkvc = bcs(2, 'msehtt', rng, sp)
            for g, k in enumerate(pair):
                v = mkvc(sp['C' if k == 'X' else k])
                P.system.config(['essential bc', 1], P.gamma[g], v, root_form=P.f[k])
                full, spread = P.glob(k, P.f[k].reduce(v @ P.t))
                if spread > 1e-8: raise R.Skip('reduction differs between elements')
                for face, x in enumerate(nat):
                    if x == 1 - g:
                        for d in section_dofs(P, k, face): fixed[k][d] = full[d]

        def system():
            s = P.static()
            m = s._A[0][0]
            s._A[0][0] = MM({e: m[e] for e in P.E}, m._gm_row, m._gm_col, cache_key='unique')
            return s
        s = system()
        q = int(rng.integers(len(names)))
        k = names[q]
        d = int(rng.integers(P.size(k)))
        if rng.random() < .5 and d not in fixed[k]:
            z[q][d] = 0.                              # other values are refused
            P.f['z' + k][.1].cochain = P.local(k, z[q])
            s.customize.add_additional_constrain__fix_a_global_dof(q, d)
            fixed[k][d] = 0.
        S = get('phyem.msehtt.tools.nonlinear_system.static.solve.Picard:MseHtt_NonlinearSystem_Picard')
        mk.fn(S.__call__)
        before = {k: P.at('z' + k, .1) for k in names}
        s.solve([P.f['z' + k] for k in names], scheme='Picard', maxiter='1')
        out, sol = [], [P.glob(k, P.at(k, P.t)) for k in names]
        x1 = [v for v, _ in sol]
        neg = [-v for v in x1]
        half = lambda v: [(a - b) / 2 for a, b in zip(P.F_at(P.static(), v), P.F_at(P.static(), [-c for c in v]))]
        res = [f - a + b for f, a, b in zip(P.F_at(P.static(), z), half(z), half(x1))]
        for i, k in enumerate(names):
            fx = np.array(sorted(fixed[k]), dtype=int)
            free = np.array([d not in fixed[k] for d in range(P.size(k))])
            out.append((f'{k}: the given cochain is untouched', np.concatenate([P.at('z' + k, .1)[e] for e in P.E]), np.concatenate([before[k][e] for e in P.E])))
            out.append((f'{k}: same values in all elements', sol[i][1], 0.))
            out.append((f'{k}: fixed dofs', x1[i][fx], np.array([fixed[k][d] for d in fx])))
            out.append((f'{k}: rows not fixed balance the nonlinear terms at the previous iterate', res[i][free], np.zeros(int(free.sum()))))
        # the second step takes the nonlinear terms at the result of the first
        y = []
        for steps in '1', '2':
            system().solve([P.f['z' + k] for k in names], scheme='Picard', maxiter=steps)
            y.append([P.glob(k, P.at(k, P.t))[0] for k in names])
        res = [f - a + b for f, a, b in zip(P.F_at(P.static(), y[0]), half(y[0]), half(y[1]))]
        for i, k in enumerate(names):
            m = np.ones(P.size(k), dtype=bool)
            if bc: m[[d for g, kk in enumerate(pair) if kk == k for face, w in enumerate(nat) if w == 1 - g for d in section_dofs(P, k, face)]] = False
            out.append((f'{k}: the second step balances the nonlinear terms at the result of the first', res[i][m], np.zeros(int(m.sum()))))
        s = system()
        _, _, info = s.solve([P.f['z' + k] for k in names], scheme='Picard', maxiter=40, atol=1e-11)
        if info['convergence info'] == 0:
            x = [P.glob(k, P.at(k, P.t))[0] for k in names]
            F = P.F_at(P.static(), x)
            for i, k in enumerate(names):
                m = np.ones(P.size(k), dtype=bool)
                if bc: m[[d for g, kk in enumerate(pair) if kk == k for face, w in enumerate(nat) if w == 1 - g for d in section_dofs(P, k, face)]] = False
                out.append((f'{k}: converged', F[i][m] * (np.abs(F[i][m]) > 1e-8), np.zeros(int(m.sum()))))
        return out
    return scn


for _o in ('outer', 'inner'):
    for _bc in (False, True):
        _name = f'msehtt 2d {_o}' + (' with essential conditions' if _bc else '')

        def unit(led, a=(_o, _bc), name=_name): R.bounded_scenario(led, name, picard(*a), samples=6, limit=180)
        check.unit(f'Picard: {_name}', limit=200)(unit)


def every_derivative(lib, n):
    r"""one Newton step, for the nonlinear terms of every structure."""
    def scn(mk):
        seed = int(mk.int('seed', 0, 10 ** 6))
        rng = np.random.default_rng(seed)
        out = []
        for key in TABLE:
            if key[:2] != (lib, n): continue
            rows = [r for r in TABLE[key] if not r[1] and (len(r[2]) == 3)]
            if not rows: continue
            for j in rng.permutation(len(rows))[:12]:
                test, known, sp = rows[int(j)]
                build, integrand = tm._structures()[key[2]]
                P = tm.Nonlinear(lib, tm.MESH[lib, n], 1, sp, lambda F, f: build(F, f, sp, n), test=test, factor=-.5, sign='-', seed=seed)
                if not P.nonlinear: continue
                z = P.start(1.)
                s = P.static()
                sol, info = P.solve(s, '1')
                d = [a[0] - b for a, b in zip(sol, z)]
                F0, T = P.F_at(s, z), P.tangent(s, z, d)
                sc = max(1., max(np.abs(a).max() for a in d))
                out.append((f'{key[2]} test {test} {" ".join(f"{k}{o[0]}" for k, o in sp.values())}', np.concatenate([(a + b) / sc for a, b in zip(F0, T)]), np.zeros(sum(map(len, F0)))))
        return out
    return scn


for _lib in ('msepy', 'msehtt'):
    for _n in (2, 3):
        def unit(led, lib=_lib, n=_n): R.bounded_scenario(led, f'{lib} {n}d: one step', every_derivative(lib, n), samples=1, limit=180)
        check.unit(f'nonlinear system: every structure {_lib} {_n}d', limit=200)(unit)


if __name__ == '__main__':
    check.main()
