r"""C18: boundary integrals (natural conditions) mean their integrals."""
import itertools, random
import numpy as np
import phyem as ph
import pv.run as R
from pv.run import Check, Stub, np_patched, get
from pv import geo, refel, whole, terms

check = Check('C18', trusted=['numpy', 'refel: independent basis functions and quadrature (reference of the bounded units)'])
HTT = 'phyem.msehtt.static.form.bi.vc.Lambda.bi_vc_'
PY = 'phyem.msepy.form.boundary_integrate.with_vc_over_boundary_section.Lambda'
RM = 'phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_'


# ---- degrees of freedom of a form on the reference element: one (number of values per axis) lattice per component ------------
def lattices(n, k, ori, p):
    if k == 0: return [tuple(q + 1 for q in p)]
    if k == n - 1 and not (n == 2 and ori == 'inner'):              # flux: nodes along the component, edges along the others
        return [tuple(q + (i == d) for i, q in enumerate(p)) for d in range(n)]
    return [tuple(q + (i != d) for i, q in enumerate(p)) for d in range(n)]


def on_face(n, k, ori, p, axis, side):
    r"""the dofs whose trace on a face does not vanish (numbered component by component, the first axis fastest)."""
    out, off = [], 0
    L = lattices(n, k, ori, p)
    for d, sh in enumerate(L):
        sees = k == 0 or (d == axis) == (k == n - 1 and not (n == 2 and ori == 'inner'))
        if sees:
            num = np.arange(int(np.prod(sh))).reshape(sh, order='F') + off
            out += list(np.take(num, -1 if side else 0, axis).ravel('F'))
        off += int(np.prod(sh))
    return out, off


def integrand(n, k, ori, u, nv, phi):
    r"""tr star u tr phi on a face with outward normal nv."""
    if n == 2:
        if k == 0: return (u[0] * nv[0] + u[1] * nv[1] if ori == 'inner' else u[0] * nv[1] - u[1] * nv[0]) * phi[0]
        return u[0] * (phi[0] * nv[0] + phi[1] * nv[1] if ori == 'outer' else phi[0] * nv[1] - phi[1] * nv[0])
    if k == 0: return (u[0] * nv[0] + u[1] * nv[1] + u[2] * nv[2]) * phi[0]
    if k == 2: return u[0] * (phi[0] * nv[0] + phi[1] * nv[1] + phi[2] * nv[2])
    c = [u[1] * nv[2] - u[2] * nv[1], u[2] * nv[0] - u[0] * nv[2], u[0] * nv[1] - u[1] * nv[0]]
    return c[0] * phi[0] + c[1] * phi[1] + c[2] * phi[2]


class Setting:
    r"""elements with arbitrary geometry, basis functions, fields and quadrature rules: each an uninterpreted function."""
    def __init__(self, mk, n, k, ori, p, Q, straight=False):
        self.mk, self.n, self.k, self.ori, self.p, self.Q, self.straight = mk, n, k, ori, p, Q, straight
        self.rules = {}
        self.ncomp = 1 if k == 0 else n
        self.size = on_face(n, k, ori, p, 0, 0)[1]
        self.vdim = (n,) if k == 0 or (n == 3 and k == 1) else (1,)
        self.asked = []

    def rule(self, deg, cat=None):
        self.asked.append((deg, cat))
        many = isinstance(deg, (tuple, list))
        out = []
        for j in range(len(deg) if many else 1):
            key = (deg[j] if many else deg, j if many else None)
            if key not in self.rules:
                q = self.Q + (j if many else 0)
                self.rules[key] = (self.mk.array(f's{len(self.rules)}', (q,), -1, 1), self.mk.array(f'w{len(self.rules)}', (q,), 0, 2))
            out.append(self.rules[key])
        return ([a for a, _ in out], [b for _, b in out]) if many else out[0]

    def quadrature(self, deg, category='Gauss', **k): return Stub(quad=self.rule(deg, category))

    def basis(self, e, *nodes):
        r"""the reconstruction matrix of element e at the lattice of the nodes: [component](point, dof)."""
        g = [a.ravel('F') for a in np.meshgrid(*nodes, indexing='ij')]
        out = []
        for c in range(self.ncomp):
            a = np.empty((len(g[0]), self.size), dtype=object)
            for i in range(self.size): a[:, i] = self.mk.uf(f'phi{e}_{c}_{i}', g)
            out.append(a if self.mk.symbolic else a.astype(float))
        return out

    def uf(self, name, *xi): return self.mk.uf(name, [np.asarray(x, dtype=object) if self.mk.symbolic else np.asarray(x, dtype=float) for x in np.broadcast_arrays(*xi)])
    def x(self, e, f, *s): return [self.uf(f'x{e}_{f}_{i}', *s) for i in range(self.n)]
    def normal(self, e, f, *s):
        if self.straight or self.n == 3:        # (3d faces under contract are plane)
            return [self.mk.real(f'n{e}_{f}_{i}', -1, 1) for i in range(self.n)]
        return [self.uf(f'n{e}_{f}_{i}', *s) for i in range(self.n)]
    def JM(self, e, f, *s): return [self.uf(f'J{e}_{f}_{i}', *s) for i in range(self.n)]
    def area(self, e, f): return self.mk.real(f'area{e}_{f}', 0.1, 2)
    def length(self, e, f): return self.mk.real(f'len{e}_{f}', 0.1, 2)

    def field(self, t, *x): return [self.mk.uf(f'u{i}', [np.asarray(a) * 1 for a in np.broadcast_arrays(*x)] + [np.broadcast_to(np.asarray(t), np.shape(x[0]))]) for i in range(self.vdim[0])]

    def want(self, e, faces, rule):
        r"""the sum over the faces of the quadrature of tr star u tr phi; dofs with no trace on a face get nothing from it."""
        out = [0] * self.size
        n, p = self.n, self.p
        for f in faces:
            ax, side = f // 2, f % 2
            other = [i for i in range(n) if i != ax]
            one = np.array([2 * side - 1])
            if n == 2:
                s, w = rule
                nodes = [s, s]; wt = w; args = (s,)
            else:
                s, w = rule
                nodes = list(s)
                wt = (w[other[1]][:, None] * w[other[0]][None, :]).ravel()
            nodes[ax] = one
            if n == 3: args = [a.ravel('F') for a in np.meshgrid(*nodes, indexing='ij')]
            x = self.x(e, f, *args)
            nv = self.normal(e, f, *args)
            if n == 3: J = self.area(e, f) / 4
            elif self.straight: J = self.length(e, f) / 2
            else:
                Jx, Jy = self.JM(e, f, *args)
                J = self.mk.sqrt(Jx * Jx + Jy * Jy)
            phi = self.basis(e, *nodes)
            u = self.field(self.t, *x)
            for i in on_face(n, self.k, self.ori, p, ax, side)[0]:
                out[i] = out[i] + np.sum(integrand(n, self.k, self.ori, u, nv, [c[:, i] for c in phi]) * wt * J)
        return out


FORMS = [(2, 0, 'inner'), (2, 0, 'outer'), (2, 1, 'inner'), (2, 1, 'outer'), (3, 0, 'outer'), (3, 1, 'outer'), (3, 2, 'outer')]
SUBSETS = {2: [(0, 2), (1, 3), (0, 1, 2, 3)], 3: [(0, 2, 4), (1, 3, 5)]}
KERNELS = {(2, 0): '___rm220_msepy_quadrilateral___', (3, 0): '___rm330_msepy_hexahedral___', (3, 1): '___rm331_msepy_hexahedral___', (3, 2): '___rm332_msepy_hexahedral___'}
# (element type, the reconstruction kernels it may use)
ETYPES = {(2, 0, 'inner'): ['orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9], (2, 0, 'outer'): ['orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9],
          (2, 1, 'inner'): ['orthogonal rectangle', 9], (2, 1, 'outer'): ['unique msepy curvilinear quadrilateral', 9],
          (3, 0, 'outer'): ['orthogonal hexahedron'], (3, 1, 'outer'): ['orthogonal hexahedron', 'unique msepy curvilinear hexahedron'],
          (3, 2, 'outer'): ['orthogonal hexahedron', 'unique msepy curvilinear hexahedron']}


def lib_function(m, n, k, ori):
    for a in (f'bi_vc__m{n}n{n}k{k}', f'bi_vc__m{n}n{n}k{k}_{ori}'):
        if hasattr(m, a): return getattr(m, a)


for n, k, ori in FORMS:
    for et in ETYPES[n, k, ori]:
        for fs in SUBSETS[n]:
            for p in ([(1, 2), (2, 1), (3, 2)] if n == 2 else [(1, 1, 1), (2, 1, 1)] if fs[0] else [(1, 2, 1)]):
                @check.scenario(f'msehtt {ori} {k}-form on {et}, faces {fs}, degree {p}', samples=2, tol=1e-9, limit=200)
                def _(mk, n=n, k=k, ori=ori, et=et, fs=fs, p=p):
                    m = get(HTT + f'm{n}n{n}k{k}')
                    S = Setting(mk, n, k, ori, p, 3 if p[0] > 2 else 2)
                    S.t = mk.real('t', 0, 1)
                    def elem(e):
                        return Stub(etype=et, degree_parser=lambda d: [p] * 2, _e=e)
                    els = {e: elem(e) for e in (3, 7)}
                    def face(e, f):
                        ct = dict(mapping=lambda *s: S.x(e, f, *s), outward_unit_normal_vector=lambda *s: S.normal(e, f, *s))
                        if n == 2: ct['Jacobian_matrix'] = lambda *s: S.JM(e, f, *s)
                        else: ct.update(is_perp_plane=lambda: True, is_rectangle=lambda: True)
                        return Stub(_id=f, ct=Stub(**ct), area=S.area(e, f)) if n == 3 else Stub(_id=f, ct=Stub(**ct))
                    other = {0: 1, 1: 0, 2: 3}
                    section = {(3, f): face(3, f) for f in fs[:-1]}
                    section[7, other[fs[0]]] = face(7, other[fs[0]])
                    section[3, fs[-1]] = face(3, fs[-1])
                    def rm(element, degree, *nodes):
                        b = S.basis(element._e, *nodes)
                        return b[0] if k == 0 else b
                    names = [a for a in vars(m) if a.startswith('___rm')]
                    with np_patched(m, quadrature=S.quadrature, **{a: rm for a in names}):
                        fun = lib_function(m, n, k, ori)
                        mk.fn(fun)
                        for a in vars(m):
                            if a.startswith('___bi_vc'): mk.fn(getattr(m, a))
                        vc = Sliced(S)
                        got = fun(Stub(degree=99, tgm=Stub(elements=els)), S.t, vc, section)
                    rule = S.rule(S.asked[0][0])
                    out = [('the elements with faces in the section', sorted(got), [3, 7])]
                    for e, F in ((3, fs), (7, (other[fs[0]],))):
                        w = S.want(e, F, rule)
                        out.append((f'element {e}: number of dofs', len(got[e]), S.size))
                        out += [(f'element {e}: dof {i} gets the sum over its faces of the quadrature of its trace', got[e][i], w[i]) for i in range(S.size)]
                    return out


class Sliced:
    r"""a vector calculus object with these components."""
    def __init__(self, S): self.S, self.shape, self.ndim = S, S.vdim, S.n
    def __getitem__(self, t): return lambda *x: self.S.field(t, *x)
    def __call__(self, t, *x): return self.S.field(t, *x)


for k, ori in [(0, 'inner'), (0, 'outer'), (1, 'inner'), (1, 'outer')]:
    for fs in SUBSETS[2]:
        for straight in (True, False):
            for p in [(1, 2), (2, 1), (3, 2)]:
                @check.scenario(f'msepy {ori} {k}-form, faces {fs}, {"orthogonal" if straight else "curved"}, degree {p}', samples=2, tol=1e-9, limit=200)
                def _(mk, k=k, ori=ori, fs=fs, straight=straight, p=p):
                    m = get(PY)
                    S = Setting(mk, 2, k, ori, p, 2, straight)
                    S.t = mk.real('t', 0, 1)
                    def face(e, f):
                        ct = dict(mapping=lambda s: S.x(e, f, s))
                        if not straight: ct['Jacobian_matrix'] = lambda s: S.JM(e, f, s)
                        d = dict(_element=e, _m=f // 2, _n=f % 2, ct=Stub(**ct), is_orthogonal=lambda: straight,
                                 find_corresponding_local_dofs_of=lambda rf: np.array(on_face(2, k, ori, p, f // 2, f % 2)[0]))
                        if straight: d['length'] = S.length(e, f)
                        return Stub(**d)
                    other = {0: 1, 1: 0}
                    order = [(2, f) for f in fs[:-1]] + [(0, other[fs[0]]), (2, fs[-1])]
                    faces = {i: face(*q) for i, q in enumerate(order)}
                    class Faces(dict):
                        def _find_elements(self): return tuple([e for e, f in order if f == g] for g in range(4))
                    def recon(*nodes, element_range=None):
                        return {e: S.basis(e, *nodes) for e in element_range}
                    class Space:
                        abstract, m, n = Stub(k=k, orientation=ori, m=2, n=2), 2, 2
                        def num_local_dofs(self, d): return S.size
                        def __getitem__(self, d): return Stub(p=p)
                    f = Stub(space=Space(), _degree=5, reconstruction_matrix=recon, mesh=Stub(n=2, m=2))
                    sec = Stub(n=1, m=1, faces=Faces(faces), base=Stub(elements=Stub(_num=4)),
                               ct=Stub(outward_unit_normal_vector=lambda s: {i: S.normal(*q, s) for i, q in enumerate(order)}))
                    with np_patched(m, Quadrature=S.quadrature):
                        B = m.BoundaryIntegrateVCBSLambda
                        mk.fn(B.__call__, getattr(B, f'_m2_n2_k{k}_{ori}'))
                        got = B(f)(S.t, Sliced(S), sec)
                    rule = S.rule(S.asked[0][0])
                    out = [('one row for each element', np.shape(got), (4, S.size))]
                    for e, F in ((2, fs), (0, (other[fs[0]],)), (1, ()), (3, ())):
                        w = S.want(e, F, rule)
                        out += [(f'element {e}: dof {i} gets the sum over its faces of the quadrature of its trace', got[e][i], w[i]) for i in range(S.size)]
                    return out


# ---- dispatch: every form reaches the routine of its degree and orientation -----------------------------------------------------
@check.unit('every form reaches its own routine')
def _(led):
    M = get('phyem.msehtt.static.form.bi.main')
    C = M.MseHttStaticForm_Boundary_Integrate
    led.functions.add(R.qual(C.with_vc_over_boundary_section))
    cnt = 0
    import importlib
    for n, k, ori in FORMS:
        m = importlib.import_module(HTT + f'm{n}n{n}k{k}')
        for a in [a for a in vars(m) if a.startswith('bi_vc__')]:
            if a != lib_function(m, n, k, ori).__name__: continue
            comp = object.__new__(M.MseHttBoundarySectionPartialMesh)
            tgm, vc, t = object(), Stub(_is_time_space_func=lambda: True), object()
            rf = Stub(tgm=tgm, space=Stub(m=n, n=n, indicator='Lambda', abstract=Stub(k=k, orientation=ori)))
            seen = []
            with np_patched(m, **{a: lambda *x: seen.append(x) or 'its value'}):
                got = C(rf).with_vc_over_boundary_section(t, vc, Stub(composition=comp, tgm=tgm))
            if got != 'its value' or len(seen) != 1 or any(x is not y for x, y in zip(seen[0], (rf, t, vc, comp))):
                raise R.Violation(f'{ori} {k}-form in {n}d does not reach {a} with its own arguments', dict(form=(n, k, ori)))
            cnt += 1
    M = get('phyem.msepy.form.boundary_integrate.main')
    C = M.MsePyRootFormBoundaryIntegrate
    led.functions.add(R.qual(C.with_vc_over_boundary_section))
    for k, ori in [(0, 'inner'), (0, 'outer'), (1, 'inner'), (1, 'outer')]:
        mesh = object()
        sec = object.__new__(M.MsePyBoundarySectionMesh); sec.__dict__['_base'] = mesh
        abstract = object.__new__(M.ScalarValuedFormSpace)
        rf, t, vc = Stub(mesh=mesh, space=Stub(abstract=abstract)), object(), Stub(_is_time_space_func=lambda: True)
        seen = []
        class Fake:
            def __init__(self, f): seen.append(f)
            def __call__(self, *a): seen.append(a); return 'its value'
        with np_patched(M, BoundaryIntegrateVCBSLambda=Fake):
            got = C(rf).with_vc_over_boundary_section(t, vc, sec)
        if got != 'its value' or seen[0] is not rf or any(x is not y for x, y in zip(seen[1], (t, vc, sec))):
            raise R.Violation(f'msepy {ori} {k}-form', {})
        cnt += 1
    led.prove(f'{cnt} forms: the routine of its dimension, degree and orientation gets its form, time, field and section', 'enumeration')


# ---- measures of faces ------------------------------------------------------------------------------------------------------------
for axis in range(3):
    for kind, path in (('orthogonal', 'orthogonal_hexahedron:MseHtt_GreatMesh_OrthogonalHexahedron_Element_OneFace'), ('curvilinear', 'unique_msepy_curvilinear_hexahedron:MseHtt_GreatMesh_Curvilinear_Hexahedron_Element_Face')):
        @check.scenario(f'area of a face of a {kind} hexahedron across axis {axis}', samples=4)
        def _(mk, axis=axis, kind=kind, path=path):
            m = get('phyem.msehtt.static.mesh.great.elements.types.' + path.split(':')[0])
            C = get('phyem.msehtt.static.mesh.great.elements.types.' + path)
            f = object.__new__(C)
            o, d = mk.reals('o', 3, -2, 2), mk.reals('d', 3, 0.1, 2)
            def mapping(*xi): return [o[i] + (xi[i] * d[i] / 2 if i != axis else 0 * xi[i] + d[i] / 2) for i in range(3)]
            f.__dict__.update(_area=None, _id=2 * axis, _ct=Stub(mapping=mapping, is_perp_plane=lambda: True, is_rectangle=lambda: True))
            a, b = [i for i in range(3) if i != axis]
            with np_patched(m):
                mk.fn(C.area.fget)
                return [('the area is the product of the two lengths', f.area, d[a] * d[b]), ('again', f.area, d[a] * d[b])]


@check.scenario('length of an orthogonal msepy face', samples=4)
def _(mk):
    m = get('phyem.msepy.mesh.boundary_section.faces')
    C = m._MsePyBoundarySectionFace
    f = object.__new__(C)
    o, d = mk.reals('o', 2, -2, 2), mk.reals('d', 2, 0.1, 2)
    ct = Stub(mapping=lambda s: [o[i] + s * d[i] / 2 for i in range(2)])
    f.__dict__.update(_bm=Stub(n=2, elements=[Stub(metric_signature='Linear:x')]), _element=0, _m=0, _n=0, _ct=ct)
    with np_patched(m):
        mk.fn(C.length.fget, C.is_orthogonal)
        return [('the length squared', f.length * f.length, d[0] * d[0] + d[1] * d[1])]


# ---- whole meshes (bounded) -------------------------------------------------------------------------------------------------------
def reference(w, k, ori, faces, g, N=16):
    n, S, out = w.n, w.space(k, ori), {}
    gx, gw = refel.gauss(N)
    for e, f in faces:
        ax, side = f // 2, f % 2
        nodes, ws = [gx] * n, [gw] * n
        nodes[ax], ws[ax] = np.array([2. * side - 1]), np.ones(1)
        pts, wt = refel.grid(nodes), refel.wgrid(ws)
        J = S.J(e, pts)
        M = S.push(J, np.array(S.basis(e, pts)))
        X = S.x(e, pts)
        A = (2 * side - 1) * np.abs(np.linalg.det(J))[:, None] * np.linalg.inv(J)[:, ax, :]       # outward area vectors
        u = np.array([np.broadcast_to(q, X[0].shape) for q in g(*X)], dtype=float)
        v = integrand(n, k, ori, list(u), list(A.T), list(M) if k else [M[0]])
        out[e] = out.get(e, 0) + v @ wt
    return out


class PyW(whole.W):
    def __init__(self, name, p, seed):
        n, layout, cfg, kw = next(t[1:] for t in geo.MSEPY + terms.MORE_PY if t[0] == name)
        rnd = random.Random(seed)
        ph.config.set_embedding_space_dim(n)
        man = ph.manifold(n); mesh = ph.mesh(man); ph.space.set_mesh(mesh)
        ns = dict(man=man, mesh=mesh)
        for a, (k, o) in whole.SP(n).items(): ns[a] = ph.space.new('Lambda', k, orientation=o).make_form(a, a)
        mesh.boundary_partition('G1', 'G2')
        ph.space.finite(p)
        ms, obj = ph.fem.apply('msepy', ns)
        k2 = dict(kw)
        if cfg in ('crazy', 'crazy_multi'): k2['periodic'] = False
        base_m = ms.base['manifolds'][man._sym_repr]
        ms.config(base_m)(cfg, **k2)
        rm = base_m.regions.map
        free = [(r, j) for r in rm for j, x in enumerate(rm[r]) if x is None]
        ch = {r: [0] * len(rm[r]) for r in rm}
        while True:
            sel = [q for q in free if rnd.random() < .6]
            if 0 < len(sel) < len(free): break
        for r, j in sel: ch[r][j] = 1
        secs = [ms.base['manifolds'][g] for g in ('G1', 'G2')]
        ms.config(secs[0])(base_m, {r: v for r, v in ch.items() if sum(v)})
        ms.config(ms.base['meshes'][mesh._sym_repr])(layout)
        self.lib, self.name, self.n, self.ms, self.obj, self.p, self.memo = 'msepy', name, n, ms, obj, p, {}
        self.mesh = obj['mesh']
        self.elements = self.mesh.elements
        self.range = list(range(self.elements._num))
        self.sections = [x for x in ms.base['meshes'].values() if x.__class__.__name__ == 'MsePyBoundarySectionMesh' and any(x.manifold is s for s in secs)]
    def faces(self, sec): return [(int(f._element), 2 * int(f._m) + int(f._n)) for f in (sec.faces[i] for i in sec.faces)]
    def integrate(self, f, t, vc, sec): return f.boundary_integrate.with_vc_over_boundary_section(t, vc, sec)


class HttW(whole.W):
    def __init__(self, name, p, seed):
        super().__init__('msehtt', name, p)
        rnd = random.Random(seed)
        PM = get('phyem.msehtt.static.mesh.partial.main:MseHttMeshPartial')
        B = get('phyem.msehtt.static.mesh.partial.boundary_section.main:MseHttBoundarySectionPartialMesh')
        mesh = self.obj['mesh']
        every = mesh.composition._get_local_boundary_faces()
        sel = [q for q in every if rnd.random() < .6]
        self.sections = []
        for s in (sel, [q for q in every if q not in sel]):
            pm = object.__new__(PM)
            pm.__dict__.update(_abstract=mesh.abstract, _tgm=self.obj['tgm'], _composition=None)
            pm.__dict__['_composition'] = B(pm, self.obj['tgm'], s)
            self.sections.append(pm)
    def faces(self, sec): return [tuple(map(int, k)) for k in sec.composition]
    def integrate(self, f, t, vc, sec): return f.bi.with_vc_over_boundary_section(t, vc, sec)


WHOLE = [('msepy', 'crazy 2d linear', (1, 2, (2, 3))), ('msepy', 'backward_step 2d equal', (1, (3, 1))), ('msepy', 'crazy 2d', (9,)),
         ('msehtt', '2d crazy linear', (1, (2, 1))), ('msehtt', '2d backward_step', (2,)), ('msehtt', '2d parallelograms', (1, 2)), ('msehtt', '2d chaotic linear', (1, 2)),
         ('msehtt', '2d quads', (2, 3)), ('msehtt', '2d crazy', (9,)), ('msehtt', '3d crazy linear', (1, (1, 2, 1))), ('msehtt', '3d crazy', (2,)), ('msehtt', '3d straight', (1, 2))]
for lib, nm, ps in WHOLE:
    @check.unit(f'{lib} {nm}: every form against independent integrals', limit=400)
    def _(led, lib=lib, nm=nm, ps=ps):
        cnt = 0
        for p in ps:
            for seed in (1, 2):
                w = (PyW if lib == 'msepy' else HttW)(nm, p, seed)
                for a, k, o, f in w.forms():
                    if k == w.n: continue
                    vc, cs = whole.field(w.n, 1 if k == 0 or (w.n == 3 and k == 1) else 0, seed)
                    for s, sec in enumerate(w.sections):
                        t = 0.7 * seed - s
                        got = whole.attempt(lambda: w.integrate(f, t, vc, sec))
                        if got is None: continue
                        want = reference(w, k, o, w.faces(sec), lambda *x: [c(t, *x) for c in cs])
                        for e in w.range:
                            if lib == 'msehtt' and (e in got) != (e in want):
                                raise R.Violation(f'{a}: the elements with faces in the section', dict(mesh=nm, p=p, element=e))
                            if lib == 'msehtt' and e not in got: continue
                            g, x = np.asarray(got[e]), want.get(e, np.zeros(len(got[e])))
                            cnt += 1
                            if g.shape != np.shape(x) or not np.max(np.abs(g - x)) < 1e-6:
                                raise R.Violation(f'{a}: the boundary integral over element {e}', dict(mesh=nm, p=str(p), seed=seed, time=t, section=w.faces(sec), got=list(map(float, g)), want=list(map(float, x))))
        led.bounded.append((f'{lib} {nm}', f'{cnt} element vectors, degrees {ps}'))
