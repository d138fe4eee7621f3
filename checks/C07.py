r"""C07: determinants, inverses, metric tensors and outward normals are consistent with the Jacobian matrix."""
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import geo

check = Check('C07')
HE = geo.HE


def rows(*a):
    return [list(r) for r in a]


def ident(mk, lab, ct, xi, J=None):
    C = lambda: [np.array(x, copy=True) for x in xi]
    J = ct.Jacobian_matrix(*C()) if J is None else J
    for f in ('Jacobian', 'metric', 'inverse_Jacobian_matrix', 'inverse_Jacobian', 'metric_matrix', 'inverse_metric_matrix'):
        mk.fn(getattr(ct, f))
        u = getattr(type(ct), f'___{f}___', None)
        if u is not None:
            mk.fn(u)
    return geo.identities(lab, J, ct.Jacobian(*C()), ct.metric(*C()), ct.inverse_Jacobian_matrix(*C()),
                          ct.inverse_Jacobian(*C()), ct.metric_matrix(*C()), ct.inverse_metric_matrix(*C()))


def JM(mk, n, positive=True):
    J = mk.array('J', (n, n), -2, 2)
    J = [[np.array([J[i, j]], dtype=J.dtype) for j in range(n)] for i in range(n)]
    if positive:
        mk.assume(geo.det(J)[0] > 0.01)
    return J


# ------------------------------------------------------------------ arbitrary Jacobian matrices
for n in (2, 3):
    @check.scenario(f'msehtt base coordinate transformation {n}d, arbitrary Jacobian matrix', samples=6)
    def _(mk, n=n):
        m = get(HE + 'base')
        J = JM(mk, n, False)
        mk.assume(geo.det(J)[0] != 0)
        with geo.sym_env(mk.symbolic):
            ct = m.MseHttGreatMeshBaseElementCooTrans(Stub(m=lambda: n, n=lambda: n), 1)
            type(ct).___Jacobian_matrix___
            class CT(m.MseHttGreatMeshBaseElementCooTrans):
                def ___Jacobian_matrix___(self, *xi):
                    return [list(r) for r in J]
            ct = CT(Stub(m=lambda: n, n=lambda: n), 1)
            return ident(mk, 'base', ct, [np.array([0.])] * n)

for n in (1, 2, 3):
    @check.scenario(f'msepy element coordinate transformation {n}d, arbitrary Jacobian matrix', samples=6)
    def _(mk, n=n):
        C = get('phyem.msepy.mesh.elements.element:MsePyElementCoordinateTransformation')
        J = JM(mk, n, False)
        mk.assume(geo.det(J)[0] != 0)
        ct = Stub(_element=Stub(_elements=Stub(_mesh=Stub(m=n, n=n))))
        ct.Jacobian_matrix = lambda *xi: [list(r) for r in J]
        for f in ('Jacobian', 'metric', 'inverse_Jacobian_matrix', 'inverse_Jacobian', 'metric_matrix', 'inverse_metric_matrix'):
            u = getattr(C, f)
            mk.fn(u)
            ct.__dict__[f] = (lambda u: lambda *a: u(ct, *a))(u)
        xi = [np.array([0.])] * n
        return geo.identities('element', J, ct.Jacobian(*xi), ct.metric(*xi), ct.inverse_Jacobian_matrix(*xi),
                              ct.inverse_Jacobian(*xi), ct.metric_matrix(*xi), ct.inverse_metric_matrix(*xi))


for mod, cls, n in (('orthogonal_rectangle', '___OrthogonalRectangle___', 2),
                    ('orthogonal_hexahedron', '___Orthogonal_Hexahedron___', 3)):
    @check.scenario(f'{cls}: arbitrary size', samples=4)
    def _(mk, mod=mod, cls=cls, n=n):
        m = get(HE + mod)
        with geo.sym_env(mk.symbolic):
            r = [mk.real(f'r{i}', 0.1, 2) for i in range(n)]
            h = getattr(m, cls)(*r)
            xi = [mk.pt(f'xi{i}', -1, 1) for i in range(n)]
            return ident(mk, 'helper', h, xi)


# ------------------------------------------------------------------ outward unit normals, arbitrary Jacobian matrices
def generic_face(mk, mod, cls, n, faces):
    m = get(HE + mod)
    out = []
    J = JM(mk, n)
    with geo.sym_env(mk.symbolic):
        el = Stub(ct=Stub(Jacobian_matrix=lambda *a: [list(r) for r in J]), m=lambda: n, n=lambda: n)
        for fid, (ax, side) in faces.items():
            f = getattr(m, cls)(Stub(_id=fid, _element=el))
            mk.fn(f.outward_unit_normal_vector, f.Jacobian_matrix)
            z = np.array([0.])
            nv = f.outward_unit_normal_vector(*([z] if n == 2 else [z, z, z]))
            out += geo.normal_clauses(mk, f'face {fid}', nv, J, ax, side)
    return out


Q = {i: (i // 2, i % 2) for i in range(4)}
H = {i: (i // 2, i % 2) for i in range(6)}
for mod, cls, n, faces in (
        ('orthogonal_rectangle', 'MseHttGreatMeshOrthogonalRectangleElementFaceCT', 2, Q),
        ('vtu_9_quad', 'Quad_Face_CT', 2, Q),
        ('unique_msepy_curvilinear_quadrilateral', 'MseHttGreatMeshUniqueMsepyCurvilinearQuadrilateralElementFaceCT', 2, Q),
        ('unique_curvilinear_quad', 'UCQ_Face_CT', 2, Q),
        ('vtu_5_triangle', '_VTU5_Triangle_OneFace_CT_', 2, geo.TRI_FACE),
        ('unique_msepy_curvilinear_triangle', '_Curvilinear_Triangle_OneFace_CT_', 2, geo.TRI_FACE),
        ('orthogonal_hexahedron', 'MseHtt_GreatMesh_OrthogonalHexahedron_Element_OneFace_CT', 3, H),
        ('unique_msepy_curvilinear_hexahedron', 'MseHtt_GreatMeshUniqueMsepy_CurvilinearHexahedron_Element_Face_CT', 3, H)):
    for fid in faces:
        @check.scenario(f'normal of {cls} face {fid}', samples=6, limit=60)
        def _(mk, mod=mod, cls=cls, n=n, faces=faces, fid=fid):
            return generic_face(mk, mod, cls, n, {fid: faces[fid]})

for n in (2, 3):
    for ax in range(n):
        for side in (0, 1):
            @check.scenario(f'normal of msepy element face {n}d axis {ax} side {side}', samples=6, limit=60)
            def _(mk, n=n, ax=ax, side=side):
                m = get('phyem.msepy.mesh.elements.element')
                J = JM(mk, n)
                el = Stub(_elements=Stub(_mesh=Stub(m=n, n=n)),
                          ct=Stub(Jacobian_matrix=lambda *a: [list(r) for r in J]))
                with geo.sym_env(mk.symbolic):
                    f = m._FaceCooTrans(el, ax, side)
                    mk.fn(f.outward_unit_normal_vector, f.Jacobian_matrix)
                    nv = f.outward_unit_normal_vector(*[np.array([0.])] * (n - 1))
                    return geo.normal_clauses(mk, 'face', nv, J, ax, side)


# ------------------------------------------------------------------ real meshes
for name, n, layout, cfg, kw in geo.MSEPY:
    @check.scenario(f'msepy mesh {name}', samples=2, tol=1e-7)
    def _(mk, name=name, n=n):
        _, ms, obj = geo.build_msepy(name)
        mesh = obj['mesh']
        ct, els = mesh.ct, mesh.elements
        out = []
        with geo.sym_env(mk.symbolic):
            xi = [mk.pt(f'xi{i}', -.9, .95) for i in range(n)]
            C = lambda: [np.array(x, copy=True) for x in xi]
            q = dict(J=ct.Jacobian_matrix(*C()))
            for k, f in (('detJ', 'Jacobian'), ('met', 'metric'), ('iJ', 'inverse_Jacobian_matrix'),
                         ('idet', 'inverse_Jacobian'), ('G', 'metric_matrix'), ('iG', 'inverse_metric_matrix')):
                mk.fn(getattr(ct, f))
                q[k] = getattr(ct, f)(*C())
            N = els._num
            es = range(N) if not mk.symbolic else sorted({0, 1 % N, N // 2, N - 1})
            for e in es:
                a = {k: v(e) for k, v in q.items()}
                for k in ('detJ', 'idet', 'met'):
                    if isinstance(a[k], (list, tuple)):
                        a[k] = a[k][0] if not isinstance(a[k][0], (list, tuple)) else a[k][0][0]
                # the Jacobian matrix of the element itself (C06) is the reference
                J = els[e].ct.Jacobian_matrix(*C())
                out += [(f'element {e}: shared J[{i}][{j}]', a['J'][i][j], J[i][j]) for i in range(n) for j in range(n)]
                if mk.symbolic and n > 2 and np.ndim(J[0][0]) and kw_curved(name):
                    pass
                out += geo.identities(f'element {e}', J, a['detJ'], a['met'], a['iJ'], a['idet'], a['G'], a['iG'])
                out += [(l.replace('element', 'element.ct'), g, w) for l, g, w in ident(mk, f'element {e}', els[e].ct, xi, J)]
        return out


def kw_curved(name):
    return 'linear' not in name


def face_numeric(mk, lab, e_ct, f, n, axis, side, full):
    r"""one face of a real mesh at the given points."""
    xi = [mk.pt(f'xi{i}', -.9, .95) for i in range(n)]
    one = xi[0] * 0 + (2 * side - 1)
    at = [one if a == axis else xi[a] for a in range(n)]
    rest = [(axis + 1 + k) % n for k in range(n - 1)]
    nv = f.outward_unit_normal_vector(*[xi[a] for a in (range(n) if full else rest)])
    return geo.normal_clauses(mk, lab, nv, e_ct.Jacobian_matrix(*at), axis, side)


for name, n, layout, cfg, kw in geo.MSEPY:
    if n == 1:
        continue

    @check.unit(f'msepy face normals on the real mesh {name}', limit=200)
    def _(led, name=name, n=n):
        from pv.run import bounded_scenario
        def scn(mk):
            _, ms, obj = geo.build_msepy(name)
            els = obj['mesh'].elements
            out = []
            for e in range(els._num):
                for a in range(n):
                    for s in (0, 1):
                        out += face_numeric(mk, f'element {e} face {a}{"-+"[s]}', els[e].ct, els[e].ct.face(a, s), n, a, s, False)
            return out
        bounded_scenario(led, f'msepy face normals {name}', scn, 3)


for name, n, cfg, kw in geo.MSEHTT:
    @check.scenario(f'msehtt mesh {name}', samples=2, tol=1e-7)
    def _(mk, name=name, n=n):
        _, ms, obj = geo.build_msehtt(name)
        els = obj['tgm'].elements
        out = []
        with geo.sym_env(mk.symbolic):
            xi = [mk.pt(f'xi{i}', -.9, .95) for i in range(n)]
            for e in geo.representatives(els):
                out += ident(mk, f'{e.etype} element {e.index}', e.ct, xi)
        return out

    @check.unit(f'msehtt face normals on the real mesh {name}', limit=200)
    def _(led, name=name, n=n):
        from pv.run import bounded_scenario
        def scn(mk):
            _, ms, obj = geo.build_msehtt(name)
            els = obj['tgm'].elements
            out = []
            for i in els:
                e = els[i]
                for fid, (a, s) in geo.htt_faces(e).items():
                    try:
                        f = e.faces[fid].ct
                    except NotImplementedError:
                        continue
                    lab = f'element {i} face {fid}'
                    out += face_numeric(mk, lab, e.ct, f, n, a, s, n == 3)
                    if f.is_plane():
                        c = f.constant_outward_unit_normal_vector
                        t = [mk.pt(f'u{k}', -.9, .9) for k in range(1 if n == 2 else 3)]
                        nv = f.outward_unit_normal_vector(*t)
                        for k in range(n):
                            out.append((f'{lab}: constant normal {k} (to 6 decimals)',
                                        bool(np.all(np.abs(np.ravel(nv[k]) - c[k]) < 2e-6)), True))
            return out
        bounded_scenario(led, f'msehtt face normals {name}', scn, 3)


for lib, L in (('msepy', geo.MSEPY), ('msehtt', geo.MSEHTT)):
    for t in L:
        @check.unit(f'{lib} {t[0]}: node arrays of any shape', limit=120)
        def _(led, lib=lib, t=t): geo.shapes(lib, t, ('Jacobian', 'metric', 'inverse_Jacobian', 'inverse_Jacobian_matrix', 'metric_matrix', 'inverse_metric_matrix'), led)
