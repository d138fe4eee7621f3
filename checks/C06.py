r"""C06: the Jacobian matrices delivered by every geometry are the derivatives of its mapping."""
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check, scenario, bounded_scenario
from pv import sym, geo

check = Check('C06')
MP = 'phyem.msepy.manifold.predefined.'


def jac(mk, label, mapping, J, args):
    r"""obligations: J(*args)[i][j] == d mapping_i / d args_j."""
    jm = J(*[np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args])
    x = mapping(*args)
    out = [(f'{label}: Jacobian shape', (len(jm), len(jm[0])), (len(x), len(args)))]
    for j in range(len(args)):
        d = mk.D(mapping, args, j)
        for i in range(len(x)):
            out.append((f'{label}: J[{i}][{j}] = d x{i}/d xi{j}', jm[i][j], d[i]))
    return out


def pts(mk, n, lo=0.05, hi=0.95):
    return [mk.pt(f'xi{i}', lo, hi) for i in range(n)]


# ------------------------------------------------------------------ msepy: crazy
def bounds(mk, n):
    bs = []
    for i in range(n):
        a, b = mk.real(f'lo{i}', -2, 2), mk.real(f'up{i}', 2.2, 4)
        bs.append([a, b])
    return bs


def region_formula(mk, x, bs, c, rst):
    r"""documented: x_i = (b_i-a_i)(r_i + c/2 prod sin(2 pi r)) + a_i."""
    pr = 1
    for r in rst:
        pr = pr * mk.sin(2 * mk.pi * r)
    return [(f'x{i} is the documented mapping', x[i], (b - a) * (rst[i] + c * pr / 2) + a) for i, (a, b) in enumerate(bs)]


for n in (1, 2, 3):
    for czero in (True, False):
        @check.scenario(f'crazy {n}d c{"=" if czero else ">"}0', samples=3, tol=1e-6)
        def _(mk, n=n, czero=czero):
            m = get(MP + 'crazy')
            f = get(MP + 'crazy:_crazy')
            bs = bounds(mk, n)
            c = 0 if czero else mk.real('c', 0.01, 0.3)
            with np_patched(m):
                _, mp, J, *_r = f(Stub(esd=n, ndim=n, m=n, n=n), bounds=bs, c=c, periodic=False)
                rst = pts(mk, n)
                mk.fn(f, mp[0], J[0])
                return jac(mk, 'region', mp[0], J[0], rst) + region_formula(mk, mp[0](*rst), bs, c, rst)

for n, Ns in ((1, [3]), (2, [2, 3]), (3, [2, 1, 3]), (2, None)):
    for czero in (True, False):
        @check.scenario(f'crazy_multi {n}d Ns={Ns} c{"=" if czero else ">"}0', samples=2, tol=1e-6)
        def _(mk, n=n, Ns=Ns, czero=czero):
            m, m1 = get(MP + 'crazy_multi'), get(MP + 'crazy')
            f = get(MP + 'crazy_multi:_crazy_multi')
            bs = bounds(mk, n)
            c = 0 if czero else mk.real('c', 0.01, 0.3)
            out = []
            N = Ns or [2] * n
            with np_patched(m1), np_patched(m.__dict__, np=np):
                _, mp, J, *_r = f(Stub(esd=n, ndim=n, m=n, n=n), bounds=bs, c=c, Ns=Ns, periodic=False)
                rst = pts(mk, n)
                mk.fn(f, mp[0], J[0])
                out.append(('number of regions', len(mp), int(np.prod(N))))
                for r in mp:
                    idx = np.unravel_index(r, N, order='F')
                    rb = [[a + (b - a) * int(i) / k, a + (b - a) * (int(i) + 1) / k]
                          for (a, b), i, k in zip(bs, idx, N)]
                    out += jac(mk, f'region {r}', mp[r], J[r], rst)
                    out += [(f'region {r} ' + l, g, w) for l, g, w in region_formula(mk, mp[r](*rst), rb, c, rst)]
            return out


# ------------------------------------------------------------------ msepy: helpers, transfinite
for n in (1, 2, 3):
    @check.scenario(f'_LinearTransformation {n}d', samples=3, tol=1e-6)
    def _(mk, n=n):
        m = get(MP + '_helpers')
        L = get(MP + '_helpers:_LinearTransformation')
        bs = bounds(mk, n)
        with np_patched(m):
            t = L(*[x for b in bs for x in b])
            rst = pts(mk, n)
            mk.fn(t.mapping, t.Jacobian_matrix)
            x = t.mapping(*rst)
            return jac(mk, 'linear', t.mapping, t.Jacobian_matrix, rst) + [
                (f'x{i} affine', x[i], a + (b - a) * rst[i]) for i, (a, b) in enumerate(bs)]


class _UFCurve:
    r"""an arbitrary smooth boundary curve (universally quantified)."""
    def __init__(self, mk, name):
        self.mk, self.name = mk, name

    def gamma(self, o):
        return self.mk.uf(self.name + 'x', [o]), self.mk.uf(self.name + 'y', [o])

    def dgamma(self, o):
        return self.mk.uf(self.name + 'x', [o], (1,)), self.mk.uf(self.name + 'y', [o], (1,))


class _NoNumericalCheck:
    def __init__(self, *a): pass
    def check_Jacobian(self, *a): return [True]


@check.scenario('transfinite interpolation, arbitrary curves', samples=3, tol=1e-6)
def _(mk):
    T = 'phyem.tools.functions.space._2d.transfinite'
    m = get(T)
    C = [_UFCurve(mk, n) for n in 'LDRU']
    repl = dict(NumericalJacobianXYt21=_NoNumericalCheck)
    with np_patched(m, **repl) if mk.symbolic else np_patched(**{}):
        if not mk.symbolic:
            old = m.NumericalJacobianXYt21
            m.NumericalJacobianXYt21 = _NoNumericalCheck
        try:
            t = m.TransfiniteMapping([c.gamma for c in C], [c.dgamma for c in C])
        finally:
            if not mk.symbolic:
                m.NumericalJacobianXYt21 = old
        r, s = pts(mk, 2)
        mk.fn(t.mapping, t.x, t.y, t.dx_dr, t.dx_ds, t.dy_dr, t.dy_ds)
        J = lambda r, s: [[t.dx_dr(r, s), t.dx_ds(r, s)], [t.dy_dr(r, s), t.dy_ds(r, s)]]
        x, y = t.mapping(r, s)
        out = jac(mk, 'transfinite', t.mapping, J, [r, s])
        out += [('x()', t.x(r, s), x), ('y()', t.y(r, s), y)]
        # the four edges are interpolated exactly, when the curves meet in the corners (Coons patch)
        g = {k: c.gamma for k, c in zip('LDRU', C)}
        def P(f, o, i): return f(np.array([o], dtype=object if mk.symbolic else float))[i]
        def coons(i):
            L, R, U, D = g['L'](r)[i], g['R'](r)[i], g['U'](s)[i], g['D'](s)[i]
            return (1-s)*L + s*R + (1-r)*U + r*D - (1-r)*(1-s)*P(g['L'], 0, i) - r*(1-s)*P(g['L'], 1, i) \
                - (1-r)*s*P(g['R'], 0, i) - r*s*P(g['R'], 1, i)
        out += [('x is the Coons patch', x, coons(0)), ('y is the Coons patch', y, coons(1))]
    return out


G2 = 'phyem.tools.functions.space._2d.geometrical_functions.'


@check.scenario('straight line', samples=3, tol=1e-6)
def _(mk):
    m = get(G2 + 'straight_line')
    A, B = mk.reals('A', 2), mk.reals('B', 2)
    with np_patched(m):
        L = m.StraightLine(A, B)
        o = mk.pt('o', 0, 1)
        mk.fn(L.gamma, L.dgamma)
        d = mk.D(L.gamma, [o], 0)
        g = L.dgamma(o)
        zero, one = np.array([0]), np.array([1])
        return [('dx', g[0], d[0]), ('dy', g[1], d[1]), ('start x', L.gamma(zero)[0], A[0]),
                ('start y', L.gamma(zero)[1], A[1]), ('end x', L.gamma(one)[0], B[0]), ('end y', L.gamma(one)[1], B[1])]


for cls, mod, sgn in (('ArcAntiClockWise', 'anticlockwise_arc', 1), ('ArcClockWise', 'clockwise_arc', -1)):
    @check.scenario(f'{cls}: derivative for an arbitrary circle and angles', samples=3, tol=1e-6)
    def _(mk, cls=cls, mod=mod):
        m = get(G2 + mod)
        c = mk.reals('c', 2)
        rad, t0, t1 = mk.real('R', 0.3, 2), mk.real('t0', 0.1, 6), mk.real('t1', 0.1, 6)
        p0 = [c[0] + rad * mk.cos(t0), c[1] + rad * mk.sin(t0)]
        p1 = [c[0] + rad * mk.cos(t1), c[1] + rad * mk.sin(t1)]
        if mk.symbolic:
            # contract of angle(): the polar angle of the point, assumed here, checked in C18
            angles = {id(p0): t0, id(p1): t1}
            ctx = np_patched(m, angle=lambda a, b: angles[id(b)])
            mk.assume(abs(m.np.sqrt(1) * 0) <= 1) if False else None
        else:
            ctx = np_patched()
        with ctx:
            a = getattr(m, cls)(c, p0, p1)
            o = mk.pt('o', 0, 1)
            mk.fn(a.gamma, a.dgamma)
            d, g = mk.D(a.gamma, [o], 0), a.dgamma(o)
            out = [('dx', g[0], d[0]), ('dy', g[1], d[1])]
            x, y = a.gamma(o)
            out.append(('on the circle', (x - c[0])**2 + (y - c[1])**2, rad**2))
            for e, p in ((0, p0), (1, p1)):
                x, y = a.gamma(np.array([e]))
                out += [(f'end {e} x', x, p[0]), (f'end {e} y', y, p[1])]
            return out


ANG = 'phyem.tools.functions.space._2d.angle'


@check.scenario('angle(): the polar angle of the point', samples=4)
def _(mk):
    m = get(ANG)
    o, p = mk.reals('o', 2), mk.reals('p', 2)
    mk.assume(p[1] - o[1] != 0)
    with np_patched(m):
        mk.fn(m.angle)
        t = m.angle(o, p)
        ln = mk.sqrt((p[0] - o[0])**2 + (p[1] - o[1])**2)
        return [('r cos', o[0] + ln * mk.cos(t), p[0]), ('r sin', o[1] + ln * mk.sin(t), p[1])]


def manifold_unit(name, n, cls_path, kw, cfg):
    r"""predefined msepy domain, arbitrary parameters, generic point."""
    @check.scenario(name, samples=2, tol=1e-5)
    def _(mk):
        f = get(MP + cfg + ':' + cls_path)
        T = 'phyem.tools.functions.space._2d.transfinite'
        mods = [get(MP + cfg), get(MP + '_helpers'), get(G2 + 'straight_line'), get(G2 + 'anticlockwise_arc'),
                get(G2 + 'clockwise_arc'), get(ANG), get(T)]
        get(G2 + 'parser').___cache___.clear()
        with np_patched(*(mods if mk.symbolic else []), NumericalJacobianXYt21=_NoNumericalCheck):
            r = f(Stub(esd=n, ndim=n, m=n, n=n), **kw(mk))
            rm, mp, J, *_r = r() if callable(r) else r
            rst = pts(mk, n)
            out = []
            for k in mp:
                mk.fn(mp[k], J[k])
                out += jac(mk, f'region {k}', mp[k], J[k], rst)
            # C0 gluing of neighbouring regions: points of a shared face coincide
            for k in rm:
                for s, nb in enumerate(rm[k]):
                    if nb is None or nb == k:
                        continue
                    out.append((f'region {nb} names {k} back', rm[nb][s + 1 if s % 2 == 0 else s - 1], k))
                    if s % 2:
                        ax = s // 2
                        a, b = list(rst), list(rst)
                        a[ax], b[ax] = mk.num([1]), mk.num([0])
                        xa, xb = mp[k](*a), mp[nb](*b)
                        out += [(f'regions {k}|{nb} glue x{i}', xa[i], xb[i]) for i in range(n)]
        return out


def bstep(mk, z=False):
    d = dict(x1=mk.real('x1', 0.5, 2), x2=mk.real('x2', 0.5, 2), y1=mk.real('y1', 0.2, 1), y2=mk.real('y2', 0.2, 1),
             x0=mk.real('x0', -1, 1), y0=mk.real('y0', -1, 1))
    if z:
        d['z'] = mk.real('z', 0.2, 1)
    return d


manifold_unit('backward_step 2d', 2, '_backward_step', bstep, 'backward_step')
manifold_unit('backward_step 3d', 3, '_backward_step', lambda mk: bstep(mk, True), 'backward_step')
manifold_unit('cylinder_channel 2d', 2, '_CylinderChannel', lambda mk: dict(
    r=mk.real('r', 0.3, 1), dl=mk.real('dl', 2, 5), dr=mk.real('dr', 2, 6), h=mk.real('h', 3, 6)), 'cylinder_channel')
manifold_unit('cylinder_channel 2d asymmetric', 2, '_CylinderChannel', lambda mk: dict(
    r=mk.real('r', 0.3, 1), dl=mk.real('dl', 2, 5), dr=mk.real('dr', 2, 6), h=mk.real('h', 4, 6),
    hl=mk.real('hl', 1.5, 2)), 'cylinder_channel')


# ------------------------------------------------------------------ msepy meshes: per-element coordinate transformation
from pv import world  # noqa: E402

MSEPY = [
    ('crazy 1d', 1, [[1, 2, 3]], dict(c=0.2, bounds=[[-1, 2]])),
    ('crazy 1d linear', 1, [[1, 2, 1]], dict(c=0., bounds=[[-1, 2]])),
    ('crazy 2d', 2, [[1, 2], 3], dict(c=0.1, bounds=[[-1, 2], [0.5, 1.5]])),
    ('crazy 2d linear', 2, [[1, 2, 1], [3, 1]], dict(c=0., bounds=[[-1, 2], [0.5, 1.5]])),
    ('crazy 2d periodic', 2, [3, 2], dict(c=0.25, bounds=[[0, 1], [0, 3]], periodic=True)),
    ('crazy 3d', 3, [2, [1, 3], 2], dict(c=0.1, bounds=[[0, 2], [-1, 1], [0, 1]])),
    ('crazy 3d linear', 3, [[1, 2], [2, 1], [1, 1.5]], dict(c=0., bounds=[[0, 2], [-1, 1], [0, 1]])),
]
MSEPY_M = [
    ('crazy_multi 2d', 2, [2, [1, 2]], 'crazy_multi', dict(c=0.1, bounds=[[0, 2], [-1, 1]], Ns=[2, 2])),
    ('crazy_multi 2d linear', 2, [[1, 2], 2], 'crazy_multi', dict(c=0., bounds=[[0, 2], [-1, 1]], Ns=[3, 2])),
    ('crazy_multi 3d linear', 3, [1, 2, [1, 2]], 'crazy_multi', dict(c=0., bounds=[[0, 2], [-1, 1], [0, 3]], Ns=[2, 1, 2])),
    ('backward_step 2d', 2, {0: [2, 1], 1: [2, [1, 2]], 2: [1, [1, 2]]}, 'backward_step', {}),
    ('backward_step 2d equal', 2, 2, 'backward_step', dict(x1=1, x2=1, y1=0.5, y2=0.5)),
    ('backward_step 3d', 3, 2, 'backward_step', dict(x1=1, x2=2, y1=0.5, y2=0.5, z=1)),
    ('cylinder_channel', 2, 1, 'cylinder_channel', dict(r=0.5, dl=2, dr=3, h=4)),
]


def msepy_ct(mk, label, mesh, n, inverse=False):
    xi = [mk.pt(f'xi{i}', -0.95, 0.95) for i in range(n)]
    ct = mesh.ct
    mk.fn(ct.mapping, ct.Jacobian_matrix)
    JM = ct.Jacobian_matrix(*xi)
    N = mesh.elements._num
    D = [mk.D(ct.mapping, xi, j) for j in range(n)]
    out = []
    x = ct.mapping(*xi)
    for e in range(N):
        jm = JM(e)
        ce = mesh.elements[e].ct
        xe, je = ce.mapping(*xi), ce.Jacobian_matrix(*xi)
        mk.fn(ce.mapping, ce.Jacobian_matrix)
        for i in range(n):
            out.append((f'{label} element {e}: element mapping {i} = mesh mapping', xe[i], x[i][..., e]))
            for j in range(n):
                out.append((f'{label} element {e}: J[{i}][{j}]', jm[i][j], D[j][i][..., e]))
                out.append((f'{label} element {e}: element J[{i}][{j}]', je[i][j], D[j][i][..., e]))
    return out


for name, n, layout, cfg, kw in [(a, b, c, 'crazy', d) for a, b, c, d in MSEPY] + MSEPY_M:
    @check.scenario(f'msepy mesh {name}', samples=2, tol=1e-6)
    def _(mk, name=name, n=n, layout=layout, cfg=cfg, kw=kw):
        ms, obj = world.msepy(n, layout, manifold=cfg, **kw)
        mods = [get(MP + 'crazy'), get(MP + '_helpers'), get(G2 + 'straight_line'), get(G2 + 'anticlockwise_arc'),
                get(G2 + 'clockwise_arc')] if mk.symbolic else []
        with np_patched(*mods):
            return msepy_ct(mk, name, obj['mesh'], n)


# ------------------------------------------------------------------ msepy element faces
for name, n, layout, cfg, kw in geo.MSEPY:
    if n == 1:
        continue

    @check.scenario(f'msepy element faces {name}', samples=2, tol=1e-6)
    def _(mk, name=name, n=n):
        _, ms, obj = geo.build_msepy(name)
        els = obj['mesh'].elements
        out = []
        with geo.sym_env(mk.symbolic):
            xi = [mk.pt(f'xi{i}', -0.95, 0.95) for i in range(n)]
            for e in sorted({0, els._num // 2, els._num - 1}):
                ct = els[e].ct
                for m in range(n):
                    for s in (0, 1):
                        f = ct.face(m, s)
                        mk.fn(f.mapping, f.Jacobian_matrix)
                        # documented parameterisation: cyclic order of the remaining axes
                        rest = [(m + 1 + k) % n for k in range(n - 1)]
                        out += _face(mk, f'element {e} face {m}{"-+"[s]}', f.mapping, f.Jacobian_matrix, ct.mapping,
                                     xi, m, s, rest)
        return out


def _face(mk, lab, mapping, JM, emap, xi, m, s, rest, full=False):
    n = len(xi)
    one = xi[0] * 0 + (2 * s - 1)
    at = [one if a == m else xi[a] for a in range(n)]
    args = [xi[a] for a in (range(n) if full else rest)]
    x, xe = mapping(*args), emap(*at)
    jm = JM(*args)
    out = [(f'{lab}: trace of the element mapping, x{i}', x[i], xe[i]) for i in range(n)]
    for c, a in enumerate(rest):
        d = mk.D(mapping, args, a if full else c)
        for i in range(n):
            g = jm[i] if n == 2 else jm[i][c]
            out.append((f'{lab}: J[{i}][{c}] = d x{i}/d xi{a}', g, d[i]))
    return out


# ------------------------------------------------------------------ msehtt elements, arbitrary corners
HE = geo.HE


def _generic(mk, cls, k):
    r"""an element with arbitrary corner coordinates; k corners."""
    P = [[mk.real(f'x{i}', -2, 2), mk.real(f'y{i}', -2, 2)] for i in range(k)]
    return cls(Stub(metric_signature=1, parameters=P, m=lambda: 2, n=lambda: 2)), P


def bilinear(mk, P, xi, et):
    def N(a, b): return (1 + a * xi) * (1 + b * et) / 4
    w = [N(-1, -1), N(1, -1), N(1, 1), N(-1, 1)]
    return [sum(w[c] * P[c][i] for c in range(4)) for i in range(2)]


@check.scenario('vtu9 quad, arbitrary corners', samples=3, tol=1e-6)
def _(mk):
    m = get(HE + 'vtu_9_quad')
    with geo.sym_env(mk.symbolic):
        ct, P = _generic(mk, m.Vtu9Quad_CT, 4)
        xi = [mk.pt('xi0', -.95, .95), mk.pt('xi1', -.95, .95)]
        mk.fn(ct.mapping, ct.Jacobian_matrix, m.Vtu9Quad_CT.___Jacobian_matrix___)
        out = jac(mk, 'vtu9', ct.mapping, ct.Jacobian_matrix, xi)
        x, w = ct.mapping(*xi), bilinear(mk, P, *xi)
        out += [(f'x{i} is the bilinear interpolation of the corners', x[i], w[i]) for i in range(2)]
    return out


@check.scenario('vtu5 triangle, arbitrary corners', samples=3, tol=1e-6)
def _(mk):
    m = get(HE + 'vtu_5_triangle')
    with geo.sym_env(mk.symbolic):
        ct, P = _generic(mk, m.Vtu5Triangle_CT, 3)
        xi = [mk.pt('xi0', -.9, .95), mk.pt('xi1', -.95, .95)]
        mk.fn(ct.mapping, ct.Jacobian_matrix, m.Vtu5Triangle_CT.___Jacobian_matrix___)
        out = jac(mk, 'vtu5', ct.mapping, ct.Jacobian_matrix, xi)
        # corner 0 is the collapsed side xi=-1; corners 1 and 2 are (1,-1) and (1,1)
        x = ct.mapping(*xi)
        w = bilinear(mk, [P[0], P[1], P[2], P[0]], *xi)
        out += [(f'x{i} is the collapsed bilinear interpolation', x[i], w[i]) for i in range(2)]
    return out


@check.scenario('chaotic: total mapping, arbitrary bounds', samples=3, tol=1e-6)
def _(mk):
    m = get(geo.HM + 'chaotic')
    with geo.sym_env(mk.symbolic):
        a, b = mk.real('ax', -2, 1), mk.real('bx', 1.2, 3)
        c, d = mk.real('ay', -2, 1), mk.real('by', 1.2, 3)
        tm = m.TotalMapping2D(a, b, c, d, mk.real('c', 0.01, 0.2))
        x = [mk.pt('r', 0.1, 0.9), mk.pt('s', 0.1, 0.9)]
        mk.fn(tm.mapping, tm.Jacobian_matrix)
        out = jac(mk, 'total', tm.mapping, tm.Jacobian_matrix, x)
        # the deformation leaves the boundary of the bounding box in place
        for ax, (lo, hi) in enumerate(((a, b), (c, d))):
            for v in (lo, hi):
                p = list(x)
                p[ax] = x[ax] * 0 + v
                q = tm.mapping(*p)
                out.append((f'boundary axis {ax} stays', q[ax], p[ax]))
        return out


for name, n, cfg, kw in geo.MSEHTT:
    @check.scenario(f'msehtt mesh {name}', samples=2, tol=1e-5)
    def _(mk, name=name, n=n):
        _, ms, obj = geo.build_msehtt(name)
        els = obj['tgm'].elements
        out = []
        with geo.sym_env(mk.symbolic):
            xi = [mk.pt(f'xi{i}', -.9, .95) for i in range(n)]
            for e in geo.representatives(els):
                mk.fn(e.ct.mapping, e.ct.Jacobian_matrix)
                if hasattr(e.ct, '___Jacobian_matrix___'):
                    mk.fn(e.ct.___Jacobian_matrix___)
                lab = f'{e.etype} element {e.index}'
                out += jac(mk, lab, e.ct.mapping, e.ct.Jacobian_matrix, xi)
                if 'tri' in str(e.etype) and e.etype != 5 and 'unique curv' in str(e.etype):
                    pass
                for fid, (m, s) in geo.htt_faces(e).items():
                    try:
                        f = e.faces[fid].ct
                    except NotImplementedError:
                        continue
                    mk.fn(f.mapping, f.Jacobian_matrix)
                    rest = [(m + 1 + k) % n for k in range(n - 1)]
                    out += _face(mk, f'{lab} face {fid}', f.mapping, f.Jacobian_matrix, e.ct.mapping, xi, m, s, rest,
                                 full=(n == 3))
        return out


for lib, L in (('msepy', geo.MSEPY), ('msehtt', geo.MSEHTT)):
    for t in L:
        @check.unit(f'{lib} {t[0]}: node arrays of any shape', limit=120)
        def _(led, lib=lib, t=t): geo.shapes(lib, t, ('mapping', 'Jacobian_matrix'), led)
