r"""C05: boundaries, neighbours, boundary sections, geometric predicates and point location."""
import itertools, math, random
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import geo, world
import pv.run as R

def flat(x):
    r"""all numbers in nested sequences."""
    return np.concatenate([flat(y) for y in x]) if isinstance(x, (list, tuple)) else np.ravel(np.asarray(x, float))


def fn(led, *fs):
    for f in fs:
        led.functions.add(R.qual(f))


check = Check('C05', trusted=['matplotlib.path.Path.contains_point, shapely (polygons), scipy.optimize.brentq: dependencies'])
M1, M2, M3 = ('phyem.tools.miscellaneous.geometries.' + x for x in ('m1n1', 'm2n2', 'm3n3'))
PM = 'phyem.msehtt.static.mesh.partial.main'
SEG, LINE = 'StraightSegment2', 'StraightLine2'


class Math:
    r"""`math.isclose` on symbols."""
    def __getattr__(self, n): return getattr(math, n)
    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.):
        d = abs(a - b)
        return (d <= abs_tol) | (d <= rel_tol * abs(a)) | (d <= rel_tol * abs(b))


def env2(mk, **k): return np_patched(get(M2), math=Math(), **k) if mk.symbolic else np_patched()


# ------------------------------------------------------------------ points, lines, segments in the plane (proved)
class Frame:
    r"""A, B at distance L and a point P at (along tau, across h) of them.

    Symbolically `distance2` is used by its contract (non-negative, its square is the sum of squares; proved in the unit
    'distance'), numerically the real one in a rotated frame."""
    def __init__(self, mk, cls, tau, h, L):
        m = get(M2)
        G, f = getattr(m, cls), getattr(m, 'whether_point_on_straight_' + ('segment' if cls == SEG else 'line'))
        mk.fn(f, G.__init__, m.Point2.__init__)
        a, b = mk.real('a', -5, 5), mk.real('b', -5, 5)
        if not mk.symbolic:
            t = mk.real('th', 0, 6.3)
            c, s = mk.cos(t), mk.sin(t)
            self.r = f(m.Point2(a + tau * c - h * s, b + tau * s + h * c), G(m.Point2(a, b), m.Point2(a + L * c, b + L * s)))
            return
        A, B, P = m.Point2(a, b), m.Point2(a + L, b), m.Point2(a + tau, b + h)
        nm, d = {id(A): 'A', id(B): 'B', id(P): 'P'}, {}
        sq = {frozenset('AB'): L * L, frozenset('AP'): tau * tau + h * h, frozenset('BP'): (L - tau) * (L - tau) + h * h}

        def dist(p, q):
            k = frozenset((nm[id(p)], nm[id(q)]))
            if k not in d:
                d[k] = mk.real('d' + ''.join(sorted(k)), 0)
                mk.assume(d[k] * d[k] == sq[k])
                if cls == LINE and {frozenset('AP'), frozenset('BP')} <= set(d):
                    u, w = d[frozenset('AP')], d[frozenset('BP')]
                    mk.assume((u + w) * (u - w) == L * (2 * tau - L))       # follows from the squares
                    mk.assume(u + w >= L)                                   # triangle inequality
            return d[k]
        with env2(mk, distance2=dist):
            self.r = f(P, G(A, B))


@check.scenario('distance2 and distance3 are the Euclidean distances')
def _(mk):
    m, m3 = get(M2), get(M3)
    mk.fn(m.distance2, m3.distance3)
    x = [mk.real(f'x{i}', -5, 5) for i in range(6)]
    isreal = dict(isinstance=lambda o, c: True) if mk.symbolic else {}
    with np_patched(m, m3, **isreal) if mk.symbolic else np_patched():
        d = m.distance2(m.Point2(x[0], x[1]), m.Point2(x[2], x[3]))
        e = m3.distance3(m3.Point3(*x[:3]), m3.Point3(*x[3:]))
    return [('square', d * d, (x[0] - x[2]) ** 2 + (x[1] - x[3]) ** 2), ('sign', bool(d >= 0), True),
            ('square 3', e * e, sum((x[i] - x[i + 3]) ** 2 for i in range(3))), ('sign 3', bool(e >= 0), True)]


for _c in (SEG, LINE):
    @check.scenario(f'point on a {_c}: every point of it is')
    def _(mk, c=_c):
        L = mk.real('L', 0.01, 10)
        lam = mk.real('tau', 0, 1) if c == SEG else mk.real('tau', -3, 3)
        return [('on', bool(Frame(mk, c, lam * L, 0, L).r), True)]

    @check.scenario(f'point on a {_c}: no point off it is', limit=240)
    def _(mk, c=_c):
        L, tau, h = mk.real('L', 1, 10), mk.real('tau', -10, 10), mk.real('h', 1e-2, 10)
        return [('off', bool(Frame(mk, c, tau, h, L).r), False)]
for _s in (0, 1):
    @check.scenario(f'point on a {SEG}: no point beyond end {_s} is', limit=240)
    def _(mk, s=_s):
        L, x, h = mk.real('L', .01, 10), mk.real('tau', 0.001, 10), mk.real('h', -10, 10)
        return [('off', bool(Frame(mk, SEG, L + x if s else -x, h, L).r), False)]


@check.scenario('parallel lines are recognised')
def _(mk):
    m = get(M2)
    mk.fn(m.whether_two_lines_or_segments_parallel)
    a = [mk.real(f'a{i}', -5, 5) for i in range(4)]
    u, v = mk.real('u', 1, 5), mk.real('v', -5, 5)
    s, w = mk.real('s', 1, 3), mk.real('w', 1e-3, 5)
    far = dict(distance2=lambda p, q: 1) if mk.symbolic else {}
    with env2(mk, **far):
        P = m.Point2
        g0 = m.StraightLine2(P(a[0], a[1]), P(a[0] + u, a[1] + v))
        g1 = m.StraightLine2(P(a[2], a[3]), P(a[2] - s * u, a[3] - s * v))
        g2 = m.StraightLine2(P(a[2], a[3]), P(a[2] + u * s - v * w, a[3] + v * s + u * w))
        f = m.whether_two_lines_or_segments_parallel
        out = [('parallel', bool(f(g0, g1)), True), ('not parallel', bool(f(g0, g2)), False), ('not parallel', bool(f(g2, g1)), False)]
        p = m.line2_line2_intersection(g0, g2)
        out += [('the intersection lies on the first', (p.x - a[0]) * v, (p.y - a[1]) * u),
                ('the intersection lies on the second', (p.x - a[2]) * (v * s + u * w), (p.y - a[3]) * (u * s - v * w))]
    try:
        with env2(mk, **far):
            m.line2_line2_intersection(g0, g1)
        out.append(('parallel lines refused', 0, 1))
    except m.Parallel2dLinesError:
        pass
    return out


@check.scenario('equality of points, segments, boxes')
def _(mk):
    m, m3 = get(M2), get(M3)
    mk.fn(m.Point2.__eq__, m3.Point3.__eq__, m3.PerpRectangle.__eq__, m3.OrthogonalHexahedron.__eq__, m3.OrthogonalSegment3.__eq__)
    x, y, z, e = mk.real('x', -5, 5), mk.real('y', -5, 5), mk.real('z', -5, 5), mk.real('e', 1e-6, 5)
    out = []
    with (np_patched(m, m3, math=Math(), isinstance=lambda o, c: True) if mk.symbolic else np_patched()):
        for dx, dy in ((0, 0), (e, 0), (-e, 0), (0, e), (0, -e)):
            out.append((f'points {dx} {dy}', bool(m.Point2(x, y) == m.Point2(x + dx, y + dy)), isinstance(dx, int) and isinstance(dy, int)))
        for d in range(7):
            v = [x, y, z]
            if d:
                v[(d - 1) % 3] = v[(d - 1) % 3] + (e if d > 3 else -1 * e)
            out.append((f'points 3 {d}', bool(m3.Point3(x, y, z) == m3.Point3(*v)), d == 0))
    return out


class Bound:
    r"""a box (segment, rectangle, hexahedron) by origin and lengths (either sign)."""
    def __init__(self, m3, kind, axis, o, d):
        if kind == 0:
            self.g = m3.OrthogonalSegment3('xyz'[axis], m3.Point3(*o), d[axis])
        elif kind == 1:
            self.g = m3.PerpRectangle('xyz'[axis], tuple(o), tuple(0 if i == axis else d[i] for i in range(3)))
        else:
            self.g = m3.OrthogonalHexahedron(tuple(o), tuple(d))


for _k, _n in ((0, 'segments'), (1, 'rectangles'), (2, 'hexahedra')):
    @check.scenario(f'orthogonal {_n}: containment, equality, size', max_paths=4000, limit=240)
    def _(mk, k=_k):
        m3 = get(M3)
        C = (m3.OrthogonalSegment3, m3.PerpRectangle, m3.OrthogonalHexahedron)[k]
        mk.fn(C.__init__, C.__eq__, C.whether_contain__input__as_a_part_of_same_type)
        o = [mk.real(f'o{i}', -5, 5) for i in range(3)]
        d = [mk.real(f'd{i}', 0.3, 5) for i in range(3)]
        lo = [mk.real(f'l{i}', 0.01, 0.09) for i in range(3)]
        out = []
        if mk.symbolic:
            class L(list):
                def sort(self): pass        # lengths are positive (the other signs: numerically)
        with (np_patched(m3, isinstance=lambda o_, c: hasattr(o_, '__class__') and (c == (int, float) or c == (float, int) or type(o_) is c)) if mk.symbolic else np_patched()):
            for a in range(3 if k < 2 else 1):
                free = [a] if k == 0 else [i for i in range(3) if i != a] if k == 1 else [0, 1, 2]
                big = Bound(m3, k, a, o, d).g
                inner = Bound(m3, k, a, [o[i] + (lo[i] if i in free else 0) for i in range(3)],
                              [d[i] - 1.5 * lo[i] for i in range(3)]).g
                f = big.whether_contain__input__as_a_part_of_same_type
                size = 1
                for i in free:
                    size = size * d[i]
                s = big.length if k == 0 else big.area if k == 1 else big.volume
                out += [(f'{a}: itself', bool(f(big)), True), (f'{a}: equal', bool(big == Bound(m3, k, a, o, d).g), True),
                        (f'{a}: size', s, size), (f'{a}: smaller inside', bool(f(inner)), True),
                        (f'{a}: larger not inside', bool(inner.whether_contain__input__as_a_part_of_same_type(big)), False),
                        (f'{a}: not equal', bool(big == inner), False)]
                for i in range(3):
                    for sg in (1, -1):
                        moved = Bound(m3, k, a, [o[j] + (sg * lo[j] if j == i else 0) for j in range(3)], d).g
                        out += [(f'{a}: moved along {i} {sg}: not inside', bool(f(moved)), False),
                                (f'{a}: moved along {i} {sg}: not equal', bool(big == moved), False)]
                if not mk.symbolic:
                    flip = Bound(m3, k, a, [o[i] + d[i] if i in free else o[i] for i in range(3)], [-x for x in d]).g
                    out += [(f'{a}: negative lengths', bool(flip == big and f(flip)), True)]
                    if k < 2:
                        out += [(f'{a}: other axis', bool(f(Bound(m3, k, (a + 1) % 3, o, d).g)), False)]
        return out


@check.scenario('intervals contain what lies in them')
def _(mk):
    I = get(M1 + ':Interval')
    mk.fn(I.__contains__, I.__init__)
    a, L, t = mk.real('a', -5, 5), mk.real('L', 0.1, 5), mk.real('t', -2, 3)
    out = []
    with (np_patched(get(M1), isinstance=lambda o, c: type(o) is c if c in (tuple, list) else c == (int, float)) if mk.symbolic else np_patched()):
        o, c = I((a, a + L)), I([a, a + L])
        x = a + t * L
        inside, strict = bool((t >= 0) & (t <= 1)), bool((t > 0) & (t < 1))
        if mk.symbolic or min(abs(t), abs(t - 1)) > 1e-9:
            out = [('closed', bool(x in c), inside), ('open', bool(x in o), strict)]
        out += [('the ends, closed', bool(a in c), True), ('the ends, open', bool(a in o), False)]
    return out


# ------------------------------------------------------------------ selections from the boundary: logic (all truth tables)
class Face:
    r"""a face whose points are its parameter values; `hit[j]` is the interval of parameters off geometry j (or None)."""
    def __init__(self, off, plane=True, normal=None):
        self.off = off
        self.ct = Stub(mapping=lambda xi: (np.array(xi) * 1., np.zeros_like(xi) + 0.),
                       is_plane=lambda: plane, constant_outward_unit_normal_vector=normal)


class Mesh2:
    mn = (2, 2)
    def __init__(self, faces): self.f = faces
    def _get_local_boundary_faces(self): return list(self.f)


class Secs(list):
    def __init__(self, tpm, tgm, faces): super().__init__(faces)


def select(faces, key, things, **repl):
    r"""the real _config on a mesh with these boundary faces."""
    m = get(PM)
    pm = object.__new__(m.MseHttMeshPartial)
    pm.__dict__.update(_abstract=None, _tgm=None, _composition=None)
    els = Mesh2(faces)
    tgm = Stub(elements={e: Stub(faces={g: f for (e_, g), f in faces.items() if e_ == e}) for e in {e for e, _ in faces}})
    with np_patched(m, MseHttElementsPartialMesh=Mesh2, MseHttBoundarySectionPartialMesh=Secs, **repl):
        pm._config(tgm, {'type': 'boundary_section', 'partial elements': Stub(composition=els), key: things})
    return list(pm._composition)


WHERE = [None] + [(c - .1, c + .1) for c in np.linspace(-1, 1, 9)]


@check.unit('selecting faces: every combination of faces and geometries')
def _(led):
    m = get(PM)
    P2 = m.Point2
    fn(led, m.MseHttMeshPartial._config, m.MseHttMeshPartial._perform_configuration)
    def pred(p, g):
        a = CUR[0].off[g.tag]
        return a is None or not (a[0] <= p.x <= a[1])
    CUR = [None]
    n = 0
    for kind, test in (('straight lines', 'whether_point_on_straight_line'), ('straight segments', 'whether_point_on_straight_segment'),
                     ('in polygons', 'whether_point_in_polygon'), ('curves', 'whether_point_on_curve')):
        key = kind if kind.startswith('in') else 'on ' + kind

        def things():
            out = []
            for j in range(2):
                g = {'straight lines': lambda: m.StraightLine2(P2(0, j), P2(1, j)), 'straight segments': lambda: m.StraightSegment2(P2(0, j), P2(1, j)),
                     'in polygons': lambda: m.Polygon2(P2(0, j), P2(1, j), P2(0, j + 1)),
                     'curves': lambda: m.Curve2(lambda t: t, lambda t: t, [0, 1])}[kind]()
                g.__dict__['tag'] = j
                out.append(g)
            return out
        for off in itertools.product(WHERE, WHERE):
            faces = {(0, 1): Face(off), (0, 3): Face(off[::-1]), (7, 0): Face((off[0], off[0])), (5, 2): Face((None, off[1]))}
            for f in faces.values():
                f.ct.__dict__['mapping'] = (lambda xi, f=f: (CUR.__setitem__(0, f), (np.array(xi) * 1., np.zeros_like(xi) + 0.))[1])
            for neg in (False, True):
                want = [k for k, f in faces.items() if (None in f.off) != neg]
                for cont in (tuple, list):
                    got = select(faces, ('except ' if neg else '') + key, cont(things()), **{test: pred})
                    n += 1
                    if got != want:
                        raise R.Violation(f'{kind}, except={neg}: faces selected', dict(off=str([f.off for f in faces.values()]), got=got, want=want))
    vecs = [(-1, 0), (1, 0), (0., -1.), (round(math.cos(1), 6), round(math.sin(1), 6))]
    for plane in itertools.product((0, 1), repeat=3):
        for nv in itertools.product(range(4), repeat=3):
            faces = {(i, 2 - i): Face(None, bool(plane[i]), vecs[nv[i]]) for i in range(3)}
            for vs, ask in (([0], vecs[0]), ([0], [vecs[0]]), ([1, 2], ([1, 0], [0, -1])), ([3], ([math.cos(1), math.sin(1)],))):
                for neg in (False, True):
                    want = [(i, 2 - i) for i in range(3) if (bool(plane[i]) and nv[i] in vs) != neg]
                    got = select(faces, ('except ' if neg else '') + 'ounv', ask)
                    n += 1
                    if got != want:
                        raise R.Violation('ounv', dict(got=got, want=want, ask=str(ask), plane=plane, normals=nv))
    led.bounded.append(('selection logic', f'{n} truth tables: up to four faces, two geometries, a face leaving the geometry on any interval of length 0.2'))


# ------------------------------------------------------------------ real meshes (bounded)
XI = np.linspace(-1, 1, 41)


def face_pts(e, i, n):
    if n == 2:
        ax, side = geo.htt_faces(e)[i]
        return np.array(e.ct.mapping(*[XI if a != ax else np.full_like(XI, 2. * side - 1) for a in range(2)])).T
    ax, side = geo.htt_faces(e)[i]
    g = [x.ravel() for x in np.meshgrid(*[np.array([-1, 0., .5, 1.])] * 2, indexing='ij')]
    g.insert(ax, np.full_like(g[0], 2 * side - 1.))
    return np.array(e.ct.mapping(*g)).T


def same(P, Q, tol=1e-8):
    r"""two sets of sample points describe the same face."""
    if len(P) != len(Q):
        return False
    c = np.allclose(P.mean(0), Q.mean(0), atol=tol)
    return c and (np.allclose(P, Q, atol=tol) or np.allclose(P, Q[::-1], atol=tol) or len(P) == 16)


def boundary_of(els, n, rng=None):
    fs = {(e, i): face_pts(els[e], i, n) for e in (els if rng is None else rng) for i in els[e].face_setting()}
    ks = list(fs)
    nb = {k: [] for k in ks}
    C = np.array([fs[k].mean(0) if n == 3 else fs[k][[0, -1]].sum(0) + fs[k][20] for k in ks])
    for a, k in enumerate(ks):
        for b in np.nonzero(np.max(np.abs(C - C[a]), axis=1) < 1e-8)[0]:
            if b != a and same(fs[k], fs[ks[b]]):
                nb[k].append(ks[b])
    return fs, nb


def seg_dist(P, a, b, inf=False):
    d = (b - a)
    t = (P - a) @ d / (d @ d)
    t = t if inf else np.clip(t, 0, 1)
    return np.linalg.norm(P - a - t[:, None] * d, axis=1)


def poly_sd(P, V):
    r"""(distance to the edges, inside by winding number)."""
    V = np.array(V)
    W = np.roll(V, -1, 0)
    dist = np.min([seg_dist(P, a, b) for a, b in zip(V, W)], axis=0)
    ang = np.zeros(len(P))
    for a, b in zip(V, W):
        u, v = a - P, b - P
        ang += np.arctan2(u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0], (u * v).sum(1))
    return dist, np.abs(ang) > np.pi


def verdict(dmax):
    return True if dmax < 1e-9 else False if dmax > 2e-2 else None


CIRCLE = dict(r=0.5)
M2D = [t[0] for t in geo.MSEHTT if t[1] == 2 and 'tiny' not in t[0]]
M3D = [t[0] for t in geo.MSEHTT if t[1] == 3]


def sections(ms, obj, n, mesh, made):
    r"""a builder: including -> faces of a fresh partial mesh configured so."""
    m = get(PM)
    def build(inc):
        pm = object.__new__(m.MseHttMeshPartial)
        pm.__dict__.update(_abstract=mesh.abstract, _tgm=None, _composition=None)
        pm._config(obj['tgm'], inc)
        made.append(pm)
        return list(pm.composition), pm
    return build


for _nm in M2D + M3D:
    @check.unit(f'boundary, neighbours and sections, {_nm}', limit=300)
    def _(led, nm=_nm):
        n, ms, obj = geo.build_msehtt(nm)
        mesh, tgm, els = obj['mesh'], obj['tgm'], obj['tgm'].elements
        m, g2 = get(PM), get(M2)
        E = get('phyem.msehtt.static.mesh.great.elements.main:MseHttGreatMeshElements')
        fn(led, E._parse_boundary_faces_of_a_patch_of_elements, E.global_neighbors, m.MseHttMeshPartial._config, m.MseHttMeshPartial._perform_configuration)
        fs, nb = boundary_of(els, n)
        per = 'periodic' in nm
        cnt = [0]

        def eq(lab, got, want):
            cnt[0] += 1
            if got != want:
                raise R.Violation(f'{nm}: {lab}', dict(got=str(got)[:600], want=str(want)[:600]))
        bnd = [k for k in fs if not nb[k]]
        GN = els.global_neighbors
        if per:
            eq('no boundary on a periodic mesh', mesh.composition._get_local_boundary_faces(), [])
            eq('neighbours everywhere', [k for k in fs if GN[k[0]][k[1]] is None], [])
            for e, i in fs:
                eq('neighbours are mutual', e in GN[GN[e][i]], True)
        else:
            eq('the boundary is the unshared faces', sorted(mesh.composition._get_local_boundary_faces()), sorted(bnd))
            for e, i in fs:
                eq(f'neighbour of {(e, i)}', GN[e][i], nb[e, i][0][0] if nb[e, i] else None)
        rnd = random.Random(3)
        for _ in range(6):                      # any patch of elements
            patch = rnd.sample(list(els), max(1, len(els) * rnd.randint(1, 3) // 4))
            if per:
                continue
            f2, n2 = boundary_of(els, n, patch)
            got = els._parse_boundary_faces_of_a_patch_of_elements(patch)
            eq('the boundary of a patch', sorted((d['element index'], d['face id']) for d in got), sorted(k for k in f2 if not n2[k]))
            for d in got:
                k = d['element index'], d['face id']
                eq('its nodes', sorted(d['global node numbering']), sorted(els[k[0]].map_[j] for j in els[k[0]].face_setting()[k[1]]))
        if per or 'unique curvilinear triangle' in {els[e].etype for e in els}:       # (their faces have no mapping)
            led.bounded.append((nm, f'{cnt[0]} comparisons'))
            return
        build = sections(ms, obj, n, mesh, [])
        pick = rnd.sample(bnd, min(4, len(bnd)))
        cands = []                               # (key, thing, verdict of each face)
        # outward normals
        nv = {}
        for k in bnd:
            P = fs[k]
            if n == 2:
                T = np.diff(P, axis=0)
                T = T / np.linalg.norm(T, axis=1)[:, None]
                plane = np.max(np.abs(T - T[0])) < 1e-7
                if not plane and np.max(np.abs(T - T[0])) < 1e-4:
                    nv[k] = 'unclear'
                    continue
                if plane:
                    v = np.array([T[0][1], -T[0][0]])
            else:
                e = els[k[0]]
                ax, side = geo.htt_faces(e)[k[1]]
                u, s, w = np.linalg.svd(P - P.mean(0))
                plane = s[-1] < 1e-9
                v = w[-1]
            if plane:
                c = np.mean([fs[k2].mean(0) for k2 in fs if k2[0] == k[0]], axis=0)
                v = v * np.sign(v @ (P.mean(0) - c))
            nv[k] = v if plane else None
        flat = [k for k in bnd if nv[k] is not None and not isinstance(nv[k], str)]
        for k in rnd.sample(flat, min(3, len(flat))):
            vd = {j: None if isinstance(nv[j], str) else nv[j] is not None and (lambda d: True if d < 1e-8 else False if d > 1e-4 else None)(np.max(np.abs(nv[j] - nv[k]))) for j in bnd}
            v = [float(x) for x in nv[k]]
            cands += [('ounv', (v,), vd), ('ounv', v, vd), ('ounv', [tuple(v)], vd)]
        if n == 2:
            for k in pick:
                a, b = fs[k][0], fs[k][-1]
                tup = ((float(a[0]), float(a[1])), (float(b[0]), float(b[1])))
                P2 = g2.Point2
                for cls, key in ((g2.StraightSegment2, 'on straight segments'), (g2.StraightLine2, 'on straight lines')):
                    vd = {j: verdict(np.max(seg_dist(fs[j], a, b, inf='lines' in key))) for j in bnd}
                    if np.linalg.norm(a - b) < .2:
                        continue
                    cands += [(key, (cls(P2(*tup[0]), P2(*tup[1])),), vd), (key, [tup], vd), (key, ((P2(*tup[0]), P2(*tup[1])),), vd),
                              (key, [[list(tup[1]), list(tup[0])]], vd)]
                    o = [j for j in bnd if j != k and np.linalg.norm(fs[j][0] - fs[j][-1]) > .2]
                    if o:
                        o = rnd.choice(o)
                        c, d = fs[o][0], fs[o][-1]
                        vo = {j: verdict(np.max(seg_dist(fs[j], c, d, inf='lines' in key))) for j in bnd}
                        either = {j: True if vd[j] or vo[j] else None if None in (vd[j], vo[j]) else False for j in bnd}
                        cands.append((key, [tup, ((float(c[0]), float(c[1])), (float(d[0]), float(d[1])))], either))
                    if key == 'on straight segments':       # half of the face only
                        h = (a + b) / 2
                        vd = {j: verdict(np.max(seg_dist(fs[j], a, h))) for j in bnd}
                        cands.append((key, [((float(a[0]), float(a[1])), (float(h[0]), float(h[1])))], vd))
            X = np.vstack([fs[k] for k in bnd])
            lo, hi = X.min(0), X.max(0)
            polys = []
            for _ in range(6):
                c = lo + (hi - lo) * [rnd.random(), rnd.random()]
                q = rnd.randint(3, 7)
                th = sorted(rnd.uniform(0, 6.28) for _ in range(q))
                rr = [max(hi - lo) * rnd.uniform(.2, .8) for _ in th]
                polys.append([(float(c[0] + r * math.cos(t)), float(c[1] + r * math.sin(t))) for r, t in zip(rr, th)])
            k = pick[0]
            mid = (lo + hi) / 2                  # an edge of the domain's bounding box is an edge of the polygon
            polys.append([(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], float(mid[1])), (lo[0], float(mid[1]))])
            polys.append([(lo[0], lo[1]), (lo[0], hi[1]), (float(mid[0]), hi[1]), (float(mid[0]), lo[1])])
            def pv(V):
                out = {}
                for j in bnd:
                    dist, ins = poly_sd(fs[j], V)
                    out[j] = True if np.all(ins | (dist < 1e-9)) and not np.any((dist > 1e-9) & (dist < 1e-3)) else \
                        False if np.any(~ins & (dist > 2e-2)) and np.sum(~ins & (dist > 2e-2)) >= 6 else None
                return out
            for V in polys:
                V = [(float(x), float(y)) for x, y in V]
                cands += [('in polygons', (m.Polygon2(*[g2.Point2(*v) for v in V]),), pv(V))]
            V, W = polys[0], polys[1]
            a, b = pv(V), pv(W)
            cands.append(('in polygons', [m.Polygon2(*[g2.Point2(*v) for v in V]), m.Polygon2(*[g2.Point2(*v) for v in W])],
                          {j: True if a[j] or b[j] else None if None in (a[j], b[j]) else False for j in bnd}))
            for sgn in (1, -1):                  # horizontal bottoms and tops as curves
                for y in (lo[1], hi[1]):
                    cv = g2.Curve2((lambda t: t) if sgn == 1 else (lambda t: -t), lambda t, y=y: y + 0 * t,
                                   [float(lo[0]), float(hi[0])] if sgn == 1 else [-float(hi[0]), -float(lo[0])])
                    cands.append(('on curves', (cv,), {j: verdict(np.max(np.abs(fs[j][:, 1] - y))) for j in bnd}))
            if 'cylinder' in nm:
                ring = [k for k in bnd if np.linalg.norm(fs[k][0] - fs[k][-1]) > 0 and np.ptp(np.linalg.norm(fs[k] - 0, axis=1)) < 1e-9]
                r = np.linalg.norm(fs[ring[0]][0])
                for c, t0, t1 in ((1, 0, math.pi), (1, math.pi, 2 * math.pi), (1, math.pi / 4, math.pi / 2)):
                    cv = g2.Curve2(lambda t: r * np.cos(t), lambda t: r * np.sin(t), [t0, t1])
                    def on(P):
                        th = np.mod(np.arctan2(P[:, 1], P[:, 0]), 2 * np.pi)
                        if np.max(np.abs(np.linalg.norm(P, axis=1) - r)) > 2e-2: return False
                        th[(th > 6.28) & (t1 < 6)] = 0
                        mid = th[8:-8]
                        return bool(np.all((mid > t0) & (mid < t1)))
                    cands.append(('on curves', [cv], {j: on(fs[j]) for j in bnd}))
        sizes = set()
        for key, thing, vd in cands:
            res = {}
            for word in ('', 'except '):
                sp = rnd.choice(['boundary_section', 'boundary-section', 'boundary section'])
                res[word], pm = build({'type': sp, 'partial elements': mesh, word + key: thing})
                eq(f'{word}{key}: no face twice', len(set(res[word])), len(res[word]))
                eq(f'{word}{key}: the faces are the mesh\'s', all(pm.composition[k] is els[k[0]].faces[k[1]] for k in res[word]), True)
            eq(f'{key} {thing}: with its complement the whole boundary', sorted(res[''] + res['except ']), sorted(bnd))
            eq(f'{key} {thing}: faces chosen', sorted(k for k in res[''] if vd[k] is not None), sorted(k for k in bnd if vd[k]))
            sizes.add((key, len(res['']) > 0, len(res['except ']) > 0))
        led.bounded.append((nm, f'{cnt[0]} comparisons, {len(cands)} selections and their complements, {len(sizes)} kinds of outcome; patches sampled'))


@check.unit('curves: a point of the curve is on it, a point off it is not')
def _(led):
    g = get(M2)
    fn(led, g.whether_point_on_curve, g.Curve2.__init__, g.Curve2.t_from_x)
    n = 0
    for nm, x, y, iv in (('line', lambda t: t, lambda t: 2 - t, [0, 3]), ('falling', lambda t: 1 - 2 * t, np.sin, [-1, 2]),
                         ('upper arc', np.cos, np.sin, [0, np.pi]), ('lower arc', lambda t: 3 * np.cos(t), lambda t: 3 * np.sin(t), [np.pi, 2 * np.pi]),
                         ('right to top', np.sin, np.cos, [-np.pi / 2, np.pi / 2]), ('square', lambda t: t ** 2, lambda t: t, [0, 2]),
                         ('square left', lambda t: t ** 2, lambda t: -t, [-2, 0]), ('cube', lambda t: t ** 3, np.sin, [-1, 2]),
                         ('exp', np.exp, lambda t: t, [0, 1]), ('open', lambda t: t ** 2, lambda t: t, (1, 2)), ('far', lambda t: t * 1e3, lambda t: t, [0, 1])):
        c = g.Curve2(x, y, iv)
        opn = isinstance(iv, tuple)
        for t in np.linspace(*iv, 61):
            X, Y = float(x(t)), float(y(t))
            end = t in (iv[0], iv[1])
            rows = [((X, Y), not (opn and end)), ((X, Y + 1e-2 * (1 + abs(Y))), False), ((X, Y - 1e-2 * (1 + abs(Y))), False)]
            if end:
                away = np.sign(X - float(x(iv[0] + iv[1] - t)))
                rows.append(((X + 1e-3 * away, Y), False))
                if not opn:
                    rows.append(((X + 3e-16 * away, Y), True))
            for p, want in rows:
                for q in (p, g.Point2(*p)):
                    n += 1
                    got = bool(g.whether_point_on_curve(q, c))
                    if got != want:
                        raise R.Violation(f'{nm}: point {p} on the curve', dict(got=got, want=want, t=float(t)))
    led.bounded.append(('curves', f'{n} points'))


@check.unit('polygons: points in and on them')
def _(led):
    g = get(M2)
    fn(led, g.whether_point_in_polygon, g.Polygon2.edges, g.Polygon2.whether_contain__input__as_a_part_of_same_type)
    rnd, n = random.Random(5), 0
    for _ in range(60):
        q = rnd.randint(3, 8)
        th = sorted(rnd.uniform(0, 6.28) for _ in range(q))
        V = [(rnd.choice([1, 1.5, 2, .4]) * math.cos(t), rnd.choice([1, 2, .5]) * math.sin(t)) for t in th]
        if rnd.random() < .5:
            V = V[::-1]
        if min(np.linalg.norm(np.array(V) - np.roll(V, 1, 0), axis=1)) < 1e-2:
            continue
        poly = g.Polygon2(*[g.Point2(*v) for v in V])
        P = np.array([[rnd.uniform(-2, 2), rnd.uniform(-2, 2)] for _ in range(40)] +
                     [(1 - s) * np.array(V[i]) + s * np.array(V[(i + 1) % q]) for i in range(q) for s in (0, .3, .5, 1)])
        dist, ins = poly_sd(P, V)
        # self-intersecting stars excluded: angles are sorted but radii differ per axis
        if not __import__('shapely').geometry.Polygon(V).is_simple or not __import__('shapely').geometry.Polygon(V).is_valid:
            continue
        for p, d, i in zip(P, dist, ins):
            if 1e-9 < d < 1e-3:
                continue
            for arg in (tuple(float(x) for x in p), [float(x) for x in p], g.Point2(*p), p):
                n += 1
                got = bool(g.whether_point_in_polygon(arg, poly))
                if got != bool(i or d < 1e-9):
                    raise R.Violation('point in polygon', dict(vertices=V, point=[float(x) for x in p], got=got))
        for j in range(q):
            s = poly.edges(j)
            if not (s.A == poly[j] and s.B == poly[(j + 1) % q]):
                raise R.Violation('edge of a polygon', dict(vertices=V, edge=j))
        if abs(poly.area - abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(V, V[1:] + V[:1]))) / 2) > 1e-9:
            raise R.Violation('area of a polygon', dict(vertices=V))
    led.bounded.append(('polygons', f'{n} points of random simple polygons'))


def parts(rnd, a, b):
    c = sorted({a, b, *[round(rnd.uniform(a, b), 2) for _ in range(rnd.randint(0, 3))]})
    return list(zip(c[:-1], c[1:]))


@check.unit('segments, rectangles, polygons, boxes: unions of parts, intersections')
def _(led):
    g, g3 = get(M2), get(M3)
    fn(led, g.StraightSegment2.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type, g.find_intersection_of_two_parallel_straight_segments,
           g3.PerpRectangle.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type,
           g3.OrthogonalHexahedron.is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type)
    rnd, n = random.Random(9), [0]

    def eq(lab, got, want, **d):
        n[0] += 1
        if got != want:
            raise R.Violation(lab, dict(got=str(got), want=str(want), **{k: str(v)[:400] for k, v in d.items()}))
    U = 'is_equal_to_a_union_of_a_part_of_separate_geometries_of_same_type'
    for _ in range(150):
        th, L, o = rnd.choice([0, math.pi / 2, math.pi, rnd.uniform(0, 6.28)]), rnd.randint(1, 4), np.array([rnd.uniform(-2, 2), rnd.uniform(-2, 2)])
        d = np.array([math.cos(th), math.sin(th)])
        def seg(a, b, off=0.):
            p, q = [g.Point2(*map(float, o + t * d + off * np.array([-d[1], d[0]]))) for t in (a, b)]
            return g.StraightSegment2(p, q) if rnd.random() < .5 else g.StraightSegment2(q, p)
        ps = [x for x in parts(rnd, 0, L) if x[1] - x[0] > 2e-3]
        if sum(b - a for a, b in ps) != L and abs(sum(b - a for a, b in ps) - L) > 1e-9:
            continue
        me, gs = seg(0, L), [seg(a, b) for a, b in ps]
        other = [seg(L, L + 1), seg(-2, 0), seg(0, L, .5), g.StraightSegment2(g.Point2(*map(float, o)), g.Point2(*map(float, o + [-d[1], d[0]])))]
        rnd.shuffle(gs)
        eq('a segment is the union of its parts', bool(getattr(me, U)(gs + other)), True, parts=ps)
        eq('a segment is not the union of some of its parts', bool(getattr(me, U)(gs[:-1] + other)), False, parts=ps)
        key = me.___possible_subset_group_key___()
        for s in gs:
            eq('parts are contained', bool(me.whether_contain__input__as_a_part_of_same_type(s)), True)
            if abs(d[0]) < 1e-12 or abs(d[1]) < 1e-12:
                eq('the key of parts', s.___possible_subset_group_key___().lstrip('-'), key.lstrip('-'))
        for s in other:
            eq('others are not contained', bool(me.whether_contain__input__as_a_part_of_same_type(s)), False)
        a, b = sorted(rnd.sample([x / 4 for x in range(-8, 25)], 2))
        s = seg(a, b)
        lo, hi = max(a, 0), min(b, L)
        r = g.find_intersection_of_two_parallel_straight_segments(me, s)
        if hi < lo - 1e-9:
            eq('intersection: none', r, None, a=a, b=b, L=L)
        elif abs(hi - lo) < 1e-9:
            eq('intersection: a point', isinstance(r, g.Point2) and r == g.Point2(*map(float, o + lo * d)), True, a=a, b=b, L=L)
        else:
            eq('intersection: a segment', isinstance(r, g.StraightSegment2) and r == seg(lo, hi), True, a=a, b=b, L=L)
        eq('parallel', bool(g.whether_two_lines_or_segments_parallel(me, s)), True)
        # boxes
        c = [parts(rnd, 0, rnd.randint(1, 3)) for _ in range(3)]
        if any(b - a < 2e-2 for q in c for a, b in q):
            continue
        top = [q[-1][1] for q in c]
        o3 = [rnd.uniform(-2, 2) for _ in range(3)]
        for kind in range(3):
            for ax in range(3 if kind < 2 else 1):
                free = [ax] if kind == 0 else [i for i in range(3) if i != ax] if kind == 1 else [0, 1, 2]
                me3 = Bound(g3, kind, ax, o3, top).g
                cells = []
                for idx in itertools.product(*[c[i] if i in free else [(0, 0)] for i in range(3)]):
                    lo3 = [o3[i] + idx[i][0] for i in range(3)]
                    ln = [idx[i][1] - idx[i][0] for i in range(3)]
                    if rnd.random() < .3:
                        lo3, ln = [lo3[i] + ln[i] for i in range(3)], [-x for x in ln]
                    cells.append(Bound(g3, kind, ax, lo3, ln).g)
                out = Bound(g3, kind, ax, [o3[i] + (top[i] if i == free[0] else 0) for i in range(3)], top).g
                rnd.shuffle(cells)
                eq(f'box {kind}: the union of its cells', bool(getattr(me3, U)(cells + [out])), True)
                eq(f'box {kind}: not the union of some of its cells', bool(getattr(me3, U)(cells[1:] + [out])), False)
                for x in cells:
                    eq('cells are contained', bool(me3.whether_contain__input__as_a_part_of_same_type(x)), True)
                eq('the neighbour is not', bool(me3.whether_contain__input__as_a_part_of_same_type(out)), False)
        # polygons: a quadrilateral cut in two or four
        A, B, C, D = [np.array(v) + [rnd.uniform(-.2, .2) for _ in '12'] for v in ((0, 0), (2, 0), (2, 2), (0, 2))]
        t, s_ = rnd.uniform(.2, .8), rnd.uniform(.2, .8)
        p, q = A + t * (B - A), D + s_ * (C - D)
        mk = lambda *v: g.Polygon2(*[g.Point2(*map(float, x)) for x in v])
        me4, l, r_ = mk(A, B, C, D), mk(A, p, q, D), mk(p, B, C, q)
        out = mk(B, B + [1, 0], C + [1, 0], C)
        eq('a polygon is the union of its parts', bool(getattr(me4, U)([l, r_, out])), True, v=(A, B, C, D, p, q))
        eq('a polygon is not the union of one part', bool(getattr(me4, U)([l, out])), False)
        eq('parts of a polygon are contained', [bool(me4.whether_contain__input__as_a_part_of_same_type(x)) for x in (l, r_, me4, out)], [True, True, True, False])
        pts = [g.Point2(float(x[0]), float(x[1])) for x in (A, B, C)]
        eq('a point among points', [bool(getattr(g.Point2(float(x[0]), float(x[1])), U)(pts)) for x in (A, B, C, D)], [True] * 3 + [False])
    led.bounded.append(('unions', f'{n[0]} comparisons of random partitions'))


@check.unit('a point is found in exactly the elements containing it, whatever was asked before', limit=240)
def _(led):
    C = get('phyem.msehtt.static.mesh.partial.elements.main:MseHttElementsPartialMesh')
    fn(led, C._find_in_which_elements_)
    rnd, n = random.Random(2), 0
    for nm in ('2d quads', '2d quads with one diagonal', '3d crazy linear', '3d backward_step'):
        d, ms, obj = geo.build_msehtt(nm)
        mesh, els = obj['mesh'].composition, obj['tgm'].elements
        pts = []
        for e in els:
            for _ in range(8):
                xi = [np.array([rnd.choice([-1, 1, 0, rnd.uniform(-1, 1)])], dtype=float) for _ in range(d)]
                x = [float(np.ravel(v)[0]) for v in els[e].ct.mapping(*xi)]
                pts.append(x)
                for eps in (4e-7, -4e-7, 1e-3, -1e-3):
                    pts.append([v + eps * rnd.choice([-1, 0, 1]) for v in x])
        pts += [[9.] * d, [-9.] * d]
        rnd.shuffle(pts)
        for x in pts + pts[:20]:
            want, unclear = [], []
            for e in els:
                if d == 2:
                    V = np.array([[float(np.ravel(c)[0]) for c in els[e].ct.mapping(np.array([a]), np.array([b]))] for a, b in ((-1., -1.), (1., -1.), (1., 1.), (-1., 1.))])
                    dist, ins = poly_sd(np.array([x]), V)
                    (unclear if 1e-10 < dist[0] < 5e-4 else want if ins[0] or dist[0] < 1e-10 else []).append(e)
                else:
                    lo, hi = [np.array([float(np.ravel(c)[0]) for c in els[e].ct.mapping(*[np.array([s])] * 3)]) for s in (-1., 1.)]
                    m = np.min(np.minimum(np.array(x) - lo, hi - np.array(x)))
                    (unclear if abs(m) < 1e-12 else want if m > 0 else []).append(e)
            got = mesh._find_in_which_elements_(*x)
            n += 1
            if sorted(e for e in got if e not in unclear) != sorted(want) or len(set(got)) != len(got):
                raise R.Violation(f'{nm}: elements containing {x}', dict(got=got, want=want))
    led.bounded.append(('location', f'{n} points, also on faces and close to points asked before'))


# ------------------------------------------------------------------ msepy boundary sections
for _nm in [t[0] for t in geo.MSEPY if t[1] > 1 and 'periodic' not in t[0] and 'tiny' not in t[0]]:
    @check.unit(f'msepy boundary sections, {_nm}')
    def _(led, nm=_nm):
        import phyem as ph
        n, layout, cfg, kw = next(t[1:] for t in geo.MSEPY if t[0] == nm)
        cnt = 0
        for seed in range(3):
            rnd = random.Random(seed)
            ph.config.set_embedding_space_dim(n)
            man = ph.manifold(n)
            mesh = ph.mesh(man)
            ph.space.set_mesh(mesh)
            ph.space.new('Lambda', 0, orientation='outer').make_form('f', 'f')
            mesh.boundary_partition('G1', 'G2')
            ph.space.finite(1)
            ms, obj = ph.fem.apply('msepy', dict(man=man, mesh=mesh))
            k2 = dict(kw)
            if cfg == 'crazy':
                k2.setdefault('periodic', False)
            base_m = ms.base['manifolds'][man._sym_repr]
            ms.config(base_m)(cfg, **k2)
            rm = base_m.regions.map
            choice = {r: [1 if x is None and rnd.random() < .5 else 0 for x in rm[r]] for r in rm}
            free = [(r, j) for r in rm for j, x in enumerate(rm[r]) if x is None]
            if not any(sum(v) for v in choice.values()):
                r, j = free[0]
                choice[r][j] = 1
            if all(choice[r][j] for r, j in free):
                r, j = free[-1]
                choice[r][j] = 0
            secs = [ms.base['manifolds'][g] for g in ('G1', 'G2')]
            ms.config(secs[0])(base_m, {r: v for r, v in choice.items() if sum(v)})
            base = ms.base['meshes'][mesh._sym_repr]
            ms.config(base)(layout)
            bsec = [x for x in ms.base['meshes'].values() if x.__class__.__name__ == 'MsePyBoundarySectionMesh']
            got = {}
            for x in bsec:
                fn(led, type(x.faces)._initialize_elements)
                w = [i for i, s in enumerate(secs) if x.manifold is s]
                got[w[0] if w else 'whole'] = {(int(x.faces[i]._element), 2 * int(x.faces[i]._m) + int(x.faces[i]._n)) for i in x.faces}
                if len(x.faces) != len(got[w[0] if w else 'whole']):
                    raise R.Violation(f'{nm}: a face twice', dict(section=str(x)))
                # what the section delivers for a face is what the face delivers
                if n > 1:
                    q = [np.array([-.7, .1, .9]), np.array([.3, -.2, .8])][:n - 1]
                    for what in ('mapping', 'Jacobian_matrix', 'outward_unit_normal_vector') if n == 2 else ('mapping', 'Jacobian_matrix'):
                        fn(led, getattr(type(x.ct), what))
                        for again in range(2):
                            V = getattr(x.ct, what)(*q)
                            if set(V) != set(x.faces): raise R.Violation(f'{nm}: {what} of every face', dict(section=str(x), faces=sorted(V)))
                            for i in x.faces:
                                a, b = flat(V[i]), flat(getattr(x.faces[i].ct, what)(*q))
                                if len(a) != len(b) or np.max(np.abs(a - b)) > 1e-9 * (1 + np.max(np.abs(b))):
                                    raise R.Violation(f'{nm}: {what} of a face of a section is the face\'s own', dict(section=str(x), face=int(i), element=int(x.faces[i]._element), got=repr(a)[:200], want=repr(b)[:200]))
            # oracle: a face of an element is on the boundary when no other element has it; its region side by its place
            g = [np.array([-1., -.3, .6, 1.])] * (n - 1)
            g = [a.ravel() for a in np.meshgrid(*g, indexing='ij')] if n > 1 else []
            nel = base.elements._num
            F = {}
            for e in range(nel):
                for s in range(2 * n):
                    h = list(g)
                    h.insert(s // 2, np.full_like(g[0], 2. * (s % 2) - 1))
                    F[e, s] = np.array(base.elements[e].ct.mapping(*h)).T
            ks = list(F)
            cen = np.array([F[k].mean(0) for k in ks])
            bnd = {k for a, k in enumerate(ks) if np.sum(np.max(np.abs(cen - cen[a]), axis=1) < 1e-8) == 1}
            num = base.elements._numbering
            want = set()
            for r in rm:
                for j, c in enumerate(choice[r]):
                    if c:
                        els = np.take(num[r], 0 if j % 2 == 0 else -1, axis=j // 2).ravel()
                        want |= {(int(e), j) for e in els}
            for lab, a, b in (('the first section', got.get(0), want), ('the second is the complement', got.get(1), bnd - want), ('the whole boundary', got.get('whole', bnd), bnd)):
                cnt += 1
                if a != b:
                    raise R.Violation(f'{nm}: {lab}', dict(choice=choice, missing=sorted(b - (a or set()))[:9], extra=sorted((a or set()) - b)[:9], found=list(got)))
        led.bounded.append((nm, f'{cnt} comparisons, three random partitions'))
