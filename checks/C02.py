r"""C02: local numbering, numbers of local dofs and the dofs on element faces, for every degree."""
import itertools
import re
import numpy as np
import z3
from pv.run import *
from pv.run import get, np_patched, Stub, Check, bounded_scenario
from pv import sym, cells, boxes, geo
import pv.run as R

check = Check('C02', trusted=['the part of numpy in lib/pv/boxes.py (arange, reshape, slicing, ravel, concatenate with symbolic sizes)'])
LN = 'phyem.msepy.space.local_numbering.Lambda:MsePyLocalNumberingLambda'
ND = 'phyem.msepy.space.num_local_dofs.Lambda:MsePyNumLocalDofsLambda'
NC = 'phyem.msepy.space.num_local_dof_components.Lambda:MsePyNumLocalDofComponentsLambda'
FD = 'phyem.msepy.space.find.local_dofs'
HN = 'phyem.msehtt.static.space.local_numbering.Lambda.ln_'
HC = 'phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_'
HF = 'phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.'


def degrees(mk, n, tri=False):
    p = tuple(mk.int(f'p{a}', 1, 3 if n == 3 else 5) for a in range(n))
    return (p[0], p[0]) if tri else p


def empty_caches(m): return {n: {} for n in m.__dict__ if n.startswith('_cache')}


def listed(x): return list(x) if isinstance(x, (tuple, list)) else [x]


def numbering(mk, lab, got, n, k, ori, p, tri, ctx):
    num = cells.Numbering(n, k, ori, p, tri)
    got = listed(got)
    out = [(f'{lab}: number of components', len(got), len(num.comps))]
    if len(got) != len(num.comps):
        return out
    for c, g in enumerate(got):
        if mk.symbolic:
            shape = boxes.spec_array(num, c).shape
            out += boxes.array_items(f'{lab}: component {c}', g, shape, lambda idx, c=c: boxes.spec_array(num, c).fn(tuple(idx)))
        else:
            w = cells.array(num, c)
            out.append((f'{lab}: component {c} shape', list(np.shape(g)), list(w.shape)))
            if np.shape(g) == w.shape:
                out.append((f'{lab}: component {c}', np.asarray(g), w))
    return out


def run_ln(mk, lab, mods, f, n, k, ori, tri=False, repl=None):
    p = degrees(mk, n, tri)
    if not mk.symbolic:
        got = f(p)
        out = numbering(mk, lab, got, n, k, ori, p, tri, None)
        out += numbering(mk, lab + ' again', f(p), n, k, ori, p, tri, None)
        return out
    with boxes.boxed(mk, *mods, **(repl or {})) as ctx:
        got = f(p)
        return numbering(mk, lab, got, n, k, ori, p, tri, ctx) + ctx.obl


ALL = [(1, 0, 'outer'), (1, 1, 'outer'), (2, 0, 'outer'), (2, 1, 'inner'), (2, 1, 'outer'), (2, 2, 'outer')] + [(3, k, 'outer') for k in range(4)]
for _n, _k, _o in ALL:
    _name = f'_m{_n}_n{_n}_k{_k}' + (f'_{_o}' if (_n, _k) == (2, 1) else '')

    @check.scenario(f'msepy local numbering {_name}', samples=5)
    def _(mk, n=_n, k=_k, ori=_o, f=_name):
        g = get(f'{LN}.{f}')
        mk.fn(g)
        return run_ln(mk, f, [get(LN.split(':')[0])], g, n, k, ori)

    @check.scenario(f'msepy numbers of dofs {_name}', samples=5)
    def _(mk, n=_n, k=_k, ori=_o, f=_name):
        g = get(f'{ND}.' + f'_m{n}_n{n}_k{k}')
        h = get(f'{NC}.{f}')
        mk.fn(g, h)
        p = degrees(mk, n)
        num = cells.Numbering(n, k, ori, p)
        got = listed(h(p))
        return [('number of local dofs', g(p), num.total), ('components', len(got), len(num.comps))] + \
            [(f'size of component {c}', got[c], cells.prod(num.shapes[c])) for c in range(min(len(got), len(num.comps)))]


HLN = [(2, 0, 'outer', '', False), (2, 0, 'outer', '', True), (2, 1, 'outer', '_outer', False), (2, 1, 'inner', '_inner', False),
       (2, 1, 'outer', '_outer', True), (2, 1, 'inner', '_inner', True), (2, 2, 'outer', '', False)] + [(3, k, 'outer', '', False) for k in range(4)]
ETYPES = {(2, False): (9, 'orthogonal rectangle', 'unique msepy curvilinear quadrilateral'), (2, True): (5,), (3, False): ('orthogonal hexahedron',)}
for _n, _k, _o, _s, _t in HLN:
    @check.scenario(f'msehtt local numbering m{_n}n{_n}k{_k}{_s}{" triangle" if _t else ""}', samples=5)
    def _(mk, n=_n, k=_k, ori=_o, s=_s, tri=_t):
        m = get(f'{HN}m{n}n{n}k{k}')
        out = []
        for et in ETYPES[n, tri]:
            g = get(f'{m.__name__}:local_numbering_Lambda__m{n}n{n}k{k}{s}')
            mk.fn(g)
            out += run_ln(mk, f'{et}', [m], lambda p: g(et, p), n, k, ori, tri, empty_caches(m))
        return out

for _n, _k, _o, _s in [(2, 1, 'inner', '_inner'), (2, 1, 'outer', '_outer')] + [(3, k, 'outer', '') for k in range(4)]:
    @check.scenario(f'msehtt numbers of dofs m{_n}n{_n}k{_k}{_s}', samples=5)
    def _(mk, n=_n, k=_k, ori=_o, s=_s):
        m = get(f'{HC}m{n}n{n}k{k}')
        g = get(f'{m.__name__}:num_local_dofs__Lambda__m{n}n{n}k{k}{s}')
        mk.fn(g)
        p = degrees(mk, n)
        num = cells.Numbering(n, k, ori, p)
        out = []
        with (np_patched(m, **empty_caches(m)) if mk.symbolic else np_patched()):
            for et in (('orthogonal rectangle', 'unique msepy curvilinear quadrilateral') if n == 2 else ('orthogonal hexahedron',)):
                tot, comp = g(et, p)
                out += [(f'{et}: number of local dofs', tot, num.total), (f'{et}: components', len(comp), len(num.comps))]
                out += [(f'{et}: size of component {c}', comp[c], cells.prod(num.shapes[c])) for c in range(min(len(comp), len(num.comps)))]
        return out


# ------------------------------------------------------------------ dofs on faces
def face(num, c, axis, side):
    r"""numbers (concrete) of the cells of component c on the face."""
    a = cells.array(num, c)
    sl = [slice(None)] * num.n
    sl[axis] = -1 if side else 0
    return a[tuple(sl)]


def parts_of(x):
    if isinstance(x, boxes.Concat):
        return [y for z in x.parts for y in parts_of(z)]
    if isinstance(x, boxes.Ravel):
        return [x.arr]
    if isinstance(x, boxes.Arr):
        return [x]
    if isinstance(x, (tuple, list)):
        return [y for z in x for y in parts_of(z)]
    return [x]


def face_items(mk, lab, got, num, axis, side, shift=None, only=None):
    r"""the dofs returned for a face are those of the cells in it, each once (shift: numbered within the component)."""
    comps = [c for c in cells.face_cells(num.n, num.k, num.ori, axis) if only is None or c == only]
    sh = (lambda c: num.starts[c]) if shift else (lambda c: 0)
    if not mk.symbolic:
        w = sorted(int(v) for c in comps for v in np.ravel(face(num, c, axis, side) - sh(c)))
        g = sorted(int(v) for y in (got if isinstance(got, (list, tuple)) else [got]) for v in np.ravel(y))
        return [(lab, g, w)] if len(g) == len(w) else [(f'{lab}: how many', len(g), len(w))]
    out = []
    parts = parts_of(got)
    if len(parts) != len(comps):
        return [(f'{lab}: number of parts', len(parts), len(comps))]
    left = list(comps)
    for part in parts:
        ax = [a for a in range(num.n) if a != axis]
        ok = False
        for c in list(left):
            box = cells.box(num.comps[c][0], num.p)
            shape = tuple(box[a] for a in ax)
            if isinstance(part, boxes.Arr) and len(part.shape) != len(shape):
                continue
            if isinstance(part, boxes.Arr) and not all(boxes.same(x, y) for x, y in zip(part.shape, shape)):
                continue

            def spec(x, c=c):
                idx = list(x)
                idx.insert(axis, box_last(num, c, axis) if side else 0)
                if num.tri and not num.comps[c][0][0] and num.k and axis == 1:
                    raise Unsupported('degenerate')
                return sym.S(num.dof(c, tuple(idx))) - sh(c)
            if not isinstance(part, boxes.Arr):
                w = spec([])
                if boxes.same(part, w):
                    out.append((f'{lab}: component {c}', sym.S(part), w))
                    left.remove(c)
                    ok = True
                    break
                continue
            items = boxes.array_items(f'{lab}: component {c}', part, shape, spec)
            if len(left) == 1 or all(boxes.same(i[1], i[2]) for i in items if not i[3:] or True):
                out += items
                left.remove(c)
                ok = True
                break
        if not ok:
            out.append((f'{lab}: a part which is no face component', False, True))
    return out


def box_last(num, c, axis):
    b = cells.box(num.comps[c][0], num.p)
    return b[axis] - 1


for _n, _k, _o in [(1, 0, 'outer'), (2, 0, 'outer'), (2, 1, 'inner'), (2, 1, 'outer')] + [(3, k, 'outer') for k in range(3)]:
    _name = f'_m{_n}_n{_n}_k{_k}' + (f'_{_o}' if (_n, _k) == (2, 1) else '')

    @check.scenario(f'msepy dofs on faces {_name}', samples=4)
    def _(mk, n=_n, k=_k, ori=_o, name=_name):
        m = get(FD)
        C = m.__dict__.get('_MsePySpaceFindLocalDofs')
        if C is None:
            raise Unsupported('find local dofs')
        mk.fn(getattr(C, '_Lambda' + name))
        p = degrees(mk, n)
        num = cells.Numbering(n, k, ori, p)
        if mk.symbolic:
            arrs = lambda d: tuple(boxes.spec_array(num, c) for c in range(len(num.comps)))
        else:
            real = get(f'{LN}.{name}')(p)
            arrs = lambda d: real
        ab = Stub(indicator='Lambda', k=k, n=n, m=n, orientation=ori)

        def all_faces():
            o = C(Stub(abstract=ab, local_numbering=arrs))
            out = []
            for rep in ('', ' again'):
                for axis, side in itertools.product(range(n), (0, 1)):
                    out += face_items(mk, f'face {axis}{side}{rep}', o(axis, side, 'degree'), num, axis, side)
            return out
        if not mk.symbolic:
            return all_faces()
        with boxes.boxed(mk, m) as ctx:
            return all_faces() + ctx.obl


HTF = [(2, 0, 'outer', '', False, False), (2, 1, 'outer', '_outer', False, True), (2, 1, 'inner', '_inner', False, True),
       (2, 0, 'outer', '', True, False), (2, 1, 'outer', '_outer', True, True), (2, 1, 'inner', '_inner', True, True),
       (3, 0, 'outer', '', False, False), (3, 1, 'outer', '', False, False), (3, 2, 'outer', '', False, True)]
FTYPES = {(2, False): (9, 'orthogonal rectangle', 'unique curvilinear quad', 'unique msepy curvilinear quadrilateral'),
          (2, True): (5, 'unique msepy curvilinear triangle'),
          (3, False): ('orthogonal hexahedron', 'unique msepy curvilinear hexahedron')}


def contracts(module, p):
    out = {}
    for name in list(module.__dict__):
        m = re.fullmatch(r'_ln_m(\d)n(\d)k(\d)(_inner|_outer)?_(msepy_quadrilateral|vtu_?5)_', name)
        if m:
            n, k, ori, tri = int(m[1]), int(m[3]), (m[4] or '_inner')[1:], m[5] != 'msepy_quadrilateral'

            def f(q, n=n, k=k, ori=ori, tri=tri):
                if any(not boxes.same(a, b) for a, b in zip(q, p)):
                    raise Unsupported('another degree')
                num = cells.Numbering(n, k, ori, tuple(q), tri)
                arrs = tuple(boxes.spec_array(num, c) for c in range(len(num.comps)))
                return arrs if len(arrs) > 1 else arrs[0]
            out[name] = f
    return out


for _n, _k, _o, _s, _t, _w in HTF:
    @check.scenario(f'msehtt dofs on faces m{_n}n{_n}k{_k}{_s}{" triangle" if _t else ""}', samples=4)
    def _(mk, n=_n, k=_k, ori=_o, s=_s, tri=_t, cw=_w):
        m = get(f'{HF}m{n}n{n}k{k}')
        g = get(f'{m.__name__}:find_local_dofs_on_face__m{n}n{n}k{k}{s}')
        mk.fn(g)
        p = degrees(mk, n, tri)
        num = cells.Numbering(n, k, ori, p, tri)
        faces = geo.TRI_FACE if tri else {i: (i // 2, i % 2) for i in range(2 * n)}

        def all_faces():
            out = []
            for et in FTYPES[n, tri]:
                if tri and k == 0 and et != 5:
                    continue        # not implemented there
                for rep in ('', ' again'):
                    for i, (axis, side) in faces.items():
                        lab = f'{et}: face {i}{rep}'
                        out += face_items(mk, lab, g(et, p, i), num, axis, side)
                        if cw:
                            c, loc = g(et, p, i, component_wise=True)
                            want = cells.face_cells(n, k, ori, axis)
                            out.append((f'{lab}: its component', c, want[0]))
                            out += face_items(mk, f'{lab}, within the component', loc, num, axis, side, shift=True, only=c)
            return out
        if not mk.symbolic:
            out = all_faces()
            for name, f in real_ln(m, n, k, s, tri).items():
                out += numbering(mk, f'{name} unchanged', f(p), n, k, ori, p, tri, None)
            return out
        with boxes.boxed(mk, m, **contracts(m, p), **empty_caches(m)) as ctx:
            return all_faces() + ctx.obl


def real_ln(m, n, k, s, tri):
    return {x: f for x, f in m.__dict__.items() if re.fullmatch(
        rf'_ln_m{n}n{n}k{k}{s}_' + (r'vtu_?5_' if tri else 'msepy_quadrilateral_'), x)}


# ------------------------------------------------------------------ lemma: the numbering is a bijection onto 0..N-1
@check.unit('lemma: mixed radix numbers are 0..N-1, each once')
def _(led):
    i, j, q, r, a, Q, x = z3.Ints('i j q r a Q x')
    box = [a >= 1, Q >= 0, 0 <= i, i < a, 0 <= j, j < a]

    def valid(name, hyp, concl):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp, z3.Not(concl))
        if s.check() != z3.unsat:
            raise Unsupported(f'lemma {name}: {s.check()}')
        led.prove(f'lemma: {name}', 'z3')
    d = z3.Int('d')
    valid('i + a q = j + a (q + 1 + d) is impossible', box + [d >= 0, a * d >= 0, q >= 0, i + a * q == j + a * q + a + a * d], z3.BoolVal(False))
    valid('the product of nonnegatives is nonnegative', [a >= 0, d >= 0], a * d >= 0)
    valid('0 <= i + a q < a Q', box + [0 <= q, q + 1 + d == Q, d >= 0, a * d >= 0, a * q >= 0], z3.And(0 <= i + a * q, i + a * q < a * q + a + a * d))
    valid('every r is i + a q', [a >= 1, r >= 0], z3.And(0 <= r % a, r % a < a, r == r % a + a * (r / a), r / a >= 0))
    led.prove('blocks: the components fill consecutive intervals [start_c, start_c + size_c)', 'definition of Numbering')


# ------------------------------------------------------------------ real meshes
def sp(n): return {'f0': (0, 'outer'), 'f1': (1, 'outer')} if n == 1 else {f'{o[0]}{k}': (k, o) for o in ('inner', 'outer') for k in range(3)} if n == 2 else {f'o{k}': (k, 'outer') for k in range(4)}


for _t in geo.MSEPY:
    if _t[0] in ('crazy 1d', 'crazy 2d', 'crazy 3d'):
        @check.unit(f'msepy spaces on {_t[0]}')
        def _(led, name=_t[0], n=_t[1]):
            def scn(mk, p):
                _, ms, obj = geo.build_msepy(name, sp(n), p)
                pp = (p,) * n if isinstance(p, int) else tuple(p)
                out = []
                for a, (k, ori) in sp(n).items():
                    f = obj[a]
                    num = cells.Numbering(n, k, ori, pp)
                    out += numbering(mk, a, f.space.local_numbering(f.degree), n, k, ori, pp, False, None)
                    out.append((f'{a}: num_local_dofs', f.space.num_local_dofs(f.degree), num.total))
                    if k < n:
                        for axis, side in itertools.product(range(n), (0, 1)):
                            out += face_items(mk, f'{a} face {axis}{side}', f.space.find.local_dofs(axis, side, f.degree), num, axis, side)
                    out.append((f'{a}: columns of the gathering matrix', f.cochain.gathering_matrix.shape[1], num.total))
                return out
            for p in {1: (1, 3), 2: (1, 2, (3, 1), (2, 3)), 3: (1, (1, 2, 3))}[n]:
                bounded_scenario(led, f'{name}, degree {p}', lambda mk, p=p: scn(mk, p), samples=1)


@check.unit('msehtt: where the dofs are', real=True)
def _(led):
    r"""`find.dof_geometry.local_dof` and `local_dofs` return the cell with that number."""
    Q = get('phyem.tools.quadrature:quadrature')

    def scn(mk, name, n, p):
        _, ms, obj = geo.build_msehtt(name, sp(n), p)
        els = obj['tgm'].elements
        pp = (p,) * n if isinstance(p, int) else tuple(p)
        nodes = [Q(q, 'Lobatto').quad_nodes for q in pp]
        out = []
        for a, (k, ori) in sp(n).items():
            f = obj[a]
            num = cells.Numbering(n, k, ori, pp)
            for e in geo.representatives(els):
                i = e.index
                LD = f.space.local_dofs(f.degree)[i] if (n, k) == (2, 0) else None
                for c, (ed, _) in enumerate(num.comps):
                    for idx in np.ndindex(*cells.box(ed, pp)):
                        d = num.dof(c, idx)
                        lo = [nodes[x][idx[x]] for x in range(n)]
                        hi = [nodes[x][idx[x] + ed[x]] for x in range(n)]
                        A = [float(v) for v in e.ct.mapping(*lo)]
                        B = [float(v) for v in e.ct.mapping(*hi)]
                        quad = [[float(v) for v in e.ct.mapping(*c)] for c in ((lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1]))] if n == 2 else None
                        g = f.space.find_dof_geometry.local_dof(f.degree, i, d)
                        out += geom_items(f'{a} element {i} dof {d}', g, n, k, A, B, quad)
                        if LD is not None:
                            out += [(f'{a} element {i} local_dofs {d}', [float(v) for v in LD[d][0]], lo),
                                    (f'{a} element {i} local_dofs {d} (physical)', [float(v) for v in LD[d][1]], A)]
        return out
    for name, n, p in (('2d crazy linear', 2, (2, 3)), ('2d crazy linear', 2, 1), ('2d quads', 2, 2), ('3d crazy linear', 3, (1, 2, 2))):
        bounded_scenario(led, f'{name}, degree {p}', lambda mk, t=(name, n, p): scn(mk, *t), samples=1, tol=1e-10)


def geom_items(lab, g, n, k, A, B, ct):
    co = lambda P: [float(v) for v in P._coo]
    G = type(g).__name__
    if k == 0:
        return [(lab, co(g), A)]
    if n == 2 and k == 1:
        return [(lab, sorted([co(g.A), co(g.B)]), sorted([A, B]))]
    if n == 2:
        return [(lab, [co(v) for v in g], ct)]
    D = [b - a for a, b in zip(A, B)]
    bounds = [sorted(t) for t in zip(A, B)]
    flat = lambda t: [float(x) for y in t for x in y]
    if k == 1:
        ax = max(range(3), key=lambda t: abs(D[t]))
        oth = [(ax + 1) % 3, (ax + 2) % 3]
        return [(lab, flat([g._bounds, g._line]), bounds[ax] + [A[o] for o in oth]), (f'{lab}: axis', g._axis, 'xyz'[ax]),
                (f'{lab}: length', abs(float(g.length)), abs(D[ax]))]
    if k == 2:
        ax = min(range(3), key=lambda t: abs(D[t]))
        oth = [(ax + 1) % 3, (ax + 2) % 3]
        return [(lab, flat([g._bounds0, g._bounds1, [g._face]]), flat([bounds[o] for o in oth]) + [A[ax]]),
                (f'{lab}: axis', g._perp_axis, 'xyz'[ax]), (f'{lab}: centre', list(g._center), [(a + b) / 2 for a, b in zip(A, B)]),
                (f'{lab}: area', float(g.area), abs(D[oth[0]] * D[oth[1]]))]
    return [(lab, flat([g._bounds0, g._bounds1, g._bounds2]), flat(bounds)),
            (f'{lab}: centre', list(g._center), [(a + b) / 2 for a, b in zip(A, B)]),
            (f'{lab}: volume', float(g.volume), abs(D[0] * D[1] * D[2]))]


if __name__ == '__main__':
    check.main()
