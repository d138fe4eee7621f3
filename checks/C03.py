r"""C03: global numbering: two local dofs share a number exactly when they are the same geometric cell; numbers are 0..N-1."""
import itertools
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import sym, cells, boxes, geo, gather
import pv.run as R

check = Check('C03', trusted=['the part of numpy in lib/pv/boxes.py', 'one MPI rank'])
GL = 'phyem.msepy.space.gathering_matrix.Lambda'
HG = 'phyem.msehtt.static.space.gathering_matrix.Lambda.GM_'
PERIODIC = {'crazy 2d periodic': (np.array([0., 0.]), np.array([1., 3.])), '2d crazy periodic': (np.array([0., -1.]), np.array([2., 2.]))}

for _t in geo.MSEPY_WRAPPED:
    _b = np.array(_t[4]['bounds'], dtype=float)
    PERIODIC[_t[0]] = (_b[:, 0], _b[:, 1] - _b[:, 0])
for _t in geo.MSEHTT_WRAPPED:
    _b = np.array(_t[3]['bounds'], dtype=float)
    PERIODIC[_t[0]] = (_b[:, 0], _b[:, 1] - _b[:, 0])


def sp(n): return {'f0': (0, 'outer'), 'f1': (1, 'outer')} if n == 1 else {f'{o[0]}{k}': (k, o) for o in ('inner', 'outer') for k in range(3)} if n == 2 else {f'o{k}': (k, 'outer') for k in range(4)}


def forms(n): return [a for a in sp(n) if a not in ('i0', 'i2')]


class Space:
    r"""the real space with degrees given directly."""

    def __init__(self, space, p): self.__dict__.update(_s=space, _p=p)
    def __getattr__(self, n): return getattr(self._s, n)
    def __getitem__(self, degree): return Stub(p=self._p)


def degrees(mk, n, tri=False):
    p = tuple(mk.int(f'q{a}', 0, 2) + 1 for a in range(n))
    return (p[0],) * n if tri else p


def msepy_els(mesh):
    return [gather.El(i, mesh.elements[i].ct.mapping) for i in range(mesh.elements._num)]


def htt_els(tgm):
    return [gather.El(i, tgm.elements[i].ct.mapping, tgm.elements[i].etype in geo.TRI_TYPES) for i in tgm.elements]


class capture:
    r"""the gathering-matrix class replaced by its first argument."""

    def __init__(self): self.got = None
    def __call__(self, gm, *a, **k):
        self.got = gm
        return gm


_built = {}


def built(kind, name, n):
    key = kind, name
    if key not in _built:
        _built[key] = (geo.build_msepy if kind == 'msepy' else geo.build_msehtt)(name, sp(n), 1)
    return _built[key][1:]


# degree 1 is a separate case in the code of 3d 0-forms: which axes have degree 1 (the others: any degree >= 2)
LOW = list(itertools.product((0, 1), repeat=3))


def msepy_unit(name, n, a, low):
    tag = '' if low is None else f', degree 1 on axes {[x for x in range(n) if low[x]]} only'

    @check.scenario(f'msepy {name}: {a}{tag}', samples=4 if low is None else 2, limit=200)
    def _(mk):
        ms, obj = built('msepy', name, n)
        k, ori = sp(n)[a]
        m = get(GL)
        C = m.MsePyGatheringMatrixLambda
        mk.fn(C.__call__)
        p = degrees(mk, n)
        if low is not None:
            p = tuple(1 if x else q + 1 for x, q in zip(low, p))
        els = msepy_els(obj['mesh'])
        per = PERIODIC.get(name)
        space = Space(obj[a].space, p)
        if not mk.symbolic:
            g = C(space)(p)
            items = gather.numeric_items(name, [g[e.index] for e in els], els, n, k, ori, p, periods=per)
            return items + [('number of dofs', g.num_dofs, items[1][1][2] if len(items) > 1 else None)]
        with boxes.boxed(mk, m, RegularGatheringMatrix=capture()) as ctx:
            g = C(space)(p)
            rows = {e.index: g[e.index] for e in els}
            items, total = gather.symbolic_items(name, rows, els, n, k, ori, p, periods=per)
            return items + ctx.obl


for _t in geo.MSEPY + geo.MSEPY_WRAPPED:
    if _t[0] in ('tiny 2d linear', 'crazy 1d linear', 'crazy 2d linear', 'crazy_multi 2d linear'):
        continue
    for _a in forms(_t[1]):
        for _low in LOW if (_t[1], _a) == (3, 'o0') else [None]:
            msepy_unit(_t[0], _t[1], _a, _low)


for _t in geo.MSEHTT + geo.MSEHTT_WRAPPED + geo.MSEHTT_TURNED:
    if _t[0] in ('2d tiny linear', '2d crazy linear', '2d chaotic linear', '2d crazy triangles linear'):
        continue
    for _a in forms(_t[1]):
        if (_t[0], _a) == ('2d chaotic triangles', 'o2'):
            continue    # not implemented

        @check.scenario(f'msehtt {_t[0]}: {_a}', samples=4, limit=120)
        def _(mk, name=_t[0], n=_t[1], a=_a):
            ms, obj = built('msehtt', name, n)
            tgm = obj['tgm']
            k, ori = sp(n)[a]
            m = get(HG + f'm{n}n{n}k{k}')
            f = m.__dict__.get(f'gathering_matrix_Lambda__m{n}n{n}k{k}') or m.__dict__[f'gathering_matrix_Lambda__m{n}n{n}k{k}_{ori}']
            mk.fn(f)
            els = htt_els(tgm)
            p = degrees(mk, n, any(tgm.elements[i].etype in geo.TRI_TYPES + (9, 'unique curvilinear quad') for i in tgm.elements))
            per = PERIODIC.get(name)
            if not mk.symbolic:
                g = f(obj['mesh'], p if len(set(p)) > 1 else p[0])
                items = gather.numeric_items(name, g, els, n, k, ori, p, periods=per)
                return items + [('number of dofs', g.num_global_dofs, items[1][1][2] if len(items) > 1 else None)]
            with boxes.boxed(mk, m, **htt_env(m, p)) as ctx:
                g = f(obj['mesh'], p)
                items, total = gather.symbolic_items(name, g, els, n, k, ori, p, periods=per)
                return items + ctx.obl


def htt_env(m, p):
    parser = Stub(degree_parser=lambda d: (d, 'Lobatto'))
    out = {x: {} for x in m.__dict__ if x.startswith('_cache')}
    out.update({x: parser for x in ('MseHttGreatMeshOrthogonalRectangleElement', 'Vtu5Triangle', 'Vtu9Quad',
                                    'MseHttGreatMeshOrthogonalHexahedronElement')})
    out.update(_degree_str_maker=lambda d: 'p', MseHttGatheringMatrix=capture(), COMM=Stub(scatter=lambda x, root=0: x[0]))
    return out


if __name__ == '__main__':
    check.main()


# ---- orientation of shared dofs ---------------------------------------------------------------------------------------------
EL = 'phyem.msehtt.static.mesh.great.elements.main'
ETYPES = [5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle', 'orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9, 'unique curvilinear quad']
RIGID = {'orthogonal rectangle', 'unique msepy curvilinear quadrilateral'}
LOCAL = {}      # (face, dof of degree 1): found by the elements' own face dofs


def orientation_unit(t0, opposite):
    name = f'msehtt: dofs of {"opposite" if opposite else "equal"} direction shared with element {t0}: the signs agree after the reversal'

    @check.scenario(name, samples=2, limit=100)
    def _(mk):
        r"""contract of the reversal search: for any fluxes v0, v1 of opposite or equal direction of two neighbouring elements of
        any types, the signs s after it satisfy s0 v0 == s1 v1; no face of one element only is touched."""
        m = get(EL)
        C = m.MseHttGreatMeshElements
        search = C.__dict__['___get_form_face_dof_topology_mismatch_m2n2k1___']
        mk.fn(search, C.__dict__['___get_form_face_dof_topology_mismatch_m2n2k1_inner___'], C.__dict__['___get_form_face_dof_topology_mismatch_m2n2k1_outer___'])
        types = m.MseHttGreatMeshElementDistributor.implemented_element_types()
        out = []
        v0 = mk.real('v0', -2, 2)
        mk.assume(v0 != 0)
        v1 = -v0 if opposite else v0
        with np_patched(m):
            for ori, t1 in itertools.product(('inner', 'outer'), ETYPES):
                if {t0, t1} <= RIGID and opposite:
                    continue        # cannot be: two structured elements never differ
                F0, F1 = (types[t].face_setting() for t in (t0, t1))
                for f0, f1 in itertools.product(F0, F1):
                    got = found(m, C, types, ori, t0, t1, f0, f1, v0, v1)
                    lab = f'{ori} face {f0}, {t1} face {f1}'
                    s = [-1 if (e, f) in got else 1 for e, f in ((0, f0), (1, f1))]
                    out.append((lab, s[0] * v0, s[1] * v1))
                    out.append((lab + ': nothing else', sorted(set(got) - {(0, f0), (1, f1)}), []))
                    out.append((lab + ': a structured one is kept', [e for e, _ in got if (t0, t1)[e] in RIGID], []))
        return out


for _e in ETYPES:
    for _o in (False, True):
        orientation_unit(_e, _o)


def found(m, C, types, ori, t0, t1, f0, f1, v0, v1):
    r"""the reversal search on two elements sharing face f0 of the first, f1 of the second."""
    n0, n1 = (len(set(x for f in types[t].face_setting().values() for x in f)) for t in (t0, t1))
    F0, F1 = (types[t].face_setting() for t in (t0, t1))
    maps = {0: list(range(10, 10 + 9)), 1: list(range(30, 30 + 9))}
    for a, b in zip(F1[f1], F0[f0][::-1] if (n0 + n1) % 2 else F0[f0]):
        maps[1][a] = maps[0][b]
    cells_ = {t: face_dof(types[5 if t in geo.TRI_TYPES else t], ori) for t in (t0, t1)}   # all triangles number alike
    gm = {0: [100, 101, 102, 103][:len(F0)], 1: [200, 201, 202, 203][:len(F1)]}
    gm[1][cells_[t1][f1]] = gm[0][cells_[t0][f0]]
    rc = {0: [3.] * len(F0), 1: [-5.] * len(F1)}
    rc[0][cells_[t0][f0]], rc[1][cells_[t1][f1]] = v0, v1
    self = Stub(global_map=maps, global_etype={0: t0, 1: t1}, _tgm='tgm', **{'___get_form_face_dof_topology_mismatch_m2n2k1___': None})
    self.__dict__['___get_form_face_dof_topology_mismatch_m2n2k1___'] = lambda *a: C.__dict__['___get_form_face_dof_topology_mismatch_m2n2k1___'](self, *a)
    gmod = get(HG + 'm2n2k1')
    rmod = get('phyem.msehtt.static.space.reduce.Lambda.Rd_m2n2k1')
    g, r = f'gathering_matrix_Lambda__m2n2k1_{ori}', f'reduce_Lambda__m2n2k1_{ori}'
    keep = gmod.__dict__[g], rmod.__dict__[r]
    setattr(gmod, g, lambda tgm, p, do_cache: Stub(_gm=gm))
    setattr(rmod, r, lambda v, els, p, raw: rc)
    try:
        got = C.__dict__[f'___get_form_face_dof_topology_mismatch_m2n2k1_{ori}___'](self, ['vector'])
    finally:
        setattr(gmod, g, keep[0])
        setattr(rmod, r, keep[1])
    return [tuple(x) for x in got]


def face_dof(cls, ori):
    r"""{face: its dof of degree 1}, asked of the element class (C02 shows it is the dof of that face)."""
    key = cls, ori
    if key not in LOCAL:
        e = object.__new__(cls)
        e.__dict__['_cache_find_local_dofs'] = {}
        LOCAL[key] = {f: int(np.ravel(e.find_local_dofs_on_face(f'm2n2k1_{ori}', 1, f))[0]) for f in cls.face_setting()}
    return LOCAL[key]


# on whole meshes: the dofs of constant fields (equal also across periodic faces) agree wherever a dof is shared
PER = dict(c=0.1, periodic=True)
SHARED = [t for t in geo.MSEHTT if t[1] == 2 and t[0] != '2d chaotic triangles'] + [    # (1-forms are not implemented there)
    ('2d crazy periodic triangles', 2, 'crazy', dict(element_layout=4, bounds=([0, 1], [0, 2]), trf=1, **PER)),
    ('2d crazy periodic triangles, other', 2, 'crazy', dict(element_layout=[3, 4], bounds=([0.3, 2.3], [-1, 0]), trf=1, **PER)),
    ('2d periodic triangles linear', 2, 'crazy', dict(element_layout=[3, 5], c=0., bounds=([0, 3], [0, 2.5]), trf=1, periodic=True)),
    ('2d tiny triangles', 2, 'crazy', dict(element_layout=2, c=0.1, bounds=([0, 1e-9], [0, 2e-9]), trf=1)),
    ('2d huge triangles', 2, 'crazy', dict(element_layout=2, c=0.1, bounds=([0, 1e9], [0, 2e9]), trf=1)),
]


for _t in SHARED:
    @check.unit(f'msehtt {_t[0]}: shared 1-form dofs of constant fields agree')
    def _(led, t=_t):
        def scn(mk):
            import phyem as ph
            out = []
            added = t not in geo.MSEHTT
            if added:
                geo.MSEHTT.append(t)
            try:
                for p in (1, 2, 3):
                    n, ms, obj = geo.build_msehtt(t[0], {'fo': (1, 'outer'), 'fi': (1, 'inner')}, p)
                    E = obj['tgm'].elements
                    mk.fn(type(E)._parse_form_face_dof_topology_mismatch, type(E).__dict__['___parse_form_face_dof_topology_mismatch_m2n2___'],
                          type(E).__dict__['___periodic_face_pairing_m2n2___'])
                    for a in ('fo', 'fi'):
                        f = obj[a]
                        for u, v in ((1, 0), (0, 1), (1, 1)):
                            f.cf = ph.vc.vector(lambda t, x, y: u + 0 * x, lambda t, x, y: v + 0 * x)
                            f[0].reduce()
                            c = f[0].cochain
                            gm = f.cochain.gathering_matrix
                            scale = max(abs(c[e]).max() for e in gm)
                            first, bad = {}, []
                            for e in gm:
                                for j, d in enumerate(gm[e]):
                                    if abs(first.setdefault(int(d), c[e][j]) - c[e][j]) > 1e-6 * scale:
                                        bad.append((e, j, int(d)))
                            out.append((f'{a} p={p} field {u, v}: (element, local dof, dof) of other value or sign', bad[:5], []))
            finally:
                if added:
                    geo.MSEHTT.remove(t)
            return out
        R.bounded_scenario(led, f'msehtt {t[0]}: shared 1-form dofs of constant fields agree', scn, samples=1)
