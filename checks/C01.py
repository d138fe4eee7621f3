r"""C01: incidence matrices are the oriented boundary of the tensor cells of an element, for every degree; d after d is zero."""
import itertools
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check, bounded_scenario
from pv import sym, cells, boxes, geo
import pv.run as R

check = Check('C01', trusted=['the loop rule of lib/pv/boxes.py: a loop body without loop-carried scalars is executed for an '
                              'arbitrary iteration', 'the bijectivity of a mixed radix numbering (contracts of C02)'])
LN = 'phyem.msepy.space.local_numbering.Lambda:MsePyLocalNumberingLambda'
ND = 'phyem.msepy.space.num_local_dofs.Lambda:MsePyNumLocalDofsLambda'
IM = 'phyem.msepy.space.incidence_matrix.Lambda'
HI = 'phyem.msehtt.static.space.incidence_matrix.Lambda.IM_'


def degrees(mk, n):
    return tuple(mk.int(f'p{a}', 1, 3 if n == 3 else 4) for a in range(n))


class Contract:
    r"""local numbering / number of dofs by contract: any method named like the real ones."""

    def __init__(self, p, what):
        self.p, self.what = p, what

    def __getattr__(self, name):
        import re
        m = re.fullmatch(r'_m(\d)_n(\d)_k(\d)(_inner|_outer)?', name)
        if not m or m[1] != m[2]:
            raise R.StubMiss(name)
        n, k, ori = int(m[1]), int(m[3]), (m[4] or '_inner')[1:]

        def f(p):
            if any(not boxes.same(a, b) for a, b in zip(p, self.p)):
                raise Unsupported('another degree')
            num = cells.Numbering(n, k, ori, tuple(p))
            return num.total if self.what == 'num' else tuple(boxes.spec_array(num, c) for c in range(len(num.comps)))
        return f


def msepy_self(n, k, ori, p, symbolic):
    C = get(IM + ':MsePyIncidenceMatrixLambda')
    o = C.__new__(C)
    d = o.__dict__
    if symbolic:
        ln, nd = Contract(p, 'array'), Contract(p, 'num')
    else:
        ln, nd = get(LN), get(ND)
    ab = Stub(k=k, n=n, m=n, orientation=ori)
    d['_space'] = Stub(local_numbering=Stub(Lambda=ln), num_local_dofs=Stub(Lambda=nd), abstract=ab)
    d.update(_k=k, _n=n, _m=n, _orientation=ori, _cache={})
    return o


MS = [(1, 0, 'outer', '_m1_n1_k0')] + [(2, k, o, f'_m2_n2_k{k}_{o}') for k in (0, 1) for o in ('inner', 'outer')] + \
    [(3, k, 'outer', f'_m3_n3_k{k}') for k in (0, 1, 2)]
for _n, _k, _o, _f in MS:
    @check.scenario(f'msepy {_n}d {_k}-forms, {_o}', samples=4)
    def _(mk, n=_n, k=_k, ori=_o, f=_f):
        m = get(IM)
        p = degrees(mk, n)
        o = msepy_self(n, k, ori, p, mk.symbolic)
        fn = getattr(type(o), f, None)
        if fn is None:
            raise Unsupported(f'no method {f}')
        mk.fn(fn)
        if not mk.symbolic:
            E = getattr(o, f)(p)
            return [('incidence = boundary', np.asarray(E.todense()), cells.incidence(n, k, ori, p))]
        with boxes.boxed(mk, m) as ctx:
            E = getattr(o, f)(p)
            return boxes.matrix_items(f, E, n, k, ori, p) + ctx.obl


# ------------------------------------------------------------------ msehtt
QUAD, TRIA, HEX = '_ln_m{n}n{n}k{k}{o}_msepy_quadrilateral_', '_ln_m2n2k{k}{o}_{v}_', None
HT = []
for _k in (0, 1):
    for _o in ('inner', 'outer'):
        HT.append((2, _k, _o, False, f'm2n2k{_k}', f'_im22{_k}{_o[0]}_msepy_quadrilateral_'))
        HT.append((2, _k, _o, True, f'm2n2k{_k}', f'_im22{_k}{_o[0]}_vtu_5_' if _k == 0 else f'_im22{_k}{_o[0]}_vtu5_'))
for _k in (0, 1, 2):
    HT.append((3, _k, 'outer', False, f'm3n3k{_k}', f'_im33{_k}_msepy_quadrilateral_'))


def contracts(module, p):
    r"""{name: contract} for the numbering functions the module imports."""
    import re
    out = {}
    for name in list(module.__dict__):
        m = re.fullmatch(r'_ln_m(\d)n(\d)k(\d)(_inner|_outer)?_(msepy_quadrilateral|vtu_?5)_', name)
        if not m:
            continue
        n, k, ori, tri = int(m[1]), int(m[3]), (m[4] or '_inner')[1:], m[5] != 'msepy_quadrilateral'

        def f(q, n=n, k=k, ori=ori, tri=tri):
            if any(not boxes.same(a, b) for a, b in zip(q, p)):
                raise Unsupported('another degree')
            num = cells.Numbering(n, k, ori, tuple(q), tri)
            arrs = tuple(boxes.spec_array(num, c) for c in range(len(num.comps)))
            return arrs if len(arrs) > 1 else arrs[0]
        out[name] = f
    return out


def elem(p, etype='?'):
    return Stub(degree_parser=lambda degree: (tuple(p), ('Lobatto',) * len(p)), dof_reverse_info={}, etype=etype)


def empty_caches(m): return {n: {} for n in m.__dict__ if n.startswith('_cache')}


for _n, _k, _o, _t, _m, _f in HT:
    @check.scenario(f'msehtt {_f}', samples=4)
    def _(mk, n=_n, k=_k, ori=_o, tri=_t, mod=_m, f=_f):
        m = get(HI + mod)
        fn = getattr(m, f, None)
        if fn is None:
            raise Unsupported(f'no function {f}')
        mk.fn(fn)
        p = degrees(mk, n)
        if tri:     # the precondition of triangle elements (asserted by their gathering matrices)
            p = (p[0], p[0])
        if not mk.symbolic:
            E, key = fn(elem(p), p)
            F, key2 = fn(elem(p), p)
            return [('incidence = boundary', np.asarray(E.todense()), cells.incidence(n, k, ori, p, tri)),
                    ('and again', np.asarray(F.todense()), cells.incidence(n, k, ori, p, tri)), ('cache key', key2, key)]
        with boxes.boxed(mk, m, **contracts(m, p), **empty_caches(m)) as ctx:
            E, key = fn(elem(p), p)
            return boxes.matrix_items(f, E, n, k, ori, p, tri) + ctx.obl


# ------------------------------------------------------------------ d after d (a lemma on the contracts)
for _n, _k, _o, _t in [(2, 0, o, t) for o in ('inner', 'outer') for t in (False, True)] + [(3, 0, 'outer', False), (3, 1, 'outer', False)]:
    @check.unit(f'lemma: d d = 0, {_n}d {_k}-forms {_o}{" collapsed" if _t else ""}')
    def _(led, n=_n, k=_k, ori=_o, tri=_t):
        r"""faces of faces cancel: by (component, offset); for the collapsed element also with i = 0."""
        for c, (e, _) in enumerate(cells.comps(n, k + 2, ori)):
            for first in ((1, 0) if tri else (1,)):
                tot = {}
                for d, off, s in cells.boundary(n, k + 1, ori, c):
                    ed = cells.comps(n, k + 1, ori)[d][0]
                    if tri and not ed[0] and first + off[0] == 0:
                        continue        # the edge along eta at i = 0 has no length
                    for d2, off2, s2 in cells.boundary(n, k, ori, d):
                        o = tuple(a + b for a, b in zip(off, off2))
                        key = (d2, o) if not (tri and first + o[0] == 0) else (d2, 'the collapsed node')
                        tot[key] = tot.get(key, 0) + s * s2
                if any(tot.values()):
                    raise R.Violation(f'd d = 0 fails on component {c}', repr(tot))
                led.prove(f'faces of faces of a cell of component {c} cancel (i {">" if first else "="} 0)', 'finite case analysis')


# ------------------------------------------------------------------ the real meshes, through the public interface
def spaces(n):
    if n == 1:
        return {'f0': (0, 'outer'), 'f1': (1, 'outer')}
    if n == 2:
        return {f'{o[0]}{k}': (k, o) for o in ('inner', 'outer') for k in (0, 1, 2)}
    return {f'o{k}': (k, 'outer') for k in range(4)}


def chain(n):
    if n == 1:
        return [('f0', 'f1', 0, 'outer')]
    if n == 2:
        return [(f'{o[0]}{k}', f'{o[0]}{k+1}', k, o) for o in ('inner', 'outer') for k in (0, 1)]
    return [(f'o{k}', f'o{k+1}', k, 'outer') for k in range(3)]


def dense(x): return np.asarray(x.todense())


for _t in geo.MSEPY:
    if _t[0] in ('crazy 1d', 'crazy 2d', 'crazy 2d periodic', 'crazy 3d', 'backward_step 2d equal'):
        @check.unit(f'msepy mesh {_t[0]}')
        def _(led, name=_t[0]):
            def scn(mk, p):
                n, ms, obj = geo.build_msepy(name, spaces(geo_n(geo.MSEPY, name)), p)
                out = []
                pp = (p,) * n if isinstance(p, int) else tuple(p)
                last = {}
                for a, b, k, ori in chain(n):
                    f = obj[a]
                    want = cells.incidence(n, k, ori, pp)
                    E = dense(f.coboundary.incidence_matrix._data if hasattr(f.coboundary.incidence_matrix, '_data') else f.coboundary.incidence_matrix)
                    out.append((f'{a}: coboundary matrix', E, want))
                    out.append((f'{a}: space.incidence_matrix', dense(f.space.incidence_matrix(f.degree)), want))
                    if (ori, k) in last:
                        out.append((f'{a}: E E = 0', E @ last[ori, k], np.zeros((E.shape[0], last[ori, k].shape[1]), dtype=int)))
                    last[ori, k + 1] = E
                    x = mk.rng.integers(-9, 10, size=f.cochain.gathering_matrix.shape).astype(float)
                    f[1.0].cochain = x
                    d = f.d()
                    loc = np.array(f[1.0].cochain.local)
                    got = d[1.0].cochain.local
                    out.append((f'{a}: d(cochain)', np.array(got), loc @ want.T))
                return out
            for p in {1: (1, 3), 2: (1, 2, (3, 1), (2, 3)), 3: (1, (1, 2, 3))}[geo_n(geo.MSEPY, name)]:
                bounded_scenario(led, f'{name}, degree {p}', lambda mk, p=p: scn(mk, p), samples=1, tol=1e-12)


def geo_n(lst, name): return next(t[1] for t in lst if t[0] == name)


def reversal(e, n, k, ori, degree, num):
    r"""+-1 per dof, from the element's declared reversed faces and its face dofs."""
    r = np.ones(num.total, dtype=int)
    key = f'm{n}n{n}k{k}' + (f'_{ori}' if (n, k) == (2, 1) else '')
    for fi in e.dof_reverse_info.get(key, []):
        a, side = geo.htt_faces(e)[fi]
        for c in cells.face_cells(n, k, ori, a):
            arr = cells.array(num, c)
            sl = [slice(None)] * n
            sl[a] = -1 if side else 0
            r[arr[tuple(sl)].ravel()] *= -1
    return r


# unstructured meshes and triangles need one degree along all edges
ANISO = ('2d crazy', '2d crazy linear', '2d crazy periodic', '2d crazy_multi', '2d backward_step', '2d quads with one diagonal')


for _t in geo.MSEHTT:
    if 'tiny' in _t[0] or _t[0] == '2d chaotic triangles':     # forms are not implemented for those triangles
        continue

    @check.unit(f'msehtt mesh {_t[0]}', limit=400)
    def _(led, name=_t[0]):
        n = geo_n(geo.MSEHTT, name)

        def scn(mk, p):
            _, ms, obj = geo.build_msehtt(name, spaces(n), p)
            els = obj['tgm'].elements
            out = []
            pp = (p,) * n if isinstance(p, int) else tuple(p)
            last = {}
            for a, b, k, ori in chain(n):
                f = obj[a]
                IMs, keys = f.space.incidence_matrix(f.degree)
                M = f.incidence_matrix
                x = {}
                bykey = {}
                bad = None
                for i in els:
                    e = els[i]
                    tri = e.etype in geo.TRI_TYPES
                    S, D = cells.Numbering(n, k, ori, pp, tri), cells.Numbering(n, k + 1, ori, pp, tri)
                    want = cells.incidence(n, k, ori, pp, tri)
                    want = reversal(e, n, k + 1, ori, f.degree, D)[:, None] * want * reversal(e, n, k, ori, f.degree, S)[None, :]
                    for lab, got in (('space.incidence_matrix', IMs[i]), ('form.incidence_matrix', M[i])):
                        g = dense(got)
                        if g.shape != want.shape or np.any(g != want):
                            out.append((f'{a}, element {i}: {lab}', g, want))
                    if keys[i] in bykey and np.any(bykey[keys[i]] != want if bykey[keys[i]].shape == want.shape else True):
                        out.append((f'{a}, element {i}: cache key {keys[i]} of another matrix', False, True))
                    bykey.setdefault(keys[i], want)
                    if (ori, k) in last and np.any(want @ last[ori, k][i]):
                        out.append((f'{a}, element {i}: E E = 0', False, True))
                    x[i] = mk.rng.integers(-9, 10, size=S.total).astype(float)
                    last.setdefault((ori, k + 1), {})[i] = want
                out.append((f'{a}: incidence of every element', True, True))
                f[1.0].cochain = x
                cob = f[1.0].cochain.coboundary()
                d = f.d()
                for i in els:
                    w = last[ori, k + 1][i] @ x[i]
                    out.append((f'{a}, element {i}: coboundary', np.array(cob[i]), w))
                    out.append((f'{a}, element {i}: d', np.array(d[1.0].cochain[i]), w))
            return out
        for p in ((1, 2, (1, 2, 3)) if n == 3 else (1, 2, 3, (1, 3), (3, 2)) if name in ANISO else (1, 2, 3)):
            bounded_scenario(led, f'{name}, degree {p}', lambda mk, p=p: scn(mk, p), samples=1, tol=1e-12, limit=180)


if __name__ == '__main__':
    check.main()
