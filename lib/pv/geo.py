# -*- coding: utf-8 -*-
r"""Real meshes (both implementations) used by several checks, and the symbolic-run environment for their code."""
import numpy as np
import random
from .run import get, np_patched, Unsupported
from . import world

MP = 'phyem.msepy.manifold.predefined.'
G2 = 'phyem.tools.functions.space._2d.'
HM = 'phyem.msehtt.static.manifold.predefined.'
HE = 'phyem.msehtt.static.mesh.great.elements.types.'

MSEPY = [
    ('crazy 1d', 1, [[1, 2, 3]], 'crazy', dict(c=0.2, bounds=[[-1, 2]])),
    ('crazy 1d linear', 1, [[1, 2, 1]], 'crazy', dict(c=0., bounds=[[-1, 2]])),
    ('crazy 2d', 2, [[1, 2], 3], 'crazy', dict(c=0.1, bounds=[[-1, 2], [0.5, 1.5]])),
    ('crazy 2d linear', 2, [[1, 2, 1], [3, 1]], 'crazy', dict(c=0., bounds=[[-1, 2], [0.5, 1.5]])),
    ('crazy 2d periodic', 2, [3, 3], 'crazy', dict(c=0.25, bounds=[[0, 1], [0, 3]], periodic=True)),
    ('crazy 3d', 3, [2, [1, 3], 2], 'crazy', dict(c=0.1, bounds=[[0, 2], [-1, 1], [0, 1]])),
    ('crazy 3d linear', 3, [[1, 2], [2, 1], [1, 1.5]], 'crazy', dict(c=0., bounds=[[0, 2], [-1, 1], [0, 1]])),
    ('crazy_multi 2d', 2, [2, [1, 2]], 'crazy_multi', dict(c=0.1, bounds=[[0, 2], [-1, 1]], Ns=[2, 2])),
    ('crazy_multi 2d linear', 2, [[1, 2], 2], 'crazy_multi', dict(c=0., bounds=[[0, 2], [-1, 1]], Ns=[3, 2])),
    ('crazy_multi 3d linear', 3, [1, 2, [1, 2]], 'crazy_multi', dict(c=0., bounds=[[0, 2], [-1, 1], [0, 3]], Ns=[2, 1, 2])),
    ('backward_step 2d', 2, {0: [2, 1], 1: [2, [1, 2]], 2: [1, [1, 2]]}, 'backward_step', {}),
    ('backward_step 2d equal', 2, 2, 'backward_step', dict(x1=1, x2=1, y1=0.5, y2=0.5)),
    ('backward_step 3d', 3, 2, 'backward_step', dict(x1=1, x2=2, y1=0.5, y2=0.5, z=1)),
    ('cylinder_channel', 2, 1, 'cylinder_channel', dict(r=0.5, dl=2, dr=3, h=4)),
    ('tiny 2d linear', 2, [[.3, .7], [.5, .2, .3]], 'crazy', dict(c=0., bounds=[[0, 3e-6], [0, 1]])),
]

# meshes with one element between periodic ends (and few elements), for the numberings
MSEPY_WRAPPED = [
    ('crazy 1d periodic, 1', 1, [1], 'crazy', dict(c=0.1, bounds=[[0, 2]], periodic=True)),
    ('crazy 1d periodic, 2', 1, [2], 'crazy', dict(c=0.1, bounds=[[0, 2]], periodic=True)),
    ('crazy 2d periodic, 1 by 3', 2, [1, 3], 'crazy', dict(c=0.1, bounds=[[0, 1], [0, 3]], periodic=True)),
    ('crazy 2d periodic, 2 by 1', 2, [2, 1], 'crazy', dict(c=0.1, bounds=[[0, 1], [0, 3]], periodic=True)),
    ('crazy 2d periodic, 1 by 1', 2, [1, 1], 'crazy', dict(c=0.1, bounds=[[0, 1], [0, 3]], periodic=True)),
    ('crazy 3d periodic, 1 by 2 by 2', 3, [1, 2, 2], 'crazy', dict(c=0., bounds=[[0, 1], [0, 3], [0, 2]], periodic=True)),
    ('crazy 3d periodic, 2 by 1 by 1', 3, [2, 1, 1], 'crazy', dict(c=0., bounds=[[0, 1], [0, 3], [0, 2]], periodic=True)),
    ('crazy 3d periodic, 1 by 1 by 1', 3, [1, 1, 1], 'crazy', dict(c=0., bounds=[[0, 1], [0, 3], [0, 2]], periodic=True)),
    ('crazy 3d periodic, 3 by 2 by 3', 3, [3, 2, 3], 'crazy', dict(c=0., bounds=[[0, 1], [0, 3], [0, 2]], periodic=True)),
]

MSEHTT_WRAPPED = [
    ('2d crazy periodic, 1 by 3', 2, 'crazy', dict(element_layout=[1, 3], c=0.1, bounds=([0, 2], [-1, 1]), periodic=True)),
    ('2d crazy periodic triangles', 2, 'crazy', dict(element_layout=3, c=0.1, bounds=([0, 2], [-1, 1]), periodic=True, trf=1)),
    ('3d crazy periodic', 3, 'crazy', dict(element_layout=[3, 3, 3], c=0., bounds=([0, 2], [-1, 1], [0, 1]), periodic=True)),
    ('3d crazy periodic, 1 by 3 by 3', 3, 'crazy', dict(element_layout=[1, 3, 3], c=0., bounds=([0, 2], [-1, 1], [0, 1]), periodic=True)),
]

TRI = ['tqr', {0: 5, 1: 5, 2: 5, 3: 5},
       {0: [0., 0.], 1: [1., -.1], 2: [.3, .9], 3: [1.2, 1.1], 4: [.2, 2.], 5: [-.5, 1.2]},
       {0: [0, 1, 2], 1: [1, 3, 2], 2: [2, 3, 4], 3: [2, 4, 5]}]
QUAD = {'element_type_dict': {0: 9, 1: 9, 2: 9},
        'element_parameter_dict': {0: [[0., 0.], [1., -.1], [1.2, .9], [.1, 1.]],
                                   1: [[1., -.1], [2., .2], [2.2, 1.], [1.2, .9]],
                                   2: [[.1, 1.], [1.2, .9], [1.1, 2.], [0., 2.]]},
        'element_map_dict': {0: [0, 1, 2, 3], 1: [1, 4, 5, 2], 2: [3, 2, 6, 7]}}
MIX = ['tqr', {0: 9, 1: 5, 2: 5},
       {0: [0., 0.], 1: [1., -.1], 2: [1.2, .9], 3: [.1, 1.], 4: [2., .2], 5: [1.1, 2.]},
       {0: [0, 1, 2, 3], 1: [1, 4, 2], 2: [3, 2, 5]}]
TWIN = {'element_type_dict': {0: 9, 1: 9},          # same diagonal, different quads
        'element_parameter_dict': {0: [[0., 0.], [1., 0.], [1., 1.], [0., 1.]],
                                   1: [[3., 0.], [3.8, -.1], [4., 1.], [3.2, 1.1]]},
        'element_map_dict': {0: [0, 1, 2, 3], 1: [4, 5, 6, 7]}}

# two elements with a common side, each starting at any of its corners
_P = [(0., 0.), (1., -.1), (1.2, .9), (.1, 1.), (2., .2), (2.2, 1.)]


def turned(a, b):
    r"""a, b: numbers of corners of the two elements; all ways to turn them, next to each other."""
    A = [0, 1, 2, 3] if a == 4 else [0, 1, 2]
    B = [1, 4, 5, 2] if b == 4 else [1, 4, 2]
    types, nodes, maps = {}, {}, {}
    for n, (i, j) in enumerate((i, j) for i in range(a) for j in range(b)):
        for m, (C, k) in enumerate(((A, i), (B, j))):
            types[2 * n + m] = {3: 5, 4: 9}[len(C)]
            maps[2 * n + m] = [6 * n + c for c in C[k:] + C[:k]]
            nodes.update({6 * n + c: [_P[c][0] + 3 * n, _P[c][1]] for c in C})
    return ['tqr', types, nodes, maps]


MSEHTT_TURNED = [(f'2d {a} next to {b}, any way round', 2, turned(x, y), dict(element_layout=0))
                 for a, b, x, y in (('triangles', 'triangles', 3, 3), ('triangles', 'quads', 3, 4), ('quads', 'triangles', 4, 3), ('quads', 'quads', 4, 4))]

MSEHTT = [
    ('2d crazy', 2, 'crazy', dict(element_layout=2, c=0.1, bounds=([0.5, 2], [-1, 1]))),
    ('2d crazy linear', 2, 'crazy', dict(element_layout=[[1, 2], [3, 1, 1]], c=0., bounds=([0.5, 2], [-1, 1]))),
    ('2d crazy periodic', 2, 'crazy', dict(element_layout=3, c=0.1, bounds=([0, 2], [-1, 1]), periodic=True)),
    ('2d crazy triangles', 2, 'crazy', dict(element_layout=2, c=0.1, bounds=([0.5, 2], [-1, 1]), trf=1)),
    ('2d crazy triangles linear', 2, 'crazy', dict(element_layout=2, c=0., bounds=([0.5, 2], [-1, 1]), trf=1)),
    ('2d crazy_multi', 2, 'crazy_multi', dict(element_layout=2, c=0.1, bounds=([0.5, 2], [-1, 1]))),
    ('2d backward_step', 2, 'backward_step', dict(element_layout=2)),
    ('2d cylinder_channel', 2, 'cylinder_channel', dict(element_layout=1)),
    ('2d chaotic', 2, 'chaotic', dict(element_layout=1, c=0.1, bounds=([0.5, 2], [-1, 1]))),
    ('2d chaotic linear', 2, 'chaotic', dict(element_layout=2, c=0, bounds=([0.5, 2], [-1, 1]))),
    ('2d chaotic triangles', 2, 'chaotic', dict(element_layout=1, c=0.1, bounds=([0.5, 2], [-1, 1]), trf=1)),
    ('2d chaotic quads', 2, 'chaotic', dict(element_layout=1, c=0, bounds=([0.5, 2], [-1, 1]), ts=1)),
    ('2d triangles', 2, TRI, dict(element_layout=0)),
    ('2d split quads and triangles', 2, MIX, dict(element_layout=1)),
    ('2d quads', 2, QUAD, {}),
    ('2d quads and triangles', 2, MIX, dict(element_layout=0)),
    ('2d quads with one diagonal', 2, TWIN, {}),
    ('3d crazy', 3, 'crazy', dict(element_layout=[2, 1, 2], c=0.1, bounds=([0.5, 2], [-1, 1], [0, 1]))),
    ('3d crazy linear', 3, 'crazy', dict(element_layout=[[1, 2], [3, 1, 1], [1, 2]], c=0., bounds=([0.5, 2], [-1, 1], [0, 1]))),
    ('3d backward_step', 3, 'backward_step', dict(element_layout=2)),
    ('2d tiny linear', 2, 'crazy', dict(element_layout=[[.3, .7], [.5, .5]], c=0., bounds=([0, 3e-6], [0, 1]))),
]

_NAMES = [MP + x for x in ('crazy', 'crazy_multi', 'backward_step', 'cylinder_channel', '_helpers')] + \
    [G2 + 'geometrical_functions.' + x for x in ('straight_line', 'anticlockwise_arc', 'clockwise_arc')] + \
    [HM + 'chaotic'] + \
    [HE + x for x in ('base', 'orthogonal_rectangle', 'orthogonal_hexahedron', 'unique_curvilinear_quad',
                      'unique_curvilinear_triangle', 'unique_msepy_curvilinear_hexahedron',
                      'unique_msepy_curvilinear_quadrilateral', 'unique_msepy_curvilinear_triangle',
                      'vtu_5_triangle', 'vtu_9_quad')] + \
    ['phyem.msehtt.static.manifold.predefined.rectangle', 'phyem.msehtt.static.manifold.predefined.quad',
     'phyem.msepy.mesh.elements.element']


def sym_env(symbolic=True):
    r"""np proxies in the geometry modules; metric caches switched off (they are C19's subject)."""
    if not symbolic:
        return np_patched()
    mods = []
    for n in _NAMES:
        try:
            m = get(n)
        except Unsupported:
            continue
        # the generators' `ones_like`, `sin`, ... imported by name
        mods.append(m)
    px = __import__('pv.run', fromlist=['NPProxy']).NPProxy
    return np_patched(*mods, ndarray_key_comparer=lambda *a, **k: (0, None), add_to_ndarray_cache=lambda *a, **k: None,
                      sin=px.sin, cos=px.cos, ones_like=px.ones_like, zeros_like=px.zeros_like)


def build_msepy(name, spaces=None, p=2):
    n, layout, cfg, kw = next(t[1:] for t in MSEPY + MSEPY_WRAPPED if t[0] == name)
    return n, *world.msepy(n, layout, manifold=cfg, spaces=spaces, p=p, **kw)


def build_msehtt(name, spaces=None, p=2):
    n, cfg, kw = next(t[1:] for t in MSEHTT + MSEHTT_WRAPPED + MSEHTT_TURNED if t[0] == name)
    random.seed(7)
    np.random.seed(7)
    import copy
    return n, *world.msehtt(n, copy.deepcopy(cfg), spaces, p=p, **copy.deepcopy(kw))


# ------------------------------------------------------------------ contract clauses
TRI_FACE = {0: (1, 0), 1: (0, 1), 2: (1, 1)}
TRI_TYPES = (5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle')


def htt_faces(e):
    r"""{face id: (axis, side)} of a msehtt element."""
    if e.etype in TRI_TYPES:
        return TRI_FACE
    return {i: (i // 2, i % 2) for i in range(2 * e.n())}


def representatives(elements, k=2):
    r"""at most k elements of each class (all of them are instances of one contract)."""
    seen = {}
    for i in elements:
        e = elements[i]
        seen.setdefault(type(e).__name__, []).append(e)
    return [e for es in seen.values() for e in ([es[0], es[-1]] if len(es) > 1 else es)[:k]]


def det(J):
    n = len(J)
    if n == 1:
        return J[0][0]
    if n == 2:
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    return sum(s * J[0][a] * J[1][b] * J[2][c] for s, a, b, c in (
        (1, 0, 1, 2), (1, 1, 2, 0), (1, 2, 0, 1), (-1, 0, 2, 1), (-1, 1, 0, 2), (-1, 2, 1, 0)))


def identities(lab, J, detJ, met, iJ, idet, G, iG):
    r"""the metric obligations, given the quantities the code returned at one point."""
    n = len(J)
    R = range(n)
    out = [(f'{lab}: Jacobian = det J', detJ, det(J)), (f'{lab}: metric = det^2', met, det(J) ** 2)]
    if iJ is not None:
        for i in R:
            for j in R:
                out.append((f'{lab}: (J iJ)[{i}][{j}] = I', sum(J[i][k] * iJ[k][j] for k in R), 1 if i == j else 0))
        out.append((f'{lab}: inverse_Jacobian * det J = 1', idet * det(J), 1))
    if G is not None:
        for i in R:
            for j in R:
                out.append((f'{lab}: G[{i}][{j}] = (J^T J)', G[i][j], sum(J[k][i] * J[k][j] for k in R)))
    if iG is not None:
        for i in R:
            for j in R:
                out.append((f'{lab}: iG[{i}][{j}] = (iJ iJ^T)', iG[i][j], sum(iJ[i][k] * iJ[j][k] for k in R)))
    return out


def normal_clauses(mk, lab, nv, J, axis, side):
    r"""unit, orthogonal to the face, pointing out (J: element Jacobian matrix at the face point)."""
    n = len(J)
    R = range(n)
    out = [(f'{lab}: |n| = 1', sum(nv[i] * nv[i] for i in R), 1)]
    for a in R:
        d = sum(nv[i] * J[i][a] for i in R)
        if a != axis:
            out.append((f'{lab}: n . dx/dxi{a} = 0', d, 0))
        else:
            if mk.symbolic:     # (n . dx/dxi_axis) |cross product of the tangents| = +-det J, and det J > 0
                T = [[J[i][b] for i in R] for b in range(n) if b != axis]
                c2 = sum(t * t for t in T[0]) if n == 2 else sum(
                    (T[0][i] * T[1][j] - T[0][j] * T[1][i]) ** 2 for i, j in ((1, 2), (2, 0), (0, 1)))
                out.append((f'{lab}: n points outwards', d * mk.sqrt(c2), det(J) if side == 1 else -1 * det(J)))
            else:
                out.append((f'{lab}: n points outwards', _pos(mk, d if side == 1 else -1 * d), True))
    return out


def _pos(mk, d):
    d = np.asarray(d, dtype=object).ravel()
    r = d[0] > 0
    for x in d[1:]:
        r = r & (x > 0)
    return r if mk.symbolic else bool(r)


def shapes(lib, t, names, led):
    r"""node arrays of any shape are treated point by point (bounded)."""
    import pv.run as R
    n, ms, obj = (build_msepy if lib == 'msepy' else build_msehtt)(t[0])
    rng = np.random.default_rng(3)

    def flat(r): return [x for q in r for x in flat(q)] if isinstance(r, (list, tuple)) else [r]
    if lib == 'msepy':
        E = obj['mesh'].elements
        cts = [(f'element {i}', E[i].ct) for i in sorted({0, E._num // 2, E._num - 1})]
    else: cts = [(f'{e.etype} element {e.index}', e.ct) for e in representatives(obj['tgm'].elements)]
    cnt = 0
    for shape in ((2, 3), (1, 1), (2, 1, 2)):
        A = [rng.uniform(-.9, .9, shape) for _ in range(n)]
        N = A[0].size
        whole = ({'mapping'} & set(names)) if lib == 'msepy' else ()
        for nm in whole:                # the whole mesh: elements along the last axis
            a = getattr(obj['mesh'].ct, nm)(*A)
            for j in range(N):
                b = getattr(obj['mesh'].ct, nm)(*[x.ravel()[j:j + 1] for x in A])
                for i, (x, y) in enumerate(zip(a, b)):
                    cnt += 1
                    if np.shape(x) != shape + (E._num,) or not np.allclose(x.reshape(N, -1)[j], y[0], rtol=1e-10, atol=1e-13):
                        raise R.Violation(f'{t[0]}: mesh.ct.{nm}[{i}] of nodes of shape {shape} is point by point', dict(nodes=str(A), got=str(np.shape(x)), at=j))
        for lab, c in cts:
            for nm in names:
                a = flat(getattr(c, nm)(*A))
                for j in range(N):
                    b = flat(getattr(c, nm)(*[x.ravel()[j:j + 1] for x in A]))
                    for i, (x, y) in enumerate(zip(a, b)):
                        cnt += 1
                        if np.shape(x) not in ((), shape) or not np.allclose(np.broadcast_to(x, shape).ravel()[j], np.ravel(y)[0], rtol=1e-10, atol=1e-13):
                            raise R.Violation(f'{t[0]}, {lab}: {nm} (entry {i}) of nodes of shape {shape} is point by point', dict(nodes=str(A), got=str(np.shape(x)), at=j))
    led.bounded.append((f'{lib} {t[0]}', f'{cnt} values'))
