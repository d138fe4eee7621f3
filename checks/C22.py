r"""C22: meshes refined into triangles are conforming; renewing an adaptive implementation carries everything over."""
import itertools, random
from fractions import Fraction
import numpy as np
from pv.run import *
from pv.run import get, Stub, Check
import pv.run as R
from pv import boxes, loops, whole

check = Check('C22', trusted=['scipy NearestNDInterpolator returns the value of the nearest sample', 'the maps of unrefined elements (C05) and the numbering of dofs from the numbering of nodes (C03)',
                              'a quad is refined through its own map: straight triangles have the vertices the map gives'])
HTT_TRF, PY_TRF = 'phyem.msehtt.static.mesh.great.config.msehtt_trf', 'phyem.msehtt.static.mesh.great.config.msepy_trf'


def fn(led, *fs):
    for f in fs: led.functions.add(R.qual(f))


# ------------------------------------------------------------------ a triangle of any level, any sequence of halvings
QUARTERS = {'N': ((-1, -1), (-1, 1)), 'S': ((1, -1), (1, 1)), 'W': ((-1, -1), (1, -1)), 'E': ((-1, 1), (1, 1))}


def sides(X, Y):
    a, b = (X[1] - X[0], Y[1] - Y[0]), (X[2] - X[0], Y[2] - Y[0])
    return a, b, a[0] * b[1] - b[0] * a[1]


def inside(v): return (v >= -1) & (v <= 1) if not isinstance(v, (int, float)) else -1 <= v <= 1


def invariant(X, Y, area=None):
    r"""half a square standing on its corner: equal legs at a right angle, positive, in the reference square."""
    a, b, d = sides(X, Y)
    it = [('the legs are perpendicular', a[0] * b[0] + a[1] * b[1], 0), ('the legs are equal', a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1]),
          ('positive orientation', d > 0, True)]
    it += [('inside the quad', inside(v), True) for v in list(X) + list(Y)]
    return it


class Pair(tuple):
    pass


class Steps(loops.Abstract):
    r"""the indicators after the first: any number of halves."""

    def __init__(self, mk): self.mk = mk

    def find(self, L):
        c = [n for n, v in L.items() if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, (list, tuple)) and len(x) == 3 for x in v)]
        if len(c) != 1: raise R.Unsupported('the triangle so far is not one local variable')
        return c[0]

    def arbitrary(self, tag):
        mk = self.mk
        X, Y = [mk.real(f'x{i}{tag}') for i in range(3)], [mk.real(f'y{i}{tag}') for i in range(3)]
        for _, got, want in invariant(X, Y): mk.assume(got if want is True else got == want)
        return X, Y

    def enter(self, L):
        n = self.find(L)
        boxes.ctx.obl += [(f'a quarter: {t}', g, w) for t, g, w in invariant(*L[n])]
        self.old = self.arbitrary('')
        return {n: tuple(list(v) for v in self.old)}

    def item(self):
        r = self.mk.real('which half', 0, 2)
        self.which = 0 if r < 1 else 2
        return self.which

    def leave(self, L):
        (X, Y), (U, V) = self.old, L[self.find(L)]
        o = boxes.ctx.obl
        o += [(f'half {self.which}: {t}', g, w) for t, g, w in invariant(U, V)]
        bx, by = (X[1] + X[2]) / 2, (Y[1] + Y[2]) / 2
        want = [(bx, by), (X[0], Y[0]), (X[1], Y[1])] if self.which == 0 else [(bx, by), (X[2], Y[2]), (X[0], Y[0])]
        o += [(f'half {self.which}: vertex {i} is where the long side is halved / the leg it is opposite to', c, d)
              for i, w in enumerate(want) for c, d in zip((U[i], V[i]), w)]
        o.append((f'half {self.which}: half the area', sides(U, V)[2] * 2, sides(X, Y)[2]))

    def end(self, L):
        return {self.find(L): tuple(list(v) for v in self.arbitrary(' end'))}


class Indicator:
    r"""(base element, quarter, half, half, ...)"""
    def __init__(self, q, steps): self.q, self.steps = q, steps

    def __getitem__(self, k):
        if k == slice(1, None): return Position(self.q, self.steps)
        raise R.Unsupported(f'indicator[{k}]')


class Position:
    def __init__(self, q, steps): self.q, self.steps = q, steps
    def __hash__(self): return 1
    def __eq__(self, o): return self is o

    def __getitem__(self, k):
        if k == 0: return self.q
        if k == slice(1, None): return self.steps
        raise R.Unsupported(f'position[{k}]')


def quarters(path, q):
    @check.scenario(f'{path.rsplit(".")[-1]}: the triangle of any indicator in {q}', samples=8)
    def _(mk):
        m = get(path)
        f = m._parse_ref_vortices_of_triangle_element_
        mk.fn(f)
        if not mk.symbolic:
            n, bits = int(mk.int('n', 0, 9)), int(mk.int('bits', 0, 511))
            ind = (7, q) + tuple(2 * (bits >> k & 1) for k in range(n))
            X, Y = f(ind)
            out = [(t, g, w) for t, g, w in invariant(X, Y)] + [('the area', sides(X, Y)[2], 2. / 2 ** n)]
            if n == 0: out.append(('the long side is that side of the quad', sorted(zip(X[1:], Y[1:])), sorted(QUARTERS[q])))
            else:
                U, V = f(ind[:-1])
                b = ((U[1] + U[2]) / 2, (V[1] + V[2]) / 2)
                k = 1 if ind[-1] == 0 else 2
                out.append(('the half', sorted(zip(X, Y)), sorted([b, (U[0], V[0]), (U[k], V[k])])))
                out.append(('the middle of the long side is its vertex', (X[0], Y[0]), b))
            return out
        out = []
        cache = [n for n, v in m.__dict__.items() if isinstance(v, dict) and 'cache' in n and 'vort' in n]
        with boxes.boxed(mk, m) as ctx:
            g = loops.invariants(f, **{n: {} for n in cache})
            try:
                X, Y = g(Indicator(q, Steps(mk)))
                ctx.obl += [(f'returned: {t}', a, b) for t, a, b in invariant(X, Y)]
            except loops.Done:
                pass
            out += [(f'{q}: {o[0]}',) + tuple(o[1:]) for o in ctx.obl]
        g = loops.invariants(f, **{n: {} for n in cache})
        X, Y = g((0, q))
        out.append((f'{q}: the long side is that side of the quad', sorted(zip(X[1:], Y[1:])) == sorted(QUARTERS[q]), True))
        out.append((f'{q}: the center is its other vertex', (X[0], Y[0]) == (0, 0), True))
        return out


def centers(path):
    @check.scenario(f'{path.rsplit(".")[-1]}: where the function is evaluated on a triangle', samples=5)
    def _(mk):
        m = get(path)
        X, Y = [mk.real(f'x{i}') for i in range(3)], [mk.real(f'y{i}') for i in range(3)]
        out = []
        cache = {n: v for n, v in m.__dict__.items() if isinstance(v, dict) and 'cache' in n and 'center' in n}
        old = m._parse_ref_vortices_of_triangle_element_
        try:
            m._parse_ref_vortices_of_triangle_element_ = lambda e: (X, Y)
            for n in cache: setattr(m, n, {})
            f = m._parse_triangle_ref_center_coo_
            mk.fn(f)
            x, y = f((0, 'N'))
            out += [('center x', 3 * x, sum(X, 0)), ('center y', 3 * y, sum(Y, 0))]
        finally:
            m._parse_ref_vortices_of_triangle_element_ = old
            for n, v in cache.items(): setattr(m, n, v)
        return out


def one_of(mk, label, got, want):
    r"""every point of each of the lists is in the other (a product of polynomials is zero if and only if one of them is)."""
    l = mk.real('lambda')
    out = []
    for name, A, B in (('is asked', want, got), ('is to be asked', got, want)):
        for i, (x, y) in enumerate(A):
            z = 1
            for a, b in B: z = z * ((a - x) + l * (b - y))
            out.append((f'{label}: point {i} {name}', z, 0))
    return out


@check.scenario('msehtt_trf: where the function is evaluated on the edges, vertices and middle of a triangle', samples=3)
def _(mk):
    m = get(HTT_TRF)
    T = [(mk.real(f'x{i}'), mk.real(f'y{i}')) for i in range(3)]
    old = m._parse_ref_vortices_of_triangle_element_
    f = m._parse_triangle_ref_mean_coo_
    mk.fn(f)
    try:
        m._parse_ref_vortices_of_triangle_element_ = lambda e: ([v[0] for v in T], [v[1] for v in T])
        got = f((0, 'N'))
    finally: m._parse_ref_vortices_of_triangle_element_ = old
    mid = lambda a, b: ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    want = T + [mid(T[i], T[i - 1]) for i in range(3)] + [tuple(sum((v[k] for v in T), 0) / 3 for k in (0, 1))]
    return one_of(mk, 'a triangle', [tuple(p) for p in got], want)


@check.scenario('msehtt_trf: where the function is evaluated on quads of straight edges, and what it decides', samples=3)
def _(mk):
    m = get(HTT_TRF)
    f = m._level_one_refining_m2n2_
    mk.fn(f)
    Q = [[(mk.real(f'x{e}{i}'), mk.real(f'y{e}{i}')) for i in range(4)] for e in range(2)]
    base = ({3: 9, 7: 9}, {3: Q[0], 7: Q[1]}, {})
    mid = lambda a, b: ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    out = []
    for how in ('center', 'middle'):
        for yes in ((), (0,), (1,), (0, 1)):
            asked = []

            def rff(x, y):
                x, y = list(np.atleast_1d(x)), list(np.atleast_1d(y))
                asked.append(list(zip(x, y)))
                high = len(asked) - 1 in yes
                return 1. if how == 'center' and high else 0. if how == 'center' else [0.] * (len(x) - 1) + [1. if high else 0.]
            got = list(f(base, rff, .5, how))
            out += [(f'{how} {yes}: the elements to be refined', sorted(got), [(3, 7)[i] for i in yes]), (f'{how}: each is asked', len(asked), 2)]
            if yes: continue
            for e, q in enumerate(Q):
                c = tuple(sum((v[k] for v in q), 0) / 4 for k in (0, 1))
                want = [c] if how == 'center' else q + [mid(q[i], q[i - 1]) for i in range(4)] + [c]
                out += one_of(mk, f'{how}, quad {e}', asked[e], want)
    return out


for _p in (HTT_TRF, PY_TRF):
    for _q in 'NSWE': quarters(_p, _q)
    centers(_p)


@check.scenario('msehtt_trf: the map of a triangle in a curvilinear quad, any triangle and quad', samples=5)
def _(mk):
    m = get(HTT_TRF)
    f = m.___parse_TCTinUQ___
    X, Y = [mk.real(f'x{i}', -1, 1) for i in range(3)], [mk.real(f'y{i}', -1, 1) for i in range(3)]
    bx, by = mk.func('bx'), mk.func('by')
    base = {'mapping': lambda x, y: (bx(x, y), by(x, y)),
            'Jacobian_matrix': lambda x, y: tuple([mk.uf(n, (x, y), d) for d in ((1, 0), (0, 1))] for n in ('bx', 'by'))}
    ct = f(base, X, Y)
    mk.fn(f, ct.mapping, ct.Jacobian_matrix)
    out = []
    for i, (xi, et) in enumerate(((-1, mk.real('eta', -1, 1)), (1, -1), (1, 1))):
        for k, (a, b) in enumerate(zip(ct.mapping(xi, et), base['mapping'](X[i], Y[i]))):
            out.append((f'vertex {i}, coordinate {k}', a, b))
    p, q = mk.real('xi', -1, 1), mk.real('et', -1, 1)
    J = ct.Jacobian_matrix(p, q)
    for k in (0, 1):
        for d in (0, 1):
            out.append((f'derivative of coordinate {k} in direction {d}', J[k][d], mk.D(lambda a, b: ct.mapping(a, b)[k], (p, q), d)))
    return out


# ------------------------------------------------------------------ refinement of whole patches, against an independent refinement
F0 = Fraction(0)
CORNERS = ((-1, -1), (1, -1), (1, 1), (-1, 1))                   # around a quad
SIDES = tuple((CORNERS[i], CORNERS[(i + 1) % 4]) for i in range(4))


def near(x, y):
    r"""the same for places that differ by rounding errors (the shift: dyadic places are no ties)."""
    return (round(x + 1.2347e-8, 7) + 0., round(y + 1.2347e-8, 7) + 0.)


class Patch:
    r"""quads: corners[e] = places around the quad e; at[e](r, s) = its map; `wrap` identifies places (periodicity)."""

    def __init__(self, name, at, base=None, wrap=None, bmm=None):
        self.name, self.at, self.base, self.bmm = name, at, base, bmm
        self.wrap = wrap or (lambda p: p)
        count = {}
        for e in at:
            for s in SIDES: count.setdefault(self.place(e, self.mid(*s)), []).append((e, s))
        self.sides = count
        assert all(len(v) in (1, 2) for v in count.values()), 'harness'

    @staticmethod
    def mid(a, b): return (Fraction(a[0] + b[0]) / 2, Fraction(a[1] + b[1]) / 2)

    def place(self, e, p):
        x, y = self.at[e](float(p[0]), float(p[1]))
        x, y = self.wrap((float(x), float(y)))
        return near(x, y)

    def on_boundary(self, e, a, b):
        r"""is the segment a-b of the quad e part of a side that no other quad has?"""
        for c, d in SIDES:
            k = 0 if c[0] == d[0] else 1
            if a[k] == b[k] == c[k]: return len(self.sides[self.place(e, self.mid(c, d))]) == 1
        return False


def oracle(patch, decide, levels):
    r"""decide(level, where: list of places and physical points, kind) -> bool; kept quads and triangles (reference vertices)."""
    quads = [e for e in patch.at if not decide(0, patch, e, None)]
    tris = [(e, ((F0, F0), a, b)) for e in patch.at if e not in quads for a, b in SIDES]
    for k in range(1, levels):
        long = {}
        for t in tris:
            e, (o, a, b) = t
            long.setdefault(frozenset((patch.place(e, a), patch.place(e, b), patch.place(e, patch.mid(a, b)))), []).append(t)
        new = []
        for ts in long.values():
            e, (o, a, b) = ts[0]
            split = (len(ts) == 2 or patch.on_boundary(e, a, b)) and any([decide(k, patch, t[0], t[1]) for t in ts])
            for t in ts:
                e, (o, a, b) = t
                m = patch.mid(a, b)
                new += [(e, (m, o, a)), (e, (m, b, o))] if split else [t]
        tris = new
    return quads, tris


def centroid(t): return tuple(sum(v[i] for v in t) / 3 for i in (0, 1))


def points(t, how):
    r"""where the refining function is looked at."""
    if how == 'center': return [(F0, F0)] if t is None else [centroid(t)]
    vs = CORNERS if t is None else t
    mids = [Patch.mid(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))]
    return list(vs) + mids + points(t, 'center')


class Field:
    r"""a refining function: yes (above every threshold asked for so far) or no where it is looked at."""

    def __init__(self, value, out=None): self.value, self.out, self.asked = value, out or (lambda v, x: v), []

    def __call__(self, x, y):
        if np.ndim(x) == 0: return self.out(self.value(float(x), float(y)), x)
        return np.array([self.value(float(a), float(b)) for a, b in zip(x, y)])


def compare(patch, got, want, place_of):
    r"""the elements made by the code against those of the oracle, and the numbering of their nodes."""
    types, pars, maps = got
    quads, tris = want
    if list(types) != list(pars) or list(types) != list(maps): raise R.Violation('types, parameters and maps are of the same elements', {})
    mine, verts = {}, {}
    for e in types:
        V = place_of(e, types[e], pars[e])
        verts[e] = V
        mine.setdefault((e if not isinstance(e, tuple) else e[0], frozenset(patch_place(patch, v) for v in V), len(V)), []).append(e)
    theirs = {(e, frozenset(patch.place(e, c) for c in CORNERS), 4) for e in quads} | {(e, frozenset(patch.place(e, c) for c in t), 3) for e, t in tris}
    info = dict(patch=patch.name, more=[mine[k] for k in mine if k not in theirs][:4], fewer=[str(k) for k in theirs if k not in mine][:4])
    if set(mine) != theirs or any(len(v) > 1 for v in mine.values()): raise R.Violation('the elements are those of the refinement', info)
    # nodes
    number = {}
    for e in types:
        if len(maps[e]) != len(verts[e]): raise R.Violation('one node per vertex', dict(info, element=e))
        for n, v in zip(maps[e], verts[e]):
            p = patch_place(patch, v)
            if number.setdefault(('p', p), n) != n or number.setdefault(('n', n), p) != p:
                raise R.Violation('nodes are numbered one to one with their places', dict(info, element=e, node=n, place=p))
    if {n for t, n in number if t == 'n'} != set(range(len(number) // 2)): raise R.Violation('the numbers are 0, 1, 2, ...', info)
    # orientation, area
    for e in types:
        V = np.array(verts[e], dtype=float)
        if len(V) == 3:
            a = (V[1] - V[0])[0] * (V[2] - V[0])[1] - (V[2] - V[0])[0] * (V[1] - V[0])[1]
            if not a > 0: raise R.Violation('positive triangles', dict(info, element=e))
    # sides
    sides = {}
    for e in types:
        m = maps[e]
        order = range(len(m)) if len(m) == 3 or patch.bmm is None else (0, 1, 3, 2)
        order = list(order)
        for i in range(len(order)):
            s = frozenset((m[order[i]], m[order[(i + 1) % len(order)]]))
            sides.setdefault(s, []).append(e)
    lone = sum(len(v) == 1 for v in sides.values())
    if any(len(v) > 2 for v in sides.values()): raise R.Violation('a side has at most two elements', info)
    want_lone = 0
    for e in quads: want_lone += sum(patch.on_boundary(e, *s) for s in SIDES)
    for e, t in tris: want_lone += sum(patch.on_boundary(e, t[i], t[(i + 1) % 3]) for i in range(3))
    if lone != want_lone: raise R.Violation('a side of one element only is on the boundary', dict(info, got=lone, want=want_lone))
    return 1


def patch_place(patch, v):
    x, y = patch.wrap((float(v[0]), float(v[1])))
    return near(x, y)


def bilinear(P):
    P = np.array(P, dtype=float)
    def at(r, s):
        w = np.array([(1 - r) * (1 - s), (1 + r) * (1 - s), (1 + r) * (1 + s), (1 - r) * (1 + s)]) / 4
        return tuple(np.tensordot(P.T, w, 1))
    return at


def bend(x, y): return x + .05 * np.sin(2 * y + x), y + .05 * np.sin(3 * x - y)


def htt_patch(name, quads, curved, turns, wrap=None):
    r"""quads: corners around (places); turned: the corner a quad starts with."""
    at, numbers, base = {}, {}, ({}, {}, {})
    for e, (P, k) in enumerate(zip(quads, turns)):
        P = [P[(i + k) % 4] for i in range(4)]
        b = bilinear(P)
        at[e] = (lambda r, s, b=b: bend(*b(r, s))) if curved else b
        base[0][e] = 'unique curvilinear quad' if curved else 9
        base[1][e] = {'mapping': at[e], 'Jacobian_matrix': None} if curved else [tuple(map(float, p)) for p in P]
        base[2][e] = [numbers.setdefault((wrap or (lambda p: p))(tuple(map(float, p))), len(numbers)) for p in P]
    return Patch(f'{name}{" curved" if curved else ""} {turns}', at, base, wrap if not curved else None)


def htt_vertices(e, t, par):
    if t == 9 or t == 5: return [tuple(p) for p in par]
    if t == 'unique curvilinear quad': return [par['mapping'](*map(float, c)) for c in CORNERS]
    if t == 'unique curvilinear triangle': return [par['mapping'](-1., .3), par['mapping'](1., -1.), par['mapping'](1., 1.)]
    raise R.Violation('element types', dict(element=e, type=t))


ONE = [[(0, 0), (2, .2), (2.1, 1.3), (-.1, 1)]]
TWO = [[(0, 0), (2, 0), (1.8, 1), (.1, 1.2)], [(2, 0), (4, .3), (3.9, 1.1), (1.8, 1)]]
THREE = [[(0, 0), (2, -1), (2.2, 1), (.1, 2)], [(0, 0), (.1, 2), (-2, 1.1), (-2, -1)], [(0, 0), (-2, -1), (0, -2.2), (2, -1)]]


def grid(nx, ny, jig=0., seed=0, lx=None):
    rng = np.random.default_rng(seed)
    P = {(i, j): (i + jig * rng.uniform(-1, 1), j + jig * rng.uniform(-1, 1)) for i in range(nx + 1) for j in range(ny + 1)}
    return [[P[i, j], P[i + 1, j], P[i + 1, j + 1], P[i, j + 1]] for j in range(ny) for i in range(nx)]


def htt_refine(m, patch, rff, rft, rcm):
    b = patch.base
    fs = (m._refining_, m._make_element_map_m2n2_, m._finalize_m2n2_)
    mn, els = fs[0](b, rff, rft, rcm)
    return fs[2](b, fs[1](b, els))


def py_refine(m, patch, rff, rft, rcm):
    els = m._refining_(patch.bmm, rff, rft, rcm)
    return m._finalize_(patch.bmm, m._make_element_map_(patch.bmm, els))


def every_function(refine, m, patch, vertices, levels, limit):
    r"""the refinement for every refining function: every combination of its answers where it is asked."""
    stack, count = [()], 0
    while stack:
        pre = stack.pop()
        memo, order = {}, []

        def ask(x, y):
            k = near(x, y)
            if k not in memo:
                memo[k] = pre[len(order)] if len(order) < len(pre) else False
                order.append(k)
            return 2. if memo[k] else -2.
        got = refine(m, patch, Field(ask), [k * .1 for k in range(levels)], 'center')

        def decide(k, pt, e, t):
            x, y = pt.at[e](*map(float, points(t, 'center')[0]))
            return memo.get(near(float(x), float(y)), False)
        count += compare(patch, got, oracle(patch, decide, levels), vertices)
        for j in range(len(pre), len(order)): stack.append(pre + (False,) * (j - len(pre)) + (True,))
        if count >= limit: return count, bool(stack)
    return count, False


def some_functions(refine, m, patch, vertices, rng, n, hows, top=5):
    r"""random refining functions with values and increasing thresholds, up to `top` levels."""
    for i in range(n):
        how = hows[i % len(hows)]
        levels = 1 + int(rng.integers(top))
        c, w = rng.uniform(-1, 4, 2), rng.uniform(.3, 2)
        kind = int(rng.integers(3))
        if kind == 0: g = lambda x, y: w - np.hypot(x - c[0], y - c[1])
        elif kind == 1: g = lambda x, y: np.sin(3 * x + c[0]) * np.cos(2 * y + c[1]) * 2
        else: g = lambda x, y: w * 1. + 0 * x
        rft = np.sort(rng.uniform(-1, .8, levels)).tolist()
        if levels > 1 and min(np.diff(rft)) == 0: continue
        outs = [lambda v, x: v, lambda v, x: np.asarray(v) * np.ones_like(x), lambda v, x: np.float64(v)]
        got = refine(m, patch, Field(g, outs[int(rng.integers(3))]), rft, how)

        def decide(k, pt, e, t):
            vals = [g(*map(float, pt.at[e](*map(float, p)))) for p in points(t, how)]
            return max(vals) >= rft[k]
        compare(patch, got, oracle(patch, decide, levels), vertices)
    return n


@check.unit('msehtt: every refining function on patches of quads, however they are turned', limit=400, real=True)
def _(led):
    m = get(HTT_TRF)
    fn(led, m._refining_, m._make_element_map_m2n2_, m._finalize_m2n2_, m._find_refined_able_pairs_m2n2_, m._level_high_refining_m2n2_)
    n, cut = 0, False
    plan = [(f'one', ONE, (k,), L, 4000) for k in range(4) for L in (1, 2, 3)] + [('one', ONE, (2,), 4, 1500)]
    plan += [('two', TWO, (i, j), 2, 4000) for i in range(4) for j in range(4)]
    plan += [('three', THREE, (0, 2, 3), 1, 100), ('three', THREE, (1, 2, 0), 2, 1500 if not R.thorough() else 10 ** 5), ('two', TWO, (2, 3), 3, 1500 if not R.thorough() else 4 * 10 ** 4)]
    for name, quads, turns, L, lim in plan:
        for curved in ((False, True) if len(quads) == 1 else (bool(sum(turns) % 2),)):
            p = htt_patch(name, quads, curved, turns)
            c, more = every_function(htt_refine, m, p, htt_vertices, L, lim)
            n += c
            cut |= more
    led.bounded.append(('patches of one to three quads', f'{n} refinements: every combination of answers of the function{" up to a limit" if cut else ""}, up to four levels'))


@check.unit('msehtt: refining functions and levels on larger patches', limit=300, real=True)
def _(led):
    m = get(HTT_TRF)
    fn(led, m._refining_, m._level_one_refining_m2n2_, m._level_high_refining_m2n2_)
    rng = np.random.default_rng(2)
    n = 0
    for k in range(20 if not R.thorough() else 40):
        quads = [ONE, TWO, THREE, grid(3, 2, .15, k), grid(2, 2)][k % 5]
        for curved in (False, True):
            p = htt_patch(f'patch {k}', quads, curved, tuple(int(t) for t in rng.integers(0, 4, len(quads))))
            n += some_functions(htt_refine, m, p, htt_vertices, rng, 12, ('center',) if curved else ('center', 'middle'))
    wrap = lambda p: (round(p[0], 9) % 3, round(p[1], 9) % 3)
    for k in range(3):
        p = htt_patch('periodic', grid(3, 3), False, tuple(int(t) for t in rng.integers(0, 4, 9)) if k else (0,) * 9, wrap)
        n += some_functions(htt_refine, m, p, htt_vertices, rng, 5, ('center', 'middle'), 4)
    led.bounded.append(('patches', f'{n} refinements of up to nine quads, up to five levels'))


@check.unit('msehtt: many levels of refinement about a place', limit=200, real=True)
def _(led):
    m = get(HTT_TRF)
    fn(led, m._refining_, m._make_element_map_m2n2_, m._finalize_m2n2_, m._find_refined_able_pairs_m2n2_, m._level_high_refining_m2n2_)
    rng = np.random.default_rng(8)
    n = 0
    for k in range(16 if not R.thorough() else 64):
        quads = [ONE, TWO, THREE][k % 3]
        curved = bool((k // 3) % 2)
        p = htt_patch(f'about a place {k}', quads, curved, tuple(int(t) for t in rng.integers(0, 4, len(quads))))
        e = int(rng.integers(len(quads)))
        at = [rng.uniform(-.9, .9, 2), (0., 0.), (.3, -1.), (1., 1.)][k % 4]
        x0, y0 = p.at[e](float(at[0]), float(at[1]))
        levels = (21, 12, 17)[k % 3]
        rff = lambda x, y: 1. / (1e-9 + np.hypot(x - x0, y - y0))
        rft = [.3 * 2 ** (i / 2) for i in range(levels)]
        if R.thorough(): rft = [.8 * v for v in rft]
        got = htt_refine(m, p, rff, rft, 'center')
        decide = lambda i, pt, e, t: rff(*map(float, pt.at[e](*map(float, points(t, 'center')[0])))) >= rft[i]
        compare(p, got, oracle(p, decide, levels), htt_vertices)
        n += 1
    led.bounded.append(('refinement about a place', f'{n} refinements of up to three quads, up to twenty-one levels'))


@check.unit('msehtt: a refinement does not depend on those before it', real=True)
def _(led):
    m = get(HTT_TRF)
    fn(led, m._refining_)
    rng = np.random.default_rng(3)

    def fails(k):
        def f(x, y):
            f.n += 1
            if f.n > k: raise ZeroDivisionError
            return 1.
        f.n = 0
        return f
    n = 0
    for k in (0, 1, 3, 6, 11):
        for quads in (TWO, THREE, grid(2, 2)):
            a, b = htt_patch('before', quads, False, (1,) * len(quads)), htt_patch('after', grid(3, 1, .1), False, (0, 2, 1))
            try:
                htt_refine(m, a, fails(k), [0., .1, .2], 'center')
            except ZeroDivisionError:
                pass
            n += some_functions(htt_refine, m, b, htt_vertices, rng, 4, ('center', 'middle'), 4)
    led.bounded.append(('histories', f'{n} refinements after others that failed at some point'))


# ------------------------------------------------------------------ the same for the triangles of a structured (msepy) mesh
PY_CORNERS = ((-1, -1), (1, -1), (-1, 1), (1, 1))


def py_patch(domain, layout, wrap=None, **kw):
    ph = get('phyem')
    ph.config.set_embedding_space_dim(2)
    cfg = get('phyem.msehtt.static.mesh.great.config.msepy_:MseHttMsePyConfig')(None, domain)
    _, _, numbers, _, mesh = cfg(layout, msepy_mesh_manifold_only=False, **kw)
    if mesh.elements._element_vortices_numbering_ is None: mesh.elements._element_vortices_numbering_ = numbers
    els = mesh.elements
    at = {e: (lambda r, s, e=e: els[e].ct.mapping(r, s)) for e in els}
    return Patch(f'{domain} {layout} {kw}', at, wrap=wrap, bmm=mesh)


def py_vertices(patch):
    regions = patch.bmm._manifold.regions

    def vertices(e, t, par):
        if t == 5: return [tuple(p) for p in par]
        if t == 'orthogonal rectangle':
            (x, y), (dx, dy) = par['origin'], par['delta']
            return [(x, y), (x + dx, y), (x, y + dy), (x + dx, y + dy)]
        o, d = par['origin'], par['delta']
        at = lambda r, s: tuple(float(v) for v in regions[par['region']]._ct.mapping(o[0] + d[0] * (r + 1) / 2, o[1] + d[1] * (s + 1) / 2))
        if t == 'unique msepy curvilinear quadrilateral': return [at(*map(float, c)) for c in PY_CORNERS]
        if t == 'unique msepy curvilinear triangle': return [at(float(x), float(y)) for x, y in zip(*par['xy'])]
        raise R.Violation('element types', dict(element=e, type=t))
    return vertices


def modulo(x0, lx, y0, ly):
    return lambda p: (x0 + round(p[0] - x0, 9) % lx, y0 + round(p[1] - y0, 9) % ly)


@check.unit('msepy: every refining function on small structured meshes', limit=300, real=True)
def _(led):
    m = get(PY_TRF)
    fn(led, m._refining_, m._make_2d_element_map_, m._finalize_, m._find_refined_able_pairs_2d_, m._level_high_refining_)
    n, cut = 0, False
    for domain, layout, levels, kw in (('crazy', [1, 1], 3, dict(c=0.)), ('crazy', [1, 1], 3, dict(c=.1)), ('crazy', [2, 1], 2, dict(c=.1)), ('crazy', [1, 2], 2, dict(c=0.)),
                                       ('crazy', [2, 2], 1, dict(c=.1)), ('crazy', [2, 1], 3, dict(c=0.)), ('crazy', [2, 2], 2, dict(c=.1, bounds=([0, 2], [-1, 1])))):
        p = py_patch(domain, layout, **kw)
        c, more = every_function(py_refine, m, p, py_vertices(p), levels, 500 if not R.thorough() else 10 ** 4)
        n += c
        cut |= more
    led.bounded.append(('structured meshes of one to four elements', f'{n} refinements: every combination of answers of the function{" up to a limit" if cut else ""}, up to three levels'))


@check.unit('msepy: refining functions and levels on larger structured meshes', limit=300, real=True)
def _(led):
    m = get(PY_TRF)
    fn(led, m._refining_, m._level_one_refining_, m._level_high_refining_)
    rng = np.random.default_rng(5)
    n = 0
    B = dict(bounds=([0.5, 3.5], [-1, 2]))
    for domain, layout, kw, wrap in (('crazy', [3, 3], dict(c=.1, **B), None), ('crazy', [3, 2], dict(c=0., **B), None), ('backward_step', 2, {}, None), ('backward_step', [2, 3], {}, None), ('crazy_multi', 2, dict(c=.1, **B), None),
                                     ('crazy', [3, 4], dict(c=0., periodic=True, **B), modulo(.5, 3, -1, 3)), ('crazy', [3, 3], dict(c=.1, periodic=True, **B), modulo(.5, 3, -1, 3))):
        p = py_patch(domain, layout, wrap, **kw)
        n += some_functions(py_refine, m, p, py_vertices(p), rng, 8 if not R.thorough() else 60, ('center',), 4)
    led.bounded.append(('structured meshes', f'{n} refinements of up to twelve elements, up to four levels'))
