# -*- coding: utf-8 -*-
r"""Global numberings against the geometric cells of a mesh.

Two local dofs must get the same number exactly when they are the same geometric cell (found from the element mappings, not
from the mesh's own connectivity), and the numbers must be 0, 1, ..., N-1. For symbolic degrees the cells are grouped into
entities (vertices, open edges, open faces, interiors); a numbering is affine on each entity."""
import itertools
import numpy as np
from . import sym, cells, boxes
from .sym import S, Unsupported


class Points:
    r"""identify points up to a tolerance, modulo the periods."""

    def __init__(self, n, tol=1e-6, periods=None):
        self.n, self.tol, self.periods, self.grid, self.count = n, tol, periods, {}, 0

    def __call__(self, x):
        x = np.array([float(np.ravel(v)[0]) for v in x])
        if self.periods is not None:
            lo, L = self.periods
            x = lo + np.mod(x - lo, L)
            x = np.where(lo + L - x < self.tol, lo, x)
        g = np.floor(x / (10 * self.tol)).astype(int)
        for o in itertools.product((-1, 0, 1), repeat=self.n):
            for y, i in self.grid.get(tuple(g + o), ()):
                if np.max(np.abs(x - y)) < self.tol:
                    return i
        self.grid.setdefault(tuple(g), []).append((x, self.count))
        self.count += 1
        return self.count - 1


class El:
    r"""an element: index, mapping of the reference cube, collapsed or not."""

    def __init__(self, index, mapping, tri=False): self.index, self.mapping, self.tri = index, mapping, tri


def numeric_items(lab, rows, els, n, k, ori, p, tol=1e-6, periods=None, first=0):
    r"""rows[e]: the numbers of the local dofs of element e."""
    pts = Points(n, tol, periods)
    nodes = [np.linspace(-1, 1, q + 1) for q in p]
    num_of, key_of, bad = {}, {}, []
    for el in els:
        num = cells.Numbering(n, k, ori, p, el.tri)
        row = [int(v) for v in np.ravel(rows[el.index])]
        if len(row) != num.total:
            return [(f'{lab}: numbers in element {el.index}', len(row), num.total)]
        for c, (e, _) in enumerate(num.comps):
            for idx in itertools.product(*[range(x) for x in cells.box(e, p)]):
                d = num.dof(c, idx)
                if d is None:
                    continue
                key = pts(el.mapping(*[(nodes[a][i] + nodes[a][i + 1]) / 2 if e[a] else nodes[a][i] for a, i in enumerate(idx)]))
                g = row[d]
                what = f'element {el.index} dof {d} (component {c}, cell {idx})'
                if key in num_of and num_of[key][0] != g:
                    bad.append(f'{what} is number {g} but the same cell is number {num_of[key][0]}: {num_of[key][1]}')
                if g in key_of and key_of[g][0] != key:
                    bad.append(f'{what} shares number {g} with another cell: {key_of[g][1]}')
                num_of.setdefault(key, (g, what))
                key_of.setdefault(g, (key, what))
    got = sorted(key_of)
    out = [(f'{lab}: same number exactly for the same cell', bad[:3], [])]
    out.append((f'{lab}: numbers are contiguous from {first}', (got[0], got[-1], len(got)), (first, first + len(got) - 1, len(got))))
    return out


def row_at(row, num, c, idx):
    r"""the symbolic number of cell idx (full index) of component c in a row."""
    lo = 1 if (num.tri and num.comps[c][0][0] == 0 and num.k > 0) else 0
    b = cells.box(num.comps[c][0], num.p)
    shape = (b[0] - lo,) + tuple(b[1:])
    local = (S(idx[0]) - lo if lo else idx[0],) + tuple(idx[1:])
    if isinstance(row, boxes.Arr) and row.ndim == 1:
        return row.at([num.dof(c, idx)])
    parts = row.parts if isinstance(row, boxes.Concat) else [row]
    if num.tri and num.k == 0:
        head, parts = parts[0], parts[1:]
        if isinstance(idx[0], int) and idx[0] == 0:
            v, = list(head)
            return v
        shape, local = (shape[0] - 1,) + shape[1:], (S(idx[0]) - 1,) + tuple(idx[1:])
    if len(parts) != len(num.comps):
        raise Unsupported(f'{len(parts)} parts for {len(num.comps)} components')
    q = parts[c]
    if isinstance(q, boxes.Arr) and q.ndim == 1 and num.n > 1:
        r, st = S(0), S(1)
        for i, s in zip(local, shape):
            r = r + S(i) * st
            st = st * s
        return q.at([r])
    if isinstance(q, boxes.Ravel):
        if q.arr.ndim > 1 and q.order != 'F':
            raise Unsupported('flattened in C order')
        q = q.arr
    if len(q.shape) != len(shape) or not all(boxes.same(x, y) for x, y in zip(q.shape, shape)):
        raise Unsupported('component shape')
    return q.at(list(local))


def entities(num):
    r"""(component, kinds): per axis 0/1 (a node at an end), 'I' (interior nodes), 'E' (edges)."""
    for c, (e, _) in enumerate(num.comps):
        for kinds in itertools.product(*[('E',) if x else (0, 'I', 1) for x in e]):
            if num.tri and kinds[0] == 0 and num.k > 0:
                continue
            yield c, kinds


class Entity:
    def __init__(self, el, num, c, kinds, pts, label):
        self.label = f'{label} element {el.index} component {c} at {kinds}'
        n, p = num.n, num.p
        collapsed = num.tri and kinds[0] == 0
        self.free = [a for a in range(n) if kinds[a] in ('E', 'I') and not (collapsed and a == 1)]
        self.edge = [a for a in range(n) if kinds[a] == 'E']
        ctr = [{0: -1., 1: 1.}.get(x, 0.) for x in kinds]
        if el.mapping is not None:
            at = lambda a, s: pts(el.mapping(*[s if b == a else x for b, x in enumerate(ctr)]))
            self.centre = pts(el.mapping(*ctr))
            self.ends = {a: (at(a, -1.), at(a, 1.)) for a in self.free}
            # ends alone may coincide on periodic meshes: a quarter point orients the axis
            self.quarter = {a: (at(a, -.5), at(a, .5)) for a in self.free}
            self.key = (self.centre, frozenset(q for a in self.edge for q in self.quarter[a]))
        self.len = {a: p[a] if kinds[a] == 'E' else p[a] - 1 for a in range(n) if kinds[a] in ('E', 'I')}
        self.t = {a: boxes.ctx.fresh('t') for a in self.len}
        self.loc = boxes.ranges([(self.t[a], 0, self.len[a]) for a in self.len])
        self.idx = [0 if x == 0 else p[a] if x == 1 else self.t[a] if x == 'E' else self.t[a] + 1 for a, x in enumerate(kinds)]
        self.size = cells.prod([S(self.len[a]) for a in self.free]) if self.free else S(1)

    def value(self, row, num, c):
        with boxes.scope(self.loc):
            self.v = S(row_at(row, num, c, tuple(self.idx)))
        return self.v


def affine(v, ts):
    r"""v = base + sum stride_a t_a, or None."""
    zero = {t: sym.ZERO for t in ts}
    base = sym.subst(v, zero)
    strides = {}
    for t in ts:
        one = dict(zero)
        one[t] = sym.ONE
        strides[t] = sym.subst(v, one) - base
    w = base
    for t in ts:
        w = w + strides[t] * t
    return base, strides, w


def block(ent, label):
    r"""items stating that v is affine, and the interval [start, start + size) it fills bijectively (None: it does not)."""
    ts = [ent.t[a] for a in ent.free]
    every = list(ent.t.values())
    base, st, w = affine(ent.v, every)
    items = [(f'{label}: regular on the entity', ent.v, w, ent.loc)]
    for a in ent.t:
        if a not in ent.free:
            items.append((f'{label}: one number on the collapsed edge', st[ent.t[a]], S(0)))
    for perm in itertools.permutations(ent.free):
        need, start, ok = S(1), base, True
        for a in perm:
            s = st[ent.t[a]]
            if boxes.same(s, need):
                pass
            elif boxes.same(s, -need):
                start = start + s * (S(ent.len[a]) - 1)
            else:
                ok = False
                break
            need = need * S(ent.len[a])
        if ok:
            return items, start
    return items + [(f'{label}: consecutive numbers', False, True)], None


def pkey(x):
    num, den = sym.nf(S(x))
    return frozenset(num.items()), tuple(sorted(den.items())) if den else ()


def tiling(label, blocks, first, last=None, at_most=200000):
    r"""the blocks (start, size) follow each other from `first` (to `last`)."""
    by = {}
    for b in blocks:
        by.setdefault(pkey(b[0]), []).append(b)
    cur, used = S(first), 0
    while by.get(pkey(cur)):
        b = by[pkey(cur)].pop()
        cur = cur + S(b[1])
        used += 1
    out = [(f'{label}: blocks following each other from {first!r}', used, len(blocks))]
    if last is not None:
        out.append((f'{label}: the next free number', S(last), cur))
    return out, cur


def symbolic_items(lab, rows, els, n, k, ori, p, tol=1e-6, periods=None):
    r"""rows[e]: symbolic row of element e."""
    pts = Points(n, tol, periods)
    out, known, blocks = [], {}, []
    for el in els:
        num = cells.Numbering(n, k, ori, p, el.tri)
        for c, kinds in entities(num):
            ent = Entity(el, num, c, kinds, pts, lab)
            if any(isinstance(x, int) and x == 0 for x in ent.len.values()) or boxes.empty(ent.loc):
                continue        # no interior nodes of degree 1 on this path
            ent.value(rows[el.index], num, c)
            if ent.key not in known:
                items, start = block(ent, ent.label)
                out += items
                known[ent.key] = ent
                blocks.append((start if start is not None else S(-1), ent.size))
                continue
            first = known[ent.key]
            env = {}
            for a in first.free:    # position on the first as a function of the position here
                hit = None
                for b in ent.free:
                    if first.quarter[a] == ent.quarter[b]:
                        hit = ent.t[b]
                    elif first.quarter[a] == ent.quarter[b][::-1]:
                        hit = S(ent.len[b]) - 1 - ent.t[b]
                if hit is None:
                    raise Unsupported(f'{ent.label}: cannot be matched')
                env[first.t[a]] = hit
            for a in first.t:
                if a not in first.free:
                    env[first.t[a]] = sym.ZERO
            out.append((f'{ent.label}: same numbers as {first.label}', ent.v, sym.subst(first.v, env), ent.loc))
    t, total = tiling(lab, blocks, 0)
    return out + t, total
