# -*- coding: utf-8 -*-
r"""The specification: the tensor-product cell complex of an element and its numbering.

A k-cell is a component (which axes are edges) and an index per axis (0..p for a node axis, 0..p-1 for an edge axis).
Component orientations: 3d 2-forms (dydz, dzdx, dxdy); outer 2d 1-forms are u dy - v dx (fluxes).
`tri`: the collapsed element; xi = -1 is one point: one node, no edges along eta.
"""
import itertools
import numpy as np
from . import sym

_E = {(1, 0): [((0,), 1)], (1, 1): [((1,), 1)],
      (2, 0): [((0, 0), 1)], (2, 1, 'inner'): [((1, 0), 1), ((0, 1), 1)], (2, 1, 'outer'): [((0, 1), 1), ((1, 0), -1)],
      (2, 2): [((1, 1), 1)],
      (3, 0): [((0, 0, 0), 1)], (3, 1): [((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1)],
      (3, 2): [((0, 1, 1), 1), ((1, 0, 1), -1), ((1, 1, 0), 1)], (3, 3): [((1, 1, 1), 1)]}


def comps(n, k, ori='outer'):
    return _E.get((n, k)) or _E[(n, k, ori)]


def box(c, p):
    r"""the index box of a component (edges tuple)."""
    return tuple(q if e else q + 1 for e, q in zip(c, p))


def prod(t):
    r = 1
    for x in t:
        r = r * x
    return r


class Numbering:
    r"""contiguous components, first axis fastest."""

    def __init__(self, n, k, ori, p, tri=False):
        self.n, self.k, self.ori, self.p, self.tri = n, k, ori, p, tri
        self.comps = comps(n, k, ori)
        self.shapes, self.starts = [], []
        s = 0
        if tri and k == 0:
            s = 1
        for e, _ in self.comps:
            b = box(e, p)
            if tri and e[0] == 0:
                b = (b[0] - 1,) + b[1:]
            self.shapes.append(b)
            self.starts.append(s)
            s = s + prod(b)
        self.total = s

    def dof(self, c, idx):
        r"""number of cell idx (full tensor index) of component c; None where the cell is degenerate."""
        e = self.comps[c][0]
        i0 = idx[0]
        if self.tri and e[0] == 0:
            if i0 == 0:
                return 0 if self.k == 0 else None
            i0 = i0 - 1
        r, st = self.starts[c] + i0, self.shapes[c][0]
        for a in range(1, self.n):
            r = r + idx[a] * st
            st = st * self.shapes[c][a]
        return r


def boundary(n, k, ori, c):
    r"""the faces of a (k+1)-cell of component c: [(component of the k-form, offset, sign)]."""
    e, s = comps(n, k + 1, ori)[c]
    low = comps(n, k, ori)
    out = []
    for a in range(n):
        if e[a]:
            f = tuple(0 if b == a else x for b, x in enumerate(e))
            d = [x for x, _ in low].index(f)
            g = s * low[d][1] * (-1) ** sum(e[:a])
            for o, t in ((0, -1), (1, 1)):
                out.append((d, tuple(o if b == a else 0 for b in range(n)), g * t))
    return out


def incidence(n, k, ori, p, tri=False):
    r"""the dense coboundary matrix (concrete p)."""
    S, D = Numbering(n, k, ori, p, tri), Numbering(n, k + 1, ori, p, tri)
    E = np.zeros((D.total, S.total), dtype=int)
    for c, (e, _) in enumerate(D.comps):
        for idx in itertools.product(*[range(x) for x in box(e, p)]):
            r = D.dof(c, idx)
            if r is None:
                continue
            for d, off, g in boundary(n, k, ori, c):
                q = S.dof(d, tuple(i + o for i, o in zip(idx, off)))
                if q is not None:
                    E[r, q] += g
    return E


def array(num, c):
    r"""the concrete array of component c's numbers (with the degenerate row for triangles' nodes)."""
    e = num.comps[c][0]
    b = box(e, num.p)
    lo = 1 if (num.tri and e[0] == 0 and num.k > 0) else 0
    out = np.zeros((b[0] - lo,) + b[1:], dtype=int)
    for idx in np.ndindex(*out.shape):
        out[idx] = num.dof(c, (idx[0] + lo,) + idx[1:])
    return out


def face_cells(n, k, ori, m):
    r"""components of the dofs on a face normal to axis m."""
    return [c for c, (e, _) in enumerate(comps(n, k, ori)) if not e[m]]
