# -*- coding: utf-8 -*-
r"""Reference: what a discrete form on a real mesh is, by definition (numeric): tensor-product basis of an element, pulled back by the element's mapping."""
import numpy as np
from . import geo, cells

QUAD_FACES = {i: (i // 2, i % 2) for i in range(6)}


def lobatto(p):
    if p == 1: return np.array([-1., 1.])
    c = np.zeros(p + 1)
    c[p] = 1
    d = np.polynomial.legendre.legder(c)
    r = np.sort(np.real(np.polynomial.legendre.legroots(d)))
    for _ in range(3): r = r - np.polynomial.legendre.legval(r, d) / np.polynomial.legendre.legval(r, np.polynomial.legendre.legder(d))
    return np.concatenate([[-1.], r, [1.]])


def lobatto_rule(p):
    c = np.zeros(p + 1)
    c[p] = 1
    x = lobatto(p)
    return x, 2 / (p * (p + 1) * np.polynomial.legendre.legval(x, c) ** 2)


def gauss(p): return np.polynomial.legendre.leggauss(p + 1)


def node_basis(nodes, x):
    out = []
    for i in range(len(nodes)):
        v = np.ones_like(x)
        for j in range(len(nodes)):
            if j != i: v = v * (x - nodes[j]) / (nodes[i] - nodes[j])
        out.append(v)
    return np.array(out)


def edge_basis(nodes, x):
    D = []
    for i in range(len(nodes)):
        c = np.poly([nodes[j] for j in range(len(nodes)) if j != i]) / np.prod([nodes[i] - nodes[j] for j in range(len(nodes)) if j != i])
        D.append(np.polyval(np.polyder(c), x))
    D = np.array(D)
    return np.array([-D[:i + 1].sum(0) for i in range(len(nodes) - 1)])


def grid(nodes):
    g = np.meshgrid(*nodes, indexing='ij')
    return [a.ravel('F') for a in g]


def wgrid(ws): return np.prod(grid(ws), axis=0)


class Rule:
    def __init__(self, rules):
        self.nodes = [r[0] for r in rules]
        self.pts, self.w = grid(self.nodes), wgrid([r[1] for r in rules])


class Space:
    r"""k-forms of degree p (int or tuple) on a real mesh."""
    def __init__(self, lib, n, k, ori, p, elements, mapping):
        self.lib, self.n, self.k, self.ori, self.elements, self._map = lib, n, k, ori, elements, mapping
        p = (p,) * n if isinstance(p, int) else tuple(p)
        self.pp = tuple(q if isinstance(q, int) else len(q) for q in p)
        self.own = [not isinstance(q, int) for q in p]         # directions of customized nodes (relative sizes of their intervals)
        self.nodes = [lobatto(q) if isinstance(q, int) else 2 * np.cumsum([0, *q]) / sum(q) - 1 for q in p]
        self.comps = [c for c, _ in cells.comps(n, k, ori)]

    def tri(self, e): return self.lib == 'msehtt' and self.elements[e].etype in geo.TRI_TYPES
    def num(self, e): return cells.Numbering(self.n, self.k, self.ori, self.pp, self.tri(e))

    def flips(self, e):
        r"""local dofs whose function is reversed."""
        if self.lib != 'msehtt': return set()
        ind = f'm{self.n}n{self.n}k{self.k}' + (f'_{self.ori}' if (self.n, self.k) == (2, 1) else '')
        rev = self.elements[e].dof_reverse_info
        out, N = set(), self.num(e)
        for f in rev.get(ind, ()):
            ax, side = (geo.TRI_FACE if self.tri(e) else QUAD_FACES)[f]
            for c, ed in enumerate(self.comps):
                if not ed[ax]:
                    for idx in np.ndindex(*cells.box(ed, self.pp)):
                        if idx[ax] == (self.pp[ax] if side else 0):
                            d = N.dof(c, idx)
                            if d is not None: out.add(d)
        return out

    def basis(self, e, pts):
        r"""[component] -> (dofs, points); zero rows for the dofs of the other components."""
        N, fl = self.num(e), self.flips(e)
        out = []
        for c, ed in enumerate(self.comps):
            tab = [(edge_basis if x else node_basis)(self.nodes[a], pts[a]) for a, x in enumerate(ed)]
            B = np.zeros((N.total, len(pts[0])))
            for idx in np.ndindex(*cells.box(ed, self.pp)):
                d = N.dof(c, idx)
                if d is None: continue
                v = np.prod([t[i] for t, i in zip(tab, idx)], axis=0)
                B[d] += -v if d in fl else v
            out.append(B)
        return out

    def x(self, e, pts): return np.array(self._map(e, pts), dtype=float)

    def J(self, e, pts):
        r"""(points, i, j): inward one-sided differences of the mapping."""
        h, cols = 1e-3, []
        for j in range(self.n):
            s = np.where(pts[j] > 0, -h, h)
            acc = 0
            for m, c in enumerate((-147, 360, -450, 400, -225, 72, -10)):
                q = [a.copy() for a in pts]
                q[j] = q[j] + m * s
                acc = acc + c * self.x(e, q)
            cols.append(acc / (60 * s))
        return np.moveaxis(np.array(cols), -1, 0).swapaxes(1, 2)

    def push(self, J, v):
        r"""reference components (comp, ..., points) -> physical ones."""
        n, k = self.n, self.k
        det = np.linalg.det(J)
        if k == 0: return v
        if k == n: return v / det
        if k == 1 and not (n == 2 and self.ori == 'outer'): return np.einsum('pba,b...p->a...p', np.linalg.inv(J), v)
        return np.einsum('pab,b...p->a...p', J / det[:, None, None], v)

    def pull(self, J, u):
        n, k = self.n, self.k
        det = np.linalg.det(J)
        if k == 0: return u
        if k == n: return u * det
        if k == 1 and not (n == 2 and self.ori == 'outer'): return np.einsum('pba,b...p->a...p', J, u)
        return np.einsum('pab,b...p->a...p', np.linalg.inv(J) * det[:, None, None], u)

    def matrix(self, e, pts): return self.push(self.J(e, pts), np.array(self.basis(e, pts)))      # (comp, dofs, points)
    def values(self, e, c, pts): return np.einsum('adp,d->ap', self.matrix(e, pts), c)

    def mass(self, e, rule):
        M = self.matrix(e, rule.pts)
        return np.einsum('aip,ajp,p->ij', M, M, rule.w * np.abs(np.linalg.det(self.J(e, rule.pts))))

    def integral(self, e, values, rule):
        return float(np.sum(values * rule.w * np.abs(np.linalg.det(self.J(e, rule.pts)))))

    def reduction(self, e, fn, N=12):
        r"""dof = the integral of the pulled-back field over the cell."""
        num, fl = self.num(e), self.flips(e)
        gx, gw = gauss(N)
        out = np.zeros(num.total)
        for c, ed in enumerate(self.comps):
            for idx in np.ndindex(*cells.box(ed, self.pp)):
                d = num.dof(c, idx)
                if d is None: continue
                ax, ws = [], []
                for a, x in enumerate(ed):
                    t = self.nodes[a]
                    if x:
                        lo, hi = t[idx[a]], t[idx[a] + 1]
                        ax.append((lo + hi) / 2 + (hi - lo) / 2 * gx)
                        ws.append(gw * (hi - lo) / 2)
                    else:
                        ax.append(t[idx[a]:idx[a] + 1])
                        ws.append(np.ones(1))
                pts, w = grid(ax), wgrid(ws)
                X = self.x(e, pts)
                u = np.array([np.broadcast_to(q, X[0].shape) for q in fn(*X)], dtype=float)
                v = u[0] if self.k == 0 else self.pull(self.J(e, pts), u)[c]
                out[d] = (-1 if d in fl else 1) * np.sum(v * w)
        return out
