r"""real meshes with all spaces of forms on them."""
import numpy as np
import phyem as ph
from pv import geo, refel, terms

LAMBDAS = {1: [(0, 'outer'), (1, 'outer')],
           2: [(0, 'inner'), (0, 'outer'), (1, 'inner'), (1, 'outer'), (2, 'inner'), (2, 'outer')],
           3: [(0, 'outer'), (1, 'outer'), (2, 'outer'), (3, 'outer')]}
SP = lambda n: {f'{"iota"[0] if o == "inner" else "o"}{k}': (k, o) for k, o in LAMBDAS[n]}


# ---- fields ------------------------------------------------------------------------------------------------------------------
def _poly(n, seed):
    a = np.random.default_rng(seed).uniform(-1, 1, 12)
    if n == 1: return lambda t, x: a[0] + t * a[1] * x + a[2] * x ** 2
    if n == 2: return lambda t, x, y: a[0] + t * a[1] * x + a[2] * y + a[3] * x ** 2 + a[4] * x * y + a[5] * y ** 2 * t
    return lambda t, x, y, z: a[0] + t * a[1] * x + a[2] * y + a[6] * z + a[3] * x ** 2 + a[4] * x * y * t + a[5] * y * z + a[7] * z * z + a[8] * x * z


def field(n, k, seed=0):
    r"""(vector calculus object, [component functions])."""
    if k in (0, n):
        c = [_poly(n, seed)]
        return ph.vc.scalar(c[0]), c
    c = [_poly(n, seed + 7 * i) for i in range(n)]
    return ph.vc.vector(*c), c


# ---- real discrete forms -----------------------------------------------------------------------------------------------------
class W:
    r"""one mesh, all spaces of forms on it."""
    def __init__(self, lib, name, p, nodup=False):
        conf = (terms.py_config if lib == 'msepy' else terms.htt_config)(name)
        self.lib, self.name, self.n = lib, name, conf[0]
        old = geo.MSEPY, geo.MSEHTT
        geo.MSEPY, geo.MSEHTT = geo.MSEPY + terms.MORE_PY, geo.MSEHTT + terms.MORE_HTT
        try: _, self.ms, self.obj = (geo.build_msepy if lib == 'msepy' else geo.build_msehtt)(name, SP(self.n), p)
        finally: geo.MSEPY, geo.MSEHTT = old
        self.p, self.memo = p, {}
        if lib == 'msepy':
            self.mesh = self.obj['mesh']
            self.elements = self.mesh.elements
            self.range = list(range(self.elements._num))
        else:
            self.elements = self.obj['tgm'].elements
            self.range = [e for e in self.elements]

    def mapping(self, e, q):
        if self.lib == 'msepy':
            key = tuple(a.tobytes() for a in q)
            if key not in self.memo: self.memo[key] = [np.asarray(a) for a in self.mesh.ct.mapping(*q)]
            return [a[..., e] for a in self.memo[key]]
        return self.elements[e].ct.mapping(*q)

    def space(self, k, ori): return refel.Space(self.lib, self.n, k, ori, self.p, self.elements, self.mapping)
    def forms(self):
        for a, (k, o) in SP(self.n).items(): yield a, k, o, self.obj[a]

    def types(self): return {self.elements[e].etype for e in self.range} if self.lib == 'msehtt' else {'msepy'}
    def random(self, f, k, o, seed=0):
        rng = np.random.default_rng(seed)
        if self.lib == 'msepy':
            g = rng.uniform(-1, 1, f.cochain.gathering_matrix.num_dofs)
            return g[np.asarray(f.cochain.gathering_matrix._gm)]
        gm = f.cochain.gathering_matrix
        g = rng.uniform(-1, 1, gm.num_global_dofs)
        return {e: g[np.asarray(gm[e], dtype=int)] for e in self.range}


NOT = 'not implemented'


def attempt(fn):
    r"""a stated absence (NotImplementedError) is no violation."""
    try: return fn()
    except NotImplementedError: return None


def some(w, seed=0, most=6):
    r"""a sample of the elements, with one of every kind."""
    if len(w.range) <= most: return w.range
    if w.lib == 'msepy':
        rng = np.random.default_rng(seed)
        return sorted({w.range[0], w.range[-1], *[int(x) for x in rng.choice(w.range, most - 2, replace=False)]})
    kinds = {}
    for e in w.range: kinds.setdefault((w.elements[e].etype, str(w.elements[e].dof_reverse_info)), []).append(e)
    out = []
    for es in kinds.values(): out += [es[0], es[-1]]
    return sorted(set(out))[:2 * most]


def points(w, f, c, nodes, t=1.):
    r"""the library's reconstruction: {element: (coordinates, values)}, points first axis fastest."""
    n = w.n
    if w.lib == 'msepy':
        f[t].cochain = c
        X, V = f.space.reconstruct(f.cochain[t].local, f.degree, *nodes, **({} if n == 1 else {'ravel': True}))
        return {e: ([np.asarray(a)[e].ravel() for a in X], [np.asarray(a)[e].ravel() for a in V]) for e in w.range}
    X, V = f.space.reconstruct(f.degree, c, *nodes, ravel=True)
    return {e: ([a[e] for a in X], [a[e] for a in V]) for e in w.range}


def mesh_form(w, f, c, nodes):
    r"""the same, not ravelled."""
    if w.lib == 'msepy':
        X, V = f.space.reconstruct(c, f.degree, *nodes, ravel=False)
        return {e: ([np.asarray(a)[e].ravel('F') for a in X], [np.asarray(a)[e].ravel('F') for a in V], np.asarray(V[0])[e].shape) for e in w.range}
    X, V = f.space.reconstruct(f.degree, c, *nodes, ravel=False)
    return {e: ([a[e].ravel('F') for a in X], [a[e].ravel('F') for a in V], np.shape(V[0][e])) for e in w.range}


def own_nodes(n, seed=3):
    rng = np.random.default_rng(seed)
    return [np.sort(np.concatenate([rng.uniform(-1, 1, 2 + d), [-1., 1.][:d % 2 + 1] if d else []])) for d in range(n)]
