# -*- coding: utf-8 -*-
r"""A small evolution problem taken through the whole chain (pde, weak form, time discretization, matrix proxy, linear system), with its hand-made reference.

    da/dt = d b,   db/dt = - d* a,    a an outer n-form, b an outer (n-1)-form;   star a given on part of the boundary (natural), b on the rest (essential)
"""
import numpy as np
from scipy import sparse as sp
import phyem as ph

ph.config.set_pr_cache(False)
GA, GB = r"\Gamma_{\alpha}", r"\Gamma_{\beta}"


class Problem:
    r"""instants: where d b is taken (of 'k-1', 'k': one of them, or the mean of both), where a in the second equation is, where star a on the boundary is."""
    def __init__(self, lib, n, p, layout, natural, cfg=None, b_at=('k-1', 'k'), a_at=('k-1', 'k'), bc_at='k-1/2', times=(0, 1, 10), signs=('+', '-'), ts_adaptive=1):
        self.lib, self.n, self.p, self.natural, self.signs = lib, n, p, natural, signs
        self.b_at, self.a_at, self.bc_at = b_at, a_at, bc_at
        ph.config.set_embedding_space_dim(n)
        manifold = ph.manifold(n)
        mesh = ph.mesh(manifold)
        ph.space.set_mesh(mesh)
        Out1 = ph.space.new('Lambda', n - 1, orientation='outer')
        Out2 = ph.space.new('Lambda', n, orientation='outer')
        a, b = Out2.make_form(r'\tilde{\alpha}', 'variable1'), Out1.make_form(r'\tilde{\beta}', 'variable2')
        da_dt, db_dt, cd_a, d_b = a.time_derivative(), b.time_derivative(), a.codifferential(), b.exterior_derivative()
        pde = ph.pde([f'da_dt = {signs[0]} d_b', f'db_dt = {signs[1]} cd_a'], dict(da_dt=da_dt, db_dt=db_dt, cd_a=cd_a, d_b=d_b))
        pde.unknowns = [a, b]
        pde.bc.partition(GA, GB)
        pde.bc.define_bc({GA: ph.trace(ph.Hodge(a)), GB: ph.trace(b)})
        wf = pde.test_with([Out2, Out1], sym_repr=['p', 'q'])
        wf = wf.derive.integration_by_parts('1-1')
        wf = wf.derive.rearrange({0: '0, 1 = ', 1: '0, 1, 2 = '})
        self.ts = ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', b, list(b_at))
        td.differentiate('1-0', 'k-1', 'k')
        td.average('1-1', a, list(a_at))
        td.average('1-2', a, [bc_at])
        wf = td()
        wf.unknowns = [a @ ts['k'], b @ ts['k']]
        wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('1-0', 'f0', [b @ ts['k'], b @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        if len(b_at) == 2:
            wf = wf.derive.split('0-2', 'f0', [(b @ ts['k']).exterior_derivative(), (b @ ts['k-1']).exterior_derivative()], ['+', '+'], factors=[1 / 2, 1 / 2])
        if len(a_at) == 2:
            wf = wf.derive.split('1-2', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '+'], factors=[1 / 2, 1 / 2])
        l0, l1 = {2: ('0, 2', '1, 3'), 1: ('0, 2', '1') if b_at == ('k',) else ('0', '1, 2')}[len(b_at)], \
            {2: ('2, 0', '3, 1, 4'), 1: ('2, 0', '1, 3') if a_at == ('k',) else ('0', '2, 1, 3')}[len(a_at)]
        wf = wf.derive.rearrange({0: ' = '.join(l0), 1: ' = '.join(l1)})
        ph.space.finite(p)
        ls = wf.mp().ls()
        self.im, ob = im, ob = ph.fem.apply({'msehtt': 'msehtt-s'}.get(lib, lib), dict(manifold=manifold, mesh=mesh, a=a, b=b, ls=ls, pde=pde, wf=wf))
        cfg = cfg or ('crazy', dict(c=0., bounds=([0, 1],) * n))
        if lib == 'msepy':
            self.ga, self.gb = im.base['manifolds'][GA], im.base['manifolds'][GB]
            im.config(ob['manifold'])(cfg[0], periodic=False, **cfg[1])
            im.config(self.ga)(ob['manifold'], {0: list(natural)})
            im.config(ob['mesh'])(list(layout))
            self.mesh = ob['mesh']
            self.E = list(range(int(np.prod(layout))))
        else:
            tgm = im.tgm()
            im.config(tgm)(cfg[0], element_layout=layout and list(layout), **cfg[1])
            m = im.base['meshes'][mesh._sym_repr]
            im.config(m)(tgm, including='all')
            ms = {x.abstract.manifold._sym_repr: x for x in im.base['meshes'].values()}
            self.ga, self.gb = ms[GA], ms[GB]
            normals = [[s if i == ax else 0 for i in range(n)] for ax in range(n) for s in (-1, 1)]
            for g, want in ((self.ga, 1), (self.gb, 0)):
                im.config(g)(tgm, including={'type': 'boundary_section', 'partial elements': m, 'ounv': tuple(v for v, x in zip(normals, natural) if x == want)})
            self.mesh, self.tgm = m, tgm
            self.E = list(tgm.elements)
            if lib == 'msehtt-a':
                for x in ms.values():       # the whole boundary (trace spaces)
                    if x not in (m, self.ga, self.gb): im.config(x)(tgm, including={'type': 'boundary_section', 'partial elements': m, 'ounv': tuple(normals)})
                im.initialize(ts=ts_adaptive)
        self.layout = layout
        ts.specify('constant', list(times), 2)
        self.dt = (times[1] - times[0]) / times[2] * 2
        self.t0 = times[0]
        self.a, self.b, self.ls = ob['a'], ob['b'], ob['ls']
        if lib == 'msehtt-a': self.top = ob
        self.look()

    def look(self):
        r"""(adaptive: at the newest generation.)"""
        if self.lib == 'msehtt-a':
            self.a, self.b = self.top['a'].current, self.top['b'].current
            self.E = list(self.mesh.current.composition)
            self.tgm = self.mesh.current.tgm
        self.gm = {'a': self.a.cochain.gathering_matrix, 'b': self.b.cochain.gathering_matrix}

    def time(self, name, k): return self.t0 + self.dt * (k + {'k-1': -1, 'k': 0, 'k-1/2': -.5}[name])

    def rows(self, f): return {e: np.array(self.gm[f][e]) for e in self.E}

    def local(self, f, what):
        r"""dense local matrices: 'mass' or 'd'."""
        form = getattr(self, f)
        if self.lib == 'msepy':
            M = form.space.mass_matrix(form.degree) if what == 'mass' else form.space.incidence_matrix(form.degree)
            return {e: (M if sp.issparse(M) else M[e] if isinstance(M, dict) else M(e)).toarray() for e in self.E}
        M = form.space.mass_matrix(form.degree)[0] if what == 'mass' else form.space.incidence_matrix(form.degree)[0]
        return {e: M[e].toarray() for e in self.E}

    def set(self, f, t, values):
        form = getattr(self, f)
        if self.lib == 'msepy':
            form[t].cochain = np.array([values[r] for r in self.rows(f).values()])
        else:
            form[t].cochain = {e: values[r] for e, r in self.rows(f).items()}

    def get(self, f, t):
        c = getattr(self, f)[t].cochain
        out = np.full(self.size(f), np.nan)
        for e, r in self.rows(f).items():
            out[r] = c.local[e] if self.lib == 'msepy' else c[e]
        return out

    def size(self, f): return 1 + max(int(r.max()) for r in self.rows(f).values())

    def side(self, f, m, s):
        r"""{global dof: (element, local dof)} of the dofs of form b on the side m- (s = 0), m+ (s = 1) of the (straight) domain."""
        out, form = {}, getattr(self, f)
        for e in self.boundary_elements(m, s):
            if self.lib == 'msepy':
                loc = form._find_local_dofs_on(m, s)
            else:
                loc = self.tgm.elements[e].find_local_dofs_on_face(form.space.str_indicator, form.degree, 2 * m + s, component_wise=False)
            out.update({int(self.rows(f)[e][i]): (e, int(i)) for i in loc})
        return out

    def boundary_elements(self, m, s):
        want = 1. if s else 0.
        return [e for e in self.E if abs(self.corner(e, 1. if s else -1.)[m] - want) < 1e-9]

    def raw(self, k, natural_vec, a0, b0):
        r"""A, rhs of the unknowns (a, b) at time k, as the scheme reads; natural_vec: <tr star a | tr q> of the dofs of b."""
        na, nb, dt = self.size('a'), self.size('b'), self.dt
        ra, rb = self.rows('a'), self.rows('b')
        Ma, Mb, D = (self.local(*x) for x in (('a', 'mass'), ('b', 'mass'), ('b', 'd')))

        def add(shape, blocks, r, c):
            out = np.zeros(shape)
            for e in self.E:
                np.add.at(out, np.ix_(r[e], c[e]), blocks[e])
            return out
        MA, MB = add((na, na), Ma, ra, ra), add((nb, nb), Mb, rb, rb)
        MD = add((na, nb), {e: Ma[e] @ D[e] for e in self.E}, ra, rb)
        w = lambda at: {2: (.5, .5), 1: (0., 1.) if at == ('k',) else (1., 0.)}[len(at)]
        (b_old, b_new), (a_old, a_new) = w(self.b_at), w(self.a_at)
        s0, s1 = (1. if s == '+' else -1. for s in self.signs)
        # (a_k - a_o)/dt = s0 d b:  tested with p;  (b_k - b_o)/dt = s1 d* a:  (d* a, q) = (a, d q) - <tr star a | tr q>
        A = np.block([[MA / dt, -s0 * b_new * MD], [-s1 * a_new * MD.T, MB / dt]])
        rhs = np.concatenate([MA @ a0 / dt + s0 * b_old * MD @ b0, MB @ b0 / dt + s1 * a_old * MD.T @ a0 - s1 * natural_vec])
        return A, rhs

    def permutation(self, static_ls):
        r"""where (a dofs, b dofs) are in the assembled system."""
        G, na = static_ls.global_gathering_matrices[0], self.size('a')
        out = np.full(na + self.size('b'), -1)
        for e in self.E:
            g = np.array(G[e])
            ref = np.concatenate([self.rows('a')[e], na + self.rows('b')[e]])
            assert all(out[r] in (-1, x) for r, x in zip(ref, g)) and len(ref) == len(g)
            out[ref] = g
        assert sorted(out) == list(range(len(out)))
        return out

    def natural_vector(self, func, t):
        r"""<tr star a | tr q> on the unit box with straight elements of a uniform layout, by its own quadrature: func(t, x, y[, z])."""
        import itertools
        gx, gw = np.polynomial.legendre.leggauss(self.p + 4)
        eb = edges(self.p, gx)
        out = np.zeros(self.size('b'))
        for m in range(self.n):
            for s in (0, 1):
                if not self.natural[2 * m + s]:
                    continue
                dofs = self.side('b', m, s)
                per = {}
                for D, (e, i) in dofs.items():
                    per.setdefault(e, []).append((i, D))
                for e, l in per.items():
                    lo, hi = self.corner(e, -1.), self.corner(e, 1.)
                    for (i, D), ix in zip(sorted(l), itertools.product(range(self.p), repeat=self.n - 1)):
                        js = ix[::-1]       # the first tangent direction is fastest
                        v = 0.
                        for q in itertools.product(range(len(gx)), repeat=self.n - 1):
                            ref = [gx[a] for a in q]
                            ref.insert(m, 1. if s else -1.)
                            x = [(h + l_) / 2 + (h - l_) / 2 * r for l_, h, r in zip(lo, hi, ref)]
                            v += np.prod([gw[a] * eb[j][a] for a, j in zip(q, js)]) * func(t, *x)
                        out[D] += v if s else -v
        return out

    def corner(self, e, s):
        xi = [np.array([s])] * self.n
        if self.lib == 'msepy':
            return [(i + (s + 1) / 2) / l for i, l in zip(np.unravel_index(e, self.layout, order='F'), self.layout)]
        x = self.tgm.elements[e].ct.mapping(*xi)
        return [float(np.ravel(c)[0]) for c in x]


class Half:
    r"""1 on one side of a line, 0 on the other (it can be pickled)."""
    def __init__(self, axis, at, sign): self.axis, self.at, self.sign = axis, at, sign

    def __call__(self, x, y):
        v = self.sign * ((x, y)[self.axis] - self.at)
        return np.where(v > 0, 1., 0.) if np.ndim(v) else float(v > 0)

    def __repr__(self): return f"{'-' if self.sign < 0 else ''}({'xy'[self.axis]} - {self.at}) > 0"


def edges(p, x):
    r"""edge polynomials of the Lobatto nodes of degree p at x."""
    L = np.polynomial.legendre.Legendre.basis(p)
    nodes = np.concatenate([[-1.], np.sort(L.deriv().roots().real), [1.]])
    d = []
    for j in range(p + 1):
        roots = np.delete(nodes, j)
        d.append((np.polynomial.Polynomial.fromroots(roots) / np.prod(nodes[j] - roots)).deriv()(x))
    return [-sum(d[:i + 1]) for i in range(p)]
