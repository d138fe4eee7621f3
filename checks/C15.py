r"""C15: local matrix and vector algebra, assembling, fixing dofs, boundary rows, linear systems."""
import itertools
import traceback
import numpy as np
from scipy import sparse as sp
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import geo
import pv.run as R

check = Check('C15', trusted=['scipy.sparse: products, sums, transposes, bmat, tolil/tocsr and the sum of duplicate (row, col, value) triples',
                              'one MPI rank'])
PG = 'phyem.msepy.tools.gathering_matrix:RegularGatheringMatrix'
HG = 'phyem.msehtt.tools.gathering_matrix:MseHttGatheringMatrix'
HM, HV = 'phyem.msehtt.tools.matrix.static.local:', 'phyem.msehtt.tools.vector.static.local:'
PM, PV = 'phyem.msepy.tools.matrix.static.local:', 'phyem.msepy.tools.vector.static.local:'
HTT = dict(G=HG, M=HM + 'MseHttStaticLocalMatrix', bmat=HM + 'bmat', V=HV + 'MseHttStaticLocalVector', cat=HV + 'concatenate')
PY = dict(G=PG, M=PM + 'MsePyStaticLocalMatrix', bmat=PM + 'bmat', V=PV + 'MsePyStaticLocalVector', cat=PV + 'concatenate')


class Lib:
    r"""one implementation; numbers: a random numbering {element: numbers} of n dofs; a number may be twice in an element (a periodic direction one element wide)."""
    def __init__(self, rng, htt):
        self.rng, self.htt = rng, htt
        for k, v in (HTT if htt else PY).items():
            setattr(self, k, get(v))
        m = int(rng.integers(2, 6))
        self.E = [int(x) for x in rng.permutation(9)[:m]] if htt else list(range(m))

    def numbers(self, equal=None, repeat=None):
        rng, out, n = self.rng, {}, 0
        m = int(rng.integers(2, 5))
        rep = rng.random() < .2 if repeat is None else repeat
        for e in self.E:
            size = int(rng.integers(1, 5)) if self.htt and not equal else m
            old = [int(x) for x in rng.permutation(n)[:int(rng.integers(0, min(n, size) + 1))]]
            r = old + list(range(n, n + size - len(old)))
            n += size - len(old)
            if rep:      # a periodic direction one element wide: a number may be at two places of an element
                r += [int(rng.choice(r))]
            out[e] = np.array([r[i] for i in rng.permutation(len(r))])
        p = rng.permutation(n)
        out = {e: p[out[e]] for e in out}
        g = self.G(dict(out)) if self.htt else self.G(np.array([out[e] for e in self.E]))
        return g, out, n

    def matrix(self, r, c, keyed=None):
        r"""a local matrix on numberings r, c and its dense blocks; elements with the same key have the same data."""
        rng = self.rng
        keyed = keyed or rng.choice(['none', 'unique', 'dict', 'callable', 'constant'])
        (g0, r, _), (g1, c, _) = r, c
        kind, data, key = {}, {}, {}
        for e in self.E:
            s = (len(r[e]), len(c[e]))
            k = (s, int(rng.integers(0, 2)) if keyed != 'constant' or self.htt else 0)
            if k not in kind:
                A = np.round(rng.uniform(-2, 2, s), 3) * (rng.random(s) < .7)
                kind[k] = (A, rng.choice(['1', '11', 'a', 'ab', '1a', "1', '1"]) + 'x' * len(kind))
            data[e], key[e] = kind[k]
        fmt = rng.choice([sp.csr_matrix, sp.csc_matrix])
        spa = {e: fmt(data[e]) for e in self.E}
        if keyed in ('none', 'unique'):
            K = None if keyed == 'none' else 'unique'
            D = dict(spa) if self.htt or K is None else spa.__getitem__
        elif keyed == 'dict' and self.htt:
            K, D = dict(key), dict(spa)
        elif keyed == 'constant' and not self.htt:
            K, D = None, spa[self.E[0]]
        else:
            K, D = key.__getitem__, spa.__getitem__
        M = self.M(D, g0, g1, cache_key=K) if K is not None or self.htt else self.M(D, g0, g1)
        return M, data, spa

    def vector(self, r):
        g, r, _ = r
        data = {e: np.round(self.rng.uniform(-2, 2, len(r[e])), 3) for e in self.E}
        own = {e: data[e].copy() for e in data} if self.htt else np.array([data[e] for e in self.E])
        kind = self.rng.choice(['data', 'call', 'number'])
        if kind == 'number':
            x = float(self.rng.choice([0., 1.5, 2.]))
            return self.V(x, g), {e: np.full(len(r[e]), x) for e in self.E}, None
        if kind == 'call':
            return self.V(lambda e: data[e].copy(), g), data, None
        return self.V(own, g), data, own

    def fns(self, mk):
        M, V = self.M, self.V
        mk.fn(M.__init__, M.__getitem__, M.__neg__, M.__rmul__, M.__add__, M.__matmul__, V.__neg__, V.__add__, V.__rmul__, V.__getitem__,
              self.bmat, self.cat, M.T.fget)


def dense(M, E): return {e: M[e].toarray() for e in E}


def mat_items(lab, M, want, E, rng):
    r"""each element read twice, in any order."""
    order = [int(e) for e in rng.permutation(E)]
    out = [(f'{lab} [{e}]', M[e].toarray() if M[e].shape == want[e].shape else M[e].shape, want[e]) for e in order]
    return out + [(f'{lab} [{e}] again', M[e].toarray(), want[e]) for e in order[::-1]]


def vec_items(lab, v, want, E, rng): return [(f'{lab} [{e}]', v[e], want[e]) for e in [int(x) for x in rng.permutation(E)]]


def algebra(htt):
    def scn(mk):
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
        out = []
        for _ in range(6):
            L = Lib(rng, htt)
            L.fns(mk)
            E = L.E
            r, c, d = L.numbers(), L.numbers(), L.numbers()
            pool = {}
            for nm, a, b in [('A', r, c), ('B', r, c), ('C', c, d), ('D', r, d)]:
                M, ref, spa = L.matrix(a, b)
                pool[nm] = (M, ref, spa, a, b)
            A, B, C = (pool[k][:2] for k in 'ABC')

            def op(f, *ms): return {e: f(*[m[1][e] for m in ms]) for e in E}
            a = float(rng.choice([0., 1., -.5, 1e-9, 3.]))
            terms = [('-A', -A[0], op(lambda x: -x, A)), ('A.T', A[0].T, op(lambda x: x.T, A)), ('aA', a * A[0], op(lambda x: a * x, A)), ('2A', 2 * A[0], op(lambda x: 2 * x, A)),
                     ('A+B', A[0] + B[0], op(lambda x, y: x + y, A, B)), ('A+A', A[0] + A[0], op(lambda x: 2 * x, A)), ('A@C', A[0] @ C[0], op(lambda x, y: x @ y, A, C)),
                     ('-(2A).T', -(2 * A[0]).T, op(lambda x: -2 * x.T, A)), ('(A+B)@C', (A[0] + B[0]) @ C[0], op(lambda x, y, z: (x + y) @ z, A, B, C)),
                     ('A@C+D', A[0] @ C[0] + pool['D'][0], op(lambda x, y, z: x @ y + z, A, C, pool['D'][:2])),
                     ('C.T@B.T', C[0].T @ B[0].T, op(lambda x, y: x.T @ y.T, C, B)),
                     ('A + (B + A)', A[0] + (B[0] + A[0]), op(lambda x, y: 2 * x + y, A, B))]
            if not htt:
                terms += [('A-B', A[0] - B[0], op(lambda x, y: x - y, A, B)), ('A-A', A[0] - A[0], op(lambda x: 0 * x, A)), ('A-(B-A)', A[0] - (B[0] - A[0]), op(lambda x, y: 2 * x - y, A, B))]
            out += mat_items('A', A[0], A[1], E, rng)
            for lab, M, want in terms:
                out += mat_items(lab, M, want, E, rng)
            grid = [[pool['A'][0], pool['D'][0]], [B[0], None]] if rng.random() < .5 else [[B[0], pool['D'][0]]]
            want = {e: np.block([[np.zeros((len(r[1][e]), len((c, d)[j][1][e]))) if m is None else m[e].toarray() for j, m in enumerate(row)] for row in grid]) for e in E}
            out += mat_items('bmat', L.bmat(grid), want, E, rng)
            same = L.bmat([[A[0]], [B[0]], [A[0]]])
            out += mat_items('bmat column', same, {e: np.vstack([A[1][e], B[1][e], A[1][e]]) for e in E}, E, rng)
            if htt:
                q = L.numbers(True)
                _, ref, _ = L.matrix(q, q)
                ref = {e: ref[e] + 7 * np.eye(len(ref[e])) for e in E}
                S = L.M({e: sp.csr_matrix(ref[e]) for e in E}, q[0], q[0])
                out += mat_items('inv', S.inv(), {e: np.linalg.inv(ref[e]) for e in E}, E, rng)
            # vectors
            u, v = L.vector(c), L.vector(c)
            num = all(x._dtype not in ('callable',) for x in (u[0], v[0]))
            out += vec_items('u', u[0], u[1], E, rng) + vec_items('-u', -u[0], op(lambda x: -x, (0, u[1])), E, rng) + \
                vec_items('u+v', u[0] + v[0], op(lambda x, y: x + y, (0, u[1]), (0, v[1])), E, rng)
            if htt or num:
                out += vec_items('3u', 3 * u[0], op(lambda x: 3 * x, (0, u[1])), E, rng)
                out += vec_items('A@u', A[0] @ u[0], op(lambda m, x: m @ x, A, (0, u[1])), E, rng)
                out += vec_items('(A+B)@v', (A[0] + B[0]) @ v[0], op(lambda m, n, x: (m + n) @ x, A, B, (0, v[1])), E, rng)
            if htt:
                out += vec_items('u-v', u[0] - v[0], op(lambda x, y: x - y, (0, u[1]), (0, v[1])), E, rng)
            else:
                X = np.array([v[1][e] for e in E])
                out += vec_items('A @ 2d array', A[0] @ X, op(lambda m, x: m @ x, A, (0, v[1])), E, rng)
            big = L.G([c[0], d[0]])
            w = L.vector(d)
            cat = L.cat([u[0], w[0]], big)
            out += vec_items('concatenated', cat, {e: np.concatenate([u[1][e], w[1][e]]) for e in E}, E, rng)
            cat = L.cat([None, w[0]], big)
            out += vec_items('concatenated with none', cat, {e: np.concatenate([0 * u[1][e], w[1][e]]) for e in E}, E, rng)
            for nm in pool:         # the operands and what they were made of are as before
                out += mat_items(f'{nm} afterwards', pool[nm][0], pool[nm][1], E, rng)
                out += [(f'data of {nm}', pool[nm][2][e].toarray(), pool[nm][1][e]) for e in E]
            for q in (u, v, w):
                out += vec_items('vector afterwards', q[0], q[1], E, rng)
        return out
    return scn


def summed(M, E, r, c):
    out = np.zeros((r[2], c[2]))
    for e in E:
        np.add.at(out, np.ix_(r[1][e], c[1][e]), M[e])
    return out


def summed_vec(v, E, r):
    out = np.zeros(r[2])
    for e in E:
        np.add.at(out, r[1][e], v[e])
    return out


def glob(A): return (A._M if hasattr(A, '_M') else A).toarray()
def vglob(v): return v._V if hasattr(v, '_V') else v._v


def assembling(htt):
    def scn(mk):
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
        out = []
        for _ in range(8):
            L = Lib(rng, htt)
            E = L.E
            r, c = L.numbers(), L.numbers()
            M, ref, spa = L.matrix(r, c)
            mk.fn(M.assemble.__call__)
            want = summed(ref, E, r, c)
            for fmt in ('csc', 'csr'):
                A = M.assemble(format=fmt)
                out += [(f'{fmt}', glob(A), want), (f'{fmt}: format', A._M.format, fmt), ('shape', A._M.shape, (r[2], c[2]))]
            out.append(('default', glob(M.assemble()), want))
            if htt:
                for th in (.5, 1., 0.):
                    cut = {e: np.where(np.abs(ref[e]) < th, 0, ref[e]) for e in E}
                    out.append((f'threshold {th}', glob(M.assemble(threshold=th)), summed(cut, E, r, c)))
                key = f'key{mk.int("seed", 0, 10 ** 6)}{_}'
                first = M.assemble(cache=key)
                out += [('cached', glob(first), want), ('cached again', glob(M.assemble(cache=key)), want),
                        ('other threshold, same name', glob(M.assemble(cache=key, threshold=1.)), summed({e: np.where(np.abs(ref[e]) < 1., 0, ref[e]) for e in E}, E, r, c)),
                        ('cached csr', (M.assemble(cache=key, format='csr')._M.format, glob(M.assemble(cache=key, format='csr'))), ('csr', want)),
                        ('unique is no name', glob(L.matrix(r, c)[0].assemble(cache='unique')) is not None, True)]
                N, nref, _n = L.matrix(r, c)
                out.append(('unique: not remembered', glob(N.assemble(cache='unique')), summed(nref, E, r, c)))
                out.append(('another name', glob(N.assemble(cache=key + 'b')), summed(nref, E, r, c)))
            else:
                key = f'key{mk.int("seed", 0, 10 ** 6)}{_}'
                out += [('cached', glob(M.assemble(cache=key)), want), ('cached again', glob(M.assemble(cache=key)), want)]
            out.append(('and again', glob(M.assemble()), want))
            out += mat_items('after assembling', M, ref, E, rng) + [('data', spa[e].toarray(), ref[e]) for e in E]
            v, vref, own = L.vector(r)
            for _j in range(2):
                out.append(('vector', vglob(v.assemble()), summed_vec(vref, E, r)))
            if htt:
                x = rng.random(r[2])
                w = L.V({e: x[r[1][e]] for e in E}, r[0])
                out.append(('gathered', vglob(w.assemble(vtype='gathered', mode='replace')), x))
            out += vec_items('vector after assembling', v, vref, E, rng)
        return out
    return scn


for htt in (True, False):
    nm = 'msehtt' if htt else 'msepy'
    for lab, f in [('local algebra', algebra), ('assembling', assembling)]:
        def unit(led, htt=htt, lab=lab, f=f, nm=nm): R.bounded_scenario(led, f'{nm}: {lab}', f(htt), samples=40)
        check.unit(f'{nm}: {lab}')(unit)


# ---- fixing dofs ------------------------------------------------------------------------------------------------------------
def rows_of(g, r, E, dofs): return {e: [j for j, x in enumerate(r[1][e]) if int(x) in dofs] for e in E}


def fixing(htt):
    r"""histories of customizations, against the assembled matrix and vector they are to give."""
    def scn(mk):
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
        out = []
        for _ in range(5):
            L = Lib(rng, htt)
            E = L.E
            r, c = L.numbers(htt and rng.random() < .5, repeat=rng.random() < .4), L.numbers()
            if rng.random() < .5:       # chained numberings
                s = L.numbers()
                parts = [r, s] if rng.random() < .5 else [r, r]
                g = L.G([q[0] for q in parts])
                r = (g, {e: np.array(g[e]) for e in E}, sum(q[2] for q in parts))
            n = r[2]
            M, ref, spa = L.matrix(r, r)
            T, tref, tspa = L.matrix(r, c)
            v, vref, own = L.vector(r)
            A, B, b = summed(ref, E, r, r), summed(tref, E, r, c), summed_vec(vref, E, r)
            S = L.M(dict(spa), r[0], r[0])      # another matrix made of the same blocks
            if rng.random() < .5:
                M.assemble(), T.assemble(), v.assemble()
            touched = set()
            mc, tc, vc = M.customize, T.customize, v.customize
            mk.fn(*(getattr(type(mc), x) for x in dir(type(mc)) if x in ('identify_row', 'identify_rows', 'zero_row', 'zero_rows', 'identify_diagonal', 'set_zero',
                                                                         'set_values', 'set_values_and_zero_rest', 'identify_local_dof')),
                  type(vc).set_value, type(vc).set_values)
            for step in range(4):
                k = int(rng.integers(1, min(n, 4) + 1))
                dofs = [int(x) for x in rng.permutation(n)[:k]]
                D = np.array(dofs) if rng.random() < .3 else list(dofs)
                if rng.random() < .3:
                    D = list(dofs) + dofs[:1]
                vals = rng.uniform(-3, 3, n)
                which = int(rng.integers(0, 6))
                one = int(rng.choice([dofs[0], -1, np.int64(dofs[0])]))
                if which == 0:
                    mc.identify_row(one)
                    vc.set_value(one, vals[0])
                    dofs, val = [one % n], [vals[0]]
                    A[dofs[0]], A[dofs[0], dofs[0]], b[dofs[0]] = 0, 1, vals[0]
                    lab = f'identify_row({one})'
                elif which in (1, 2):
                    (mc.identify_rows if htt else mc.identify_diagonal)(D)
                    if rng.random() < .3:
                        vc.set_values(D, .5)
                        b[dofs] = .5
                    else:
                        vc.set_values(D, vals[np.array(D)])
                        b[dofs] = vals[dofs]
                    A[dofs], A[dofs, dofs] = 0, 1
                    lab = f'identify rows {D}'
                elif which in (3, 4):
                    m = (mc if rng.random() < .5 else tc)
                    (m.zero_rows if htt else m.set_zero)(D)
                    (A if m is mc else B)[dofs] = 0
                    lab = f'zero rows {D}'
                elif htt:
                    (mc if (sq := rng.random() < .5) else tc).zero_row(one)
                    (A if sq else B)[one] = 0
                    dofs = [one % n]
                    lab = f'zero_row({one})'
                else:           # entries of dofs that are at one place, in the same element
                    place = {}
                    for e in E:
                        for j, x in enumerate(r[1][e]):
                            place.setdefault(int(x), []).append(e)
                    el = int(rng.choice(E))
                    own_dofs = [x for x in place if place[x] == [el]]
                    if not own_dofs:
                        continue
                    pos = list({(int(rng.choice(own_dofs)), int(rng.choice(own_dofs))) for _i in range(4)})
                    rr, cc = [p[0] for p in pos], [p[1] for p in pos]
                    vv = [float(x) for x in rng.uniform(1, 2, len(pos))]
                    rest = rng.random() < .5
                    (mc.set_values_and_zero_rest if rest else mc.set_values)(rr, cc, vv)
                    if rest:
                        A[rr] = 0
                    A[rr, cc] = vv
                    dofs = rr
                    lab = f'set values at {pos}'
                touched |= set(dofs)
                out += [(f'{step}: {lab}: matrix', glob(M.assemble()), A.copy()), (f'{step}: {lab}: rectangular', glob(T.assemble(format='csr')), B.copy()), (f'{step}: {lab}: vector', vglob(v.assemble()), b.copy())]
            for e in E:         # nothing but the rows of these dofs changed, in any element
                keep = [j for j, x in enumerate(r[1][e]) if int(x) not in touched]
                out += [(f'other rows in element {e}', M[e].toarray()[keep], ref[e][keep]), (f'other rows in element {e}: rectangular', T[e].toarray()[keep], tref[e][keep]),
                        (f'other values in element {e}', v[e][keep], vref[e][keep]), ('the data', spa[e].toarray(), ref[e]), ('the data', tspa[e].toarray(), tref[e]),
                        ('a matrix of the same data', S[e].toarray(), ref[e])]
                if own is not None:
                    out.append(('data of the vector', own[e], vref[e]))
            # what is computed from customized operands, or customized later
            o = [[M], [L.matrix(r, r)[0]]]
            big = L.bmat(o)
            out += mat_items('bmat of a customized block', big, {e: np.vstack([M[e].toarray(), o[1][0][e].toarray()]) for e in E}, E, rng)
            d = int(rng.integers(0, n))
            (mc.identify_row if htt else mc.identify_row)(d)
            (o[1][0].customize.zero_rows if htt else o[1][0].customize.set_zero)([d])
            out += mat_items('bmat after customizing its blocks', big, {e: np.vstack([M[e].toarray(), o[1][0][e].toarray()]) for e in E}, E, rng)
            # one customized block of a grid, the elements in any order
            for i, j in itertools.product((0, 1), repeat=2):
                grid = [[L.matrix(r, r, keyed='callable')[0] for _ in (0, 1)] for _ in (0, 1)]
                big = L.bmat(grid)
                d = int(rng.integers(0, n))
                before = bool(rng.integers(0, 2))
                if before: _ = [big[e] for e in E]
                grid[i][j].customize.identify_row(d)
                out += mat_items(f'bmat with block {i}{j} customized{" later" if before else ""}', big, {e: np.block([[x[e].toarray() for x in row] for row in grid]) for e in E}, E, rng)
            if htt:
                for lab, X, f in [('-', -M, lambda x: -x), ('T', M.T, lambda x: x.T), ('3', 3 * M, lambda x: 3 * x), ('+', M + S, None), ('@', M @ T, None)]:
                    want = {e: f(M[e].toarray()) if f else M[e].toarray() + S[e].toarray() if lab == '+' else M[e].toarray() @ T[e].toarray() for e in E}
                    out += mat_items(f'{lab} of a customized matrix', X, want, E, rng)
                e = E[int(rng.integers(0, len(E)))]
                j = int(rng.integers(0, len(r[1][e])))
                want, wv = {i: M[i].toarray() for i in E}, {i: v[i].copy() for i in E}
                want[e][j], want[e][j, j], wv[e][j] = 0, 1, .25
                mc.identify_local_dof(e, j)
                vc.set_local_value(e, j, .25)
                out += mat_items('identify_local_dof', M, want, E, rng) + vec_items('set_local_value', v, wv, E, rng)
            u = L.cat([v, v], L.G([r[0], r[0]]))
            out += vec_items('concatenation of customized vectors', u, {e: np.concatenate([v[e], v[e]]) for e in E}, E, rng)
            out += vec_items('- customized vector', -v, {e: -v[e] for e in E}, E, rng)
            mc.clear()
            tc.clear()
            out += mat_items('cleared', M, ref, E, rng) + mat_items('cleared', T, tref, E, rng)
        return out
    return scn


for htt in (True, False):
    nm = 'msehtt' if htt else 'msepy'

    def unit(led, htt=htt, nm=nm): R.bounded_scenario(led, f'{nm}: fixing dofs', fixing(htt), samples=50)
    check.unit(f'{nm}: fixing dofs')(unit)


# ---- linear systems ---------------------------------------------------------------------------------------------------------
def world2(lib, cfg, p, extra=None, n=2):
    import phyem as ph
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n)
    mesh = ph.mesh(manifold)
    ph.space.set_mesh(mesh)
    U, P = ph.space.new('Lambda', n - 1, orientation='outer'), ph.space.new('Lambda', n, orientation='outer')
    d = dict(manifold=manifold, mesh=mesh, u=U.make_form('u', 'u'), v=U.make_form('v', 'v'), p=P.make_form('p', 'p'))
    mesh.boundary()
    mesh.boundary_partition('G1', 'G2')
    ph.space.finite(p)
    ms, obj = ph.fem.apply(lib, d)
    tgm = ms.tgm()
    ms.config(tgm)(cfg[0], **cfg[1])
    m = ms.base['meshes'][mesh._sym_repr]
    ms.config(m)(tgm, including='all')
    g = [v for k, v in ms.base['meshes'].items() if 'G1' in k or 'G2' in k]
    ms.config(g[0])(tgm, including={'type': 'boundary_section', 'partial elements': m, 'ounv': ([-1, 0, 0][:n], [0, 1, 0][:n])})
    ms.config(g[1])(tgm, including={'type': 'boundary_section', 'partial elements': m, 'except ounv': ([-1, 0, 0][:n], [0, 1, 0][:n])})
    return ms, obj, tgm, m, g, d


HTT_CFG = [('crazy', dict(element_layout=[2, 3], c=0., bounds=([0, 1], [0, 2]))), ('crazy', dict(element_layout=2, c=0., bounds=([0, 1], [0, 1]), trf=1)),
           ('chaotic', dict(element_layout=2, c=0., bounds=([0, 1], [0, 1])))]


def parsed_mass(ms, d, form, p):
    from phyem.src.spaces.main import _degree_str_maker
    s = _degree_str_maker(p)
    return ms.base['PARSER'].Parse__M_matrix(d[form].space._pure_lin_repr, s, s)[0] if 'PARSER' in ms.base and hasattr(ms.base['PARSER'], 'Parse__M_matrix') else \
        get('phyem.msehtt.static.implementation_array_parser:Parse__M_matrix')(d[form].space._pure_lin_repr, s, s)[0]


def htt_system(k):
    def scn(mk):
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
        p = int(mk.int('p', 1, 2)) if k < 2 else 1
        ms, obj, tgm, mesh, (g1, g2), d = world2('msehtt-s', HTT_CFG[k], p)
        import phyem as ph
        LS, M = get('phyem.msehtt.tools.linear_system.static.local.main:MseHttStaticLocalLinearSystem'), get(HTT['M'])
        V = get(HTT['V'])
        u, v, q = obj['u'], obj['v'], obj['p']
        fs = [u, v, q]
        E = list(tgm.elements)
        gms = [f.cochain.gathering_matrix for f in fs]

        def rand(i, j): return M({e: sp.csr_matrix(np.round(rng.uniform(-1, 1, (gms[i].num_local_dofs(e), gms[j].num_local_dofs(e))), 3)) for e in E}, gms[i], gms[j])
        mass = [parsed_mass(ms, d, x, p) if k != 1 else rand(m, m) for m, x in enumerate('uvp')]     # (no mass matrices on these triangles)
        A = [[mass[0], rand(0, 1), rand(0, 2)], [rand(1, 0), mass[1], rand(1, 2)], [rand(2, 0), rand(2, 1), mass[2]]]
        ref = {e: np.block([[A[i][j][e].toarray() for j in range(3)] for i in range(3)]) for e in E}
        bs = [V({e: rng.uniform(-1, 1, gms[i].num_local_dofs(e)) for e in E}, gms[i]) for i in range(3)]
        bref = {e: np.concatenate([bs[i][e] for i in range(3)]) for e in E}
        keep = [[bs[i][e].copy() for e in E] for i in range(3)]
        t = .5
        xs = [f.cochain.static_vec(t) for f in fs]
        ls = LS(A, xs, bs)
        mk.fn(LS.__init__, LS.assemble, type(ls.customize).apply_essential_bc, type(ls.customize).set_dof, type(ls.customize).set_local_dof, type(ls.x).update,
              get('phyem.msehtt.static.implementation_array_parser:Parse__M_matrix'))
        G = ls.global_gathering_matrices[0]
        row = {e: np.array(G[e]) for e in E}
        N = G.num_global_dofs
        r = (G, row, N)
        Ag, bg = summed(ref, E, r, r), summed_vec(bref, E, r)
        out = [('assembled', glob(ls.assemble().A), Ag.copy()), ('assembled b', vglob(ls.assemble().b), bg.copy())]
        off = {e: np.cumsum([0] + [gm.num_local_dofs(e) for gm in gms]) for e in E}
        cond = ph.vc.vector(lambda t, x, y: np.sin(x) + t * y, lambda t, x, y: np.cos(y) + x * t)
        scal = ph.vc.scalar(lambda t, x, y: np.sin(x + t) + y)
        fixed = {}

        def bc(i, place, f, cf):
            val = f.reduce(cf @ t)
            for e, face in place.composition:
                for j in tgm.elements[e].find_local_dofs_on_face(f.space.str_indicator, f.degree, face, component_wise=False):
                    D = int(row[e][off[e][i] + j])
                    Ag[D], Ag[D, D], bg[D] = 0, 1, val[e][j]
                    fixed[D] = val[e][j]
            ls.customize.apply_essential_bc(i, place.composition, cf, t)
            als = ls.assemble()
            return [(f'essential bc of unknown {i}', glob(als.A), Ag.copy()), ('right hand side', vglob(als.b), bg.copy())]
        order = [(0, g1, u, cond), (1, g2, v, cond)] if rng.random() < .5 else [(1, g1, v, cond), (0, g2, u, cond)]
        for a in order:
            out += bc(*a)
        # the parsed mass matrices of the space: still the mass matrix
        for nm, f in (('u', u), ('v', v), ('p', q))[3 if k == 1 else 0:]:
            X, md = parsed_mass(ms, d, nm, p), f.space.mass_matrix(f.degree)[0]
            out += [(f'mass matrix of {nm} in element {e}', X[e].toarray(), md[e].toarray()) for e in E[:3]]
        e, j = E[-1], int(rng.integers(0, gms[2].num_local_dofs(E[-1])))
        ls.customize.set_local_dof(2, e, j, 4.)
        D = int(row[e][off[e][2] + j])
        Ag[D], Ag[D, D], bg[D], fixed[D] = 0, 1, 4., 4.
        out += [('set_local_dof', glob(ls.assemble().A), Ag.copy()), ('set_local_dof: b', vglob(ls.assemble().b), bg.copy())]
        D = int(rng.integers(0, N))
        ls.customize.set_dof(D, -2.)
        Ag[D], Ag[D, D], bg[D], fixed[D] = 0, 1, -2., -2.
        ls.customize.set_dof(-1, 3.)
        Ag[N - 1], Ag[N - 1, N - 1], bg[N - 1], fixed[N - 1] = 0, 1, 3., 3.
        als = ls.assemble()
        out += [('set_dof', glob(als.A), Ag.copy()), ('set_dof: b', vglob(als.b), bg.copy()), ('shape', als.shape, (N, N))]
        # preconditioned, thresholded, with an added constraint
        pre = ls.assemble(preconditioner='Jacobian')
        scale = [x for x in np.diag(Ag)]
        PA, Pb = glob(pre.A), vglob(pre.b)
        s = np.array([PA[i] @ Ag[i] / (Ag[i] @ Ag[i]) for i in range(N)])
        out += [('preconditioned rows', PA, s[:, None] * Ag), ('preconditioned b', Pb, s * bg), ('rows kept', bool(np.all(s > 1e-12)), True)]
        out.append(('threshold', glob(ls.assemble(threshold=.5).A)[list(set(range(N)) - set(fixed))][:, :5].shape, (N - len(fixed), 5)))
        i = int(rng.integers(0, 3))
        D = int(rng.integers(0, gms[i].num_global_dofs))
        aug = ls.assemble(customizations=[{'A': ['new_EndZeroRowCol_with_a_one_for_global_dof', i, D], 'b': ['add_a_value_at_the_end', 0]}])
        place = next(int(row[e][off[e][i] + j]) for e in E for j in range(gms[i].num_local_dofs(e)) if int(gms[i][e][j]) == D)
        W = np.zeros((N + 1, N + 1))
        W[:N, :N], W[place, N], W[N, place] = Ag, 1, 1
        out += [('added constraint', glob(aug.A), W), ('added constraint: b', vglob(aug.b), np.append(bg, 0))]
        x, msg, info = als.solve('spsolve')
        x = np.asarray(x).ravel()
        out += [('solved', Ag @ x, bg.copy()), ('fixed dofs', x[list(fixed)], list(fixed.values()))]
        ls.x.update(x)
        for i, f in enumerate(fs):
            out += [(f'cochain {i} of element {e}', f[t].cochain[e], x[row[e][off[e][i]:off[e][i + 1]]]) for e in E]
        y = {e: rng.random(len(row[e])) for e in E}
        ls.x.update({e: y[e].copy() for e in E})
        for i, f in enumerate(fs):
            out += [(f'cochain {i} of element {e}, from local values', f[t].cochain[e], y[e][off[e][i]:off[e][i + 1]]) for e in E]
        # element-wise solving
        ls2 = LS([[mass_of(M, gms[0], E, rng)]], [u.cochain.static_vec(2.)], [V({e: rng.random(gms[0].num_local_dofs(e)) for e in E}, gms[0])])
        ls2.customize.set_element_only_local_dof(E[0], 1, 9.)
        xx = ls2.solve('spsolve')[0]
        out += [(f'local solution {e}', ls2.A[e] @ xx[e], ls2.b[e]) for e in E] + [('its fixed dof', xx[E[0]][1], 9.)]
        for e in E[1:]:
            out.append(('only in that element', ls2.A[e].toarray(), ls2._A._A[0][0][e].toarray()))
        out += [('blocks of b not fixed', bs[2][e], keep[2][m]) for m, e in enumerate(E)]
        # blocks multiplied from the left
        B = [[rand(i, j) if i == j or rng.random() < .7 else None for j in range(3)] for i in range(3)]
        cs = [V({e: rng.uniform(-1, 1, gms[i].num_local_dofs(e)) for e in E}, gms[i]) if i or rng.random() < .5 else None for i in range(3)]
        data = lambda x, *n: {e: np.zeros([g.num_local_dofs(e) for g in n]) if x is None else (x[e].toarray() if len(n) == 2 else x[e].copy()) for e in E}
        RB = [[data(B[i][j], gms[i], gms[j]) for j in range(3)] for i in range(3)]
        rc = [data(cs[i], gms[i]) for i in range(3)]
        ls3 = LS(B, [f.cochain.static_vec(3.) for f in fs], cs)
        ls3.assemble()
        mk.fn(type(ls3.customize).left_matmul_A_block, type(ls3.customize).left_matmul_b_block)
        for _ in range(3):
            i = int(rng.integers(0, 3))
            j = int(rng.choice([j for j in range(3) if B[i][j] is not None]))
            L = rand(i, i)
            ls3.customize.left_matmul_A_block(i, j, L)
            RB[i][j] = {e: L[e].toarray() @ RB[i][j][e] for e in E}
            if cs[i] is not None:
                ls3.customize.left_matmul_b_block(i, L)
                rc[i] = {e: L[e].toarray() @ rc[i][e] for e in E}
            als = ls3.assemble()
            out += [(f'block {i}{j} multiplied from the left', glob(als.A), summed({e: np.block([[RB[a][b][e] for b in range(3)] for a in range(3)]) for e in E}, E, r, r)),
                    (f'right hand side {i} multiplied from the left', vglob(als.b), summed_vec({e: np.concatenate([rc[a][e] for a in range(3)]) for e in E}, E, r))]
        return out
    return scn


def mass_of(M, gm, E, rng):
    return M({e: sp.csr_matrix(rng.uniform(-1, 1, (gm.num_local_dofs(e),) * 2) + 5 * np.eye(gm.num_local_dofs(e))) for e in E}, gm, gm)


for k in range(len(HTT_CFG)):
    def unit(led, k=k): R.bounded_scenario(led, f'msehtt: linear system with boundary conditions {k}', htt_system(k), samples=6)
    check.unit(f'msehtt: linear system with boundary conditions {k}')(unit)


# ---- the systems of a dynamic system ----------------------------------------------------------------------------------------
def stepping(lib):
    r"""three time steps with natural and essential boundary conditions, each step twice, dofs fixed by hand in one of them."""
    def scn(mk):
        import phyem as ph
        from pv import pde
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
        out, n = [], 2 if lib == 'msepy' else int(rng.integers(2, 4))
        p = int(rng.integers(1, 4)) if n == 2 else 1
        layout = [int(x) for x in rng.integers(1, 4, n)] if n == 2 else [2, 1, 2]
        nat = [int(x) for x in rng.integers(0, 2, 2 * n)]
        nat[0], nat[-1] = 1, 0
        P = pde.Problem(lib, n, p, layout, nat)
        c = rng.uniform(-1, 1, 6)
        if n == 2:
            phi, vec = (lambda t, x, y: c[0] + c[1] * x - y + t * x * y), [lambda t, x, y: c[2] * x + t * y, lambda t, x, y: c[3] * y - x * t]
        else:
            phi, vec = (lambda t, x, y, z: c[0] + c[1] * x - y + t * x * y + z), [lambda t, x, y, z: c[2] * x + t * y, lambda t, x, y, z: y - x * t + z, lambda t, x, y, z: c[3] * z + t]
        sc, ve = ph.vc.scalar(phi), ph.vc.vector(*vec)
        na, nb = P.size('a'), P.size('b')
        T = P.time('k-1', 1)
        a0, b0 = rng.uniform(-1, 1, na), rng.uniform(-1, 1, nb)
        P.set('a', T, a0), P.set('b', T, b0)
        ls = P.ls.apply()
        if lib == 'msepy':
            ls.bc.config(P.ga)(sc)
            ls.bc.config(P.gb)(ve)
        else:
            ls.config(['natural bc', 1], P.ga, sc, root_form=P.a)
            ls.config(['essential bc', 1], P.gb, ve, root_form=P.b)
        mk.fn(type(ls).__call__, type(ls)._get_raw_Axb, type(ls).apply, type(ls)._parse_matrix_block, type(ls)._parse_vector_block)
        for k in (1, 2, 3):
            A, b = P.raw(k, P.natural_vector(phi, P.time(P.bc_at, k)), a0, b0)
            val = P.b.reduce(P.time('k', k), update_cochain=False, target=ve) if lib == 'msepy' else P.b.reduce(ve @ P.time('k', k))
            for m in range(n):
                for s in (0, 1):
                    for D, (e, i) in (P.side('b', m, s) if not nat[2 * m + s] else {}).items():
                        A[na + D], A[na + D, na + D], b[na + D] = 0, 1, val[e][i]
            for again in (0, 1):
                S = ls(k=k)
                perm = P.permutation(S)
                al = S.assemble()
                mk.fn(type(S).__init__, type(S).assemble, type(S.x).update, type(S.customize).set_dof, type(S.customize).set_local_dof)
                out += [(f'k={k}, {again}: A', glob(al.A)[np.ix_(perm, perm)], A.copy()), (f'k={k}, {again}: b', vglob(al.b)[perm], b.copy())]
                if again == 0:      # a system of its own: fixing its dofs is nothing to the next one
                    Z = A.copy(), b.copy()
                    inv = np.argsort(perm)

                    def fix(d, v, lab):
                        Z[0][d], Z[0][d, d], Z[1][d] = 0, 1, v
                        y = S.assemble()
                        return [(f'k={k}: {lab}: A', glob(y.A)[np.ix_(perm, perm)], Z[0].copy()), (f'k={k}: {lab}: b', vglob(y.b)[perm], Z[1].copy())]
                    d = int(rng.integers(0, len(perm)))
                    S.customize.set_dof(d, 1.5)
                    out += fix(int(inv[d]), 1.5, f'set_dof({d})')
                    S.customize.set_dof(-1, 2.5)
                    out += fix(int(inv[len(perm) - 1]), 2.5, 'set_dof(-1)')
                    u, e = int(rng.integers(0, 2)), int(rng.choice(P.E))
                    r = P.rows('ab'[u])[e]
                    j = int(rng.integers(0, len(r)))
                    S.customize.set_local_dof(u, e, j, -3.)
                    out += fix(int(r[j]) + na * u, -3., f'set_local_dof({u}, {e}, {j})')
                    if lib == 'msepy':
                        u, e = int(rng.integers(0, 2)), int(rng.integers(-len(P.E), len(P.E)))
                        r = P.rows('ab'[u])[e % len(P.E)]
                        j = int(rng.integers(-len(r), len(r)))
                        S.customize.set_local_dof_ij_of_unknown_k_to_value(e, j, u, .75)
                        out += fix(int(r[j]) + na * u, .75, f'set_local_dof_ij_of_unknown_k_to_value({e}, {j}, {u})')
            x = np.asarray((al.solve() if lib == 'msepy' else al.solve('spsolve'))[0]).ravel()
            out.append((f'k={k}: solved', A @ x[perm], b.copy()))
            S.x.update(x)
            a0, b0 = x[perm][:na], x[perm][na:]
            out += [(f'k={k}: a', P.get('a', P.time('k', k)), a0), (f'k={k}: b', P.get('b', P.time('k', k)), b0)]
        return out
    return scn


for lib in ('msepy', 'msehtt'):
    def unit(led, lib=lib): R.bounded_scenario(led, f'{lib}: time steps with boundary conditions', stepping(lib), samples=25)
    check.unit(f'{lib}: time steps with boundary conditions')(unit)


# ---- proofs: evaluation for arbitrary operands, elements and cache states ----------------------------------------------------
from pv import opaque as oq
from pv.opaque import Op, Tok, Choice, norm


def term(label, got, want):
    r"""the same term; of terms of another form, their values for random operands decide (then nothing is proved, but a difference is one)."""
    if norm(got) == norm(want):
        return label, "the same term", "the same term"
    x, y = oq.value(got), oq.value(want)
    if x.shape == y.shape and np.allclose(x, y):
        raise R.Unsupported(f'{label}: computed in another form: {got}')
    return label, repr(got), repr(want)


def careful(scn):
    r"""what the opaque operands cannot do is not a failure of the code."""
    def f(mk):
        try:
            return scn(mk)
        except (R.Unsupported, R.Violation):
            raise
        except Exception as e:
            raise R.Unsupported(f'opaque operands: {type(e).__name__}: {e} :: {traceback.format_exc()[-500:]}')
    return f


class Env:
    r"""the classes of one implementation on opaque data: the sparse-matrix tests hold of opaque values, gathering matrices are element index sets."""
    def __init__(self, htt):
        d = HTT if htt else PY
        self.htt, self.M, self.V = htt, get(d['M']), get(d['V'])
        self.mods = [__import__(d[k].split(':')[0], fromlist=['_']) for k in 'MV']
        self.bmat, self.cat = d['bmat'], d['cat']
        kw = dict(isspmatrix_csr=oq.is_sparse, isspmatrix_csc=oq.is_sparse, csr_matrix=lambda x: x, sp_bmat=oq.bmat, sp_spa_linalg=oq.Inv, np=oq.NP())
        kw['MseHttGatheringMatrix' if htt else 'RegularGatheringMatrix'] = oq.Gather
        self.kw = kw

    def __enter__(self):
        self.p = np_patched(*self.mods, **self.kw)
        self.p.__enter__()
        if not self.htt:        # e is an element
            self.had = self.M.__contains__
            self.M.__contains__ = lambda s, e: True
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
        if not self.htt:
            self.M.__contains__ = self.had

    def matrix(self, name, key, r, c, hit=False, custom=False):
        r"""an arbitrary local matrix that meets the invariant: what is in its cache is the value of its data at every element of the same key."""
        M = self.M(lambda e: Op(name, e), r, c, cache_key='unique' if key == 'unique' else lambda e: key)
        if custom is not None:
            M._customize = Choice(custom, lambda e: Op(name + ' customized', e))
        M._cache = Choice(hit, lambda k: Op(name, E0))
        if not self.htt:
            M._constant_cache = Op(name, E0) if hit else None
        return M

    def vector(self, name, g, custom=False):
        v = self.V(lambda e: Op(name, e), g)
        v._customize = Choice(custom, lambda e: Op(name + ' customized', e))
        return v


E0 = Tok('e')


def read(env, lab, M, want):
    r"""M[e] is `want`, and what is put in the cache is it as well; then again with it in the cache."""
    M._cache = Choice(False)
    got = M[E0]
    out = [term(f'{lab}: value', got, want)]
    if M._cache.written:
        (k, v), = M._cache.written
        out += [term(f'{lab}: cached value', v, want), (f'{lab}: cached under its key', k, M._cache_key(E0))]
        M._cache = Choice(True, lambda q: v)
        out.append(term(f'{lab}: value from the cache', M[E0], want))
    elif not env.htt and M._constant_cache is not None:
        out.append(term(f'{lab}: constant', M._constant_cache, want))
    return out + [term(f'{lab}: value again', M[E0], want)]


def kernels(htt):
    def scn(mk):
        out = []
        with Env(htt) as v:
            g = [oq.Gather() for _ in range(3)]
            keys = ['unique', 'k'] + ([] if htt else ['constant'])
            if not htt:
                mk.fn(v.M._get_meta_data_from_cache, v.M.___get_meta_data___)
            mk.fn(v.M.__getitem__, v.M.__neg__, v.M.__rmul__, v.M.__add__, v.M.__matmul__, v.M.T.fget, v.M.__init__, v.V.__getitem__, v.V.__neg__, v.V._get_meta_data)
            for ka, ha, cu in itertools.product(keys, (False, True), (False, True)):
                lab = f'{ka},{"cached" if ha else "not cached"},{"customized" if cu else ""}'
                if htt or True:
                    A = v.matrix('A', ka, g[0], g[1], ha, cu)
                    a = Op('A customized' if cu else 'A', E0)
                    out.append(term(f'A[e] ({lab})', A[E0], a))
                    if not htt and cu:      # (a customized matrix bears no algebra there)
                        continue
                    out += read(v, f'-A ({lab})', -A, -a) + read(v, f'A.T ({lab})', A.T, a.T) + read(v, f'3A ({lab})', 3 * A, 3 * a) + read(v, f'-0.5A ({lab})', -.5 * A, -.5 * a)
                    if htt:
                        out += read(v, f'inv ({lab})', A.inv(), Op('inv', a))
                    for kb, hb, cb in itertools.product(keys, (False, True), (False, True) if htt else (False,)):
                        lab2 = f'{lab}; {kb},{"cached" if hb else "not cached"},{"customized" if cb else ""}'
                        B, b = v.matrix('B', kb, g[0], g[1], hb, cb), Op('B customized' if cb else 'B', E0)
                        out += read(v, f'A+B ({lab2})', A + B, a + b)
                        if not htt:
                            out += read(v, f'A-B ({lab2})', A - B, a - b)
                        C = v.matrix('B', kb, g[1], g[2], hb, cb)
                        out += read(v, f'A@B ({lab2})', A @ C, a @ b)
                        out += [('rows of A@B', (A @ C)._gm_row is g[0] if htt else (A @ C)._gm0_row is g[0], True), ('columns of A@B', ((A @ C)._gm_col if htt else (A @ C)._gm1_col) is g[2], True)]
            for cu in (False, True):
                x, val = v.vector('x', g[1], cu), Op('x customized' if cu else 'x', E0)
                out += [term(f'x[e] {cu}', x[E0], val), term(f'-x {cu}', (-x)[E0], -val)]
                if htt:
                    out.append(term(f'3x {cu}', (3 * x)[E0], 3 * val))
                    for ka, ha, ca in itertools.product(keys, (False, True), (False, True)):
                        out.append(term(f'A@x {ka} {ha} {ca} {cu}', (v.matrix('A', ka, g[0], g[1], ha, ca) @ x)[E0], Op('A customized' if ca else 'A', E0) @ val))
                else:
                    y = v.vector('y', g[1], False)
                    out.append(term(f'x+y {cu}', (x + y)[E0], val + Op('y', E0)))
        return out
    return scn


def blocks(htt):
    r"""block matrices and concatenated vectors: for every pattern of absent, customized, uncached and cached blocks up to 2 by 2."""
    def scn(mk):
        out = []
        with Env(htt) as v:
            bm, cat = get(v.bmat), get(v.cat)
            mk.fn(bm, cat, get(v.bmat.split(':')[0] + (':_MseHttStaticLocalMatrixBmat' if htt else ':_MsePyStaticLocalMatrixBmat')).__call__)
            kinds = [None, 'unique', 'k', 'customized'] + ([] if htt else ['constant'])
            for I, J in ((1, 1), (1, 2), (2, 1), (2, 2)):
                for pat in itertools.product(kinds, repeat=I * J):
                    P = [pat[i * J:(i + 1) * J] for i in range(I)]
                    if any(all(x is None for x in r) for r in P) or any(all(P[i][j] is None for i in range(I)) for j in range(J)):
                        continue
                    r, c = [oq.Gather() for _ in range(I)], [oq.Gather() for _ in range(J)]
                    A = [[None if x is None else v.matrix(f'A{i}{j}', 'k' if x == 'customized' else x, r[i], c[j], False, x == 'customized') for j, x in enumerate(row)] for i, row in enumerate(P)]
                    want = Op('bmat', *[tuple(None if x is None else Op(f'A{i}{j}' + (' customized' if x == 'customized' else ''), E0) for j, x in enumerate(row)) for i, row in enumerate(P)])
                    M = bm(A)
                    out += read(v, f'bmat {pat}', M, want)
                    gr, gc = (M._gm_row, M._gm_col) if htt else (M._gm0_row, M._gm1_col)
                    out += [('rows', [any(x is y for y in r) for x in gr._gms[0]] == [True] * I and list(map(id, gr._gms[0])) == list(map(id, r)), True),
                            ('columns', list(map(id, gc._gms[0])) == list(map(id, c)), True)]
            for n in (1, 2, 3):
                for pat in itertools.product((False, True), repeat=n):
                    gs = [oq.Gather() for _ in range(n)]
                    vs = [v.vector(f'x{i}', gs[i], cu) for i, cu in enumerate(pat)]
                    out.append(term(f'concatenate {pat}', cat(vs, oq.Gather(*gs))[E0], Op('concatenate', *[Op(f'x{i}' + (' customized' if cu else ''), E0) for i, cu in enumerate(pat)])))
        return out
    return scn


for htt in (True, False):
    nm = 'msehtt' if htt else 'msepy'
    check.scenario(f'{nm}: evaluation of the local algebra', samples=1)(careful(kernels(htt)))
    check.scenario(f'{nm}: evaluation of block matrices and vectors', samples=1)(careful(blocks(htt)))
