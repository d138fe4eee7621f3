r"""C04: chaining, searching, splitting and assembling global numberings."""
import gc
import itertools
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import sym, boxes, loops, geo
from pv.sym import S, Unsupported
import pv.run as R

check = Check('C04', trusted=['counting argument: a bijection between the pairs (unknown, number) and 0..c-1 gives c = N_0 + ... + N_m-1',
                              'the part of numpy in lib/pv/boxes.py', 'one MPI rank'])
PG = 'phyem.msepy.tools.gathering_matrix:RegularGatheringMatrix'
HG = 'phyem.msehtt.tools.gathering_matrix:MseHttGatheringMatrix'
HV = 'phyem.msehtt.tools.vector.static.global_gathered:MseHttGlobalVectorGathered'


# ---- numberings -------------------------------------------------------------------------------------------------------------
def rows(rng, elements, equal=False, kind=None):
    r"""a random numbering: {element: numbers}, onto 0..N-1, with shared dofs, elements of different sizes and (not equal) empty
    elements; kind 'shuffled': numbers do not increase with the elements."""
    kind = kind or rng.choice(['ordered', 'shuffled'])
    m = int(rng.integers(1, 6))
    out, n = {}, 0
    for e in elements:
        size = m if equal else int(rng.integers(0, 6))
        old = [int(x) for x in rng.permutation(n)[:int(rng.integers(0, min(n, size) + 1))]]
        new = list(range(n, n + size - len(old)))
        n += len(new)
        r = old + new
        if kind != 'ordered' and size > 1 and r and rng.random() < .3: r[int(rng.integers(0, len(r)))] = r[0]      # one dof at two places of an element
        out[e] = [r[i] for i in rng.permutation(len(r))]
    if n == 0:
        out[elements[0]] = [0]
        n = 1
        if equal:
            out = {e: [0] for e in elements}
    left = sorted({x for r in out.values() for x in r})         # (a repeated dof may have replaced another one)
    out, n = {e: [left.index(x) for x in r] for e, r in out.items()}, len(left)
    perm = rng.permutation(n) if kind == 'shuffled' else np.arange(n)
    return {e: np.array([perm[i] for i in r], dtype=int) for e, r in out.items()}, n


def locations(row, g): return [(e, j) for e in row for j, x in enumerate(row[e]) if x == g]


def chain_items(lab, got, parts, total):
    r"""got[e]: the chained row; parts: [(rows, N)]."""
    out = [(f'{lab}: number of dofs', total, sum(n for _, n in parts))]
    fwd, bwd, bad, pos = {}, {}, [], True
    for e in got:
        want = [(i, int(g)) for i, (r, _) in enumerate(parts) for g in r[e]]
        if len(got[e]) != len(want):
            return out + [(f'{lab}: size in element {e}', len(got[e]), len(want))]
        for x, key in zip(got[e], want):
            x = int(x)
            if fwd.setdefault(key, x) != x or bwd.setdefault(x, key) != key:
                bad.append((e, x, key, fwd[key], bwd.get(x)))
    return out + [(f'{lab}: chained numbers correspond to (unknown, number)', bad[:2], []),
                  (f'{lab}: contiguous', sorted(bwd), list(range(sum(n for _, n in parts))))]


def orders(C, gms, parts):
    r"""chain the numberings, again, in another order, repeatedly, nested."""
    yield 'chained', C(gms), parts
    yield 'chained again', C(list(gms)), parts
    if len(gms) > 1:
        yield 'reversed', C(gms[::-1]), parts[::-1]
        yield 'twice the first', C([gms[0], gms[0]]), [parts[0]] * 2
        yield 'the last and the others', C([gms[-1], *gms]), [parts[-1], *parts]
    yield 'chained once more', C(tuple(gms)), parts


def setup(mk):
    rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
    return rng


# ---- msepy ------------------------------------------------------------------------------------------------------------------
def py_gms(rng, m, redundant=False):
    C = get(PG)
    E = int(rng.integers(1, 6))
    parts, gms = [], []
    for i in range(m):
        r, n = rows(rng, list(range(E)), equal=True)
        rds = None
        if redundant and i == redundant - 1:
            rds = {}
            for g in {int(r[0][0]), int(r[E - 1][-1])}:
                loc = locations(r, g)
                loc = [loc[j] for j in sorted(rng.permutation(len(loc))[:int(rng.integers(1, len(loc) + 1))])]
                rds[g] = ([l[0] for l in loc], [l[1] for l in loc])
        parts.append((r, n, rds))
        gms.append(C(np.array([r[e] for e in range(E)]), redundant_dof_setting=rds))
    return gms, parts


def pairs(es, js): return sorted((int(e), int(j)) for e, j in zip(es, js))


@check.unit('msepy: chained numbering, searching, assembling', real=True)
def _(led):
    def scn(mk):
        rng = setup(mk)
        C = get(PG)
        mk.fn(C.__init__, C._find_elements_and_local_indices_of_dofs, C._find_global_numbering, C.assemble, C._parse_redundant_dof_setting, C.__eq__)
        out = []
        for m in (1, 2, 3):
            for red in (0, 1, m):
                gms, parts = py_gms(rng, m, red)
                for lab, g, parts in orders(C, gms, parts):
                    row = {e: g[e] for e in g}
                    out += chain_items(f'{m} {lab}', row, [(r, n) for r, n, _ in parts], g.num_dofs)
                    out += [('shape', g.shape, (len(row), sum(len(r[0]) for r, _, _ in parts))), ('elements', (g.num_elements, len(g)), (len(row),) * 2)]
                    skip = {}       # redundant dofs: only the stated places
                    off = 0
                    for r, n, rds in parts:
                        for d in (rds or {}):
                            es, js = rds[d]
                            skip[int(row[es[0]][js[0] + off])] = sorted((a, b + off) for a, b in zip(es, js))
                        off += len(r[0])
                    every = [int(x) for x in rng.permutation(g.num_dofs)]
                    for req in ([every[0]], every[:3], every, every[:3][::-1], every[0]):
                        got = g._find_elements_and_local_indices_of_dofs(req)
                        req = [req] if isinstance(req, int) else req
                        out.append(('found dofs', [int(x) for x in got], req))
                        for d in req:
                            out.append((f'{m} {lab}: places of dof {d}', pairs(*got[d]), skip.get(d, sorted(locations(row, d)))))
                    last, = g._find_elements_and_local_indices_of_dofs(-1).items()
                    out.append(('the last dof', (int(last[0]), pairs(*last[1])), (g.num_dofs - 1, skip.get(g.num_dofs - 1, sorted(locations(row, g.num_dofs - 1))))))
                    es = [int(x) for x in rng.integers(0, len(g), 3)]
                    js = [sorted(set(int(x) for x in rng.integers(0, g.shape[1], 2))) for _ in es]
                    out.append(('numbers at places', [int(x) for x in g._find_global_numbering(es, js)],
                                sorted({int(row[e][j]) for e, jj in zip(es, js) for j in jj})))
                    v = rng.random(g.num_dofs)
                    out.append(('assembled', g.assemble(np.array([v[row[e]] for e in g])), v))
                if m > 1:
                    out.append(('equal', (bool(C(gms) == C(gms)), bool(C(gms) == 1)), (True, False)))
                    other = np.array(C(gms)._gm)
                    other[0, 0] += 1
                    out.append(('unequal', bool(C(gms) == C(other)), False))
        return out
    R.bounded_scenario(led, 'msepy: chained numbering, searching, assembling', scn, samples=12)


@check.unit('msepy: numberings made after others were freed', real=True)
def _(led):
    def scn(mk):
        rng = setup(mk)
        C = get(PG)
        out = []
        for _ in range(12):
            r, n = rows(rng, [0, 1, 2], equal=True)
            g = C(np.array([r[e] for e in r]))
            got = g._find_elements_and_local_indices_of_dofs([0])
            out.append(('places of dof 0', pairs(*got[0]), sorted(locations(r, 0))))
            h = C([g, g])
            out += chain_items('chained', {e: h[e] for e in h}, [(r, n), (r, n)], h.num_dofs)
            del g, h
            gc.collect()
        return out
    R.bounded_scenario(led, 'msepy: numberings made after others were freed', scn, samples=3)


# ---- msehtt -----------------------------------------------------------------------------------------------------------------
def htt_gms(rng, m):
    C = get(HG)
    E = [int(x) for x in rng.permutation(9)[:int(rng.integers(1, 6))]]
    parts = [rows(rng, E) for _ in range(m)]
    return [C({e: r[e].copy() for e in r}) for r, _ in parts], parts


@check.unit('msehtt: chained numbering, searching, assembling', real=True)
def _(led):
    def scn(mk):
        rng = setup(mk)
        C = get(HG)
        V = get(HV)
        mk.fn(C.__init__, C.find_rank_locations_of_global_dofs, C.find_global_numbering_of_local_dofs, C.find_representative_location,
              C.find_global_numbering_of_ith_composition_global_dof, C.find_global_numbering_of_ith_composition_local_dof,
              C.num_global_locations, C.assemble, C.split, C.merge, C._merge_msehtt_gathered_global_vectors, C.__eq__)
        out = []
        for m in (1, 2, 3):
            gms, parts = htt_gms(rng, m)
            for lab, g, parts in orders(C, gms, parts):
                row = {e: g[e] for e in g}
                m = len(parts)
                out += chain_items(f'{m} {lab}', row, parts, g.num_global_dofs)
                out.append(('sizes', (g.num_global_elements, g.num_rank_elements, len(g), g.num_rank_dofs, [g.num_local_dofs(e) for e in g]),
                            (len(row),) * 3 + (sum(n for _, n in parts), [len(row[e]) for e in row])))
                out.append(('elements', ([e in g for e in range(9)], list(g)), ([e in row for e in range(9)], list(parts[0][0]))))
                every = [int(x) for x in rng.permutation(g.num_global_dofs)]
                for req in ([every[0]], every[:3], every, every[:3][::-1], every[0], np.array(every[:4]), every[1:3]):
                    got = g.find_rank_locations_of_global_dofs(req)
                    req = [req] if isinstance(req, int) else req
                    out.append(('found dofs', [int(x) for x in got], [int(x) for x in req]))
                    for d in req:
                        out.append((f'{m} {lab}: places of dof {d}', sorted(got[d]), sorted(locations(row, d))))
                for d in every[:5]:
                    loc = locations(row, d)
                    rank, e = g.find_representative_location(d)
                    out += [('representative place', (rank, e in [x for x, _ in loc]), (0, True)), ('number of places', g.num_global_locations(d), len(loc))]
                last, = g.find_rank_locations_of_global_dofs(-1).items()
                out.append(('the last dof', (int(last[0]), sorted(last[1])), (g.num_global_dofs - 1, sorted(locations(row, g.num_global_dofs - 1)))))
                for i, (r, n) in enumerate(parts):
                    for d in range(n):
                        e, j = locations(r, d)[-1]
                        want = int(row[e][sum(len(parts[q][0][e]) for q in range(i)) + j])
                        out.append((f'{m} {lab}: dof {d} of unknown {i}', (g.find_global_numbering_of_ith_composition_local_dof(i, e, j),
                                                                           g.find_global_numbering_of_ith_composition_global_dof(i, d)), (want, want)))
                places = [(e, int(rng.integers(0, len(row[e])))) for e in row if len(row[e])]
                got = g.find_global_numbering_of_local_dofs(*zip(*places))
                out.append(('numbers at places', {k: int(x) for k, x in got.items()}, {k: int(row[k[0]][k[1]]) for k in places}))
                v = rng.random(g.num_global_dofs)
                out.append(('assembled', g.assemble({e: v[row[e]] for e in row}), v))
                data = {e: rng.random(len(row[e])) for e in row}
                cut = g.split(data)
                out.append(('split', [[list(c[e]) for c in cut] for e in row],
                            [[list(x) for x in np.split(data[e], np.cumsum([len(r[e]) for r, _ in parts])[:-1])] for e in row]))
                if m > 1:
                    vs = [rng.random(n) for _, n in parts]
                    mg = g.merge(*[V(x, gm=q) for x, q in zip(vs, g._gms)])
                    out.append(('merged', [mg._V[row[e]] for e in row if len(row[e])], [np.concatenate([x[r[e]] for x, (r, _) in zip(vs, parts)]) for e in row if len(row[e])]))
            same = C({e: row[e].copy() for e in row})
            out.append(('equal', (bool(g == same), bool(g == C(gms)), bool(g == 3)), (True, True, False)))
            if m > 1:
                back = C(gms[::-1])
                out.append(('equal when reversed', bool(g == back), all(list(g[e]) == list(back[e]) for e in row)))
            for e in row:
                if len(row) > 1:
                    fewer = C({x: row[x].copy() for x in row if x != e})
                    out.append((f'unequal without element {e}', (bool(g == fewer), bool(fewer == g)), (False, False)))
                if len(row[e]):
                    other = {x: row[x].copy() for x in row}
                    other[e][-1] = 0 if other[e][-1] else 1
                    longer = {x: row[x].copy() for x in row}
                    longer[e] = np.concatenate([longer[e], longer[e][-1:]])
                    out.append((f'unequal in element {e}', (bool(g == C(other)), bool(g == C(longer)), bool(C(longer) == g)), (False,) * 3))
        return out
    R.bounded_scenario(led, 'msehtt: chained numbering, searching, assembling', scn, samples=12)


@check.unit('msehtt: numberings made after others were freed', real=True)
def _(led):
    def scn(mk):
        rng = setup(mk)
        C = get(HG)
        out = []
        for _ in range(12):
            r, n = rows(rng, [0, 1, 2])
            g = C({e: r[e] for e in r})
            got = g.find_rank_locations_of_global_dofs([0])
            out.append(('places of dof 0', sorted(got[0]), sorted(locations(r, 0))))
            h = C([g, g])
            out += chain_items('chained', {e: h[e] for e in h}, [(r, n), (r, n)], h.num_global_dofs)
            del g, h
            gc.collect()
        return out
    R.bounded_scenario(led, 'msehtt: numberings made after others were freed', scn, samples=3)


# ---- proofs -----------------------------------------------------------------------------------------------------------------
@check.unit('msepy: the other way of chaining', real=True)
def _(led):
    def scn(mk):
        rng = setup(mk)
        C = get(PG)
        m = get('phyem.msepy.tools.gathering_matrix')
        mk.fn(C.__init__)
        out = []
        for count in (2, 3):
            E = int(rng.integers(1, 6))
            parts = [rows(rng, list(range(E)), equal=True, kind='ordered') for _ in range(count)]
            gms = [C(np.array([r[e] for e in range(E)])) for r, _ in parts]
            m._cgm_cache.update(signatures='', cgm=None)
            g = C(gms, chaining_method=0)
            out += chain_items(f'{count}', {e: g[e] for e in g}, parts, g.num_dofs)
        m._cgm_cache.update(signatures='', cgm=None)
        return out
    R.bounded_scenario(led, 'msepy: the other way of chaining', scn, samples=12)


@check.scenario('msepy: chaining, any sizes, two or three numberings', samples=3, limit=60)
def _(mk):
    C = get(PG)
    m = get('phyem.msepy.tools.gathering_matrix')
    mk.fn(C.__init__)
    out = []
    for count in (2, 3):
        if not mk.symbolic:
            rng = np.random.default_rng(int(mk.int(f'seed{count}', 0, 10 ** 6)))
            gms, parts = py_gms(rng, count)
            g = C(gms)
            out += chain_items('chained', {e: g[e] for e in g}, [(r, n) for r, n, _ in parts], g.num_dofs)
            continue
        E = mk.int(f'E{count}', 1)
        m._cgm_cache.update(signatures='', cgm=None)
        with boxes.boxed(mk, m) as ctx:
            gms, N, L = [], [], []
            for i in range(count):
                N.append(mk.int(f'N{count}_{i}', 1))
                L.append(mk.int(f'L{count}_{i}', 1))
                g = object.__new__(C)
                object.__setattr__(g, '_gm', boxes.Arr((E, L[i]), lambda x, i=i: sym.uf(f'g{i}', *[S(q) for q in x])))
                for k, v in dict(_composite=1, _num_dofs=N[i], _redundant_dof_setting={}, _signature=f'g{i}').items():
                    object.__setattr__(g, k, v)
                gms.append(g)
            c = C(gms)
            got = c._gm
            if not isinstance(got, boxes.Concat) or got.axis != 1 or len(got.parts) != count:
                raise Unsupported('chained array')
            for i, q in enumerate(got.parts):
                out += boxes.array_items(f'block {i} of {count}', q, (E, L[i]),
                                         lambda x, i=i: sym.uf(f'g{i}', *[S(y) for y in x]) + sum(N[:i], S(0)))
            out += ctx.obl
        # such numbers determine (unknown, number) and fill 0..sum-1
        for i, j in itertools.product(range(count), repeat=2):
            a, b = mk.int(f'a{count}{i}{j}', 0), mk.int(f'b{count}{i}{j}', 0)
            loc = [a < N[i], b < N[j]]
            x, y = a + sum(N[:i], S(0)), b + sum(N[:j], S(0))
            if i != j:
                out.append((f'{count}: numbers of unknowns {i}, {j} differ', x != y, True, loc))
            else:
                out.append((f'{count}: unknown {i} in range', (x < sum(N, S(0))) & (S(0) <= x), True, loc))
                out.append((f'{count}: numbers of unknown {i} differ', (x == y), True, loc + [a == b]))
        w = mk.int(f'w{count}', 0)
        reach = None
        for i in range(count):
            lo = sum(N[:i], S(0))
            c_ = (lo <= w) & (w < lo + N[i])
            reach = c_ if reach is None else reach | c_
        out.append((f'{count}: every number is reached', reach, True, [w < sum(N, S(0))]))
    return out


class Pool:
    r"""a finite map from (unknown, number) to chained numbers, seen through two arbitrary keys a, b and one arbitrary value w.

    invariant: 0 <= P < c on present keys, P injective; every value below c is taken."""

    def __init__(self, rule): self.rule = rule

    def slot(self, key):
        r = self.rule
        if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], int)):
            raise Unsupported('key of the pool')
        for g in r.ghosts:
            if key[0] == g['i'] and boxes.holds(S(key[1]) == g['n']):
                return g
        for g in r.others:
            if key[0] == g['i'] and boxes.same(key[1], g['n']):
                return g
        g = dict(i=key[0], n=S(key[1]))
        r.others.append(g)
        r.havoc(g)
        return g

    def __contains__(self, key):
        g = self.slot(key)
        return g['D'] if isinstance(g['D'], bool) else boxes.holds(g['D'] == 1)

    def __getitem__(self, key):
        g = self.slot(key)
        boxes.ctx.obl.append(('no missing key is read', g['D'] if isinstance(g['D'], bool) else g['D'] == 1, True))
        return g['P']

    def __setitem__(self, key, v):
        g = self.slot(key)
        g['D'], g['P'] = True, S(v)
        self.rule.written.append(S(v))


def absent(g): return (not g['D']) if isinstance(g['D'], bool) else g['D'] == 0


def either(*cs):
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return sym.Cond('or', parts=tuple(cs)) if len(cs) > 1 else cs[0] if cs else False


class Chain:
    r"""shared state of the two loop rules of the chaining."""

    def __init__(self, m, a, b, tag):
        self.m = m
        f = boxes.ctx.fresh
        self.ghosts = [dict(i=i, n=f(f'n{tag}')) for i in (a, b)]
        if a == b:
            boxes.ctx.mk.assume(self.ghosts[0]['n'] != self.ghosts[1]['n'])
        self.w = f('w')
        self.pool = Pool(self)

    def havoc(self, g):
        live = boxes.ctx.mk.assumptions
        g['D'], g['P'] = boxes.ctx.fresh('D'), boxes.ctx.fresh('P')
        live += [either(g['D'] == 0, g['D'] == 1), either(absent(g), g['P'] < self.c)]
        for h in self.ghosts + self.others:
            if h is not g and 'P' in h:
                same = [h['n'] == g['n']] if h['i'] == g['i'] else []
                live.append(either(absent(g), absent(h), h['P'] != g['P'], *same))

    def arbitrary(self):
        r"""any state satisfying the invariant."""
        self.c = boxes.ctx.fresh('c')
        self.others, self.written = [], []
        for g in self.ghosts:
            g.pop('D', None), g.pop('P', None)
        for g in self.ghosts:
            self.havoc(g)
        self.start = [(g['D'], g['P']) for g in self.ghosts]

    def initial(self, L, lab):
        o = boxes.ctx.obl
        o.append((f'{lab}: the pool is empty at the start', len(L['pool_dict']) if isinstance(L['pool_dict'], dict) else -1, 0))
        o.append((f'{lab}: numbers start at 0', S(L['current']), S(0)))

    def preserved(self, L, lab):
        o, c = boxes.ctx.obl, S(L['current'])
        if L['pool_dict'] is not self.pool:
            raise Unsupported('another pool')
        o.append((f'{lab}: the counter does not decrease', self.c <= c, True))
        a, b = self.ghosts
        for g, (d, p) in zip(self.ghosts, self.start):
            o.append((f'{lab}: a number given stays', g['D'] if isinstance(g['D'], bool) else g['D'] == 1, True, [d == 1]))
            o.append((f'{lab}: a number given stays the same', S(g['P']), S(p), [d == 1]))
            o.append((f'{lab}: below the counter', either(absent(g), g['P'] < c), True))
        o.append((f'{lab}: different keys have different numbers', either(absent(a), absent(b), a['P'] != b['P']), True))
        hit = either(self.w < self.c, *[v == self.w for v in self.written])
        o.append((f'{lab}: every number below the counter is taken', hit, True, [self.w < c]))


class Row(loops.Abstract):
    r"""for num in numbering: the row of unknown i in element e."""
    names = ('current', 'pool_dict', 'the_gm', 'e', 'i')

    def __init__(self, chain, i, e): self.chain, self.i, self.e, self.serial = chain, i, e, i + 1

    def enter(self, L):
        ch = self.chain
        if L['i'] != self.i or L['e'] is not self.e:
            raise Unsupported('row of another element')
        if L['pool_dict'] is not ch.pool:
            raise Unsupported('pool')
        # the invariant at the start of this row: from the enclosing loop's arbitrary state, or the previous row's end
        ch.preserved(L, f'before row {self.i}')
        ch.arbitrary()
        self.list = L['the_gm'][self.e]
        if not isinstance(self.list, Values):
            raise Unsupported('row list')
        self.new = self.list.new = []
        self.num = boxes.ctx.fresh('num')
        return dict(current=ch.c)

    def item(self): return self.num

    def leave(self, L):
        ch = self.chain
        o = boxes.ctx.obl
        lab = f'row {self.i}'
        o.append((f'{lab}: one value is appended', len(self.new), 1))
        ch.preserved(L, lab)
        g = ch.pool.slot((self.i, self.num))
        o.append((f'{lab}: the dof has a number now', g['D'] if isinstance(g['D'], bool) else g['D'] == 1, True))
        if len(self.new) == 1:
            o.append((f'{lab}: the value appended is its number', S(self.new[0]), S(g['P'])))

    def end(self, L):
        self.chain.arbitrary()
        self.list.parts.append((self.i, self.e))
        self.list.new = None
        return dict(current=self.chain.c)


class Values(list):
    r"""a list; for the values of an element: whole rows of unknowns."""

    def __init__(self, *a):
        super().__init__(*a)
        self.parts, self.new = [], None

    def append(self, v):
        if self.new is None:
            super().append(v)
        else:
            self.new.append(v)


class Elements(loops.Abstract):
    r"""for e in elements."""
    names = ('current', 'pool_dict', 'the_gm')

    def __init__(self, chain): self.chain = chain
    def keys(self): return self

    def enter(self, L):
        self.chain.initial(L, 'elements')
        self.e = boxes.ctx.fresh('e')
        self.chain.arbitrary()
        return dict(current=self.chain.c, pool_dict=self.chain.pool)

    def item(self): return self.e

    def leave(self, L):
        ch = self.chain
        ch.preserved(L, 'after an element')
        got = L['the_gm'].get(self.e)
        if not isinstance(got, Values):
            raise Unsupported('chained row')
        boxes.ctx.obl.append(('the chained row is the rows of the unknowns in order', (got.parts, len(got)), ([(i, self.e) for i in range(ch.m)], 0)))

    def end(self, L):
        ch = self.chain
        ch.arbitrary()
        return dict(current=ch.total)       # the counting argument


class Rows:
    r"""one unknown's numbering, all elements."""

    def __init__(self, chain, i): self.chain, self.i = chain, i
    def keys(self): return Elements(self.chain)
    def __getitem__(self, e): return Row(self.chain, self.i, e)


class Dict(dict):
    def update(self, x):
        if isinstance(x, Rows):
            self.rows = x
            return
        dict.update(self, x)

    def __getitem__(self, k):
        if hasattr(self, 'rows'):
            return self.rows[k]
        return dict.__getitem__(self, k)


def List(x=()): return x if isinstance(x, loops.Abstract) else Values(x)


def chaining(count, a, b):
    @check.scenario(f'msehtt: chaining {count} unknowns, any elements and numberings: dofs of unknowns {a} and {b}', samples=3, limit=100, max_paths=4000)
    def _(mk):
        m = get('phyem.msehtt.tools.gathering_matrix')
        f = m.___msehtt_gm_chaining_method_0___
        mk.fn(f)
        if not mk.symbolic:
            rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
            gms, parts = htt_gms(rng, count)
            return chain_items('chained', f(gms), parts, sum(n for _, n in parts))
        with boxes.boxed(mk, m) as ctx:
            ch = Chain(count, a, b, f'{count}{a}{b}')
            N = [mk.int(f'N{i}', 1) for i in range(count)]
            ch.total = sum(N, S(0))
            gms = [Stub(_gm=Rows(ch, i), num_global_dofs=N[i]) for i in range(count)]
            g = loops.invariants(f, COMM=Stub(gather=lambda x, root=0: [x], scatter=lambda x, root=0: x[0]), RANK=0, MASTER_RANK=0,
                                 SIZE=1, dict=Dict, list=List, np=Stub(array=lambda x, dtype=None: x),
                                 sum=lambda x: ch.total if len(x) == count and all(p is q for p, q in zip(x, N)) else sum(x))
            try:
                g(gms)
            except loops.Done:
                pass
            return ctx.obl


for _c in (2, 3):
    for _a in range(_c):
        for _b in range(_a, _c):
            chaining(_c, _a, _b)


if __name__ == '__main__':
    check.main()
