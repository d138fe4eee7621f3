r"""C19: caches, shared metric data and freed objects never change a result."""
import ast, builtins, gc, inspect, itertools, textwrap
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
import pv.run as R
from pv import cells, geo, refel, terms, world
from pv import tensor as T
from pv.formal import formal, mod, Duck

check = Check('C19', trusted=['two numbers printed alike by "%.9e" / rounded alike to 9 decimals are identified (metric signatures)', 'one MPI rank'])
HE = 'phyem.msehtt.static.mesh.great.elements.types.'
HTT = 'phyem.msehtt.static.space.'
NC = 'phyem.tools.miscellaneous.ndarray_cache'


def fn(led, *fs):
    for f in fs: led.functions.add(R.qual(f))


# ------------------------------------------------------------------ the array-keyed cache (proved, any arrays and strings)
class Arr:
    r"""an array known by its shape and its values only."""
    def __init__(self, s, v): self.s, self.v = s, v
    @property
    def shape(self): return Sym(self.s)
    def copy(self): return Arr(self.s, self.v)


class Sym:
    r"""a value that can only be compared."""
    __hash__ = None
    def __init__(self, x): self.x = x
    def __eq__(self, o): return self.x == o.x
    def __ne__(self, o): return self.x != o.x


def equal(a, b): return (a.s == b.s) & (a.v == b.v)


class World:
    def __init__(self, mk): self.mk = mk

    def array(self, name):
        s, v = self.mk.int(f'{name} shape', 0, 1), self.mk.int(f'{name} value', 0, 2)
        if self.mk.symbolic: return Arr(s, v)
        return np.full((1 + int(s), 2), float(v))

    def string(self, name):
        s = self.mk.int(f'{name} string', 0, 1)
        return Sym(s) if self.mk.symbolic else f'string {int(s)}'

    def same(self, a, b):
        if self.mk.symbolic: return a.x == b.x if isinstance(a, Sym) else equal(a, b)
        return a == b if isinstance(a, str) else a.shape == b.shape and bool(np.array_equal(a, b))

    def patched(self, m, info):
        sub = dict(___cache_info___=info)
        if self.mk.symbolic: sub['np'] = Stub(ndarray=Arr, array_equal=equal)
        return np_patched(m, **sub)


STATS = {'new': None, 'used': (5, 3, True), 'about to stop': (100, 0, True), 'about to stop unless found': (100, 5, True), 'stopped': (101, 0, False)}


def array_cache(sizes, start, query, stats, maximum):
    r"""sizes: how many arrays each entry has; keys: start, start + 1, ..."""
    def scn(mk):
        m = get(NC)
        mk.fn(m.ndarray_key_comparer, m.add_to_ndarray_cache)
        w = World(mk)
        info, cache, out = {}, {}, []
        values = [(f'result {i}',) for i in range(len(sizes))]
        if sizes or stats != 'new':
            cache.update({'keys': {start + i: [w.array(f'entry {i} {j}') for j in range(c)] for i, c in enumerate(sizes)},
                          'values': {start + i: v for i, v in enumerate(values)},
                          'check strings': {start + i: w.string(f'entry {i}') for i in range(len(sizes))}})
        if STATS[stats]: info[id(cache)] = dict(zip(('attempts', 'hit', 'keep trying'), STATS[stats]))
        before = {k: dict(v) for k, v in cache.items()}
        asked, string = [w.array(f'asked {j}') for j in range(query)], w.string('asked')

        def intact(lab, allowed=()):
            k, v, s = cache['keys'], cache['values'], cache['check strings']
            out.append((f'{lab}: keys, values and strings belong together', sorted(k) == sorted(v) == sorted(s), True))
            for i in k:
                if i in allowed: continue
                old = i in before.get('keys', {}) and k[i] is before['keys'][i] and v[i] is before['values'][i] and s[i] is before['check strings'][i]
                out.append((f'{lab}: entry {i} is an old one, unchanged', old, True))

        with w.patched(m, info):
            hit, got = m.ndarray_key_comparer(cache, asked if query != 2 else tuple(asked), check_str=string)
            if hit:
                i = next((i for i, v in enumerate(values) if v is got), None)
                out.append(('what is found is one of the cached results', i is not None, True))
                if i is not None:
                    out.append(('its string is the one asked for', w.same(before['check strings'][start + i], string), True))
                    out.append(('it has as many arrays', len(before['keys'][start + i]), query))
                    for a, b in zip(before['keys'][start + i], asked): out.append(('its arrays are those asked for', w.same(a, b), True))
                intact('after a hit')
                return out
            out.append(('nothing is found', got is None, True))
            intact('after a miss')
            result = ('the new result',)
            m.add_to_ndarray_cache(cache, asked, result, check_str=string, maximum=maximum)
            new = [i for i, v in cache['values'].items() if v is result]
            intact('after adding', new)
            out.append(('at most one entry is added', len(new) <= 1, True))
            for i in new:
                out.append(('the new entry has a new key', i not in before.get('keys', {}), True))
                out.append(('the new entry: its string', w.same(cache['check strings'][i], string), True))
                out.append(('the new entry: number of arrays', len(cache['keys'][i]), query))
                for a, b in zip(cache['keys'][i], asked):
                    out.append(('the new entry: its arrays', w.same(a, b), True))
                    out.append(('the new entry: its arrays are its own', a is b or (not mk.symbolic and np.shares_memory(a, b)), False))
        return out
    return scn


for _sizes, _query in [((), 1), ((1,), 1), ((2,), 1), ((1,), 2), ((2,), 2), ((3,), 3), ((1, 1), 1), ((2, 1), 2), ((2, 2), 2), ((1, 1, 1), 1), ((2, 2, 2), 2)]:
    for _stats in STATS:
        if _stats == 'new' and _sizes or _stats != 'new' and not _sizes and _stats != 'used': continue
        for _max, _start in ((1, 0), (25, 4)):
            if len(_sizes) > 2 and _max == 25: continue
            check.scenario(f'array cache: entries of {_sizes} arrays, {_query} asked, {_stats}, at most 2 x {_max} + 1 entries', samples=40, max_paths=6000)(
                array_cache(_sizes, _start, _query, _stats, _max))


# ------------------------------------------------------------------ metric signatures determine the metric (proved)
class Printed:
    r"""a text with printed numbers in it."""
    def __init__(self, parts): self.parts = parts
    def __add__(self, o): return Printed(self.parts + (o.parts if isinstance(o, Printed) else [o]))
    def __radd__(self, o): return Printed([o] + self.parts)


class Prints(ast.NodeTransformer):
    r"""'...' % x -> what was printed."""
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return ast.copy_location(ast.Call(func=ast.Name(id='__printed__', ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node


def printed(f, x): return Printed([f] + list(x if isinstance(x, tuple) else (x,)))


def printing(cls, **env):
    r"""cls.__init__ with its printing recorded (mechanically, from the source as it is now)."""
    f = cls.__init__
    tree = Prints().visit(ast.parse(textwrap.dedent(inspect.getsource(f))))
    ast.fix_missing_locations(tree)
    g = dict(f.__globals__)
    me = []
    g.update(env, __printed__=printed, super=lambda: builtins.super(cls, me[0]), round=lambda x, n=0: x)
    exec(compile(tree, f'<{cls.__name__}>', 'exec'), g)

    def init(self, *a, **k):
        me[:] = [self]
        return g['__init__'](self, *a, **k)
    return init


def signature_parts(s):
    s = s.parts if isinstance(s, Printed) else [s]
    return [x for x in s if isinstance(x, str)], [x for x in s if not isinstance(x, str)]


def corners(mk, tag, count): return [(mk.real(f'{tag} x{i}', -3, 3), mk.real(f'{tag} y{i}', -3, 3)) for i in range(count)]


def by_nodes(name, cls, count):
    @check.scenario(f'elements of type {name} printed alike have the same Jacobian matrix', samples=25)
    def _(mk):
        m = get(HE + name)
        K = getattr(m, cls)
        mk.fn(K.__init__)
        xi, et = mk.real('xi', -1, 1), mk.real('et', -1, 1)
        if not mk.symbolic:
            # the same shape moved; another shape
            rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
            base = {3: np.array([(0., 0.), (1.1, .2), (.3, .9)]), 4: np.array([(0., 0.), (1.1, .2), (1.3, 1.1), (.1, .9)])}[count]
            base = base + rng.uniform(-.1, .1, base.shape)
            shapes = [base, base + rng.uniform(-3, 3, 2), base * rng.choice([1., 1 + 1e-5, 2., 1e-3]), base + np.array([[0, 0]] * (count - 1) + [rng.choice([0, 1e-5, 1e-3, .1], 2)]),
                      base[::-1], np.roll(base, 1, axis=0), base * [1, -1]]
            els = [K(i, [tuple(map(float, q)) for q in s], list(range(count))) for i, s in enumerate(shapes)]
            J = [np.array([[float(np.ravel(x)[0]) for x in r] for r in e.ct.___Jacobian_matrix___(np.array([xi]), np.array([et]))]) for e in els]
            out = []
            for i, j in itertools.combinations(range(len(els)), 2):
                if els[i].metric_signature == els[j].metric_signature:
                    out.append((f'shapes {i}, {j} printed alike', float(abs(J[i] - J[j]).max()) <= 1e-7 * float(abs(J[i]).max()), True))
            out.append(('a moved element has the same metric', float(abs(J[0] - J[1]).max()) < 1e-12, True))
            return out
        D = mk.real('first distance', 0.001)
        sig, Js = [], []
        for tag in 'ab':
            P = corners(mk, tag, count)

            def distance(p, q, tag=tag):
                return D if tag == 'a' else mk.real('second distance', 0.001)
            with geo.sym_env(), np_patched(m, distance=distance):
                old = K.__init__
                K.__init__ = printing(K, distance=distance)
                try: e = K(0, P, list(range(count)))
                finally: K.__init__ = old
                sig.append(signature_parts(e._metric_signature))
                Js.append(e.ct.___Jacobian_matrix___(xi, et))
        if sig[0][0] != sig[1][0] or len(sig[0][1]) != len(sig[1][1]): raise R.Unsupported('texts of the signatures')
        for x, y in zip(sig[0][1], sig[1][1]): mk.assume(x == y)
        d2 = mk.real('second distance', 0.001)
        # the quotients printed alike, times the distance printed alike
        for x, y in zip(sig[0][1], sig[1][1]): mk.assume(x * D == y * d2)
        out = []
        for i in range(2):
            for j in range(2): out.append((f'J[{i}][{j}]', Js[0][i][j], Js[1][i][j]))
        return out


by_nodes('vtu_5_triangle', 'Vtu5Triangle', 3)
by_nodes('vtu_9_quad', 'Vtu9Quad', 4)


def by_sides(name, cls, n):
    @check.scenario(f'elements of type {name} printed alike have the same metric', samples=25)
    def _(mk):
        m = get(HE + name)
        K = getattr(m, cls)
        mk.fn(K.__init__)
        sig, ct = [], []
        point = [mk.real(f'xi{i}', -1, 1) for i in range(n)]
        out = []
        if not mk.symbolic:
            rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)))
            base = rng.uniform(.1, 2, n)
            els = [K(0, dict(origin=list(rng.uniform(-3, 3, n)), delta=list(base * f)), list(range(2 ** n)))
                   for f in ([1.] * n, [1. + 1e-5] + [1.] * (n - 1), [1.] * (n - 1) + [1. + 1e-6], [1.] * n, [1e-3] * n, [1e-3] + [1.] * (n - 1), [1. + 1e-14] * n)]
            if n == 2: els.append(K(0, dict(origin=[0., 0.], delta=list(base[::-1])), list(range(4))))
            J = [np.array([[float(np.ravel(x)[0]) for x in r] for r in e.ct.Jacobian_matrix(*[np.array([x]) for x in point])]) for e in els]
            for i, j in itertools.combinations(range(len(els)), 2):
                if els[i].metric_signature == els[j].metric_signature:
                    out.append((f'shapes {i}, {j} printed alike', float(abs(J[i] - J[j]).max()) <= 1e-7 * float(abs(J[i]).max()), True))
            out.append(('a moved element has the same metric', float(abs(J[0] - J[3]).max()) < 1e-12, True))
            return out
        for tag in 'ab':
            with geo.sym_env():
                old = K.__init__
                K.__init__ = printing(K)
                helper = m.___ct_helper_parser___
                m.___ct_helper_parser___ = lambda *ratios: ratios
                try: e = K(0, dict(origin=[mk.real(f'{tag} o{i}') for i in range(n)], delta=[mk.real(f'{tag} d{i}', 0.001) for i in range(n)]), list(range(2 ** n)))
                finally: K.__init__, m.___ct_helper_parser___ = old, helper
                sig.append(signature_parts(e._metric_signature))
                ct.append(e.ct._ct_helper)
        if sig[0][0] != sig[1][0] or len(sig[0][1]) != len(sig[1][1]): raise R.Unsupported('texts of the signatures')
        for x, y in zip(sig[0][1], sig[1][1]): mk.assume(x == y)
        return [(f'metric data asked for: side {i}', ct[0][i], ct[1][i]) for i in range(n)]


by_sides('orthogonal_rectangle', 'MseHttGreatMeshOrthogonalRectangleElement', 2)
by_sides('orthogonal_hexahedron', 'MseHttGreatMeshOrthogonalHexahedronElement', 3)


def sizes(name, cls, n):
    r"""elements of many sizes, made one after another: every metric quantity is that of the element's own sides."""
    def scn(mk):
        K = getattr(get(HE + name), cls)
        mk.fn(K.__init__)
        rng, out = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6))), []
        few = [round(float(x), 2) for x in rng.uniform(.1, 2, 3)]
        every = list(itertools.product(few + [1.], repeat=n))
        x = [np.array([-.3, .2, .7])] * n
        with Cold():
            for k in rng.permutation(len(every))[:40]:
                d = every[k]
                ct = K(int(k), dict(origin=[.1] * n, delta=list(d)), list(range(2 ** n))).ct
                h = np.array(d) / 2
                want = dict(Jacobian_matrix=np.diag(h), inverse_Jacobian_matrix=np.diag(1 / h), Jacobian=h.prod(), metric=h.prod() ** 2, inverse_Jacobian=1 / h.prod(),
                            metric_matrix=np.diag(h ** 2), inverse_metric_matrix=np.diag(1 / h ** 2))
                for q, w in want.items():
                    g = getattr(ct, q)(*x)
                    w = np.asarray(w)
                    got = [[np.ravel(y)[-1] for y in r] for r in g] if w.ndim else np.ravel(g)[-1]
                    out.append((f'sides {d}: {q}', bool(np.allclose(np.asarray(got, dtype=float), w, rtol=1e-10)), True))
        return out
    return scn


for _a in (('orthogonal_rectangle', 'MseHttGreatMeshOrthogonalRectangleElement', 2), ('orthogonal_hexahedron', 'MseHttGreatMeshOrthogonalHexahedronElement', 3)):
    @check.unit(f'elements of type {_a[0]} of many sizes', real=True)
    def _(led, a=_a): R.bounded_scenario(led, f'{a[0]} of many sizes', sizes(*a), samples=3)


# ------------------------------------------------------------------ metric data of elements, warm caches (proved, any mapping)
NODES = {n: [[np.array([.1, .2, .3]) + .01 * i for i in range(n)], [np.array([.1, .2, .4]) + .01 * i for i in range(n)], [np.array([[.1, .2, .3]]) + .01 * i for i in range(n)]] for n in (1, 2, 3)}
WHAT = ['Jacobian_matrix', 'inverse_Jacobian_matrix', 'Jacobian', 'metric', 'inverse_Jacobian', 'metric_matrix', 'inverse_metric_matrix']


def same_nodes(a, b): return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def flat(x): return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def warm_metric(n):
    @check.scenario(f'metric data of {n}d elements: what was asked before does not matter', samples=3)
    def _(mk):
        m = get(HE + 'base')
        K = m.MseHttGreatMeshBaseElementCooTrans
        mk.fn(*[getattr(K, x) for x in WHAT], *[getattr(K, f'___{x}___') for x in WHAT[1:]])
        names = [x for x in vars(m) if x.startswith('___cache_msehtt_')]
        kept = NODES[n]

        class Mapped(K):
            def ___Jacobian_matrix___(self, *x):
                w = next(i for i, y in enumerate(kept) if same_nodes(x, y))
                s = self._element.name
                return [[mk.real(f'J{i}{j} {s} {w}', *((2, 3) if i == j else (-.4, .4))) for j in range(n)] for i in range(n)]
        signatures = ['a', 'b', 'ab', 7, 8]
        element = lambda s: Mapped(Stub(name=str(s), m=lambda: n, n=lambda: n), s)
        asked = [(s, w, q) for s in signatures for w in range(3) for q in WHAT]
        rng = np.random.default_rng(0 if mk.symbolic else int(mk.int('seed', 0, 10 ** 6)))
        asked = [asked[i] for i in rng.permutation(len(asked))[:60]]
        out = []
        with np_patched(m, **{x: {} for x in names}):
            for k, (s, w, q) in enumerate(asked):
                x = [y.copy() for y in kept[w]]
                got = getattr(element(s), q)(*x)
                for y in x: y += 1.                   # the caller's arrays are its own
                with np_patched(m, ndarray_key_comparer=lambda *a, **k: (0, None), add_to_ndarray_cache=lambda *a, **k: None):
                    want = getattr(element(s), q)(*kept[w])
                for i, (a, b) in enumerate(zip(flat(got), flat(want))): out.append((f'{k}: {q} of {s} at {w} [{i}]', a, b))
        return out


for _n in (1, 2, 3): warm_metric(_n)


# ------------------------------------------------------------------ mass and reconstruction matrices, warm caches (proved, any arrays)
class Named(Duck):
    def __init__(self, name): self.name = name


class Element(Duck):
    r"""an element whose arrays are named by everything they may depend on: the metric, the reversed faces, the degree, the nodes."""
    def __init__(self, src, n, etype, sig, reverse):
        self.src, self.n, self.etype, self.sig = src, n, etype, sig
        self.metric_signature = sig
        self.dof_reverse_info = {k: v for k, v in (reverse or {}).items()}
        E = self

        class CT(Duck):
            @staticmethod
            def at(x): return x[0].name

            def Jacobian(s, *x): return src(f'det {sig} {s.at(x)}', 'm')
            def inverse_Jacobian(s, *x): return src(f'idet {sig} {s.at(x)}', 'm')
            def entries(s, what, *x):
                ortho = etype in ('orthogonal rectangle', 'orthogonal hexahedron')
                return [[0 if ortho and i != j else src(f'{what}{min(i, j)}{max(i, j)} {sig} {s.at(x)}' if what == 'G' else f'{what}{i}{j} {sig} {s.at(x)}', 'm') for j in range(n)] for i in range(n)]

            def inverse_Jacobian_matrix(s, *x): return s.entries('A', *x)
            def inverse_metric_matrix(s, *x): return s.entries('G', *x)
        self.ct = CT()

    def degree_parser(self, degree):
        p = degree if isinstance(degree, tuple) else (degree,) * self.n
        return p, ('Lobatto',) * self.n

    def bf(self, key, degree, *nodes):
        where = ' '.join(x.name if isinstance(x, Named) else str(np.asarray(x).tobytes().hex()) for x in nodes)
        count = {'0': 1, str(self.n): 1}.get(key.split('k')[1][0], self.n)
        rev = str(self.dof_reverse_info.get(key)) + f'{degree}{where}'
        return (Named(where),) * self.n, [self.src(f'bf{j} {key} {rev}', f'n{j}', 'm') for j in range(count)]


def rule_names(src):
    def q(degrees, category='Gauss'):
        name = f'{degrees} {category}'
        return Stub(quad_nodes=tuple(Named(f'node {i} of {name}') for i in range(len(degrees))), quad_weights_ravel=src(f'w {name}', 'm'))
    return q


class Tpm:
    def __init__(self, name, comp): self.name, self.composition = name, comp
    def __repr__(self): return f'<partial mesh #{self.name}>'


def meshes(src, n, key):
    r"""partial meshes of every kind of element, sharing metrics, reversed faces and element numbers."""
    if n == 2:
        O, U = 'orthogonal rectangle', 'unique msepy curvilinear quadrilateral'
        one = key if 'k1' in key else 'm2n2k1_inner'         # only 1-forms are reversed
        r = lambda *f: {one: list(f)} if f else {}
        nine = [(9, '9:a;', r(*f)) for f in ((), (0,), (0, 2), (1,), (0,), ())] + [(9, '9:b;', r()), (9, '9:b;', r(0)), (9, '9:ab;', r(1))]
        rows = [[(O, 'OR:a;', {}), (O, 'OR:b;', {}), (O, 'OR:a;', {}), (U, 11, {}), (U, 12, {}), (U, 11, {})] + nine,
                nine[::-1] + [(U, 13, {}), (O, 'OR:b;', {}), (O, 'OR:c;', {}), (9, '9:c;', r(0))],
                [(9, '9:a;', r(2)), (O, 'OR:b;', {}), (9, '9:b;', r(0, 2))]]
    else:
        O, U = 'orthogonal hexahedron', 'unique msepy curvilinear hexahedron'
        rows = [[(O, 'OR:a;', {}), (O, 'OR:b;', {}), (O, 'OR:a;', {}), (U, 11, {}), (U, 12, {}), (U, 11, {})],
                [(O, 'OR:b;', {}), (O, 'OR:c;', {}), (U, 13, {}), (O, 'OR:a;', {})], [(O, 'OR:ab;', {}), (O, 'OR:b;', {})]]
    return [Tpm(str(i), {e: Element(src, n, *x) for e, x in enumerate(r)}) for i, r in enumerate(rows)]


def degrees(n): return [1, 2, (1,) * n, (2,) * n, (1, 11, 2)[:n], (11, 1, 2)[:n], 11, (1, 1, 12)[-n:], (11, 2, 2)[:n]]


def content(x, symbolic):
    if not symbolic: return np.asarray(x.toarray() if hasattr(x, 'toarray') else x)
    rows = x.rows if isinstance(x, T.Blocks) else [[x]]
    for r in rows:
        for y in r:
            if y is not None and not isinstance(y, T.Formal): raise R.Unsupported(type(y).__name__)
    return ' | '.join(', '.join('0' if y is None or not y.terms else f'{y.shape} {y!r}' for y in r) for r in rows)


KINDS = [(2, 0, 'outer'), (2, 1, 'inner'), (2, 1, 'outer'), (2, 2, 'outer'), (3, 0, 'outer'), (3, 1, 'outer'), (3, 2, 'outer'), (3, 3, 'outer')]


def dicts(m): return [x for x in dir(m) if x.startswith('_cache') and isinstance(getattr(m, x), dict)]


def own(m):
    return [x for x in vars(m).values() if getattr(x, '__module__', None) == m.__name__ and hasattr(x, '__code__')]


def warm_matrices(what, n, k, o):
    suffix = f'm{n}n{n}k{k}' + (f'_{o}' if (n, k) == (2, 1) else '')
    file = f'm{n}n{n}k{k}'

    @check.scenario(f'{what} of {n}d {k}-forms {o if (n, k) == (2, 1) else ""}: what was asked before does not matter', samples=2)
    @formal
    def _(mk):
        M = mod(HTT + (f'mass_matrix.Lambda.MM_{file}' if what == 'mass matrices' else f'reconstruction_matrix.Lambda.RM_{file}'))
        mk.fn(*own(M))
        import scipy.sparse as sp
        src = T.Source(mk.symbolic, 3)
        rng = np.random.default_rng(int(mk.int('seed', 0, 10 ** 6)) if not mk.symbolic else 5)
        tpms = meshes(src, n, suffix)
        if what == 'mass matrices':
            f = getattr(M, f'mass_matrix_Lambda__{suffix}')
            repl = dict(quadrature=rule_names(src))
            if mk.symbolic: repl.update(np=T.NP(), csr_matrix=T.stored(sp.csr_matrix), bmat=T.bmat)
            asked = [(t, d, ()) for t in tpms for d in degrees(n)]
        else:
            f = getattr(M, f'rm__{suffix}')
            repl = dict(np=T.NP()) if mk.symbolic else {}
            grids = [tuple(np.array(x) for x in g)[:n] for g in (([-.5, .5], [-.5, .5], [-.5, .5]), ([-.5, .25], [-.5, .5], [-.5, .5]), ([-.5, .5], [-.5, .25], [-.5, .5]), ([-.5, .5], [-.5, .5], [-.5, .25]))][:n + 1]
            asked = [(t, d, g) for t in tpms for d in degrees(n)[:5] for g in grids]
            # reconstruction matrices of curved hexahedra are not implemented
            for t in tpms: t.composition = {e: x for e, x in t.composition.items() if x.etype != 'unique msepy curvilinear hexahedron'}
        asked = asked + [asked[i] for i in rng.permutation(len(asked))[:10]]
        order = rng.permutation(len(asked))
        info = NC + ':___cache_info___'
        nc, out, seen, cold = get(NC), [], {}, {}
        with np_patched(M, **{x: {} for x in dicts(M)}, **repl), np_patched(nc, ___cache_info___={}):
            for i in order:
                t, d, g = asked[i]
                R_ = f(t, d, *[x.copy() for x in g])
                comps = [R_[0]] if what == 'mass matrices' else R_
                for e, x in t.composition.items():
                    sig = (x.etype, x.sig, str(x.dof_reverse_info), repr(d), tuple(y.tobytes() for y in g))
                    if sig not in cold:
                        with np_patched(M, **{y: {} for y in dicts(M)}, **repl), np_patched(nc, ___cache_info___={}):
                            C = f(Tpm('alone', {0: x}), d, *g)
                        cold[sig] = [content(c[0], mk.symbolic) for c in ([C[0]] if what == 'mass matrices' else C)]
                    for c, (a, b) in enumerate(zip(comps, cold[sig])):
                        out.append((f'mesh {t.name} degree {d} nodes {i} element {e} {sig[:3]} component {c}', content(a[e], mk.symbolic), b))
                    if what == 'mass matrices' and R_[1][e] != 'unique':
                        same = seen.setdefault((str(R_[1][e])), (sig, cold[sig][0]))
                        out.append((f'equal keys mean equal matrices: {same[0][:4]}, {sig[:4]}', cold[sig][0], same[1]))
        return out


for _k in KINDS:
    for _w in ('mass matrices', 'reconstruction matrices'): warm_matrices(_w, *_k)



# ------------------------------------------------------------------ whole meshes (bounded: the meshes, degrees and orders listed)
import random, sys
from phyem.src.config import _setting, set_high_accuracy
from pv.whole import W, attempt, own_nodes, points, field


def caches():
    r"""every module-level cache of the library."""
    out = {}
    for name, m in list(sys.modules.items()):
        if not name.startswith(('phyem.msehtt', 'phyem.msepy', 'phyem.tools')) or m is None: continue
        for x, d in list(vars(m).items()):
            if isinstance(d, dict) and 'cache' in x.lower() and not x.startswith('__builtins'): out[id(d)] = (f'{name}.{x}', d)
    return out


INITIAL = {i: dict(d) for i, (_, d) in caches().items()}   # templates


class Cold:
    r"""empty caches inside, the old ones back afterwards."""
    def __enter__(self):
        self.saved = [(d, dict(d)) for n, d in caches().values()]
        for d, old in self.saved:
            d.clear()
            d.update(INITIAL.get(id(d), {}))
    def __exit__(self, *a):
        known = {id(d) for d, _ in self.saved}
        for i, (n, d) in caches().items():
            if i not in known: d.clear()
        for d, old in self.saved:
            d.clear()
            d.update(old)
        return False


def numbers(x):
    r"""what a result is, as arrays, in a fixed order."""
    if hasattr(x, 'toarray'): x = x.toarray()
    if isinstance(x, dict): return [z for k in sorted(x, key=str) for z in [str(k)] + numbers(x[k])]
    if isinstance(x, (list, tuple)): return [z for y in x for z in numbers(y)]
    if isinstance(x, (set, frozenset)): return numbers(sorted(x))
    if isinstance(x, (str, type(None), bool)): return [str(x)]
    return [np.array(x, dtype=float)]


def same(a, b):
    a, b = numbers(a), numbers(b)
    if len(a) != len(b): return f'{len(a)} parts instead of {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y): return f'part {i}: {x} instead of {y}'
        elif x.shape != y.shape: return f'part {i}: shape {x.shape} instead of {y.shape}'
        elif x.size and not np.allclose(x, y, rtol=1e-7, atol=1e-8): return f'part {i}: differs by {np.max(np.abs(x - y)):.3g}'
    return ''


def htt_find(gm, step): return {d: sorted(v) for d, v in gm.find_rank_locations_of_global_dofs(list(range(0, gm.num_global_dofs, step))).items()}


def py_find(gm, step):
    out = []
    for d, v in gm._find_elements_and_local_indices_of_dofs(list(range(0, gm.num_dofs, step))).items(): out += [int(d), sorted((int(e), int(i)) for e, i in zip(*v))]
    return out


def degrees_of(w):
    if w.lib == 'msehtt' and 'crazy' not in w.name or 'triangle' in w.name: return [1, 2]
    if w.n == 1: return [1]
    own = [([1, 3],) * w.n, ([3, 1],) * w.n, ([1, 3], [1, 1], [2, 1])[:w.n]] if w.lib == 'msehtt' else []      # customized nodes
    return [1, (1, 2, 1)[:w.n], (2, 1, 1)[:w.n]] + (own if w.n == 2 else own[:2])


def outcome(g):
    r"""the result of a request whose fresh result is known to exist: an exception is a result as well, and never the same."""
    try: return g()
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e: return f'raises {type(e).__name__}: {e}'


def flat_dofs(x):
    if x is None: return np.array([])
    return [np.asarray(y) for y in x] if isinstance(x, tuple) else np.asarray(x)


def operations(w):
    ops, n = {}, w.n
    ns = own_nodes(n), own_nodes(n, 8), [x[:2].copy() for x in own_nodes(n)]
    for a, k, o, f in w.forms():
        c = w.random(f, k, o)
        def set_(f=f, c=c, k=k):
            f.cf = field(n, k, 5 + k)[0]
            f[.5].cochain = c
        def op(name, g, a=a, set_=set_):
            def go():
                set_()
                return attempt(g)
            ops[f'{a} {name}'] = go
        each = lambda M: {e: (M(e) if callable(M) and not isinstance(M, dict) else M[e]).toarray() for e in w.range}
        op('mass matrix', lambda f=f: each(M) if not isinstance(M := f.space.mass_matrix(f.degree), tuple) else each(M[0]))
        if w.lib == 'msepy':
            for on in (True, False):
                def accuracy(f=f, on=on):
                    old = _setting['high_accuracy']
                    set_high_accuracy(on)
                    try: return each(f.space.mass_matrix(f.degree)), f.inner_product(.5, f, .5) if n > 1 else 0
                    finally: set_high_accuracy(old)
                op(f'mass matrix and inner product, high accuracy {on}', accuracy)
        if k < n:
            if w.lib == 'msehtt': op('incidence matrix', lambda f=f: {e: x.toarray() for e, x in zip(w.range, (f.incidence_matrix[e] for e in w.range))})
            else: op('incidence matrix', lambda f=f: f.space.incidence_matrix(f.degree).toarray() if hasattr(f.space.incidence_matrix(f.degree), 'toarray') else each(f.space.incidence_matrix(f.degree)))
            op('d', lambda f=f: {e: (c_ := f.d()[.5].cochain)[e] for e in w.range} if w.lib == 'msehtt' else f.d().cochain[.5].local)
        for i, nodes in enumerate(ns):
            rm = lambda f=f, nodes=nodes: f.reconstruction_matrix(*nodes)
            op(f'reconstruction matrix at nodes {i}', rm)
            op(f'reconstruction at nodes {i}', lambda f=f, c=c, nodes=nodes: points(w, f, c, nodes))
        op('reduction', lambda f=f: f.reduce(.5, update_cochain=False) if w.lib == 'msepy' else f.reduce(f.cf[.5]))
        op('error', lambda f=f: f.error(.5) if w.lib == 'msepy' else f[.5].error())
        op('norm', lambda f=f: f.norm(.5) if w.lib == 'msepy' else f[.5].norm())
        if w.lib == 'msehtt':
            op('gathering matrix', lambda f=f: {e: f.cochain.gathering_matrix[e] for e in w.range})
            for step in (3, 4): op(f'finding dofs {step}', lambda f=f, step=step: htt_find(f.cochain.gathering_matrix, step))
            ind = f'm{n}n{n}k{k}' + (f'_{o}' if (n, k) == (2, 1) else '')
            if k < n:
                for cw in (False, True)[:1 if ind == 'm3n3k1' else 2]: op(f'local dofs on faces {cw}', lambda f=f, ind=ind, cw=cw: {(e, i): flat_dofs(attempt(lambda: w.elements[e].find_local_dofs_on_face(ind, f.degree, i, component_wise=cw))) for e in w.range[:8] for i in geo.htt_faces(w.elements[e])})
        else:
            op('gathering matrix', lambda f=f: f.cochain.gathering_matrix._gm)
            for step in (3, 4): op(f'finding dofs {step}', lambda f=f, step=step: py_find(f.cochain.gathering_matrix, step))
            for r in (1, [0, 1], [1, 0]): op(f'reconstruction matrix of elements {r}', lambda f=f, r=r: f.reconstruction_matrix(*ns[0], element_range=r))
            for mm in itertools.product(range(n), (0, 1)) if k < n else (): op(f'local dofs on side {mm}', lambda f=f, mm=mm: f._find_local_dofs_on(*mm))
        for d in degrees_of(w):
            dop = lambda name, g, d=d, a=a: ops.__setitem__(f'{a} {name} of degree {d}', lambda: attempt(g))
            dop('mass matrix', lambda f=f, d=d: each(M) if not isinstance(M := f.space.mass_matrix(d), tuple) else each(M[0]))
            if k < n: dop('incidence matrix', lambda f=f, d=d: each(E[0]) if isinstance(E := f.space.incidence_matrix(d), tuple) else E.toarray() if hasattr(E, 'toarray') else each(E))
            dop('reconstruction matrix', lambda f=f, d=d: f.space.reconstruction_matrix(d, *ns[0]))
            dop('gathering matrix', lambda f=f, d=d: f.space.gathering_matrix(d)._gm if w.lib == 'msepy' else {e: (g_ := f.space.gathering_matrix(d))[e] for e in w.range})
            if k < n and w.lib == 'msepy':
                for mm in itertools.product(range(n), (0, 1)): dop(f'local dofs on side {mm}', lambda f=f, mm=mm, d=d: f.space.find.local_dofs(*mm, d))
            elif k < n: dop('local dofs on faces', lambda f=f, ind=ind, d=d: {(e, i): w.elements[e].find_local_dofs_on_face(ind, d, i) for e in w.range[:8] for i in geo.htt_faces(w.elements[e])})
            def reduced(f=f, k=k, d=d):
                f.cf = field(n, k, 5 + k)[0]
                return f.space.reduce(f.cf, .5, d) if w.lib == 'msepy' else f.space.reduce(f.cf[.5], d)
            dop('reduction', reduced)
            if w.lib == 'msepy':
                def own_rule(f=f, k=k, d=d):
                    f.cf = field(n, k, 5 + k)[0]
                    return f.space.reduce(f.cf, .5, d, quad_degree=(4, 5, 3)[:n] if n > 1 else 4)
                if k: dop('reduction by a given rule', own_rule)
            if w.lib == 'msepy':
                dop('components', lambda f=f, d=d: f.space.num_local_dof_components(d))
            dop('numbers of dofs', lambda f=f, d=d: (f.space.num_local_dofs(d), f.space.local_numbering(d)) if w.lib == 'msepy' else {e: (w.elements[e].num_local_dofs(f.space.indicator, d)) if hasattr(w.elements[e], 'num_local_dofs') else 0 for e in w.range})
    ops['coordinates'] = lambda: {e: [np.asarray(x) for x in w.mapping(e, refel.grid(ns[0]))] for e in w.range}
    return ops


def leaves(x):
    r"""the arrays a cache holds."""
    if isinstance(x, dict): return [z for y in x.values() for z in leaves(y)]
    if isinstance(x, (list, tuple)): return [z for y in x for z in leaves(y)]
    return [x] if isinstance(x, np.ndarray) and x.dtype != object or hasattr(x, 'toarray') else []


def record(stored):
    for n, d in caches().values():
        for x in leaves(d):
            if id(x) not in stored: stored[id(x)] = (n, x, numbers(x.copy()))


def unchanged(stored): return [(f'{n}: cached entries are not changed afterwards', same(x, old), '') for n, x, old in stored.values()]


def anyorder(asked, seed, count, fs=()):
    r"""the requests in random order, warm against cold."""
    def scn(mk):
        mk.fn(*fs)
        rng, out, stored, want = random.Random(int(mk.int('seed', 1, 99)) + seed), [], {}, {}
        with Cold():
            for i in [rng.randrange(len(asked)) for _ in range(count)]:
                l, g = asked[i]
                if i not in want:
                    with Cold(): want[i] = attempt(g)
                out.append((l, same(outcome(lambda: attempt(g)), want[i]), ''))
                record(stored)
            out += unchanged(stored)
        return out
    return scn


def polynomial_requests():
    P, Q = get('phyem.msepy.tools.polynomials'), get('phyem.tools.quadrature')
    xs = [np.array([-1, 0, 1]), np.array([-1., 0., 1.]), np.linspace(-1, 1, 5), np.linspace(-1, 1, 5)[:4], np.array([.25]), np.array([.25 + 1e-9]), np.linspace(-1, 1, 6)[::-1]]
    asked = []
    for p in (1, 2, 3, 4):
        for j, x in enumerate(xs):
            asked += [(f'Lagrange polynomials {p} at {j}', lambda p=p, x=x: P.Lobatto_polynomials_of_degree(p).lagrange_basis(x)), (f'edge polynomials {p} at {j}', lambda p=p, x=x: P.Lobatto_polynomials_of_degree(p).edge_basis(x)),
                      (f'Lagrange polynomials of equidistant nodes {p} at {j}', lambda p=p, x=x: P._OneDimPolynomial(np.linspace(-1, 1, p + 1)).lagrange_basis(x)),
                      (f'edge polynomials of equidistant nodes {p} at {j}', lambda p=p, x=x: P._OneDimPolynomial(np.linspace(-1, 1, p + 1)).edge_basis(x))]
    for c in ('Gauss', 'Lobatto'):
        for p in (1, 2, 3, 11, (1, 1), (1, 2), (2, 1), (1, 11), (11, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2)):
            for what in ('quad', 'quad_ndim', 'quad_ndim_ravel', 'quad_nodes', 'quad_weights_ravel'):
                asked += [(f'{what} of quadrature({p}, {c})', lambda p=p, c=c, what=what: getattr(Q.quadrature(p, c), what, None)), (f'{what} of Quadrature({p}, {c})', lambda p=p, c=c, what=what: getattr(Q.Quadrature(p, category=c), what, None))]
    return asked


@check.unit('curves of domains in random order', limit=120, real=True)
def _(led):
    G = get('phyem.tools.functions.space._2d.geometrical_functions.parser')
    r, asked = np.linspace(0, 1, 7), []
    for P in [([0, 0], [1, 0], [0, 1]), ((0, 0), (1, 0), (0, 1)), ([0, 0], [0, 1], [1, 0]), ([1, 0], [2, 0], [1, 1]), ([0, 0], [2, 0], [0, 2]), ([0., 0.], [-1., 0.], [0., 1.]), ([0, 0], [np.cos(.3), np.sin(.3)], [np.cos(2), np.sin(2)])]:
        asked += [(f'{name} {P}', lambda name=name, P=P: [(g := G.geo_func2_parser(name, P)).gamma(r), g.dgamma(r)]) for name in ('clockwise arc', 'anticlockwise arc')]
        asked.append((f'straight line {P[1:]}', lambda P=P: [(g := G.geo_func2_parser('straight line', P[1:])).gamma(r), g.dgamma(r)]))
    R.bounded_scenario(led, 'curves of domains', anyorder(asked, 5, 120, (G.geo_func2_parser,)), samples=1)


@check.unit('polynomials and quadrature rules in random order', limit=240, real=True)
def _(led):
    P, Q = get('phyem.msepy.tools.polynomials'), get('phyem.tools.quadrature')
    for s in (0, 1, 2): R.bounded_scenario(led, f'polynomials and quadrature rules in random order {s}', anyorder(polynomial_requests(), s, 120, (P._OneDimPolynomial.lagrange_basis, P._OneDimPolynomial.edge_basis, Q.quadrature)), samples=1)


@check.unit('basis functions in random order', limit=240, real=True)
def _(led):
    ws = [W('msehtt', *x) for x in (('2d quads and triangles', 2), ('2d crazy triangles linear', 1), ('2d crazy', 1), ('2d crazy linear', 1), ('2d triangles', 1))], [W('msehtt', '3d mild', 1), W('msehtt', '3d crazy linear', 1)]
    for n, group in zip((2, 3), ws):
        asked = []
        for w in group:
            kinds = {}
            for e in w.range: kinds.setdefault((w.elements[e].etype, str(w.elements[e].dof_reverse_info)), e)
            for e in kinds.values():
                E = w.elements[e]
                tri = E.etype in geo.TRI_TYPES
                for k in range(n + 1):
                    for o in ('_outer', '_inner') if (n, k) == (2, 1) else ('',):
                        for d in ([1, 2, 3, (2, 2)] if tri else [1, 2, (2,) * n, (1, 2, 1)[:n], (2, 1, 1)[:n], (1, 3, 2)[:n]]):
                            for j, x in enumerate((own_nodes(n), own_nodes(n, 8), [y.copy() for y in own_nodes(n)[::-1]])):
                                asked.append((f'{w.name} element {e} m{n}n{n}k{k}{o} degree {d} nodes {j}', lambda E=E, x=x, d=d, a=f'm{n}n{n}k{k}{o}': E.bf(a, d, *x)))
        fn(led, type(group[0].elements[group[0].range[0]]).bf)
        for s in (0, 1): R.bounded_scenario(led, f'basis functions of {n}d elements in random order {s}', anyorder(asked, s, 250), samples=1)


def orders(lib, specs, seed, most=900):
    def scn(mk):
        rng = random.Random(int(mk.int('seed', seed, seed)))
        worlds = {s: W(lib, *s) for s in specs}
        ops = {s: operations(w) for s, w in worlds.items()}
        steps = [(s, x) for s in specs for x in ops[s]]
        rng.shuffle(steps)
        steps = steps + rng.sample(steps, min(len(steps), 40))
        want, out, stored = {}, [], {}
        for s, x in steps[:most]:
            if (s, x) not in want:
                with Cold():
                    fresh = operations(W(lib, *s))[x]
                    with Cold(): want[s, x] = fresh()
            got = outcome(ops[s][x])
            out.append((f'{s}: {x}', same(got, want[s, x]), ''))
            record(stored)
        return out + unchanged(stored)
    return scn


def unshared(name, p):
    r"""every element with a metric signature of its own: the same results."""
    def scn(mk):
        with Cold(): want = {x: f() for x, f in operations(W('msehtt', name, p)).items()}
        with Cold():
            w = W('msehtt', name, p)
            for e in w.range:
                E = w.elements[e]
                if isinstance(E.metric_signature, str):
                    old = E._metric_signature
                    E._metric_signature += f'#{e};'
                    for a, v in list(vars(E.ct).items()):
                        if isinstance(v, str) and v == old: object.__setattr__(E.ct, a, E._metric_signature)
                    if E.metric_signature != E._metric_signature: raise R.Unsupported('metric signature')
            got = {x: outcome(f) for x, f in operations(w).items()}
        return [(f'{name}, metrics not shared: {x}', same(got[x], want[x]), '') for x in want]
    return scn


for _name, _p in (('2d crazy linear', (1, 3)), ('2d parallelograms', 2), ('2d triangles', 2), ('2d quads and triangles', 2), ('2d crazy triangles linear', 1), ('3d crazy linear', (2, 1, 2))):
    @check.unit(f'{_name}, degree {_p}: elements of equal signatures share nothing but equal data', limit=240, real=True)
    def _(led, name=_name, p=_p): R.bounded_scenario(led, f'{name}, degree {p}: metrics not shared', unshared(name, p), samples=1)


terms.MORE_HTT = terms.MORE_HTT + geo.MSEHTT_TURNED


def reordered(name, p):
    r"""the elements gone through in another order: whatever is shared between elements is met by another one first; the same results."""
    def scn(mk):
        rng, out = random.Random(int(mk.int('seed', 1, 99))), []
        with Cold(): want = {x: f() for x, f in operations(W('msehtt', name, p)).items()}
        for how in ('reversed', 'shuffled'):
            with Cold():
                w = W('msehtt', name, p)
                held = [v for v in vars(w.elements).values() if isinstance(v, dict) and list(v) == w.range and all(hasattr(y, 'metric_signature') for y in v.values())]
                part = w.obj['mesh'].composition
                ranges = [a for a, v in vars(part).items() if not isinstance(v, (str, type(None))) and hasattr(v, '__len__') and not isinstance(v, dict) and list(v) == w.range]
                if not held or not ranges: raise R.Unsupported('the order of elements')
                order = w.range[::-1] if how == 'reversed' else rng.sample(w.range, len(w.range))
                for d in held:
                    old = dict(d)
                    d.clear()
                    d.update((e, old[e]) for e in order)
                for a in ranges: object.__setattr__(part, a, list(order))
                if [e for e in w.elements] != order or [e for e in part] != order: raise R.Unsupported('the order of elements')
                ops = operations(w)
                with Cold(): got = {x: outcome(f) for x, f in ops.items()}
            out += [(f'{name}, elements {how}: {x}', same(got[x], want[x]), '') for x in want]
        return out
    return scn


for _name, _p in ((geo.MSEHTT_TURNED[3][0], 2), (geo.MSEHTT_TURNED[3][0], 1), (geo.MSEHTT_TURNED[2][0], 1), (geo.MSEHTT_TURNED[0][0], 2), ('2d parallelograms', 1), ('2d crazy triangles linear', 1), ('2d crazy', (1, 2)), ('3d crazy linear', 1), ('3d mild', 1)):
    @check.unit(f'{_name}, degree {_p}: the order of the elements does not matter', limit=240, real=True)
    def _(led, name=_name, p=_p): R.bounded_scenario(led, f'{name}, degree {p}: elements in another order', reordered(name, p), samples=1)


def keys(name, p):
    r"""mass and incidence matrices of elements: equal keys mean equal matrices, whatever the element."""
    def scn(mk):
        out = []
        with Cold():
            w = W('msehtt', name, p)
            for a, k, o, f in w.forms():
                ds = [f.degree] + ([1, 2, 3] if 'triangle' in name else [1, (2,) * w.n, (1, 2, 1)[:w.n], (2, 1, 1)[:w.n], (1, 11, 1)[:2] + (1,) * (w.n - 2), 11 if w.n == 2 else 2, ([1, 3],) * w.n, ([3, 1],) * w.n])
                for what, g in (('mass', lambda d: f.space.mass_matrix(d)), ('incidence', lambda d: f.space.incidence_matrix(d))):
                    if what == 'incidence' and k == w.n: continue
                    for d in ds:
                        seen, r = {}, attempt(lambda: g(d))
                        if r is None: continue
                        M, key = r
                        for e in w.range:
                            if key[e] == 'unique': continue
                            m = M[e].toarray()
                            old = seen.setdefault(str(key[e]), (e, m))
                            out.append((f'{name} {a}, degree {d}: {what} matrices of elements {e} and {old[0]} of equal keys', same(m, old[1]), ''))
        return out
    return scn


for _name, _p in (('2d crazy linear', 2), ('2d parallelograms', 2), ('2d triangles', 2), ('2d quads and triangles', 2), ('3d crazy linear', 1), ('3d mild', 1)):
    @check.unit(f'{_name}: equal keys mean equal matrices', limit=240, real=True)
    def _(led, name=_name, p=_p): R.bounded_scenario(led, f'{name}: equal keys mean equal matrices', keys(name, p), samples=1)


def churn(lib, specs, seed, rounds=25):
    r"""worlds made, used and freed again and again: the results are those of the first time, names never come back."""
    def scn(mk):
        rng, out, want, seen = random.Random(int(mk.int('seed', seed, seed))), [], {}, set()
        for s in specs:
            with Cold(): want[s] = {x: f() for x, f in operations(W(lib, *s)).items()}
        for i in range(rounds):
            s = rng.choice(specs)
            w = W(lib, *s)
            ops = operations(w)
            for x in rng.sample(sorted(ops), 8): out.append((f'round {i}, {s}: {x}', same(outcome(ops[x]), want[s][x]), ''))
            names = [repr(y) for a, k, o, f in w.forms() for y in (f, f.space, f.cochain)] + [repr(w.obj['mesh'])]
            again = [y for y in dict.fromkeys(names) if y in seen]
            out.append((f'round {i}: names of objects are new', str(again[:3]), '[]'))
            seen |= set(names)
            del w, ops, names
            if rng.random() < .7: gc.collect()
        return out
    return scn


def some_elements(mk):
    r"""the cache of msepy reconstruction matrices: two ranges of elements never share an entry."""
    F = mod('phyem.msepy.form.main').MsePyRootForm
    mk.fn(F.reconstruction_matrix)
    x = np.array([-.5, .5])
    long_ = np.arange(1500)
    swapped = long_.copy()
    swapped[700:704] = [703, 702, 701, 1600]
    ranges = [None, 3, 31, [3, 1], [31], [3, 11], (3, 1), range(3), [0, 1, 2], np.array([0, 1, 2]), np.array([0, 12]), long_, swapped, list(long_), long_[::-1], np.delete(long_, 600)]
    asked = [(r, d) for r in ranges for d in (x, x + .25)] * 2
    order = np.random.default_rng(int(mk.int('seed', 1, 50))).permutation(len(asked))
    with np_patched(get(NC), ___cache_info___={}):
        f = Duck()
        f._reconstruct_matrix_cache, f._degree = {}, 2
        f._space = Stub(reconstruction_matrix=lambda degree, *nodes, element_range=None: ([] if element_range is None else np.atleast_1d(list(element_range) if np.ndim(element_range) else element_range).tolist(), [n.tolist() for n in nodes]))
        out = []
        for i in order:
            r, d = asked[i]
            got = F.reconstruction_matrix(f, d, d, element_range=r)
            out.append((f'elements {str(r)[:30]}', numbers(got), numbers(f._space.reconstruction_matrix(2, d, d, element_range=r))))
    return [(l, same(g, w), '') for l, g, w in out]


@check.unit('msepy reconstruction matrices of some elements only', real=True)
def _(led):
    for s in range(4): R.bounded_scenario(led, f'msepy reconstruction matrices of some elements only {s}', some_elements, samples=2)


GROUPS = [('msepy', [('crazy 2d', 2), ('crazy 2d', 3), ('crazy 2d linear', 2)]), ('msepy', [('crazy 3d', 1), ('crazy 3d linear', (2, 1, 2))]), ('msepy', [('crazy 1d', 2), ('crazy 1d linear', 3)]),
          ('msehtt', [('2d quads and triangles', 2), ('2d crazy linear', (1, 3)), ('2d crazy', 2)]), ('msehtt', [('2d triangles', 2), ('2d crazy triangles linear', 2), ('2d parallelograms', 2)]),
          ('msehtt', [('3d mild', 1), ('3d crazy linear', (2, 1, 2))])]
for _lib, _specs in GROUPS:
    for _seed in (1, 2):
        @check.unit(f'{_lib} {_specs}: operations in random order {_seed}', limit=240, real=True)
        def _(led, lib=_lib, specs=_specs, seed=_seed):
            R.bounded_scenario(led, f'{lib} {specs}: operations in random order {seed}', orders(lib, specs, seed), samples=1)
    @check.unit(f'{_lib} {_specs}: made and freed again and again', limit=240, real=True)
    def _(led, lib=_lib, specs=_specs): R.bounded_scenario(led, f'{lib} {specs}: made and freed again and again', churn(lib, specs, 3), samples=1)


if __name__ == '__main__':
    check.main()


# ---- the data of product terms: nothing of other forms, degrees, or elements with other shapes or reversed dofs (the scenarios of C17)
def product_data():
    import importlib.util, os
    spec = importlib.util.spec_from_file_location('_product_terms', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'C17.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for u in m.check.units:
        if u[0].endswith('the data of every element'): check.units.append(u)


product_data()
