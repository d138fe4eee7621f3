r"""C20: what is stored for a time is what is read: cochain stores, their algebra, interpolation, files, discrete data."""
import contextlib, functools, importlib, itertools, os, pickle, tempfile
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
import pv.run as R
from pv import geo, terms, whole

check = Check('C20', trusted=['pickle reads back what it wrote', 'times are told apart to 8 decimals', 'incidence matrices (C01), gathering matrices (C03), reconstruction (C06)',
                              'scipy NearestNDInterpolator returns the value of the nearest sample'])
PY, HTT = 'phyem.msepy.form.', 'phyem.msehtt.static.form.'
LIBS = ('msepy', 'msehtt')
SMALL = {'msepy': '2d straight', 'msehtt': '2d straight'}


def fn(led, *fs):
    for f in fs: led.functions.add(R.qual(f))


@functools.lru_cache(None)
def world(lib, name=None, p=1): return whole.W(lib, name or SMALL[lib], p)


def twin(lib, f):
    r"""a form like f with a store of its own."""
    if lib == 'msepy': return f._copy()
    g = type(f)(f.abstract)
    g._tgm, g._tpm, g._space, g._manifold = f._tgm, f._tpm, f._space, f._manifold
    return g


def at_a_time(lib, f):
    r"""f at an abstract time instant: it has no store of its own."""
    g = twin(lib, f)
    g._pAti_form['base_form'] = f
    return g


def value(lib, f, v):
    r"""the cochain whose coefficients are all v."""
    gm = f.cochain.gathering_matrix
    if lib == 'msepy': return np.full(gm.shape, float(v))
    return {e: np.full(gm.num_local_dofs(e), float(v)) for e in gm}


def read(lib, f, t):
    r"""the one coefficient of a cochain made by value()."""
    c = f.cochain[t]
    x = set(c.local.ravel()) if lib == 'msepy' else {y for e in c for y in c[e]}
    return x.pop() if len(x) == 1 else f'{len(x)} values'


# ------------------------------------------------------------------ the store, any history
class Setting:
    r"""the automatic cleaning of the stores."""
    def __init__(self, v): self.v, self.s = v, get('phyem.src.config:_setting')
    def __enter__(self): self.old = self.s['auto_cleaning']; self.s['auto_cleaning'] = self.v
    def __exit__(self, *a): self.s['auto_cleaning'] = self.old


def judge(lib, f, views, ref, what):
    r"""every view of the store of f says ref = {time: value}."""
    def no(lab, got, want):
        if got != want: raise R.Violation(lab, dict(library=lib, history=what, got=repr(got), want=repr(want)))
    newest = max(ref) if ref else None
    for nm, g in views:
        c = g.cochain
        no(f'{nm}: number of stored times', len(c), len(ref))
        no(f'{nm}: newest time', c.newest, newest)
        if lib == 'msehtt':
            no(f'{nm}: times', c.times, sorted(ref))
            no(f'{nm}: iteration over the times', sorted(c), sorted(ref))
        for t in ALL:
            no(f'{nm}: {t} is stored', t in c, t in ref)
            if t in ref:
                no(f'{nm}: cochain at {t}', read(lib, g, t), ref[t])
                no(f'{nm}: cochain of the copy at {t}', read(lib, g[t]._f, g[t]._t), ref[t])
                no(f'{nm}: cochain at {t} up to the ninth decimal', read(lib, g, t + 2e-9), ref[t])
            else:
                try: c[t]
                except AssertionError: continue
                raise R.Violation(f'{nm}: reading the missing time {t}', dict(library=lib, history=what))
        if ref: no(f'{nm}: newest cochain', (read(lib, g, None), g[None]._t), (ref[newest], newest))


ALL = [-1.5, -0.25, 0., 0.1, 1, 2.75, 1e3]


def store(lib, auto, route):
    r"""one operation from every state of at most four times; route: through f or through f at a time instant."""
    def unit(led):
        w = world(lib)
        base = w.obj['o0']
        cls = type(base.cochain)
        fn(led, cls._set, cls.clean, cls.newest.fget, cls.__getitem__, cls.__contains__, cls.__len__, cls._parse_t, type(base).__getitem__,
           *([cls.times.fget, cls.__iter__] if lib == 'msehtt' else []))
        arrays = {}

        def val(v):
            if v not in arrays: arrays[v] = value(lib, base, v)
            return dict(arrays[v]) if lib == 'msehtt' else arrays[v]

        count = 0
        left = {False: None, True: 10 if lib == 'msepy' else 3}.get(auto, auto)
        states = [s for k in range(4) for s in itertools.permutations(ALL[1:6:2] + ALL[2:3], k)] + [tuple(ALL[i] for i in s) for s in ((5, 1, 3, 4, 2), (1, 2, 3, 4, 5), (5, 4, 3, 2, 1), (0, 6, 1, 5, 2, 3, 4))]
        for s in states:
            ops = [('set', t) for t in ALL] + [('clean', None), ('clean', -1), ('clean', -2), ('clean', -7)]
            if lib == 'msehtt': ops += [('clean', 'all')] + [('forget', t) for t in ALL]
            for op in ops:
                for more in ([('set', .1)], [('clean', None)]):
                    f = twin(lib, base)
                    g = at_a_time(lib, f)
                    views = [('form', f), ('form at a time instant', g)]
                    h = f if route == 'form' else g
                    ref, n = {}, 0
                    with Setting(False):
                        for t in s:
                            n += 1
                            h.cochain._set(t, val(n)) if n % 2 else setattr(h[t], 'cochain', val(n))
                            ref[t] = float(n)
                    with Setting(auto):
                        done = list(s)
                        for o, a in [op] + more:
                            done = done + [(o, a)]
                            if o == 'set':
                                n += 1
                                h[a].cochain = val(n)
                                old = [t for t in sorted(ref) if t != a]
                                if left is not None:        # only the smallest of the others may have been dropped, and not too many
                                    kept = [t for t in old if t in f.cochain]
                                    if kept != old[len(old) - len(kept):] or len(kept) < min(len(old), left - 1):
                                        raise R.Violation('automatic cleaning drops the smallest times only', dict(library=lib, history=done, kept=kept, setting=repr(auto)))
                                    ref = {t: ref[t] for t in kept}
                                ref[a] = float(n)
                            elif o == 'clean':
                                k = {None: 1, 'all': 0}.get(a, -a if isinstance(a, int) else None)
                                h.cochain.clean(a)
                                ref = {t: ref[t] for t in sorted(ref)[len(ref) - min(k, len(ref)):]}
                            else:
                                h.cochain.clean(t=a)
                                ref.pop(a, None)
                            judge(lib, f, views, ref, done)
                            count += 1
        led.bounded.append(('operations from every state', f'{count} operations from states of up to seven times'))
    return unit


for _lib in LIBS:
    for _auto in (False, True, 2, 4):
        for _route in ('form', 'form at a time instant'):
            check.unit(f'{_lib}: the store, automatic cleaning {_auto}, through the {_route}')(store(_lib, _auto, _route))


def long_history(lib):
    r"""random histories of many times."""
    def unit(led):
        w = world(lib)
        base = w.obj['o0']
        for seed in range(6 if not R.thorough() else 40):
            rng = np.random.default_rng(seed)
            auto = [False, True, 2, 5, True, 3][seed % 6]
            left = {False: None, True: 10 if lib == 'msepy' else 3}.get(auto, auto)
            f = twin(lib, base)
            views = [('form', f), ('form at a time instant', at_a_time(lib, f))]
            ref, done = {}, []
            with Setting(auto):
                for n in range(80):
                    t = round(float(rng.choice([n * .1, rng.uniform(-1, 8), *(list(ref)[:1])])), 8)
                    f[t].cochain = value(lib, f, n)
                    old = [x for x in sorted(ref) if x != t]
                    done.append(t)
                    if left is not None:
                        kept = [x for x in old if x in f.cochain]
                        if kept != old[len(old) - len(kept):] or len(kept) < min(len(old), left - 1):
                            raise R.Violation('automatic cleaning drops the smallest times only', dict(library=lib, history=done, kept=kept, setting=repr(auto)))
                        if len(f.cochain) > 2 * left + 1: raise R.Violation('automatic cleaning bounds the store', dict(library=lib, history=done, stored=len(f.cochain)))
                        ref = {x: ref[x] for x in kept}
                    ref[t] = float(n)
                    if rng.random() < .05:
                        f.cochain.clean(-3)
                        done.append('clean(-3)')
                        ref = {x: ref[x] for x in sorted(ref)[-3:]}
                    judge(lib, f, views, ref, done)
        led.bounded.append(('random histories', 'of 80 operations each'))
    return unit


for _lib in LIBS: check.unit(f'{_lib}: long histories of the store')(long_history(_lib))


# ------------------------------------------------------------------ symbolic cochains on real meshes
class Store:
    r"""{time: cochain} whose times may be symbols."""
    def __init__(self, d): self.d = list(d)
    def keys(self): return [t for t, _ in self.d]
    def __len__(self): return len(self.d)
    def __iter__(self): return iter(self.keys())
    def __contains__(self, t): return any(bool(t == s) for s in self.keys())
    def __getitem__(self, t):
        for s, c in self.d:
            if s is t: return c
        for s, c in self.d:
            if bool(s == t): return c
        raise KeyError(t)


def coefficients(mk, lib, f, name):
    r"""arbitrary local coefficients (not necessarily those of a continuous form)."""
    gm = f.cochain.gathering_matrix
    if lib == 'msepy': return mk.array(name, tuple(gm.shape), -2, 2)
    return {e: mk.array(f'{name}{e}', (gm.num_local_dofs(e),), -2, 2) for e in gm}


def glob(mk, lib, f, name):
    r"""arbitrary coefficients of a form: one value for every global degree of freedom."""
    gm = f.cochain.gathering_matrix
    if lib == 'msepy':
        v = mk.array(name, (gm.num_dofs,), -2, 2)
        return v, v[np.asarray(gm._gm)]
    v = mk.array(name, (gm.num_global_dofs,), -2, 2)
    return v, {e: v[np.asarray(gm[e], dtype=int)] for e in gm}


def instant(lib, f, t, c):
    cls = get(PY + 'cochain.time_instant:_CochainAtOneTime') if lib == 'msepy' else get(HTT + 'cochain.instant:MseHttTimeInstantCochain')
    x = cls(f, t)
    x._receive(c)
    return x


def entries(lib, f, c, e):
    if lib == 'msepy': return (c.local if hasattr(c, 'local') else c)[e]
    return c[e]


def each(lib, f):
    gm = f.cochain.gathering_matrix
    return range(gm.shape[0]) if lib == 'msepy' else list(gm)


class Exact:
    r"""symbolic times are not rounded."""
    def __init__(self, mk, f): self.on, self.c = mk.symbolic, type(f.cochain)
    def __enter__(self):
        self.old = self.c.__dict__['_parse_t']
        if self.on: self.c._parse_t = staticmethod(lambda t: t)
    def __exit__(self, *a): self.c._parse_t = self.old


def patched(mk, lib, **kw):
    mods = ([PY + 'cochain.main', PY + 'cochain.time_instant', PY + 'main', 'phyem.msepy.tools.vector.static.local'] if lib == 'msepy' else
            [HTT + 'cochain.main', HTT + 'cochain.instant', HTT + 'addons.ic', HTT + 'main', 'phyem.msehtt.tools.vector.static.local', 'phyem.msehtt.tools.gathering_matrix'])
    if not mk.symbolic: return _null()
    st = contextlib.ExitStack()
    one = Stub(gather=lambda x, root=0: [x], Bcast=lambda x, root=0: None, allgather=lambda x: [x], bcast=lambda x, root=0: x)     # one MPI rank
    for m in mods: st.enter_context(np_patched(get(m), **({'COMM': one} if hasattr(get(m), 'COMM') else {})))
    return st


class _null:
    def __enter__(self): return self
    def __exit__(self, *a): pass


def interpolation(lib, count, order, segment):
    r"""count stored times, put in in the given order; t in the given segment."""
    def scn(mk):
        w = world(lib)
        f = twin(lib, w.obj['o1'])
        mk.fn(*([type(f.cochain).__call__] if lib == 'msepy' else [type(f).__call__, get(HTT + 'addons.ic:MseHtt_From_InterpolateCopy')._find_cochain_at_arbitrary_time_instant]))
        ts = [mk.real('t0', -1, 1)]
        for i in range(1, count): ts.append(ts[-1] + mk.real(f'step {i}', .1, 2))
        r = mk.real('position', .01, .99)
        t = ts[segment] + r * (ts[segment + 1] - ts[segment])
        cs = [coefficients(mk, lib, f, f'c{i} ') for i in range(count)]
        out = []
        with Exact(mk, f), patched(mk, lib):
            if mk.symbolic: f.cochain._tcd = Store([(ts[i], instant(lib, f, ts[i], cs[i])) for i in order])
            else:
                with Setting(False):
                    for i in order: f.cochain._set(ts[i], cs[i])
                r = (round(t, 8) - round(ts[segment], 8)) / (round(ts[segment + 1], 8) - round(ts[segment], 8))
            if lib == 'msepy': got = f.cochain(t)
            elif mk.symbolic: got = get(HTT + 'addons.ic:MseHtt_From_InterpolateCopy')(f, t).cochain
            else: got = f(t).cochain
            for e in each(lib, f):
                a, b, g = entries(lib, f, cs[segment], e), entries(lib, f, cs[segment + 1], e), entries(lib, f, got, e)
                out.append((f'element {e}: number of coefficients', len(g), len(a)))
                out += [(f'element {e} dof {i}', g[i], a[i] + r * (b[i] - a[i])) for i in range(len(a))]
            if not mk.symbolic:
                g = twin(lib, f)
                if lib == 'msepy': g[7.].cochain = got.local
                else: g[7.].cochain = f(t)
                for e in each(lib, f):
                    for x, y in zip(entries(lib, g, g.cochain[7.], e), entries(lib, f, got, e)): out.append(('an interpolated cochain can be stored', x, y))
                for i in range(count):
                    c = f.cochain(ts[i]) if lib == 'msepy' else f(ts[i]).cochain
                    for e in each(lib, f):
                        for x, y in zip(entries(lib, f, c, e), entries(lib, f, cs[i], e)): out.append((f'at the stored time {i}', x, y))
        return out
    return scn


for _lib in LIBS:
    for _n, _orders in ((2, [(0, 1), (1, 0)]), (3, list(itertools.permutations(range(3)))), (4, [(0, 1, 2, 3), (3, 1, 0, 2)]), (5, [(2, 4, 0, 1, 3)])):
        for _o in _orders:
            for _s in range(_n - 1):
                check.scenario(f'{_lib}: interpolation between {_s} and {_s + 1} of {_n} times stored as {"".join(map(str, _o))}', samples=2, max_paths=500)(interpolation(_lib, _n, _o, _s))


def outside(lib):
    r"""no interpolation outside the stored times."""
    def unit(led):
        w = world(lib)
        for stored in ([], [1.], [1., 2.], [3., 1., 2.]):
            f = twin(lib, w.obj['o1'])
            for t in stored: f.cochain._set(t, value(lib, f, t))
            for t in (.5, 4., -1.):
                try: c = f.cochain(t) if lib == 'msepy' else f(t).cochain
                except Exception: continue
                raise R.Violation('interpolation outside the stored times', dict(library=lib, stored=stored, time=t, got=repr(c)))
        led.bounded.append(('times outside', 'refused'))
    return unit


for _lib in LIBS: check.unit(f'{_lib}: interpolation outside the stored times')(outside(_lib))


def algebra_py(name):
    r"""f + g, f - g and d f follow f and g."""
    def scn(mk):
        lib = 'msepy'
        w = world(lib)
        f = twin(lib, w.obj[name])
        g = twin(lib, f)
        k = SPACE[name][0]
        mk.fn(type(f).__add__, type(f).__sub__, type(f).d, get(PY + 'cochain.passive:MsePyRootFormCochainPassive').__getitem__, get(PY + 'cochain.time_instant:_CochainAtOneTime')._receive,
              get(PY + 'cochain.time_instant:_CochainAtOneTime').__add__, get(PY + 'cochain.time_instant:_CochainAtOneTime').__sub__)
        out = []
        with Setting(False), patched(mk, lib):
            s, m, d = f + g, f - g, f.d() if k < 2 else None
            ms = s - f if False else None
            E = f.coboundary.incidence_matrix._data.toarray() if k < 2 else None
            for stage in range(2):
                c = {}
                for t in (0., 1.5):
                    c[t] = [coefficients(mk, lib, f, f'{n}{t}{stage} ') for n in 'fg']
                    f[t].cochain, g[t].cochain = c[t]
                for t, (a, b) in c.items():
                    sc, mc = s.cochain[t].local, m.cochain[t].local
                    ia, ib = f.cochain[t] + g.cochain[t], f.cochain[t] - g.cochain[t]
                    for e, i in np.ndindex(*a.shape):
                        out += [(f'(f+g)({t}) {e} {i}', sc[e, i], a[e, i] + b[e, i]), (f'(f-g)({t}) {e} {i}', mc[e, i], a[e, i] - b[e, i]),
                                (f'f({t})+g({t})', ia[e, i], a[e, i] + b[e, i]), (f'f({t})-g({t})', ib[e, i], a[e, i] - b[e, i])]
                    if d is not None:
                        dc, dd = d.cochain[t].local, f.coboundary[t].cochain.local
                        out.append(('shape of d', dc.shape, (a.shape[0], E.shape[0])))
                        for e in range(a.shape[0]):
                            for i in range(E.shape[0]):
                                want = sum(int(E[i, j]) * a[e, j] for j in range(E.shape[1]))
                                out += [(f'df({t}) {e} {i}', dc[e, i], want), (f'coboundary {e} {i}', dd[e, i], want)]
                for h, ops in ((s, 'f + g'), (m, 'f - g')) + (((d, 'd f'),) if d is not None else ()):
                    out += [(f'newest time of {ops}', h.cochain.newest, 1.5)]
                    if not mk.symbolic: out.append((f'newest cochain of {ops}', h.cochain[None].local.tolist(), h.cochain[1.5].local.tolist()))
            g[3.].cochain = coefficients(mk, lib, g, 'later ')
            out += [('no newest time when the operands differ', s.cochain.newest, None)]
            if not mk.symbolic:
                ss = (s - g)[0.].cochain.local
                out += [('(f + g) - g', x, y) for x, y in zip(ss.ravel(), f[0.].cochain.local.ravel())]
                if k < 1: out += [('d d f', x, 0.) for x in d.d()[0.].cochain.local.ravel()]
        return out
    return scn


SPACE = whole.SP(2)
for _f in SPACE: check.scenario(f'msepy: sums, differences and d of {_f}', samples=2)(algebra_py(_f))


def algebra_htt(name, mesh):
    r"""cochains at a time, local vectors, d and sums of forms."""
    def scn(mk):
        lib = 'msehtt'
        w = world(lib, mesh)
        f = twin(lib, w.obj[name])
        k = whole.SP(w.n)[name][0]
        gm = f.cochain.gathering_matrix
        c = get(HTT + 'cochain.instant:MseHttTimeInstantCochain')
        LV, GV = get('phyem.msehtt.tools.vector.static.local:MseHttStaticLocalVector'), get('phyem.msehtt.tools.vector.static.global_gathered:MseHttGlobalVectorGathered')
        mk.fn(c.__add__, c.__sub__, c.__rmul__, c.__iadd__, c.homogenous, c.coboundary, c._receive, c.__getitem__, c.___coboundary_callable___, c.of_local_dof,
              type(f).d, get(HTT + 'main:___regular_sub_or_add_IMPLEMENTATION___'), LV.__add__, LV.__rmul__, LV.__neg__)
        out = []
        E = {}
        if k < w.n:
            M, _ = f.space.incidence_matrix(f.degree)
            for e in each(lib, f): E[e] = M[e].toarray()

        def same(lab, got, want):
            for e in each(lib, f):
                x, y = got[e], want(e)
                out.append((f'{lab}: length {e}', len(x), len(y)))
                out.extend((f'{lab}: {e} {i}', x[i], y[i]) for i in range(len(y)))

        times = lambda s, x: np.array([s * y for y in x], dtype=object) if mk.symbolic else s * x
        with Setting(False), patched(mk, lib):
            va, a = glob(mk, lib, f, 'a ')
            vb, b = glob(mk, lib, f, 'b ')
            l, m = coefficients(mk, lib, f, 'l '), coefficients(mk, lib, f, 'm ')
            s = 2.5
            f[0.].cochain, f[1.].cochain = dict(l), dict(m)
            A, B = f.cochain[0.], f.cochain[1.]
            same('stored', A, lambda e: l[e])
            same('sum', A + B, lambda e: l[e] + m[e])
            same('difference', A - B, lambda e: l[e] - m[e])
            same('multiple', s * A, lambda e: times(s, l[e]))
            same('sum with a local vector', A + LV(dict(m), gm), lambda e: l[e] + m[e])
            same('sum with a cochain vector', A + f.cochain.static_vec(1.), lambda e: l[e] + m[e])
            same('sum of local vectors', LV(dict(l), gm) + LV(dict(m), gm), lambda e: l[e] + m[e])
            same('negative of a local vector', -LV(dict(l), gm), lambda e: times(-1, l[e]))
            same('multiple of a local vector', s * LV(dict(l), gm), lambda e: times(s, l[e]))
            same('the operands are as before', A, lambda e: l[e])
            f[2.].cochain = A + B
            same('a sum is stored', f.cochain[2.], lambda e: l[e] + m[e])
            f[2.].cochain = GV(va, gm)
            same('a global vector is stored', f.cochain[2.], lambda e: a[e])
            f[2.].cochain = lambda e: m[e]
            same('a function is stored', f.cochain[2.], lambda e: m[e])
            f[2.].cochain = dict(a)
            C = f.cochain[2.]
            C += GV(vb, gm)
            same('+= a global vector', f.cochain[2.], lambda e: a[e] + b[e])
            C += GV(vb, None) if False else f.cochain.static_vec(1.)
            same('+= a cochain vector', f.cochain[2.], lambda e: a[e] + b[e] + m[e])
            f[2.].cochain = dict(a)
            f.cochain[2.].homogenous()
            same('homogenous', f.cochain[2.], lambda e: a[e])
            for e in each(lib, f)[:2]:
                for i in range(len(l[e])): out.append((f'local dof {e} {i}', A.of_local_dof(e, i), l[e][i]))
            if k < w.n:
                for t, x in ((0., l), (1., m)):
                    cc = f.cochain[t]
                    if mk.symbolic: cc._E = E
                    dc = cc.coboundary()
                    for e in each(lib, f):
                        want = [sum(int(E[e][i, j]) * x[e][j] for j in range(E[e].shape[1]) if E[e][i, j]) for i in range(E[e].shape[0])]
                        out += [(f'coboundary {t} {e} {i}', dc[e][i], want[i]) for i in range(len(want))]
                f.cochain.clean(t=2.)
                d = f.d()
                out.append(('times of d f', sorted(d.cochain), [0., 1.]))
                for t, x in ((0., l), (1., m)):
                    if t not in d.cochain: continue
                    for e in each(lib, f):
                        want = [sum(int(E[e][i, j]) * x[e][j] for j in range(E[e].shape[1]) if E[e][i, j]) for i in range(E[e].shape[0])]
                        got = d.cochain[t][e]
                        out += [(f'd f {t} {e} {i}', got[i], want[i]) for i in range(len(want))]
                up = [g for g, (kk, o) in whole.SP(w.n).items() if kk == k + 1 and (o == whole.SP(w.n)[name][1])]
                if up:
                    h = twin(lib, w.obj[up[0]])
                    q = coefficients(mk, lib, h, 'q ')
                    h[1.].cochain, h[5.].cochain = dict(q), dict(q)
                    for lab, r, sg in (('h + d f', h + d, 1), ('h - d f', h - d, -1)):
                        out.append((f'times of {lab}', sorted(r.cochain), [1.]))
                        for e in each(lib, h):
                            dm = d.cochain[1.][e]
                            out += [(f'{lab} {e} {i}', r.cochain[1.][e][i], q[e][i] + sg * dm[i]) for i in range(len(dm))]
            if not mk.symbolic:
                f[2.].cochain = dict(a)
                V = f.cochain[2.].gathered_global_vector.V
                out += [('gathered vector', x, y) for x, y in zip(V, va)]
                for i in range(0, len(va), 3): out.append((f'dof {i}', f.cochain[2.].of_dof(i), va[i]))
                f[3.].cochain = f.cochain[2.].gathered_global_vector
                same('gathered and back', f.cochain[3.], lambda e: a[e])
                vec = f.cochain.static_vec(9.)
                vec._receive_data({e: np.array(x) for e, x in l.items()})
                vec.override()
                same('overriding by a vector', f.cochain[9.], lambda e: l[e])
                if k == 1 and w.n == 2:
                    for e in each(lib, f):
                        x = whole.attempt(lambda: A.components(e))
                        if x is None: continue
                        out += [('components', len(x), 2)] + [('components', p, q) for p, q in zip(np.concatenate(x), l[e])]
                        out += [('length of the components', len(x[0]), NUM(w.elements[e], f, whole.SP(2)[name][1]))]
        return out
    return scn


def NUM(element, f, ori):
    r"""number of dofs of the first component: edges along y (outer, flux through) or along x (inner)."""
    p = f.degree if isinstance(f.degree, int) else None
    if p is None: p = element.degree_parser(f.degree)[0][0]
    tri = element.etype in geo.TRI_TYPES
    if not tri: return (p + 1) * p
    return len(element_components(element, f, ori)[0])


def element_components(element, f, ori):
    m = get('phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m2n2k1')
    p = element.degree_parser(f.degree)[0]
    n = (m.num_local_dofs__Lambda__m2n2k1_inner if ori == 'inner' else m.num_local_dofs__Lambda__m2n2k1_outer)(element.etype, p)[1]
    return [range(x) for x in n]


for _m, _n in (('2d straight', 2), ('2d quads and triangles', 2), ('3d straight', 3)):
    for _f in whole.SP(_n): check.scenario(f'msehtt: algebra of the cochains of {_f} on {_m}', samples=1)(algebra_htt(_f, _m))


# ------------------------------------------------------------------ data sets: algebra, files
RWS = get('phyem.tools.dds.region_wise_structured:DDSRegionWiseStructured')
GROUP = get('phyem.tools.dds.region_wise_structured_group:DDS_RegionWiseStructured_Group')
DDS = 'phyem.tools.dds.region_wise_structured'


def data(mk, coo, name, components, shapes):
    r"""a data set of unknown values on fixed coordinates."""
    val = [{r: mk.array(f'{name}{i}{r}', sh, -2, 2) if mk.symbolic else np.asarray(mk.array(f'{name}{i}{r}', sh, -2, 2), float) for r, sh in shapes.items()} for i in range(components)]
    return RWS(coo, val), val


def data_algebra(ndim, components):
    def scn(mk):
        shapes = {'R1': (2, 1, 2)[:ndim], 'R0': (1, 2, 1)[:ndim]}
        coo = [{r: np.random.default_rng(7 * i + len(r)).uniform(0, 1, sh) for r, sh in shapes.items()} for i in range(ndim)]
        same = [{r: x[r].copy() for r in reversed(list(x))} for x in coo]
        mk.fn(RWS.__add__, RWS.__sub__, RWS.__rmul__, RWS.__pow__, RWS.dot, RWS.square.fget, RWS.cross_product, RWS.x, RWS.norm, RWS.___check_coo_equality___)
        out = []
        with np_patched(importlib.import_module(DDS)):
            a, A = data(mk, coo, 'a', components, shapes)
            b, B = data(mk, same, 'b', components, shapes)
            s = mk.real('s', -2, 2)
            if not mk.symbolic: s = float(s)
            made = [('a + b', a + b, lambda x, y: x + y), ('a - b', a - b, lambda x, y: x - y), ('a + s', a + s, lambda x, y: x + s), ('a - s', a - s, lambda x, y: x - s),
                    ('s a', s * a, lambda x, y: s * x), ('a^2', a ** 2, lambda x, y: x * x), ('a^3', a ** 3, lambda x, y: x * x * x), ('square of a', a.square, lambda x, y: x * x), ('a + 2', a + 2, lambda x, y: x + 2), ('3 a', 3 * a, lambda x, y: 3 * x)]
            scalars = [('a . b', a.dot(b), lambda I, r: sum(A[i][r][I] * B[i][r][I] for i in range(components))), ('a . a', a.dot(a), lambda I, r: sum(A[i][r][I] * A[i][r][I] for i in range(components)))]
            if ndim == components == 2:
                scalars += [('a x b', m(b), lambda I, r: A[0][r][I] * B[1][r][I] - A[1][r][I] * B[0][r][I]) for m in (a.cross_product, a.x)]
                nm = a.norm()
                scalars += [('|a|^2', None if mk.symbolic and False else nm ** 2, lambda I, r: A[0][r][I] * A[0][r][I] + A[1][r][I] * A[1][r][I])]
            for lab, got, want in made:
                out += [(f'{lab}: components', len(got._val_dict_list), components), (f'{lab}: regions', sorted(got), sorted(shapes)), (f'{lab}: type', got.dtype, a.dtype)]
                for i, v in enumerate(got._val_dict_list):
                    for r, sh in shapes.items():
                        out += [(f'{lab}: component {i} in {r} at {I}', v[r][I], want(A[i][r][I], B[i][r][I])) for I in np.ndindex(*sh)]
            for lab, got, want in scalars:
                out += [(f'{lab}: components', len(got._val_dict_list), 1)]
                for r, sh in shapes.items(): out += [(f'{lab}: in {r} at {I}', got._val_dict_list[0][r][I], want(I, r)) for I in np.ndindex(*sh)]
            for lab, got, *_ in made + scalars:
                for i in range(ndim):
                    for r in shapes: out.append((f'{lab}: coordinates', got._coo_dict_list[i][r].tolist(), coo[i][r].tolist()))
            # other coordinates, other regions, another number of components: refused
            other = [{r: x[r] + .125 for r in x} for x in coo]
            for lab, bad in (('shifted', RWS(other, B)), ('fewer regions', RWS([{'R0': x['R0']} for x in coo], [{'R0': v['R0']} for v in B])), ('more components', RWS(same, B + B[:1]))):
                for op in ('__add__', '__sub__', 'dot'):
                    try: getattr(a, op)(bad)
                    except (AssertionError, KeyError): continue
                    out.append((f'{op} with a data set that does not match ({lab}) is refused', 'done', 'refused'))
            if not mk.symbolic:
                out += [('largest magnitude', list(a.maximum()), [max(abs(A[i][r]).max() for r in shapes) for i in range(components)])]
        return out
    return scn


for _n, _c in ((2, 1), (2, 2), (2, 4), (3, 1), (3, 3)): check.scenario(f'data sets: {_c} components in {_n}d', samples=2)(data_algebra(_n, _c))


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c20_') as d:
        os.chdir(d)
        try: yield d
        finally: os.chdir(here)


def eq(lab, got, want, **more):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=1e-11 * (1 + (abs(want).max() if want.size else 0)), equal_nan=True):
        raise R.Violation(lab, dict(got=got.tolist() if got.size < 40 else str(got), want=want.tolist() if want.size < 40 else str(want), **more))


@check.unit('data sets: files, groups and values')
def _data_files(led):
    fn(led, RWS.saveto, RWS.read, RWS.value, RWS.interpolate, RWS.maximum, GROUP.__init__, GROUP.saveto, GROUP.read, GROUP.__getitem__, GROUP.__iter__, GROUP.__len__, get('phyem.tools.read:read'))
    read_ = get('phyem.tools.read:read')
    rng = np.random.default_rng(3)
    num = 0
    with scratch():
        for ndim in (2, 3):
            shapes = {'R1': (3, 2, 2)[:ndim], 'R0': (2, 4, 3)[:ndim]}
            coo = [{r: rng.uniform(0, 1, sh) for r, sh in shapes.items()} for _ in range(ndim)]
            rnd = lambda c: [{r: rng.uniform(-1, 1, sh) for r, sh in shapes.items()} for _ in range(c)]

            def agree(lab, d, val):
                nonlocal num
                if len(d._val_dict_list) != len(val) or sorted(d) != sorted(shapes): raise R.Violation(lab, dict(components=len(d._val_dict_list), regions=list(d)))
                for r in shapes:
                    for i in range(ndim): eq(f'{lab}: coordinate {i} in {r}', d._coo_dict_list[i][r], coo[i][r])
                    for i, v in enumerate(val): eq(f'{lab}: component {i} in {r}', d._val_dict_list[i][r], v[r])
                num += 1
            for c in (1, ndim, ndim ** 2):
                val = rnd(c)
                d = RWS(coo, val)
                d.saveto('one.dds')
                for nm, back in (('read', RWS.read('one.dds')), ('ph.read', read_('one.dds'))):
                    agree(f'{nm} of a saved data set of {c} components in {ndim}d', back, val)
                    if back.dtype != d.dtype: raise R.Violation('type of a data set that was read', dict(got=back.dtype, want=d.dtype))
                d.saveto('one.dds')
            names = {'velocity': rnd(ndim), '1': rnd(1), 'pressure': rnd(1), '0': rnd(ndim)}
            for nm, given in (('named', names), ('numbered', list(names.values()))):
                g = GROUP(coo, given)
                g.saveto('group.dds')
                for h, G in ((f'{nm} group', g), (f'{nm} group, read', GROUP.read('group.dds')), (f'{nm} group, ph.read', read_('group.dds'))):
                    keys = list(names) if nm == 'named' else ['0', '1', '2', '3']
                    if len(G) != 4 or list(G._value_names) != keys: raise R.Violation(f'{h}: names', dict(got=list(G._value_names), want=keys))
                    for i, (key, val) in enumerate(zip(keys, names.values())):
                        agree(f'{h}: {key}', G[key], val)
                        agree(f'{h}: number {i}', G[i], val)
                        agree(f'{h}: {key} again', G[key], val)
                    for d, val in zip(G, names.values()): agree(f'{h}: iteration', d, val)
        # linear data are interpolated exactly, in every region
        x, y = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 2, 5), indexing='ij')
        coo = [{'a': x, 'b': x + 1}, {'a': y, 'b': y}]
        lin = lambda x, y: 2 - 3 * x + .5 * y
        d = RWS(coo, [{r: lin(coo[0][r], coo[1][r]) for r in ('a', 'b')}])
        for q in rng.uniform(0, 2, (12, 2)): eq('value of linear data', d.value(*q), lin(*q), point=q.tolist())
        for q in ((0., 0.), (1., 2.), (2., 0.), (2., 1.5)): eq('value of linear data', d.value(*q), lin(*q), point=q)
    led.bounded.append((f'{num} data sets read back', 'random coordinates and values'))


# ------------------------------------------------------------------ forms in files
def exchange(lib_=None):
    def unit(led):
        Form = get('phyem.msehtt.static.form.main:MseHttForm')
        fn(led, Form.saveto, Form.read, Form._make_cache_data, Form._read_cache_data, Form._collect_cache_data_at_t, Form.global_element_signature_dict.fget, Form.element_signature_dict.fget)
        num = 0
        ref = [np.array(x) for x in ((-.8, .3, .9), (-.1, .7, -.6), (.2, .6, -.9))]
        with scratch(), Setting(False):
            for name, p, other in EXCHANGE:
                w = world('msehtt', name, p)
                v, number = renumbered(name, p) if other else (w, {e: e for e in w.range})
                fn(led, *{type(w.elements[e]).signature.fget for e in w.range})
                sig = [w.elements[e].signature for e in w.range]
                if len(set(sig)) != len(sig): raise R.Violation('two elements of one mesh have the same signature', dict(mesh=name))
                for a, k, o, f in w.forms():
                    f = twin('msehtt', f)
                    fa = at_a_time('msehtt', f)
                    stored = {t: w.random(f, k, o, 10 * i + k) for i, t in enumerate((.5, 0., 2.25))}
                    for t, c in stored.items(): f[t].cochain = c
                    new = lambda: twin('msehtt', v.obj[a])

                    def holds(lab, g, times, extra=None):
                        nonlocal num
                        got = sorted(g.cochain._tcd)
                        want = sorted(list(times) + list(extra or {}))
                        if got != want: raise R.Violation(f'{lab}: times', dict(mesh=name, form=a, got=got, want=want))
                        for t in times:
                            c = g.cochain[t]
                            for e in w.range: eq(f'{lab}: {a} on {name}', *(map(abs, (c[number[e]], stored[t][e])) if other else (c[number[e]], stored[t][e])), element=e, time=t)
                            num += 1
                        if not extra:       # the sign of a dof on a face may differ, the field may not
                            t = max(times)
                            (x, u), (y, u_) = f[t].reconstruct(*ref[:w.n], ravel=True), g[t].reconstruct(*ref[:w.n], ravel=True)
                            for A, B in list(zip(x, y)) + list(zip(u, u_)):
                                for e in w.range: eq(f'{lab}: field of {a} on {name}', B[number[e]], A[e], element=e, time=t)
                        for t, c in (extra or {}).items():
                            for e in v.range: eq(f'{lab}: {a} on {name}: what was stored before', g.cochain[t][e], c[e], element=e, time=t)
                    for src, h in (('form', f), ('form at a time instant', fa)):
                        for what, times in ((None, stored), (1, [2.25]), (2, [.5, 2.25]), (5, stored)):
                            h.saveto('form.mse', what=what)
                            g = new()
                            g.read('form.mse')
                            holds(f'saveto({what}) and read of the {src}', g, times)
                            g, gc = new(), v.random(v.obj[a], k, o, 99)
                            for t in (-1., .5): g[t].cochain = gc
                            g.read('form.mse')
                            holds(f'saveto({what}) and read of the {src} over others', g, times, {t: gc for t in (-1., .5) if t not in times})
                        for what in (None, ('nearest', 1)):
                            cache = pickle.loads(pickle.dumps(h._make_cache_data(what) if what else h._make_cache_data()))
                            for dst, at in (('form', False), ('form at a time instant', True)):
                                g = new()
                                (at_a_time('msehtt', g) if at else g)._read_cache_data(cache)
                                holds(f'cached data ({what}) of the {src} read into the {dst}', g, [2.25])
                    for e in w.range: eq('saving leaves the cochain', f.cochain[.5][e], stored[.5][e])
        led.bounded.append((f'{num} cochains read back', 'random cochains; the meshes ' + ', '.join(n[0] + (' and itself renumbered' if n[2] else '') for n in EXCHANGE)))
    return unit


@functools.lru_cache(None)
def renumbered(name, p, keep=False):
    r"""the same mesh from a file, with other numbers for its elements and nodes, listed in another order (keep: as it was saved)."""
    src = world('msehtt', name, p)
    src.obj['tgm'].saveto('mesh')
    number = {e: e for e in src.range}
    if not keep:
        with open('mesh.phm', 'rb') as f: d = pickle.load(f)
        rng = np.random.default_rng(5)
        elements = list(src.range)
        number = dict(zip(elements, [int(i) for i in rng.permutation(len(elements))]))
        nodes = sorted({x for e in elements for x in d['map_dict'][e]})
        label = dict(zip(nodes, [int(i) for i in rng.permutation(len(nodes))]))
        order = [elements[i] for i in rng.permutation(len(elements))]
        d = {'etype_dict': {number[e]: d['etype_dict'][e] for e in order}, 'parameter_dict': {number[e]: d['parameter_dict'][e] for e in order},
             'map_dict': {number[e]: [label[x] for x in d['map_dict'][e]] for e in order}}
        with open('mesh.phm', 'wb') as f: pickle.dump(d, f)
    key = name + (' saved' if keep else ' renumbered')
    terms.MORE_HTT.append((key, src.n, 'mesh.phm', {}))
    return world('msehtt', key, p), number


@check.unit('msehtt: meshes saved and read', real=True)
def _meshes(led):
    G = get('phyem.msehtt.static.mesh.great.main:MseHttGreatMesh')
    fn(led, G.saveto, G.___read___, G._config, G._make_elements_)
    count = 0
    with scratch():
        for name, p in (('2d parallelograms', 2), ('2d quads and triangles', 1), ('2d triangles', 2), ('2d crazy linear', 1), ('2d tiny linear', 1)):
            w = world('msehtt', name, p)
            v, _ = renumbered(name, p, keep=True)
            if list(v.range) != list(w.range): raise R.Violation('elements of a mesh that was saved and read', dict(mesh=name, got=list(v.range), want=list(w.range)))
            ref = [np.array(x) for x in ((.0, .3, -1.), (.7, -1., 1.), (.2, -.6, 1.))[:w.n]]
            for e in w.range:
                a, b = w.elements[e], v.elements[e]
                if (a.etype, list(a.map_), a.signature) != (b.etype, list(b.map_), b.signature): raise R.Violation('element of a mesh that was saved and read', dict(mesh=name, element=e, got=(b.etype, list(b.map_)), want=(a.etype, list(a.map_))))
                for i, (x, y) in enumerate(zip(a.ct.mapping(*ref), b.ct.mapping(*ref))): eq('geometry of a mesh that was saved and read', y, x, mesh=name, element=e, axis=i)
                count += 1
            for a, k, o, f in w.forms():
                for e in w.range: eq('numbering of the dofs of a mesh that was saved and read', v.obj[a].cochain.gathering_matrix[e], f.cochain.gathering_matrix[e], mesh=name, form=a, element=e)
        for name in ('2d crazy', '2d chaotic quads'):
            try: world('msehtt', name).obj['tgm'].saveto('unique')
            except Exception: continue
            v = renumbered(name, 1, keep=True)[0]
            for e in v.range: eq('geometry of a mesh that was saved and read', v.elements[e].ct.mapping(*ref[:2]), world('msehtt', name).elements[e].ct.mapping(*ref[:2]), mesh=name, element=e)
    led.bounded.append((f'{count} elements of meshes read back', 'five meshes'))


EXCHANGE = [('2d parallelograms', 2, True), ('2d quads and triangles', 1, True), ('2d triangles', 2, True), ('2d tiny linear', 1, False), ('2d crazy', 2, False), ('2d crazy triangles', 1, False), ('2d chaotic quads', 1, False), ('3d crazy linear', 1, False)]
check.unit('msehtt: forms saved, read and cached', real=True)(exchange())


# ------------------------------------------------------------------ functions of stored forms
def samples(lib, f, count):
    r"""a few of the points where a function of a form must be its reconstruction: [(element, reference point)]."""
    n = f.space.n
    mid = np.linspace(-1, 1, count + 1)
    return [(mid[1:] + mid[:-1]) / 2] * n


def histories():
    r"""changes between two uses of the functions of a form: (what, [(time, number of the cochain)])."""
    return [('stored', [(0., 1)]), ('nothing', []), ('replaced', [(0., 2)]), ('replaced twice', [(0., 3), (0., 4)]), ('replaced three times', [(0., 5), (0., 6), (0., 7)]), ('a later time', [(1.5, 8)]),
            ('an earlier time', [(-1., 9)]), ('the newest replaced', [(1.5, 10)]), ('an old one replaced', [(0., 11), (0., 12)])]


def functions_htt(name, p):
    def unit(led):
        w = world('msehtt', name, p)
        N = get('phyem.msehtt.static.form.numeric.main:MseHtt_Form_Numeric')
        P = get('phyem.msehtt.static.form.numeric.tsp:MseHtt_Form_Numeric_TimeSpaceProperties')
        fn(led, N._interpolate_, N._interpolate_global_, N.dtype.fget, N.rws, N._merge_dict_, P.__call__, P.components, P.L2_energy, P.___newest_energy___, get('phyem.msehtt.static.form.numeric.tsp:_ComponentHelper_').__call__)
        density = min(max(int((30001 / len(w.range)) ** (1 / w.n) + 1), 5), 39)
        count, rng = 0, np.random.default_rng(1)
        with Setting(False):
            for a, k, o, f in w.forms():
                f = twin('msehtt', f)
                vector = 0 < k < w.n
                newest, kept = f.numeric, None
                for step, (what, changes) in enumerate(histories()):
                    for t, i in changes: f[t].cochain = w.random(f, k, o, i)
                    if not f.cochain.times: continue
                    last = f.cochain.newest
                    for t in f.cochain.times:
                        X, V = f[t].reconstruct(*samples('msehtt', f, density), ravel=True)
                        some = {e: rng.integers(0, len(X[0][e]), 3) for e in w.range}
                        q = [np.concatenate([np.asarray(x[e])[some[e]] for e in w.range]) for x in X]
                        want = [np.concatenate([np.asarray(v[e])[some[e]] for e in w.range]) for v in V]
                        info = dict(mesh=name, form=a, history=what, time=t)
                        ask = [t] + ([None] if t == last else [])
                        for T in ask:
                            if T is not None and not isinstance(T, (int, float)): T = float(T)
                            for when in ((0., 7.) if T is None else (float(t),)):
                                got = [f.numeric.tsp(T)(when, *q)] if not vector else f.numeric.tsp(T)(when, *q)
                                for i, (x, y) in enumerate(zip(got, want)): eq('function of a form at its samples', np.ravel(x), y, component=i, t=repr(T), **info)
                                if vector:
                                    for i, c in enumerate(f.numeric.tsp.components(T)): eq('component of a form at its samples', np.ravel(c(when, *q)), want[i], component=i, t=repr(T), **info)
                                if T is None: eq('energy of a form at its samples', np.ravel(f.numeric.tsp.L2_energy()(when, *q)), sum(y ** 2 for y in want) / 2, **info)
                            for ddf in (1, 2) if w.n == 2 else (1,):
                                if ddf == 1 or density == 39:
                                    for cw in (False, True):
                                        dt, I = f.numeric._interpolate_(T, ddf=ddf, component_wise=cw)
                                        got = [np.ravel(i(*q)) for i in I] if cw else np.asarray(I(*q)).reshape(len(q[0]), -1).T
                                        if dt != f"{w.n}d-{'vector' if vector else 'scalar'}": raise R.Violation('type of a function of a form', dict(got=dt, **info))
                                        for i, (x, y) in enumerate(zip(got, want)): eq('interpolation of a form at its samples', x, y, component=i, t=repr(T), ddf=ddf, component_wise=cw, **info)
                            dt, D, U = f.numeric._interpolate_(T, data_only=True)
                            for i, (x, y) in enumerate(zip(list(D) + list(U), list(X) + list(V))): eq('samples of a form', x, np.concatenate([np.asarray(y[e]) for e in y]), number=i, t=repr(T), **info)
                            if not (w.n == 2 and vector):
                                dt, D, U = f.numeric._interpolate_global_(T, data_only=True)
                                for i, (x, y) in enumerate(zip(list(D) + list(U), list(X) + list(V))): eq('samples of a form on all ranks', x, np.concatenate([np.asarray(y[e]) for e in y]), number=i, t=repr(T), **info)
                        count += 1
                    lin = [np.linspace(-1, 1, density)] * w.n
                    X, V = f[last].reconstruct(*lin, ravel=False)
                    d = f.numeric.rws(last)
                    dc, (xyz, vals) = f.numeric.rws(last, component_wise=True), f.numeric.rws(last, data_only=True)
                    for e in w.range:
                        for i, x in enumerate(X): eq('coordinates of the data set of a form', d._coo_dict_list[i][e], x[e], element=e, **info), eq('coordinates of the data of a form', xyz[i][e], x[e], element=e, **info)
                        for i, v in enumerate(V):
                            eq('data set of a form', d._val_dict_list[i][e], v[e], element=e, component=i, **info)
                            eq('data set of a component of a form', dc[i]._val_dict_list[0][e], v[e], element=e, component=i, **info)
                            eq('data of a form', vals[i][e], v[e], element=e, component=i, **info)
        led.bounded.append((f'{count} states of the stores of the forms on {name}', 'random cochains'))
    return unit


for _m, _p in (('2d crazy', 2), ('2d quads and triangles', 1), ('3d straight', 1)): check.unit(f'msehtt: functions of forms on {_m}')(functions_htt(_m, _p))


@check.unit('msepy: functions of forms', real=True)
def _functions_py(led):
    N = get('phyem.msepy.form.numeric.main:MsePyRootFormNumeric')
    fn(led, N.interp, N._make_interp, N.region_wise_interp, get('phyem.msepy.form.numeric.dds:MsePyRootFormNumericDiscreteDataStructure').rws, get('phyem.msepy.mesh.main:MsePyMesh')._regionwsie_stack,
       get('phyem.msepy.form.numeric.tsf:MsePyRootFormNumericTimeSpaceFunction')._local_energy_computer, get('phyem.msepy.form.numeric.tsp:MsePyRootFormNumericTimeSpaceProperty').L2_energy)
    Q = get('phyem.tools.quadrature:Quadrature')
    count = 0
    with Setting(False):
        for name, p in (('2d straight', 2), ('backward_step 2d', 1)):
            w = world('msepy', name, p)
            mesh = w.mesh
            regions = mesh.manifold.regions
            for a, k, o, f in w.forms():
                f = twin('msepy', f)
                for step, (what, changes) in enumerate(histories()):
                    for t, i in changes: f[t].cochain = w.random(f, k, o, i)
                    if f.cochain.newest is None: continue
                    last = f.cochain.newest
                    for T in [None] + sorted(f.cochain._tcd):
                        t = last if T is None else T
                        info = dict(mesh=name, form=a, history=what, time=t, t=repr(T))
                        for density, factor in ((3, 4), (3, 5), (4, 4)) if step % 3 == 2 else ((3, 4),):
                            nodes = Q(density, category='Gauss').quad_nodes
                            X, V = f[t].reconstruct(nodes, nodes, ravel=True)
                            I = f.numeric.interp(T, density, factor)
                            I = I if isinstance(I, tuple) else (I,)
                            P = f.numeric.region_wise_interp(T, density, factor) if k != 1 else None
                            r = np.linspace(0, 1, factor * density)
                            r, s = [x.ravel('F') for x in np.meshgrid(r, r, indexing='ij')]
                            for R_ in regions:
                                E = list(range(*mesh.elements._elements_in_region(R_)))
                                sx, sy = [np.concatenate([x[e] for e in E]) for x in X]
                                x, y = regions[R_]._ct.mapping(r, s)
                                inside = (r > 0) & (r < 1) & (s > 0) & (s < 1)
                                x, y = x[inside], y[inside]
                                D = (x[:, None] - sx) ** 2 + (y[:, None] - sy) ** 2
                                near = D <= D.min(1)[:, None] * (1 + 1e-9) + 1e-14
                                for i, v in enumerate(V):
                                    v = np.concatenate([v[e] for e in E])
                                    for nm, itp in [('interpolation', I[i])] + ([('interpolation in the region', P[R_])] if P else []):
                                        g = np.ravel(itp(x, y))
                                        bad = ~(near & (abs(g[:, None] - v) < 1e-10)).any(1)
                                        if bad.any(): raise R.Violation(f'{nm} of a form is its value at the nearest sample', dict(point=[float(x[bad][0]), float(y[bad][0])], got=float(g[bad][0]), want=float(v[D[bad][0].argmin()]), density=density, factor=factor, region=R_, **info))
                                count += 1
                        if k == 1 and T is None:
                            e0 = f.numeric.tsp.L2_energy()
                            u, v = f.numeric.interp(t)
                            x, y = regions[R_]._ct.mapping(r, s)
                            for when in (0., 5.): eq('energy of a form', np.ravel(e0(when, x, y)), (u(x, y) ** 2 + v(x, y) ** 2) / 2, **info)
                            eq('energy of a form at its own time', f.numeric.tsf.L2_energy(t, x, y), (u(x, y) ** 2 + v(x, y) ** 2) / 2, **info)
                        for ddf in (2, 5):
                            d = f.numeric.dds.rws(T, ddf)
                            lin = np.linspace(-1, 1, ddf)
                            X, V = f[t].reconstruct(lin, lin, ravel=False)
                            data_of(w, d, X, V, ddf, info)
    led.bounded.append((f'{count} functions', 'random cochains'))


def data_of(w, d, X, V, ddf, info):
    r"""the data set is the element-wise data, element by element at its place in its region."""
    mesh = w.mesh
    if sorted(d) != sorted(mesh.manifold.regions): raise R.Violation('regions of the data set of a form', info)
    for R_ in mesh.manifold.regions:
        E = list(range(*mesh.elements._elements_in_region(R_)))
        D = mesh.elements._delta[R_]
        L = [len(x) for x in D]
        todo = {e for e in E}
        for i in range(L[0]):
            for j in range(L[1]):
                at = np.s_[i * ddf:(i + 1) * ddf, j * ddf:(j + 1) * ddf]
                mid = [(sum(D[a][:b]) + D[a][b] / 2) for a, b in ((0, i), (1, j))]
                c = np.array(mesh.manifold.regions[R_]._ct.mapping(*[np.array([m]) for m in mid]))[:, 0]
                e = min(E, key=lambda e: sum((w.mapping(e, [np.array([0.]), np.array([0.])])[a][0] - c[a]) ** 2 for a in range(2)))
                todo.discard(e)
                for a in range(2): eq('coordinates of the data set of a form', d._coo_dict_list[a][R_][at], X[a][e], element=e, **info)
                for a, v in enumerate(V): eq('data set of a form', d._val_dict_list[a][R_][at], v[e], element=e, component=a, **info)
        for x in d._coo_dict_list + d._val_dict_list: eq('shape of the data set of a form', x[R_].shape, (L[0] * ddf, L[1] * ddf), **info)
        if todo: raise R.Violation('elements missing in the data set of a form', info)


# ------------------------------------------------------------------ residuals
def residual(lib):
    def unit(led):
        w = world(lib)
        fn(led, type(w.obj['o0']).norm_residual, *([type(w.obj['o0']).residual.fget] if lib == 'msepy' else []))
        count = 0
        for a, k, o, f in w.forms():
            f = twin(lib, f)
            c, alone = {}, twin(lib, f)

            def size(s, t):
                r"""the norm (C16) of a form whose cochain is the difference."""
                alone[0].cochain = {e: c[s][e] - c[t][e] for e in w.range} if lib == 'msehtt' else c[s] - c[t]
                return alone.norm(0) if lib == 'msepy' else alone[0].norm()
            with Setting(False):
                eq('residual of nothing', f.norm_residual(), np.nan)
                for i, t in enumerate((1.25, 0., 3., -2.)):
                    c[t] = w.random(f, k, o, i)
                    f[t].cochain = c[t]
                    T = sorted(c)
                    want = np.nan if len(T) == 1 else size(T[-1], T[-2])
                    eq('residual', f.norm_residual(), want, form=a, times=T)
                    if lib == 'msepy': eq('residual', f.residual, want, form=a, times=T)
                    for x in T:
                        eq('residual from a time', f.norm_residual(from_time=x), np.nan if x == T[-1] else size(x, T[-1]), form=a, times=T, t=x)
                        for y in T: eq('residual between two times', f.norm_residual(x, y), np.nan if x == y else size(x, y), form=a, times=T, t=(x, y))
                        if len(T) > 1: eq('residual to a time', f.norm_residual(to_time=x), np.nan if x == T[-2] else size(x, T[-2]), form=a, times=T, t=x)
                        count += 1
        led.bounded.append((f'{count} states', 'random cochains; times in any order'))
    return unit


for _l in LIBS: check.unit(f'{_l}: residuals')(residual(_l))


@check.unit('msepy: forms saved and read', real=True)
def _saved_py(led):
    save_, read_ = get('phyem.tools.save:save'), get('phyem.tools.read:read')
    fn(led, save_, read_, get('phyem.msepy.form.main:MsePyRootForm')._saving_check)
    count = 0
    with scratch(), Setting(False):
        for name, p in (('2d straight', 2), ('backward_step 2d', 1), ('crazy 1d linear', 2), ('3d straight', 1)):
            w = world('msepy', name, p)
            pts = [np.array(x) for x in ((-.8, .3, .9), (-.6, -.1, .7), (-.9, .2, .6))[:w.n]]
            forms, stored = [], {}
            for a, k, o, f in w.forms():
                stored[a] = {t: w.random(f, k, o, 10 * i + k) for i, t in enumerate((.5, 0., 2.25))}
                for t, c in stored[a].items(): f[t].cochain = c
                forms.append((a, f))
            save_(*[f for _, f in forms], filename='all.mse')
            got = read_('all.mse')
            if len(got) != len(forms): raise R.Violation('number of forms that were saved and read', dict(mesh=name, got=sorted(got), want=len(forms)))
            for a, f in forms:
                save_(f, filename='one.mse')
                one = read_('one.mse')
                for g in (got[f.abstract._pure_lin_repr], one[f.abstract._pure_lin_repr]):
                    if sorted(g.cochain._tcd) != sorted(stored[a]) or g.cochain.newest != 2.25: raise R.Violation('times of a form that was saved and read', dict(mesh=name, form=a, got=sorted(g.cochain._tcd)))
                    for t, c in stored[a].items():
                        eq('cochain of a form that was saved and read', g.cochain[t].local, c, mesh=name, form=a, time=t)
                        (x, u), (y, v) = f[t].reconstruct(*pts), g[t].reconstruct(*pts)
                        for A, B in list(zip(x, y)) + list(zip(u, v)): eq('field of a form that was saved and read', B, A, mesh=name, form=a, time=t)
                        count += 1
    led.bounded.append((f'{count} cochains read back', 'random cochains'))
