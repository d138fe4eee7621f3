r"""C23: an adaptive implementation is, after each renewal, what a static one is on the same mesh; the cochains are carried over."""
import itertools
import numpy as np
import phyem as ph
from pv.run import *
from pv.run import get, Stub, Check
import pv.run as R
from pv import boxes, loops, whole, pde

check = Check('C23', trusted=['scipy NearestNDInterpolator returns the value of the nearest sample', 'static implementations (C01-C20) and refinement (C22)'])
M3 = 'phyem.msehtt.adaptive.form.renew.method_3_local_interpolation'


def fn(led, *fs):
    for f in fs: led.functions.add(R.qual(f))


# ------------------------------------------------------------------ contracts: generations, whatever the history
class Thing:
    r"""a new mesh, space or form; what it was given."""
    def __init__(self, *a):
        self.given, self.said = a, []
        self.cf = Stub(_field=None)

    def _config(self, *a): self.said.append(a)


class Given(Thing):
    r"""a form: a field assigned to it is kept in its `cf`."""
    def __setattr__(self, n, v): object.__setattr__(self, n, Stub(_field=v) if n == 'cf' and not isinstance(v, Stub) else v)


def histories(kind):
    path, top, made = {'mesh': ('phyem.msehtt.adaptive.mesh.main', 'MseHtt_Adaptive_TopMesh', 'MseHttMeshPartial'), 'space': ('phyem.msehtt.adaptive.space.main', 'MseHtt_Adaptive_TopSpace', 'MseHttSpace'),
                       'form': ('phyem.msehtt.adaptive.form.main', 'MseHtt_Adaptive_TopForm', 'MseHttForm')}[kind]

    @check.scenario(f'a {kind} after any number of renewals: one more keeps the newest two generations', samples=3)
    def _(mk):
        m = get(path)
        C = m.__dict__[top]
        mk.fn(C.___renew___)
        limit = get('phyem.msehtt.adaptive.main').___MAX_GENERATIONS____
        total = mk.int('renewals so far', 0)
        out, old = [('two generations are kept', limit, 2)], m.__dict__[made]
        includings = {'mesh': ['all', {'type': 'x', 'partial elements': 0}, 'a mesh']}.get(kind, [None])
        for n, inc, field in itertools.product(range(3), includings, (None, 'a field') if kind == 'form' else (None,)):
            ab = Stub()
            t = C(ab, limit)
            before = [Given() for _ in range(n)]
            for b in before: b.cf = Stub(_field=field)
            t._generations_, t._total_generation_ = list(before), total + n
            partner = None
            if kind == 'mesh':
                partner = C(Stub(), limit)
                partner._generations_ = [Given(), Given()]
                t._config(m.MseHttGreatMesh(), partner if inc == 'a mesh' else {k: v or partner for k, v in inc.items()} if isinstance(inc, dict) else inc)
            try:
                setattr(m, made, Given)
                tgm = Stub()
                t.___renew___(tgm) if kind == 'mesh' else t.___renew___()
            finally: setattr(m, made, old)
            lab = f'{n} generations before{"" if inc is None else f", including {inc}"}{"" if field is None else ", with a field"}: '
            new = t.current
            out += [(lab + 'how many are kept', len(t._generations_), min(n + 1, 2)), (lab + 'the newest is a new one of the same', isinstance(new, Given) and new not in before and new.given == (ab,), True),
                    (lab + 'the one before is the newest before', n == 0 or t._generations_[-2] is before[-1], True), (lab + 'they are counted', t.ith_generation, total + n + 1),
                    (lab + 'the field is carried over', new.cf._field, field if n else None)]
            if kind == 'mesh':
                want = (tgm, 'all') if inc == 'all' else (tgm, partner.current) if inc == 'a mesh' else (tgm, {k: v or partner.current for k, v in inc.items()})
                out.append((lab + 'it is made in the new great mesh, of the newest of what it is made of', new.said == [want], True))
        return out


for _k in ('mesh', 'space', 'form'): histories(_k)


# ------------------------------------------------------------------ contracts: configured systems, any number of configurations
class Configurations(loops.Abstract):
    r"""any number of configurations made so far; the arbitrary one is `one`."""
    def __init__(self, mk, one, log): self.mk, self.one, self.log = mk, one, log

    def enter(self, L):
        self.log.clear()
        return {}

    def item(self): return self.one[0]
    def leave(self, L): boxes.ctx.obl.append(('the configuration is passed on, for the newest generation', self.log == [self.one[1]], True))

    def end(self, L):
        self.log.clear()
        return {}


def configured(path, cls, made, abstract):
    @check.scenario(f'{cls}: any number of configurations, any generation', samples=3)
    def _(mk):
        m = get(path)
        C = m.__dict__[cls]
        f = C.__dict__['apply']
        mk.fn(f)
        gen = mk.int('generation', 0)
        place, form, cond = Stub(current=Stub()), Stub(current=Stub()), Stub()
        one = ((('natural bc', 1), ('REAL-TIME', place, 'current'), cond), {'root_form': ('REAL-TIME', form, 'current')}), ((('natural bc', 1), place.current, cond), {'root_form': form.current})
        base, ab = Stub(), Stub()
        out = []
        for known in (True, False):
            log, made_of = [], []

            class System:
                def __init__(self, *a): made_of.append(a)
                def apply(self): return self
                def config(self, *a, **k): log.append((a, k))
            cached = Stub()
            me = Stub(_msehtt_adaptive_=lambda: (gen, base), _generation_cache_=gen if known else gen - 1, _dynamic_cache_=cached, **{abstract: ab})
            if mk.symbolic:
                me.config = Stub(_configurations=Configurations(mk, one, log))
                with boxes.boxed(mk, m) as ctx:
                    try:
                        got = loops.invariants(f, **{made: System})(me)
                        items = [('known' if known else 'new', got is cached if known else isinstance(got, System), True),
                                 ('made of the newest base', made_of, [] if known else [(ab, base)]), ('kept', me._dynamic_cache_ is got, True), ('for this generation', me._generation_cache_, gen)]
                    except loops.Done: items = []
                    out += [(f'{"known" if known else "new"}: {o[0]}',) + tuple(o[1:]) for o in list(ctx.obl)] + items
            else:
                n = int(mk.int('configurations', 0, 4))
                me.config = Stub(_configurations=[one[0]] * n)
                old = m.__dict__[made]
                try:
                    setattr(m, made, System)
                    got = f(me)
                finally: setattr(m, made, old)
                out += [(f'known {known}', got is cached if known else isinstance(got, System), True), (f'configured {known}', log == ([] if known else [one[1]] * n), True)]
        return out


configured('phyem.msehtt.adaptive.tools.linear_system', 'MseHtt_Adaptive_Linear_System', 'MseHttDynamicLinearSystem', '_abs_ls')
configured('phyem.msehtt.adaptive.tools.nonlinear_system', 'MseHtt_Adaptive_NonLinear_System', 'MseHttDynamicNonLinearSystem', '_abs_nls')


# ------------------------------------------------------------------ base meshes: quads of [0, 2] x [0, 2], turned
NODES = [(0., 0.), (1., 0.), (2., 0.), (0., 1.), (1.1, .9), (2., 1.), (0., 2.), (1., 2.), (2., 2.)]
QUADS = [(0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6), (4, 5, 8, 7)]


def quads(turns, which=(0, 1, 2, 3)):
    turned = {e: [QUADS[e][(i + k) % 4] for i in range(4)] for e, k in zip(which, turns)}
    return {'element_type_dict': {e: 9 for e in turned}, 'element_parameter_dict': {e: [list(NODES[v]) for v in q] for e, q in turned.items()},
            'element_map_dict': {e: list(q) for e, q in turned.items()}}


BASES = [quads((0, 0, 0, 0)), quads((0, 1, 2, 3)), quads((3, 2), (0, 1)), quads((2, 0, 1), (1, 3, 2))]


def many():
    r"""twelve quads turned any way round, with indices of one and of two digits."""
    rng, at = np.random.default_rng(5), lambda i, j: i + 5 * j
    P = {at(i, j): [i / 2 + (.06 * rng.uniform(-1, 1) if 0 < i < 4 else 0), 2 * j / 3 + (.06 * rng.uniform(-1, 1) if 0 < j < 3 else 0)] for i in range(5) for j in range(4)}
    Q = [[at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)] for j in range(3) for i in range(4)]
    Q = {e: [q[(i + k) % 4] for i in range(4)] for e, q, k in zip([1, 11, 7, 12, 2, 10, 0, 21, 3, 13, 112, 4], Q, rng.integers(0, 4, 12))}
    return {'element_type_dict': {e: 9 for e in Q}, 'element_parameter_dict': {e: [P[v] for v in q] for e, q in Q.items()}, 'element_map_dict': Q}


BASES.append(many())
DONE = {}


def world(base, p, ts):
    r"""forms a, b (of the pde), with time instants, plus forms of the other spaces, on one adaptive implementation."""
    P = pde.Problem('msehtt-a', 2, p, None, [1, 1, 0, 0], cfg=(base, {}), ts_adaptive=ts)
    return P


def other(base, p, ts):
    r"""a 0-form, both kinds of 1-forms and a 2-form."""
    ph.config.set_embedding_space_dim(2)
    m = ph.manifold(2); mesh = ph.mesh(m)
    ph.space.set_mesh(mesh)
    sp = {'0': (0, 'outer'), '1o': (1, 'outer'), '1i': (1, 'inner'), '2': (2, 'outer')}
    sp = {k: ph.space.new('Lambda', d, orientation=o) for k, (d, o) in sp.items()}
    f = {k: s.make_form(rf'\phi_{{{k}}}', f'a form {k}') for k, s in sp.items()}
    ph.space.finite(p)
    im, ob = ph.fem.apply('msehtt-a', dict(m=m, mesh=mesh, **{f'f{k}': v for k, v in f.items()}))
    tgm = im.tgm()
    im.config(tgm)(base)
    M = im.base['meshes'][mesh._sym_repr]
    im.config(M)(tgm, including='all')
    im.initialize(ts=ts)
    return im, {k: ob[f'f{k}'] for k in f}, M


def refinement(rng, levels=2):
    if rng.random() < .3: return int(rng.integers(0, levels + 1))
    f = pde.Half(int(rng.integers(0, 2)), float(rng.choice([.5, 1., 1.5])), float(rng.choice([-1, 1])))
    return {'rff': f, 'rft': [.5, .6][:int(rng.integers(1, levels + 1))]}


def told(trf): return str(trf)


def base_of(e): return int(e[1:].split(',')[0]) if e[0] == '(' else int(e.split(':')[0])


def need(ok, label, **info):
    if not ok: raise R.Violation(label, {k: str(v)[:300] for k, v in info.items()})


# ------------------------------------------------------------------ generations
def structure(im, step, where):
    base = im.base
    tgm = None
    for kind in ('meshes', 'spaces', 'forms'):
        for key, top in base[kind].items():
            if kind == 'spaces' and top._abstract_space.orientation == 'unknown': continue
            info = dict(where, of=key)
            need(top.ith_generation == step, 'the number of generations', got=top.ith_generation, want=step, **info)
            need(len(top._generations_) == min(step, 2), 'the generations kept: the two newest', got=len(top._generations_), **info)
            need(top.current is top._generations_[-1], 'current is the newest generation', **info)
            tgm = tgm or top.current.tgm
            need(top.current.tgm is tgm, 'everything is on the newest great mesh', **info)
            if kind == 'spaces': need(top.current.tpm is base['meshes'][top._abstract_space.mesh._sym_repr].current, 'a space is on the newest mesh', **info)
            if kind == 'forms':
                f, ab = top.current, top.abstract
                need(f.space is base['spaces'][ab.space._sym_repr].current and f.tpm is base['meshes'][ab.mesh._sym_repr].current, 'a form is in the newest space on the newest mesh', **info)
                b = ab._pAti_form['base_form']
                if b is not None:
                    need(f._pAti_form['base_form'] is base['forms'][b._pure_lin_repr].current, 'a form at a time instant belongs to the newest generation of the form', **info)
                    need(f._pAti_form['base_form']._ats_particular_forms.get(top.abstract._pure_lin_repr) is f, 'the form knows itself at a time instant', **info)


def boundary(P, where):
    r"""the two boundary sections have each side that only one element has, once, by the direction it faces."""
    m = P.mesh.current
    place, sides = {}, {}
    for e in m.composition:
        el = m.composition[e]
        for i in range(4):
            x, y = el.faces[i].ct.mapping(np.array([-1., 0., 1.]))
            key = tuple(sorted((round(float(a), 6) + 0., round(float(b), 6) + 0.) for a, b in ((x[0], y[0]), (x[2], y[2]))))
            sides.setdefault(key, []).append((e, i))
    lone = {v[0]: k for k, v in sides.items() if len(v) == 1}
    got = {}
    for name, sec in (('a', P.ga), ('b', P.gb)):
        for k in sec.current.composition:
            f = sec.current.composition[k]
            got.setdefault((f._element.index, f._id), []).append(name)
    want = {k: ['a' if all(abs(v[0] - c) < 1e-6 for v in s for c in [s[0][0]]) else 'b'] for k, s in lone.items()}
    need(got == want, 'the boundary sections of the newest mesh', got=sorted(got.items())[:6], want=sorted(want.items())[:6], **where)


def generations(led):
    M = get('phyem.msehtt.adaptive.main')
    fn(led, M.renew, M.___renew___, get('phyem.msehtt.adaptive.___func___').___func_renew___, M.current_base)
    n = 0
    for s in range(4 if not R.thorough() else 16):
        rng = np.random.default_rng(s)
        base = BASES[[0, 1, 0, 4][s % 4]]
        P = world(base, 1, 1)
        structure(P.im, 1, dict(history=s, step='initialize'))
        ve = {f: rng for f in 'ab'}
        P.top['a'].cf = ca = ph.vc.scalar(lambda t, x, y: x + t)
        hist = []
        for step in range(2, 6):
            trf, ts = refinement(rng), int(rng.integers(1, 3))
            hist.append((told(trf), ts))
            P.im.renew(trf, ts=ts)
            where = dict(base=s % 2, history=hist)
            structure(P.im, step, where)
            P.look()
            boundary(P, where)
            need(P.top['a'].current.cf._field is ca, 'the field of a form is carried over', **where)
            S = get('phyem.msehtt.static.mesh.great.main').MseHttGreatMesh()
            S._config(base, trf=trf, ts=ts)
            need(list(S.elements) == list(P.tgm.elements) and all(np.array_equal(S.elements[e].map_, P.tgm.elements[e].map_) and np.allclose(S.elements[e].parameters, P.tgm.elements[e].parameters) for e in S.elements),
                 'the mesh is the base refined by what the renewal says', **where)
            n += 1
    led.bounded.append(('everything is of the newest generation', f'{n} renewals of random histories'))


check.unit('after each renewal everything is of the newest generation', limit=300, real=True)(generations)


# ------------------------------------------------------------------ cochains
def fields(rng, smooth):
    c = rng.uniform(-1, 1, 9) if smooth else np.concatenate([rng.uniform(-1, 1, 3), np.zeros(6)])
    u = lambda t, x, y: (1 + t) * (c[0] + c[3] * x + c[4] * y) + 0 * x
    v = lambda t, x, y: (1 + t) * (c[1] + c[5] * x + c[6] * y) + 0 * x
    w = lambda t, x, y: (1 - t) * (c[2] + c[7] * x + c[8] * y) + 0 * x
    return {'0': ph.vc.scalar(w), '2': ph.vc.scalar(u), '1o': ph.vc.vector(u, v), '1i': ph.vc.vector(v, w)}


def values(f, t): return {e: np.array(f[t].cochain[e]) for e in f.tpm.composition}


def cochains(led):
    m = get(M3)
    fn(led, m.compare_two_meshes, m.___find_base_element_index___, m.MseHtt_FormCochainRenew_Method3_LocalInterpolation.__call__, m.MseHtt_FormCochainRenew_Method3_LocalInterpolation._partially_renew_)
    n = 0
    for s in range(7 if not R.thorough() else 30):
        rng = np.random.default_rng(100 + s)
        p, base, big = 1 + s % 2, BASES[(s + 1) % 5], s % 5 == 3
        im, F, M = other(base, p, 1)
        hist = []
        trf = 0
        for step in range(5):
            smooth = bool(rng.integers(0, 2)) or big
            vc = fields(rng, smooth)
            times = [0., .5, 2.][:int(rng.integers(1, 4))]
            before = {}
            for k, f in F.items():
                f.current.cochain.clean('all')
                f.cf = vc[k]
                for t in times: f[t].reduce()
                before[k] = (f.current, {t: values(f.current, t) for t in times}, {t: np.sqrt(float(f[t].norm()) ** 2) for t in times}, {t: float(f[t].error()) for t in times})
            if rng.random() > .25 or (big and step == 0): trf = refinement(rng)
            if big and step == 1: trf = 0
            old = {e: None for e in M.current.composition}
            only = [None, None, [F['0'], F['1i']], F['2'], []][int(rng.integers(0, 5))]
            clean = bool(rng.integers(0, 2))
            hist.append((told(trf), 'forms' if only is not None else 'all', clean))
            info = im.renew(trf, ts=1, forms=only, clean=clean)
            new = list(M.current.composition)
            changed = {base_of(e) for e in new if e not in old}
            for k, f in F.items():
                where = dict(base=(s + 1) % 5, p=p, history=hist, form=k)
                asked = only is None or f is only or (isinstance(only, list) and any(f is g for g in only))
                g, vals, norms, errs = before[k]
                need(f._generations_[-2] is g, 'the generation before is kept', **where)
                if not asked:
                    need(len(f.current.cochain) == 0, 'forms not asked for are not renewed', got=f.current.cochain.times, **where)
                    need(sorted(g.cochain.times) == times, 'forms not asked for keep their cochains', **where)
                    continue
                need(len(g.cochain) == (0 if clean else len(times)), 'the old cochains are dropped if asked to', got=len(g.cochain), **where)
                need(sorted(f.current.cochain.times) == times, 'the times carried over', got=f.current.cochain.times, want=times, **where)
                need(bool(info['all same']) == (not changed), 'the renewal tells whether the mesh is the same', got=info['all same'], **where)
                rows = f.current.cochain.gathering_matrix
                touched = {int(d) for e in new if base_of(e) in changed for d in rows[e]}
                for t in times:
                    got = values(f.current, t)
                    seen = {}
                    for e in new:
                        for i, d in enumerate(rows[e]):
                            x = float(got[e][i])
                            need(abs(seen.setdefault(int(d), x) - x) < 1e-12, 'a dof has one value', element=e, dof=i, **where)
                            if int(d) not in touched:
                                need(abs(x - vals[t][e][i]) < 1e-12, 'a dof of unchanged base elements keeps its value', time=t, element=e, dof=i, got=x, want=vals[t][e][i], **where)
                    size = norms[t] + .3
                    err = float(f[t].error())
                    f[t].reduce()
                    best = float(f[t].error())
                    f[t].cochain = got
                    tol = 2 * (errs[t] + best) + 3e-2 * size if (changed and (smooth or k != '0')) else errs[t] + 1e-9
                    need(err <= tol, 'the values are carried over', time=t, got=err, before=errs[t], possible=best, size=size, **where)
                    n += 1
    led.bounded.append(('cochains carried over by a renewal', f'{n} cochains of random histories'))


check.unit('the cochains carried over by a renewal', limit=400, real=True)(cochains)


# ------------------------------------------------------------------ linear systems
def systems(led):
    fn(led, get('phyem.msehtt.adaptive.tools.linear_system').MseHtt_Adaptive_Linear_System.apply, get('phyem.msehtt.adaptive.main').current_base)
    n = 0
    for s in range(3 if not R.thorough() else 12):
        rng = np.random.default_rng(300 + s)
        base = BASES[s % 2]
        p = 1 + s % 2
        P = world(base, p, 1)
        c = rng.uniform(-1, 1, 3)
        sc = ph.vc.scalar(lambda t, x, y: c[0] + c[1] * x - c[2] * y + t * x)
        ve = ph.vc.vector(lambda t, x, y: c[0] * x + t * y, lambda t, x, y: c[1] * y - t * x)
        P.ls.config(['natural bc', 1], P.ga, sc, root_form=P.top['a'])
        P.ls.config(['essential bc', 1], P.gb, ve, root_form=P.top['b'])
        hist = []
        for step in range(3):
            if step:
                trf, ts = refinement(rng, 1), 1 if p == 2 else int(rng.integers(1, 3))
                P.im.renew(trf, ts=ts)
            else: trf, ts = 0, 1
            hist.append((told(trf), ts))
            where = dict(base=s % 2, p=p, history=hist)
            P.look()
            ls = P.ls.apply()
            need(P.ls.apply() is ls, 'applied once per generation', **where)
            v = {(k, f): rng.uniform(-1, 1, P.size(f)) for k in (1, 2) for f in 'ab'}

            def evaluated(Q, L):
                out = {}
                for k in (1, 2):
                    for f in 'ab': Q.set(f, Q.time('k-1', k), v[k, f])
                    st = L(k=k)
                    q = Q.permutation(st)
                    A = st.assemble()
                    out[k] = A.A._M.toarray()[np.ix_(q, q)], np.asarray(A.b._V)[q]
                return out
            one = evaluated(P, ls)
            T = pde.Problem('msehtt-s', 2, p, None, [1, 1, 0, 0], cfg=(base, dict(trf=trf, ts=ts)))
            need(list(P.E) == list(T.E) and all(P.size(f) == T.size(f) for f in 'ab'), 'the elements', **where)
            ls2 = T.ls.apply()
            ls2.config(['natural bc', 1], T.ga, sc, root_form=T.a)
            ls2.config(['essential bc', 1], T.gb, ve, root_form=T.b)
            two = evaluated(T, ls2)
            again = evaluated(P, ls)
            need(all(np.array_equal(x, y) for k in (1, 2) for x, y in zip(one[k], again[k])), 'a system is the same after another implementation', **where)
            need(all(np.array_equal(P.rows(f)[e], T.rows(f)[e]) for f in 'ab' for e in P.E), 'the numbering', **where)
            for k in (1, 2):
                (A, b), (A2, b2) = one[k], two[k]
                need(A.shape == A2.shape and np.allclose(A, A2, atol=1e-11), 'the matrix', k=k, **where)
                need(np.allclose(b, b2, atol=1e-11), 'the right-hand side', k=k, got=b, want=b2, **where)
                n += 1
    led.bounded.append(('the linear system after renewals is that of a static implementation on the same mesh', f'{n} systems'))


check.unit('the linear system after renewals', limit=400, real=True)(systems)


# ------------------------------------------------------------------ saved and read again
def saved(led):
    TF = get('phyem.msehtt.adaptive.form.main').MseHtt_Adaptive_TopForm
    fn(led, TF._make_cache_data, TF._read_cache_data)
    n = 0
    for s in range(4 if not R.thorough() else 16):
        rng = np.random.default_rng(500 + s)
        im, F, M = other(BASES[s % 4], 1, 1)
        trf, hist = 0, []
        for step in range(3):
            trf, ts = refinement(rng), int(rng.integers(1, 3))
            hist.append((told(trf), ts))
            im.renew(trf, ts=ts)
            vc = fields(rng, True)
            data, want = {}, {}
            mesh = {e: np.array(M.current.composition[e].map_) for e in M.current.composition}
            for k, f in F.items():
                f.current.cochain.clean('all')
                f.cf = vc[k]
                for t in (0., 1.5): f[t].reduce()
                data[k], want[k] = f._make_cache_data(), values(f.current, 1.5)
            later = refinement(rng)
            away = bool(rng.integers(0, 2))
            if away: im.renew(later, ts=int(rng.integers(1, 3)))
            where = dict(base=s % 4, history=hist, then=told(later) if away else 'nothing')
            order = list(F)
            rng.shuffle(order)
            for k in order: F[k]._read_cache_data(data[k])
            now = {e: np.array(M.current.composition[e].map_) for e in M.current.composition}
            need(list(now) == list(mesh) and all(np.array_equal(now[e], mesh[e]) for e in mesh), 'reading the data brings the mesh back', **where)
            structure(im, M.ith_generation, where) if M.ith_generation > 1 else None
            for k, f in F.items():
                need(1.5 in f.current.cochain.times, 'the newest time is read', form=k, got=f.current.cochain.times, **where)
                got = values(f.current, 1.5)
                need(all(np.allclose(got[e], want[k][e], atol=1e-13) for e in mesh), 'the cochain read', form=k, **where)
                n += 1
    led.bounded.append(('data saved before and read after other renewals', f'{n} cochains'))


check.unit('saved and read again', limit=300, real=True)(saved)
