r"""C14: a temporal discretization replaces time derivatives by difference quotients and forms by means over instants, and nothing else."""
import itertools
import random
from fractions import Fraction
import phyem as ph
from pv.run import *
from pv.run import get, Check
from pv import symb as S
import pv.run as R
from pv.exprs import *

check = Check('C14', trusted=['the grammar of linguistic representations (lib/pv/symb.py)', 'for the numerical part: mass and incidence matrices of the forms (C01, C16)'])
TERM = 'phyem.src.wf.term.main'
WF = 'phyem.src.wf.main:WeakFormulation'
TD = 'phyem.src.wf.td:TemporalDiscretization'
ODE = 'phyem.src.ode.discretize:OrdinaryDifferentialEquationDiscretize'
INSTANTS = ('k-1', 'k-1/2', 'k', 'k+1/4')


def literal(wf, i):
    r"""the sides of an equation, term by term."""
    return [[(s, S.show(S.term(t))) for t, s in zip(ts, ss, strict=True)] for ts, ss in zip(wf._term_dict[i], wf._sign_dict[i])]


def mean(xs):
    out = {}
    for x in xs: out = S.add(out, x)
    return S.scale(S.const(Fraction(1, len(xs))), out)


class Case:
    r"""a weak formulation whose terms are time derivatives, arbitrary expressions and expressions that contain certain forms; what it denotes, term by term."""
    def __init__(self, n, k, ori, layouts, kinds, dual=False):
        self.W = W = World(n)
        self.sp = sp = W.space(k, ori)
        self.T = get(TERM + ':L2InnerProductTerm')
        self.where = W.mesh.manifold._sym_repr
        self.x = [W.root(sp) for _ in range(2)]
        self.tests = [W.root(sp) for _ in layouts]
        fs = itertools.cycle([None, W.c[0], .5, W.any_scalar(), 3])
        kd = itertools.cycle(kinds)
        td, self.signs, self.spec = {}, {}, {}
        for i, lay in enumerate(layouts):
            td[i], self.signs[i] = ([], []), ([], [])
            m = 0
            for j in range(2):
                for s in lay[j]:
                    kind, c, x = next(kd), next(fs), self.x[(i + m) % 2]
                    f, g, den = self.operands(kind, x, self.tests[i])
                    td[i][j].append(self.T(f, g, factor=c))
                    self.signs[i][j].append(s)
                    C = S.const(1) if c is None else S.const(Fraction(c)) if isinstance(c, (int, float)) else S.factor(c)
                    self.spec[f'{i}-{m}'] = (j, s, kind, x, C, den)
                    m += 1
        self.wf = get(WF)(self.tests, term_sign_dict=[td, self.signs])
        self.wf._bc = object()
        self.ts = ph.time_sequence()

    def operands(self, kind, x, test):
        r"""two forms; their denotations as functions of what x is at its occurrences."""
        W, sp = self.W, self.sp
        V = S.form(test)
        X = S.form(x)
        if kind == 'dt': return x.time_derivative(), test, lambda v: (S.unary('time_derivative', X), V)
        if kind == 'dt of more':
            h = W.any(sp)
            return (h + x).time_derivative(), test, lambda v: (S.unary('time_derivative', S.add(S.form(h), v[0])), V)
        if kind == 'dt and more':
            y = W.root(sp)
            return x.time_derivative() - y, test, lambda v: (S.add(S.unary('time_derivative', v[0]), S.form(y), -1), V)
        if kind == 'root': return x, test, lambda v: (v[0], V)
        if kind == 'arbitrary':
            h = W.any(sp)
            return h, test, lambda v: (S.form(h), V)
        if kind == 'once':
            h = W.any(sp)
            return h - x, test, lambda v: (S.add(S.form(h), v[0], -1), V)
        if kind == 'thrice':
            h = W.any(sp)
            return (x + h) - x.multi(h, sp), W.c[1] * x, lambda v: (S.add(S.add(v[0], S.form(h)), S.binary('multi', v[1], S.form(h)), -1), S.scale(S.factor(W.c[1]), v[2]))
        if kind == 'd':
            return x.codifferential().exterior_derivative(), test, lambda v: (S.unary('d', S.unary('codifferential', v[0])), V)
        raise ValueError(kind)

    def at(self, x, t): return S.form(x @ self.ts[t])

    def original(self, x): return [S.form(x)] * 3

    def want(self, i, changed):
        r"""the sides of equation i, where `changed` tells (first, second) denotations of some terms."""
        out = [[], []]
        for index, (j, s, kind, x, C, den) in self.spec.items():
            if index.split('-')[0] != str(i): continue
            F, G = changed.get(index) or den(self.original(x))
            out[j].append((s, S.show(S.scale(C, S.binary(('(,)', self.where), F, G)))))
        return out

    def start(self):
        td = self.wf.td
        td.set_time_sequence(self.ts)
        td.define_abstract_time_instants(*INSTANTS)
        return td


LAYOUTS = [('+', '-'), ('-+', ''), ('', '-'), ('+-', '-+'), ('--+', '+-')]
LISTS = [('k',), ('k-1/2',), ('k-1', 'k'), ('k-1', 'k-1/2', 'k'), ('k-1', 'k-1/2', 'k', 'k+1/4'), ('k', 'k')]


def occurrences(kind): return {'once': [(0, 0)], 'thrice': [(0, 0), (0, 1), (1, 0)], 'root': [(0, 0)], 'd': [(0, 0)], 'dt and more': [(0, 0)], 'dt of more': [(0, 0)]}.get(kind, [])


for _n in (2, 3):
    @check.scenario(f'{_n}d: differentiating and averaging', samples=1)
    @careful
    def _(mk, n=_n):
        tdc, od = get(TD), get(ODE)
        mk.fn(tdc.__call__, tdc.differentiate, tdc.average, tdc._initialize_odes, tdc.set_time_sequence, tdc.define_abstract_time_instants, od.differentiate, od.average, od.__call__, od._parse_sign,
              get('phyem.src.ode.main:OrdinaryDifferentialEquation._parse_terms_and_signs'), get('phyem.src.ode.main:OrdinaryDifferentialEquation._analyze_terms'), get('phyem.src.ode.main:OrdinaryDifferentialEquation._parse_index'),
              get(WF + '._initialize_through_merging'), get('phyem.src.form.main:Form._evaluate_at'))
        out = []
        for k in range(n + 1):
            for ori in ('inner', 'outer'):
                for lay, kinds in ((l, kd) for l in LAYOUTS for kd in (('dt', 'once', 'thrice', 'arbitrary'), ('thrice', 'dt', 'root', 'dt', 'dt of more', 'dt and more', 'once'), ('arbitrary', 'd', 'once', 'dt', 'dt'))):
                    if 'd' in kinds and k == 0: continue
                    for which_one, clean in ((None, True), (None, False), ('every', True)):
                        Z = Case(n, k, ori, [lay, ('-', '+-'), ('+', '')], kinds)
                        before = [literal(Z.wf, i) for i in range(3)]
                        for i in range(3): out.append((f'equation {i} as built', repr(before[i]), repr(Z.want(i, {}))))
                        td = Z.start()
                        changed, lists = {}, itertools.cycle(LISTS)
                        pairs = itertools.cycle([('k-1', 'k'), ('k-1/2', 'k+1/4'), ('k-1/2', 'k'), ('k-1', 'k-1/2')])
                        for q, (index, (j, s, kind, x, C, den)) in enumerate(Z.spec.items()):
                            if which_one is None and q % 3 == 2: continue      # some terms are left as they are
                            if kind == 'dt':
                                ks, ke = next(pairs)
                                td.differentiate(index, ks, ke)
                                DT = S.factor(Z.ts.make_time_interval(ks, ke)._as_scalar())
                                changed[index] = (S.scale(S.inverse(DT), S.add(Z.at(x, ke), Z.at(x, ks), -1)), den(Z.original(x))[1])
                            elif occurrences(kind):
                                occ, v = occurrences(kind), Z.original(x)
                                l = next(lists)
                                m = mean([Z.at(x, t) for t in l])
                                if q % 2 or which_one == 'every':      # all occurrences at once
                                    if len(l) == 1 and q % 4: td.average(index, x, l[0])
                                    elif q % 4: td.average(index, x, *l)
                                    else: td.average(index, x, list(l))
                                    v = [m] * 3
                                else:          # some of them
                                    side, num = occ[(q // 2) % len(occ)]
                                    ones = [a for a, o in enumerate(occ) if o == (side, num)]
                                    if kind == 'thrice' and (q // 2) % 4 == 3: ones, num = [0, 1], [0, 1]
                                    td.average(index, x, list(l), which=(side, num))
                                    for a in ones: v[a] = m
                                changed[index] = den(v)
                        new = td(clean=clean)
                        lab = f'{k}{ori} {lay} {kinds}'
                        out.append((f'{lab}: number of equations', len(new), 3))
                        for i in range(3): out.append((f'{lab}: equation {i}', repr(literal(new, i)), repr(Z.want(i, changed))))
                        out += [(f'{lab}: boundary conditions', new._bc is Z.wf._bc, True), (f'{lab}: test forms', new.test_forms is Z.wf.test_forms or list(new.test_forms) == list(Z.wf.test_forms), True),
                                (f'{lab}: the indices', sorted(new), sorted(Z.spec))]
                        for index, (j, s, *_) in Z.spec.items():
                            pos = [q for q in Z.spec if q.split('-')[0] == index.split('-')[0]].index(index)
                            i = int(index.split('-')[0])
                            out.append((f'{lab}: index {index}', (new[index][0], S.show(S.term(new[index][1]))), [t for side in literal(new, i) for t in side][pos]))
                        for i in range(3): out.append((f'{lab}: the weak formulation is untouched: equation {i}', repr(literal(Z.wf, i)), repr(before[i])))
                        if not clean:          # once more
                            again = td()
                            for i in range(3): out.append((f'{lab}: discretized again: equation {i}', repr(literal(again, i)), repr(Z.want(i, changed))))
        return out


@check.scenario('evaluated forms, intervals, refusals', samples=1)
@careful
def _(mk):
    out = []
    fm = get(FM)
    mk.fn(fm._evaluate_at, get(ODE + '._get_abstract_time_interval'), get(ODE + '.differentiate'))
    for n in (2, 3):
        Z = Case(n, 1, 'outer', [('+-', '+')], ('dt', 'once', 'root'))
        other = ph.time_sequence()
        seen = {}
        for x in Z.x + Z.tests:
            for seq in (Z.ts,):
                for t in INSTANTS:
                    f = x @ seq[t]
                    out += [('evaluated again', f is x @ seq[t], True), ('evaluated is a root', f.is_root(), True), ('in the same space', f.space is x.space, True),
                            ('of this form', f._pAti_form['base_form'] is x, True), ('at this instant', (f._pAti_form['ats'] is seq, f._pAti_form['ati'] is seq[t]), (True, True))]
                    key = S.show(S.form(f))
                    out.append(('no two evaluations share a name', key in seen, False))
                    seen[key] = f
        for bad in ((lambda td: td.average('0-1', Z.x[0], 'k-2')), (lambda td: td.differentiate('0-0', 'k-1', 'k+2')), (lambda td: td.differentiate('0-2', 'k-1', 'k')), (lambda td: td.differentiate('0-5', 'k-1', 'k')),
                    (lambda td: td.average('1-0', Z.x[0], 'k')), (lambda td: td.set_time_sequence(other))):
            td = get(TD)(Z.wf)
            td.set_time_sequence(Z.ts)
            td.define_abstract_time_instants(*INSTANTS)
            try:
                bad(td)
            except (AssertionError, NotImplementedError):
                continue
            raise Violation('an undefined instant or index, or a term that is no time derivative, is accepted')
        # other forms of a term are averaged before or after its time derivative is discretized
        for order in itertools.permutations(range(2)):
            Y = Case(n, 1, 'outer', [('+', '-')], ('dt', 'once'))
            t = Y.T(Y.x[0].time_derivative(), Y.x[1], factor=Y.W.c[0])
            wf = get(WF)([Y.tests[0]], term_sign_dict=[{0: ([t], [t])}, {0: (['-'], ['+'])}])
            td = wf.td
            td.set_time_sequence(Y.ts)
            td.define_abstract_time_instants(*INSTANTS)
            for o in order:
                if o == 0: td.differentiate('0-0', 'k-1', 'k')
                else: td.average('0-0', Y.x[1], 'k', 'k-1')
            DT = S.factor(Y.ts.make_time_interval('k-1', 'k')._as_scalar())
            F = S.scale(S.inverse(DT), S.add(Y.at(Y.x[0], 'k'), Y.at(Y.x[0], 'k-1'), -1))
            want = S.scale(S.factor(Y.W.c[0]), S.binary(('(,)', Y.where), F, mean([Y.at(Y.x[1], q) for q in ('k', 'k-1')])))
            out.append((f'differentiated and averaged, {order}', literal(td(), 0)[0], [('-', S.show(want))]))
    return out


def scheme(lib, n):
    def scn(mk):
        import numpy as np
        from pv import pde
        rng = np.random.default_rng(int(mk.int('seed', 0, 10**6)))
        layout = [int(v) for v in rng.integers(1, 3, n)]
        p = int(rng.integers(1, 3)) if n == 2 else 1
        natural = [1] * (2 * n)
        pick = lambda l: l[int(rng.integers(0, len(l)))]
        t0 = float(rng.uniform(-2, 2))
        args = dict(b_at=pick([('k-1', 'k'), ('k',), ('k-1',)]), a_at=pick([('k-1', 'k'), ('k',), ('k-1',)]), bc_at=pick(['k-1/2', 'k-1', 'k']),
                    times=(t0, t0 + float(rng.uniform(.5, 3)), 2 * int(rng.integers(2, 5))), signs=(pick('+-'), pick('+-')))
        natural[int(rng.integers(0, 2 * n))] = 0
        P = pde.Problem(lib, n, p, layout, natural, **args)
        na, nb = P.size('a'), P.size('b')
        c = rng.uniform(-1, 1, 4)
        phi = (lambda t, x, y: c[0] + c[1] * x - c[2] * y + t * x * y * c[3]) if n == 2 else (lambda t, x, y, z: c[0] + c[1] * x - c[2] * y + t * x * y * c[3] + z * t)
        sc = ph.vc.scalar(phi)
        ve = ph.vc.vector(lambda t, x, y: c[0] * x + t * y, lambda t, x, y: c[1] * y - t * x) if n == 2 else ph.vc.vector(lambda t, x, y, z: c[0] * x + t * y, lambda t, x, y, z: c[1] * y - t * x, lambda t, x, y, z: c[2] * z + t)
        ls = P.ls.apply()
        if lib == 'msepy':
            ls.bc.config(P.ga)(sc)
            ls.bc.config(P.gb)(ve)
        else:
            ls.config(['natural bc', 1], P.ga, sc, root_form=P.a)
            ls.config(['essential bc', 1], P.gb, ve, root_form=P.b)
        out = []
        mk.fn(type(ls).__call__, type(ls)._get_raw_Axb, type(ls)._parse_matrix_block, type(ls)._parse_vector_block)
        for k in (2, 1):
            a0, b0 = rng.uniform(-1, 1, na), rng.uniform(-1, 1, nb)
            P.set('a', P.time('k-1', k), a0), P.set('b', P.time('k-1', k), b0)
            A, b = P.raw(k, P.natural_vector(phi, P.time(P.bc_at, k)), a0, b0)
            val = P.b.reduce(P.time('k', k), update_cochain=False, target=ve) if lib == 'msepy' else P.b.reduce(ve @ P.time('k', k))
            m, side = natural.index(0) // 2, natural.index(0) % 2
            for D, (e, i) in P.side('b', m, side).items(): A[na + D], A[na + D, na + D], b[na + D] = 0, 1, val[e][i]
            static = ls(k=k)
            perm = P.permutation(static)
            s = static.assemble()
            out += [(f'{args}, k = {k}: the system', (s.A._M if hasattr(s.A, '_M') else s.A).toarray()[np.ix_(perm, perm)], A), (f'{args}, k = {k}: the right-hand side', np.asarray(s.b._V if hasattr(s.b, '_V') else s.b._v)[perm], b)]
        return out
    return scn


for lib, n in (('msepy', 2), ('msehtt', 2), ('msehtt', 3)):
    def unit(led, lib=lib, n=n): R.bounded_scenario(led, f'{lib} {n}d: the scheme as a linear system', scheme(lib, n), samples=60 if n == 2 else 20)
    check.unit(f'{lib} {n}d: the scheme as a linear system')(unit)
