r"""C11: testing a PDE and manipulating a weak formulation keep the equations."""
import itertools
import random
from fractions import Fraction
import phyem as ph
from pv.run import *
from pv.run import get, Check
from pv import symb as S
import pv.run as R
from pv.exprs import *

check = Check('C11', trusted=['the grammar of linguistic representations (lib/pv/symb.py)',
                              'identities used by the code and taken as its meaning: (d*a, b) = (a, db) - <tr *a | tr b>, (*A, B) = <A | B>, (A, B x C) = (B, C x A) = -(A, C x B), (A.VB, C) = -(BA, VC) for solenoidal A up to the boundary'])
TERM = 'phyem.src.wf.term.main'
WF = 'phyem.src.wf.main:WeakFormulation'
DER = 'phyem.src.wf.derive:WfDerive'
PDE = 'phyem.src.pde:PartialDifferentialEquations'


def I(where, F, G, c=None, kind='(,)'):
    r"""the denotation of c (F, G) over where."""
    return S.scale(S.const(1) if c is None else c, S.binary((kind, where), F, G))


def total(signed):
    out = {}
    for s, x in signed:
        out = S.add(out, x, 1 if s == '+' else -1)
    return out


def eq(label, wf, i, want): return [(label, S.show(S.equation(wf, i)), S.show(want))]


def literal(wf, i):
    r"""the sides of an equation, term by term."""
    return [[(s, S.show(S.term(t))) for t, s in zip(ts, ss, strict=True)] for ts, ss in zip(wf._term_dict[i], wf._sign_dict[i])]


def wf_of(W, layouts, sp, factors=True, tests=None, dual=False):
    r"""a weak formulation of arbitrary terms: layouts[i] = (signs on the left, signs on the right)."""
    T = get(TERM + ':L2InnerProductTerm')
    tests = tests or [W.root(sp) for _ in layouts]
    sc = itertools.cycle([None, W.c[0], Fraction(1, 2), W.any_scalar(), 3])
    td, sd = {}, {}
    for i, sides in enumerate(layouts):
        td[i], sd[i] = ([], []), ([], [])
        for j, signs in enumerate(sides):
            for s in signs:
                c = next(sc) if factors else None
                td[i][j].append(T(W.any(sp), tests[i], factor=float(c) if isinstance(c, Fraction) else c))
                sd[i][j].append(s)
    return get(WF)(tests, term_sign_dict=[td, sd])


LAYOUTS = [('+', '+'), ('-', ''), ('+-', '-'), ('-+', '+-'), ('', '-+'), ('+-+', '--')]


def side_terms(wf, i):
    r"""(side, sign, denotation) of every term by its number."""
    return [(j, s, S.term(t)) for j in range(2) for t, s in zip(wf._term_dict[i][j], wf._sign_dict[i][j])]


def carried(label, wf, new, tests=True):
    out = [(f'{label}: the unknowns', new.unknowns is wf.unknowns or list(new.unknowns) == list(wf.unknowns), True), (f'{label}: the boundary conditions', new._bc is wf._bc, True)]
    if tests: out.append((f'{label}: the test forms', [f._lin_repr for f in new.test_forms], [f._lin_repr for f in wf.test_forms]))
    efs = {f for i in new._term_dict for side in new._term_dict[i] for t in side for f in S.roots(t._f0._lin_repr) + S.roots(t._f1._lin_repr)}
    return out + [(f'{label}: the elementary forms', [f._pure_lin_repr for f in new.elementary_forms], sorted(efs))]


for _n in (2, 3):
    @check.scenario(f'{_n}d: rearranging, switching signs, replacing and deleting terms', samples=1)
    @careful
    def _(mk, n=_n):
        D = get(DER)
        mk.fn(D.rearrange, D.switch_sign, D.replace, D.delete, D._parse_new_weak_formulation_dict, get(WF + '._parse_term_sign_dict'), get(WF + '._parse_index'))
        W = World(n)
        sp = W.space(1, 'inner')
        T = get(TERM + ':L2InnerProductTerm')
        out = []
        for lay in LAYOUTS:
            lays = [lay, ('+-', '+'), ('-', '+')]
            wf = wf_of(W, lays, sp)
            wf.unknowns = [W_root_in(wf, i) for i in range(3)]
            wf._bc = object()
            before = [literal(wf, i) for i in range(3)]
            E = [S.equation(wf, i) for i in range(3)]
            m = len(lay[0]) + len(lay[1])
            # every rearrangement of the first equation
            orders = list(itertools.permutations(range(m)))
            for order in (orders if m <= 4 else orders[::11]):
                for cut in range(m + 1):
                    left, right = order[:cut], order[cut:]
                    text = ', '.join(map(str, left)) + ' = ' + ', '.join(map(str, right))
                    new = wf.derive.rearrange({0: text})
                    out += eq(f'{lay} rearranged as {text}', new, 0, E[0])
                    ts = side_terms(wf, 0)
                    want = [[(s if j == w else '-+'['+-'.index(s) ^ 0] if s == '+' else '+', S.show(x)) for j, s, x in (ts[k] for k in ks)] for w, ks in enumerate((left, right))]
                    out.append((f'{lay} rearranged as {text}: term by term', repr(literal(new, 0)), repr(want)))
                    for i in (1, 2): out.append((f'{lay} rearranged as {text}: equation {i}', repr(literal(new, i)), repr(before[i])))
            out += carried('rearranged', wf, new)
            for text, l in (('0', [0]), ('0=', [0]), (f'{m - 1}', [m - 1])):
                if m < 2: continue
                new = wf.derive.rearrange({0: text})
                out += eq(f'{lay} rearranged as {text}', new, 0, E[0])
                out.append((f'{lay} rearranged as {text}: the left side', [x for _, x in literal(new, 0)[0]], [S.show(side_terms(wf, 0)[k][2]) for k in l]))
            if m >= 2:
                new = wf.derive.rearrange({0: f'= {m - 1}'})
                out += eq(f'{lay}: all but one to the left', new, 0, E[0])
            for form in ([None, '0, 2 = 1', None], [None, '2, 0 = 1', '= 1, 0'], {1: '1 = 0, 2', 2: ''}):
                new = wf.derive.rearrange(form)
                for i in range(3): out += eq(f'{lay} rearranged by {form}: equation {i}', new, i, E[i])
            for bad in ({0: ', '.join(map(str, range(m - 1))) + ' = 0'} if m > 1 else {0: '0 = 0'}, {0: f'{m} = '}, {5: '0 = '}):
                try:
                    wf.derive.rearrange(bad)
                except (AssertionError, ValueError):
                    continue
                raise Violation(f'the rearrangement {bad} of {m} terms is accepted')
            # signs
            for rows in (0, 1, [0, 2], [0, 1, 2], ()):
                new = wf.derive.switch_sign(rows)
                R_ = [rows] if isinstance(rows, int) else list(rows)
                for i in range(3):
                    out.append((f'{lay}: the signs of {rows} switched: equation {i}', repr(literal(new, i)), repr([[('-' if s == '+' else '+', x) for s, x in side] if i in R_ else side for side in before[i]])))
                out += carried('signs switched', wf, new)
            # replacing and deleting
            for i in range(3):
                for k, (j, s, x) in enumerate(side_terms(wf, i)):
                    for news in ('', '+', '-', '+-', '--+'):
                        if not news and m + 0 <= 1 and i == 0: pass
                        ts = [T(W.any(sp), wf.test_forms[i]) for _ in news]
                        old = wf
                        if len(wf.elementary_forms) and any(u in roots_only(wf, i, k) for u in wf.unknowns): old = plain(wf)
                        new = old.derive.replace(f'{i}-{k}', ts, list(news)) if news else old.derive.delete(f'{i}-{k}')
                        flip = {'+': lambda q: q, '-': lambda q: '-' if q == '+' else '+'}[s]
                        for l in range(3):
                            want = [list(side) for side in before[l]]
                            if l == i:
                                at = k if j == 0 else k - len(before[i][0])
                                want[j][at:at + 1] = [(flip(q), S.show(S.term(t))) for q, t in zip(news, ts)]
                            out.append((f'{lay}: term {i}-{k} replaced by {news or "nothing"}: equation {l}', repr(literal(new, l)), repr(want)))
                    new = wf.derive.replace(f'{i}-{k}', wf[f'{i}-{k}'][1], '-')
                    out += eq(f'{lay}: term {i}-{k} negated', new, i, S.add(E[i], total([(s, x)]), -2 if j == 0 else 2))
                    out += carried('replaced', wf, new)
            for i in range(3): out.append((f'{lay}: the weak formulation is untouched: equation {i}', repr(literal(wf, i)), repr(before[i])))
            for i in range(3):
                for k, (j, s, x) in enumerate(side_terms(wf, i)):
                    out.append((f'{lay}: index {i}-{k}', (wf[f'{i}-{k}'][0], S.show(S.term(wf[f'{i}-{k}'][1]))), (s, S.show(x))))
            out.append((f'{lay}: the indices', sorted(wf), sorted(f'{i}-{k}' for i in range(3) for k in range(len(side_terms(wf, i))))))
        return out


@check.scenario('equations of more than ten terms', samples=1)
@careful
def _(mk):
    D = get(DER)
    mk.fn(D.rearrange, D.switch_sign, D.replace, D.delete, get(WF + '._parse_index'))
    W = World(2)
    sp = W.space(1, 'inner')
    T = get(TERM + ':L2InnerProductTerm')
    out = []
    for lay in (('+-+-+--', '-+--++'), ('', '+-+-+--+-+++'), ('--+-+-+-++++-', '')):
        wf = wf_of(W, [('+', '-'), lay], sp)
        E = [S.equation(wf, i) for i in range(2)]
        ts = side_terms(wf, 1)
        m = len(ts)
        for left in ([0, m - 1], [10], [11, 2], [m - 5, 10, 0], [1, 0, 11], list(range(m - 1))[::-1]):
            rest = [k for k in range(m) if k not in left]
            name = ', '.join(map(str, left))
            for text, sides in ((f'{name} =', (left, rest)), (name, (left, rest)), (f'= {name}', (rest, left)), (f'{name} = ' + ', '.join(map(str, rest[::-1])), (left, rest[::-1]))):
                new = wf.derive.rearrange({1: text})
                out += eq(f'{lay} rearranged as {text}', new, 1, E[1])
                want = [[(s if j == w else '-' if s == '+' else '+', S.show(x)) for j, s, x in (ts[k] for k in ks)] for w, ks in enumerate(sides)]
                out.append((f'{lay} rearranged as {text}: term by term', repr(literal(new, 1)), repr(want)))
        before = literal(wf, 1)
        for k, (j, s, x) in enumerate(ts):
            out.append((f'{lay}: index 1-{k}', (wf[f'1-{k}'][0], S.show(S.term(wf[f'1-{k}'][1]))), (s, S.show(x))))
            for news in ('', '-'):
                t = [T(W.any(sp), wf.test_forms[1]) for _ in news]
                old = plain(wf)
                new = old.derive.replace(f'1-{k}', t, list(news)) if news else old.derive.delete(f'1-{k}')
                want = [list(side) for side in before]
                at = k if j == 0 else k - len(before[0])
                want[j][at:at + 1] = [('-' if s == '+' else '+', S.show(S.term(q))) for q in t]
                out.append((f'{lay}: term 1-{k} replaced by {news or "nothing"}', repr(literal(new, 1)), repr(want)))
    return out


def W_root_in(wf, i):
    r"""a root form of equation i."""
    for side in wf._term_dict[i]:
        for t in side:
            name = S.roots(t._f0._lin_repr)[0]
            return next(f for f in wf.elementary_forms if f._pure_lin_repr == name)


def roots_only(wf, i, k):
    t = wf[f'{i}-{k}'][1]
    return [f for f in wf.elementary_forms if f._pure_lin_repr in S.roots(t._f0._lin_repr)]


def plain(wf):
    return type(wf)(wf._test_forms, term_sign_dict=[wf._term_dict, wf._sign_dict])


@check.scenario('splitting a term', samples=1)
@careful
def _(mk):
    mk.fn(get(TERM + ':_WeakFormulationTerm.split'), get(DER + '.split'))
    W = World(2)
    sp = W.space(1, 'outer')
    out = []
    for lay in (('+-', '-'), ('-', '+')):
        wf = wf_of(W, [lay, ('+', '-')], sp)
        E = [S.equation(wf, i) for i in range(2)]
        where = wf._term_dict[0][0][0].manifold._sym_repr
        for i in range(2):
            for k, (j, s, x) in enumerate(side_terms(wf, i)):
                t = wf[f'{i}-{k}'][1]
                for which, other in (('f0', t._f1), ('f1', t._f0)):
                    into = [W.any(sp), W.root(sp), W.any(sp).time_derivative()]
                    for m, signs in ((1, '+'), (1, '-'), (2, '+-'), (2, '--'), (3, '-+-')):
                        e = W.any_scalar()
                        for factors in (None, [1, 2, Fraction(1, 2)], [W.c[0], e, 1 / ph.time_sequence().make_time_interval('k-1', 'k')] if False else [W.c[0], e, W.c[1]], [.5, W.c[2], 1]):
                            fs = None if factors is None else [float(f) if isinstance(f, Fraction) else f for f in factors[:m]]
                            new = wf.derive.split(f'{i}-{k}', which, into[:m], list(signs), factors=fs)
                            val = [S.const(1) if factors is None else S.const(f) if isinstance(f, (int, Fraction)) else S.const(Fraction(f)) if isinstance(f, float) else S.factor(f) for f in (factors or [1, 1, 1])[:m]]
                            parts = [(q, I(where, *((S.form(g), S.form(other)) if which == 'f0' else (S.form(other), S.form(g))), c)) for q, g, c in zip(signs, into, val)]
                            flip = 1 if (s == '+') == (j == 0) else -1
                            want = S.add(S.add(E[i], x, -flip), total(parts), flip)
                            lab = f'{lay}: {which} of {i}-{k} split with {signs} and {"no" if factors is None else "given"} factors'
                            out += eq(lab, new, i, want) + eq(lab + ': the other equation', new, 1 - i, E[1 - i])
                            at = literal(new, i)[j]
                            k0 = k if j == 0 else k - len(wf._term_dict[i][0])
                            out.append((lab + ': in its place', repr(at[k0:k0 + m]), repr([((q if s == '+' else ('-' if q == '+' else '+')), S.show(y)) for q, y in parts])))
    return out


FACTORS = ('none', 'number', 'scalar', 'any')


def factor_of(W, name): return {'none': None, 'number': .25, 'scalar': W.c[0], 'any': W.any_scalar()}[name]


def value_of(c): return S.const(1) if c is None else S.const(Fraction(c)) if isinstance(c, (int, float)) else S.factor(c)


for _n in (2, 3):
    @check.scenario(f'{_n}d: integration by parts and duality', samples=1)
    @careful
    def _(mk, n=_n):
        L2, DP = get(TERM + ':L2InnerProductTerm'), get(TERM + ':DualityPairingTerm')
        mk.fn(L2._integration_by_parts, L2._switch_to_duality_pairing, get(DER + '.integration_by_parts'), get(DER + '.switch_to_duality_pairing'))
        out = []
        for periodic in (False, True):
            W = World(n)
            names = list(W.kinds(W.space(1, 'inner')))
            for k in range(1, n + 1):
                for ori in ('inner', 'outer'):
                    for name in names:
                        W = (PeriodicWorld if periodic else World)(n)      # the code searches the forms that exist
                        M = W.mesh.manifold
                        sp, low = W.space(k, ori), W.space(k - 1, ori)
                        f, F = W.kinds(sp)[name]
                        for test in (W.root(low), W.any(low)):
                            for fc in FACTORS:
                                if fc != 'scalar' and name not in ('root', 'any expression'): continue
                                c = factor_of(W, fc)
                                C, G = value_of(c), S.form(test)
                                for sgn, drop in itertools.product('+-', (False, True)):
                                    t = L2(f.codifferential(), test, factor=c)
                                    o = L2(W.any(low), test)
                                    wf = get(WF)([test], term_sign_dict=[{0: ([o, t], [o])}, {0: (['+', sgn], ['-'])}])
                                    new = wf.derive.integration_by_parts('0-1', drop_bi_term=drop)
                                    parts = [(sgn, I(M._sym_repr, F, S.unary('d', G), C))]
                                    if not (drop or periodic):
                                        b = M.boundary()._sym_repr
                                        parts.append(('-' if sgn == '+' else '+', I(b, S.unary('trace', S.unary('Hodge', F)), S.unary('trace', G), C, '<|>')))
                                    lab = f'{"periodic " if periodic else ""}{ori} {k}-form ({name}), factor {fc}, sign {sgn}{", dropped boundary" if drop else ""}'
                                    out.append((f'integration by parts: {lab}', repr(literal(new, 0)), repr([[('+', S.show(S.term(o)))] + [(s, S.show(x)) for s, x in parts], [('-', S.show(S.term(o)))]])))
                        # (*A, B) and (A, *B)
                        dsp = W.space(n - k, {'inner': 'outer', 'outer': 'inner'}[ori])
                        for other in (W.root(dsp), W.any(dsp)):
                            for fc in FACTORS:
                                if fc != 'scalar' and name not in ('root', 'any expression'): continue
                                c = factor_of(W, fc)
                                C, G = value_of(c), S.form(other)
                                for a, b, P, Q in ((ph.Hodge(f), other, F, G), (other, ph.Hodge(f), G, F)):
                                    wf = get(WF)([W.root(dsp)], term_sign_dict=[{0: ([], [L2(a, b, factor=c)])}, {0: ([], ['-'])}])
                                    new = wf.derive.switch_to_duality_pairing('0-0')
                                    out.append((f'duality: {ori} {k}-form ({name}), factor {fc}', repr(literal(new, 0)), repr([[], [('-', S.show(I(M._sym_repr, P, Q, C, '<|>')))]])))
        return out


class PeriodicWorld(World):
    def __init__(self, n):
        super().__init__(n)
        self.mesh = ph.mesh(ph.manifold(n, r'\mathcal{P}', 'periodic manifold', periodic=True), r'\mathfrak{P}', 'periodic mesh')
        ph.space.set_mesh(self.mesh)


def parity(p, q):
    r"""the sign of the permutation that brings p into q."""
    p, s = list(p), 1
    for i, x in enumerate(q):
        j = p.index(x)
        if j != i:
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def triples(letters, o, c, sep):
    for a, b, d in itertools.permutations(letters):
        yield f'{o}{a} {sep} {b} x {d}{c}', (a, b, d), 0
        yield f'{o}{b} x {d} {sep} {a}{c}', (a, b, d), 1


for _n in (2, 3):
    @check.scenario(f'{_n}d: commuting products and crosses', samples=1)
    @careful
    def _(mk, n=_n):
        L2, DP = get(TERM + ':L2InnerProductTerm'), get(TERM + ':DualityPairingTerm')
        mk.fn(L2._commutation_wrt_inner_and_x, DP._commutation_wrt_inner_and_x, get(DER + '.commutation_wrt_inner_and_x'))
        out, done = [], 0
        kos = [(k, o) for k in range(n + 1) for o in ('inner', 'outer')]
        for (s_, t_), (cls, o, c, sep, kind, restricted), (kinds_, letters) in itertools.product(
                itertools.product(kos, repeat=2), ((L2, '(', ')', ',', '(,)', False), (DP, '<', '>', '|', '<|>', False), (DP, '<', '>', '|', '<|>', True)),
                ((('root',) * 3, 'ABC'), (('any expression',) * 3, 'uvw'), (('root', 'any expression', 'root'), 'ABC'))):
            W = World(n)      # the code searches the forms that exist
            part = ph.manifold(n, sym_repr=r'\mathcal{S}', lin_repr='part') if restricted else None
            spaces = [W.space(*ko) for ko in kos]
            s, t = W.space(*s_), W.space(*t_)
            try:
                prod = W.root(s).cross_product(W.root(t)).space
            except (NotImplementedError, AssertionError):
                continue
            r = prod if cls is L2 else next((x for x in spaces if x.k == n - prod.k and x.orientation != prod.orientation), None)
            if r is None: continue
            mkf = {'root': W.root, 'any expression': W.any}
            A, B, D = (mkf[q](x) for q, x in zip(kinds_, (r, s, t)))
            fc = W.c[0] if kinds_[0] == 'root' else W.any_scalar()
            form = dict(zip(letters, (A, B, D)))
            den = {l: S.form(f) for l, f in form.items()}
            for cur, place in ((f'{o}{letters[0]} {sep} {letters[1]} x {letters[2]}{c}', 0), (f'{o}{letters[1]} x {letters[2]} {sep} {letters[0]}{c}', 1)):
                x = B.cross_product(D)
                try:
                    term = cls(A, x, factor=fc) if place == 0 else cls(x, A, factor=fc)
                except AssertionError:
                    continue
                if part is not None: term.restrict(part._sym_repr)
                wf = get(WF)([W.root(prod)], term_sign_dict=[{0: ([], [term])}, {0: ([], ['-'])}])
                for tgt, (p, q, w), tplace in triples(letters, o, c, sep):
                    try:
                        new = wf.derive.commutation_wrt_inner_and_x('0-0', cur, tgt)
                    except (NotImplementedError, AssertionError):
                        try:      # refused only where the target is no term
                            y = form[q].cross_product(form[w])
                            cls(form[p], y) if tplace == 0 else cls(y, form[p])
                        except (NotImplementedError, AssertionError):
                            continue
                        raise Violation(f'commuting {cur} to {tgt} is refused')
                    done += 1
                    sgn = '-' if parity((p, q, w), tuple(letters)) == 1 else '+'
                    X = S.binary('cross_product', den[q], den[w])
                    want = I((part or W.mesh.manifold)._sym_repr, *((den[p], X) if tplace == 0 else (X, den[p])), S.factor(fc), kind)
                    out.append((f'{s.k}{s.orientation} x {t.k}{t.orientation}, {kinds_}{", restricted" if restricted else ""}: {cur} as {tgt}', repr(literal(new, 0)), repr([[], [(sgn, S.show(want))]])))
        out.append(('some terms commute', done > 0, True))
        return out


@check.scenario('convective terms by parts', samples=1)
@careful
def _(mk):
    out = []
    for n in (2,):
        W = World(n)
        L2 = get(TERM + ':L2InnerProductTerm')
        mk.fn(L2._integration_by_parts)
        done = 0
        spaces = [W.space(k, o) for k in range(n + 1) for o in ('inner', 'outer')]
        for s, t in itertools.product(spaces, repeat=2):
            A, B, D = W.root(s), W.root(t), W.root(t)
            try:
                term = L2(A.convect(B), D, factor=W.c[0])
                wf = get(WF)([D], term_sign_dict=[{0: ([term], [])}, {0: (['-'], [])}])
                new = wf.derive.integration_by_parts('0-0', drop_bi_term=True)
            except Exception:
                continue
            done += 1
            a, b, c = (S.form(f) for f in (A, B, D))
            ff = A.space.orientation == D.space.orientation
            want = I(W.mesh.manifold._sym_repr, S.binary('multi', b, a), S.unary('d', c), S.factor(W.c[0]), '(,)' if ff else '<|>')
            out.append((f'{n}d: ({s.k}{s.orientation} .V {t.k}{t.orientation}, c)', repr(literal(new, 0)), repr([[('+', S.show(want))], []])))
        out.append((f'{n}d: some convective terms are integrated', done > 0, True))
    return out


def expression_text(rng, names):
    r"""an equation over the names, with its sides as [(sign, name)]."""
    k = rng.randint(0, len(names))
    sides, text = [], []
    for part in (names[:k], names[k:]):
        s, t = [], ''
        for i, nm in enumerate(part):
            sign = rng.choice('+-')
            s.append((sign, nm))
            t += (' ' * rng.randint(0, 1)) + (sign if i or sign == '-' or rng.random() < .3 else '') + (' ' * rng.randint(0, 1)) + nm
        sides.append(s)
        text.append(t or rng.choice(['0', '', ' 0 ']))
    return ' = '.join(text), sides


@check.scenario('equations from text, tested', samples=40)
@careful
def _(mk):
    mk.fn(get(PDE + '._parse_expression'), get(PDE + '.test_with'), get(WF + '._parse_expression'), get(WF + '._parse_term_sign_dict'))
    rng = random.Random(1 if mk.symbolic else int(mk.real('seed', 0, 1) * 10**9))
    n = rng.choice((2, 3))
    W = World(n)
    sps = [W.space(k, o) for k in range(n + 1) for o in ('inner', 'outer')]
    out = []
    for case in range(4):
        chosen = [rng.choice(sps) for _ in range(rng.randint(1, 3))]
        I_, texts, sides, F, unknowns = {}, [], [], {}, []
        for i, sp in enumerate(chosen):
            K = W.kinds(sp)
            picks = ['root'] + rng.sample([k for k in K if k != 'root'], rng.randint(1, 5))
            names = []
            for q, kname in enumerate(picks):
                nm = rng.choice(['t', 'du_dt', 'x_', 'w0']) + f'{i}_{q}'
                I_[nm], F[nm] = K[kname]
                names.append(nm)
            unknowns.append(K['root'][0])
            rng.shuffle(names)
            t, s = expression_text(rng, names)
            texts.append(t)
            sides.append(s)
        pde = ph.pde(texts, I_)
        pde.unknowns = unknowns
        for i in range(len(chosen)):
            got = [[(s, S.show(S.form(t))) for s, t in zip(pde._sign_dict[i][j], pde._term_dict[i][j], strict=True)] for j in range(2)]
            out.append((f'{case}: {texts[i]!r} as read', repr(got), repr([[(s, S.show(F[nm])) for s, nm in side] for side in sides[i]])))
        pde._bc = object()
        wf = pde.test_with(chosen if rng.random() < .5 else unknowns, sym_repr=[rf'v_{{{case}{i}}}' for i in range(len(chosen))])
        where = W.mesh.manifold._sym_repr
        for i in range(len(chosen)):
            tst = S.form(wf.test_forms[i])
            out.append((f'{case}: the test form {i} is a new root', (wf.test_forms[i].is_root(), wf.test_forms[i].space is chosen[i], tst in [S.form(f) for f in I_.values()]), (True, True, False)))
            out.append((f'{case}: {texts[i]!r} tested', repr(literal(wf, i)), repr([[(s, S.show(I(where, F[nm], tst))) for s, nm in side] for side in sides[i]])))
        out.append((f'{case}: the unknowns', [u._lin_repr for u in wf.unknowns], [u._lin_repr for u in unknowns]))
        out.append((f'{case}: the boundary conditions', wf._bc is pde._bc, True))
        # the same equations written as a weak formulation
        J = {f'm{k}': S_ for k, S_ in enumerate(t for i in wf._term_dict for side in wf._term_dict[i] for t in side)}
        k, texts2 = 0, []
        for i in wf._term_dict:
            t, s = expression_text(rng, [f'm{k + q}' for q in range(sum(map(len, wf._term_dict[i])))])
            k += sum(map(len, wf._term_dict[i]))
            texts2.append((t, s))
        wf2 = get(WF)(wf.test_forms, expression=[t for t, _ in texts2], interpreter=J)
        for i, (t, s) in enumerate(texts2):
            out.append((f'{case}: {t!r} as a weak formulation', repr(literal(wf2, i)), repr([[(q, S.show(S.term(J[nm]))) for q, nm in side] for side in s])))
        # merging
        both = get(WF)(None, wfs=[wf, wf2])
        want = [literal(w, i) for w in (wf, wf2) for i in w._term_dict]
        out.append((f'{case}: merged', repr([literal(both, i) for i in both._term_dict]), repr(want)))
        out.append((f'{case}: the merged test forms', [f._lin_repr for f in both.test_forms], [f._lin_repr for f in wf.test_forms] * 2))
    return out


@check.scenario('a term whose look-alikes exist', samples=1)
@careful
def _(mk):
    mk.fn(get(PDE + '.test_with'))
    W = World(2)
    sp = W.space(1, 'outer')
    where = W.mesh.manifold._sym_repr
    c, e = W.c[0], W.c[1]
    x, y, z = (W.root(sp) for _ in range(3))
    X, Y, Z = (S.form(f) for f in (x, y, z))
    C, E_ = S.factor(c), S.factor(e)
    x - y, x + y, x - y.time_derivative(), x / e, (x + y) - z, x.multi(y, sp)
    terms = {'c x': (c * x, S.scale(C, X)), 'c x - y': (c * x - y, S.add(S.scale(C, X), Y, -1)), 'c x + y': (c * x + y, S.add(S.scale(C, X), Y)), 'c x - dt y': (c * x - y.time_derivative(), S.add(S.scale(C, X), S.unary('time_derivative', Y), -1)),
             'c (x + y)': (c * (x + y), S.scale(C, S.add(X, Y))), '(c x) / e': ((c * x) / e, S.scale(S.inverse(E_), S.scale(C, X))), 'c (x / e)': (c * (x / e), S.scale(S.inverse(E_), S.scale(C, X))),
             'dt (c x)': ((c * x).time_derivative(), S.unary('time_derivative', S.scale(C, X))), 'y - c x': (y - c * x, S.add(Y, S.scale(C, X), -1)), '3 x': (3 * x, S.scale(S.const(3), X)),
             'c (e x)': (c * (e * x), S.scale(C, S.scale(E_, X))), '(c + e) x': ((c + e) * x, S.scale(S.add(C, E_), X)), 'c (x times y)': (c * x.multi(y, sp), S.scale(C, S.binary('multi', X, Y))),
             '(c x) times y': ((c * x).multi(y, sp), S.scale(C, S.binary('multi', X, Y)))}
    out, refused = [], []
    for name, (f, F) in terms.items():
        pde = ph.pde(['a = b'], {'a': f, 'b': x})
        pde.unknowns = [x]
        try:
            wf = pde.test_with([sp], sym_repr=[rf'q_{{{next(W.count)}}}'])
        except NotImplementedError:
            refused.append(name)
            continue
        out.append((f'{name} tested', repr(literal(wf, 0)), repr([[('+', S.show(I(where, F, S.form(wf.test_forms[0]))))], [('+', S.show(I(where, X, S.form(wf.test_forms[0]))))]])))
    out.append(('refused', [r for r in refused if r in ('c x', 'c (x + y)', '3 x', 'c (x / e)')], []))
    return out


@check.scenario('replacing a form in a term', samples=1)
@careful
def _(mk):
    L2, DP = get(TERM + ':L2InnerProductTerm'), get(TERM + ':DualityPairingTerm')
    mk.fn(get(TERM + ':_WeakFormulationTerm.replace'), get(FORM + '.replace'), DP.restrict)
    W = World(2)
    sp, dual = W.space(1, 'outer'), W.space(1, 'inner')
    x, y, z, v = W.root(sp), W.root(sp), W.root(sp), W.root(dual)
    ph.manifold(2, r'\Omega_s', 'sub manifold') if r'\Omega_s' not in get('phyem.src.manifold')._global_manifolds else None
    out = []

    def f0(u): return (u + y) - u.time_derivative()

    def f1(u): return u + z
    for restricted in (False, True):
        for fc in FACTORS:
            c = factor_of(W, fc)
            C = value_of(c)
            for by in (W.root(sp), W.any(sp), W.root(sp) - W.any(sp)):
                for cls, kind in ((L2, '(,)'), (DP, '<|>')):
                    if restricted and cls is L2: continue
                    second = f1(x) if cls is L2 else ph.Hodge(f1(x))
                    if cls is DP and second.space.k != 1: continue
                    t = cls(f0(x), second, factor=c)
                    where = W.mesh.manifold._sym_repr
                    if restricted:
                        t.restrict(r'\Omega_s')
                        where = r'\Omega_s'
                    B, X = S.form(by), S.form(x)
                    g = (lambda F: F) if cls is L2 else (lambda F: S.unary('Hodge', F))

                    def F0(a, b): return S.add(S.add(a, S.form(y)), S.unary('time_derivative', b), -1)

                    def F1(a): return g(S.add(a, S.form(z)))
                    for which, (P, Q) in {'all': (F0(B, B), F1(B)), (0, 0): (F0(B, X), F1(X)), (0, 1): (F0(X, B), F1(X)), ('f0', (0, 1)): (F0(B, B), F1(X)), (1, 0): (F0(X, X), F1(B)), ('f1', (0,)): (F0(X, X), F1(B))}.items():
                        new, sign = t.replace(x, by, which=which)
                        out.append((f'{"restricted " if restricted else ""}{kind}, factor {fc}: {which} replaced', (sign, S.show(S.term(new))), ('+', S.show(I(where, P, Q, C, kind)))))
                    out.append(('the term is untouched', S.show(S.term(t)), S.show(I(where, F0(X, X), F1(X), C, kind))))
    return out


FORM = 'phyem.src.form.main:Form'


@check.unit('histories of derivations', real=True)
def _(led):
    @careful
    def scn(mk):
        rng = random.Random(int(mk.real('seed', 0, 1) * 10**9))
        n = rng.choice((2, 3))
        W = World(n)
        sp = W.space(rng.randint(1, n), rng.choice(('inner', 'outer')))
        L2 = get(TERM + ':L2InnerProductTerm')
        wf = wf_of(W, [rng.choice(LAYOUTS) for _ in range(rng.randint(1, 3))], sp)
        m = len(wf)
        E = [S.equation(wf, i) for i in range(m)]
        out = []
        for step in range(8):
            i = rng.randrange(m)
            num = len(side_terms(wf, i))
            op = rng.choice(['rearrange', 'switch', 'replace', 'split', 'delete', 'merge'])
            if op == 'rearrange' and num:
                order = list(range(num))
                rng.shuffle(order)
                cut = rng.randint(0, num)
                wf = wf.derive.rearrange({i: ','.join(map(str, order[:cut])) + '=' + ','.join(map(str, order[cut:]))})
            elif op == 'switch':
                wf = wf.derive.switch_sign(i)
                E[i] = S.add({}, E[i], -1)
            elif op in ('replace', 'delete', 'split') and num > 1:
                k = rng.randrange(num)
                j, s, x = side_terms(wf, i)[k]
                flip = 1 if (s == '+') == (j == 0) else -1
                E[i] = S.add(E[i], x, -flip)
                if op == 'delete':
                    wf = wf.derive.delete(f'{i}-{k}')
                elif op == 'split':
                    t = wf[f'{i}-{k}'][1]
                    fs = [W.any(sp), W.any(sp)]
                    c = [W.c[0], .5]
                    for q, f, v in zip('-+', fs, c):
                        E[i] = S.add(E[i], I(t.manifold._sym_repr, S.form(f), S.form(t._f1), value_of(v)), flip * (1 if q == '+' else -1))
                    wf = wf.derive.split(f'{i}-{k}', 'f0', fs, ['-', '+'], factors=c)
                else:
                    t = L2(W.any(sp), wf.test_forms[i], factor=W.c[1])
                    q = rng.choice('+-')
                    E[i] = S.add(E[i], S.term(t), flip * (1 if q == '+' else -1))
                    wf = wf.derive.replace(f'{i}-{k}', t, q)
            elif op == 'merge' and m < 5:
                other = wf_of(W, [rng.choice(LAYOUTS)], sp)
                wf = get(WF)(None, wfs=[wf, other])
                E.append(S.equation(other, 0))
                m += 1
            for l in range(m): out += eq(f'after {step + 1} steps ({op}): equation {l}', wf, l, E[l])
        return out
    R.bounded_scenario(led, 'histories of derivations', scn, samples=60)
