r"""C12: a form expression denotes the mathematics it was written as, in the space it belongs to."""
import itertools
import random
from fractions import Fraction
import phyem as ph
from pv.run import *
from pv.run import get, Check, Stub
from pv import symb as S
from pv.exprs import *
import pv.run as R

check = Check('C12', trusted=['the grammar of linguistic representations (lib/pv/symb.py): prefix operators, then products, then sums; linear operators distribute'])
OPS = 'phyem.src.form.operators'
SP = 'phyem.src.spaces.main'

UNARY = {'Hodge': 'Hodge', 'd': 'd', 'codifferential': 'codifferential', 'time_derivative': 'time_derivative', 'trace': 'trace'}
BINARY = ('wedge', 'cross_product', 'Cross_Product', 'CrossProduct', 'crossProduct', 'convect', 'tensor_product')


def den(label, f, want):
    got = S.form(f)
    return [(label, S.show(got), S.show(want)), (f'{label}: its elementary forms', sorted(g._pure_lin_repr for g in f.elementary_forms), S.roots(f._lin_repr))]


def sp_of(f): return (type(f.space).__name__, f.space.mesh._sym_repr, f.space.k, f.space.orientation)


for _n in (2, 3):
    for _k in range(_n + 1):
        for _o in ('inner', 'outer'):
            @check.scenario(f'{_n}d: unary operators on {_o} {_k}-forms', samples=1)
            @careful
            def _(mk, n=_n, k=_k, o=_o):
                ops = get(OPS)
                mk.fn(*[getattr(ops, u) for u in UNARY], ops.log, ops._project_to, get(FM + '.__add__'), get(FM + '.__sub__'), get(FM + '.__rmul__'), get(FM + '.__truediv__'), get(FM + '.multi'))
                W = World(n)
                sp = W.space(k, o)
                other = {'inner': 'outer', 'outer': 'inner'}[o]
                out = []
                me = (type(sp).__name__, W.mesh._sym_repr, k, o)
                for name, (f, F) in W.kinds(sp).items():
                    out += den(name, f, F)
                    out.append((f'{name}: its space', sp_of(f), me))
                    lr = f._lin_repr
                    for u, need in (('Hodge', True), ('d', k < n), ('codifferential', k > 0), ('time_derivative', True), ('trace', k < n)):
                        if not need:
                            try:
                                getattr(ops, u)(f)
                            except AssertionError:
                                continue
                            raise Violation(f'{u} of a {k}-form in {n}d is accepted')
                        g = getattr(ops, u)(f)
                        out += den(f'{u} of {name}', g, S.unary(u, F))
                        want = {'Hodge': (n - k, other), 'd': (k + 1, o), 'codifferential': (k - 1, o), 'time_derivative': (k, o), 'trace': (k, o)}[u]
                        mesh = W.mesh.boundary() if u == 'trace' else W.mesh
                        out.append((f'{u} of {name}: its space', sp_of(g), (type(sp).__name__, mesh._sym_repr) + want))
                        if u != 'trace':
                            out += den(f'{u} of {u} of {name}', ops.time_derivative(g), S.unary('time_derivative', S.unary(u, F)))
                    out += den(f'log of {name}', f.log(), S.unary('log-e', F))
                    to = W.space(k, other)
                    g = f.project_to(to)
                    out += den(f'projection of {name}', g, S.unary('projection', F)) + [(f'projection of {name}: its space', g.space is to, True)]
                    out.append((f'{name}: its representation is untouched', f._lin_repr, lr))
                return out


def pairs(n):
    out = {}
    for k, l in itertools.product(range(n + 1), repeat=2):
        for o, q in itertools.product(('inner', 'outer'), repeat=2):
            out[(k, o, l, q)] = None
    return out


def kind(n, k): return 'scalar' if k in (0, n) else 'vector'


for _n in (2, 3):
    @check.scenario(f'{_n}d: products of forms', samples=1)
    @careful
    def _(mk, n=_n):
        ops = get(OPS)
        mk.fn(*[getattr(ops, u) for u in BINARY], get('phyem.src.spaces.operators:cross_product'), get('phyem.src.spaces.operators:wedge'), get('phyem.src.spaces.operators:convect'))
        W = World(n)
        out, done = [], {}
        for (k, o, l, q) in pairs(n):
            s, t = W.space(k, o), W.space(l, q)
            for op in BINARY:
                try:
                    getattr(ops, op)(W.root(s), W.root(t))
                except (NotImplementedError, AssertionError):
                    continue
                A, B = W.kinds(s), W.kinds(t)
                full = done.setdefault(op, 0) < 1
                done[op] += 1
                for a, b in itertools.product(SHORT if full else ('root', 'any expression', 'sum'), repeat=2):
                    (f, F), (g, G) = A[a], B[b]
                    h = getattr(ops, op)(f, g)
                    lab = f'{op} of {o} {k} ({a}) and {q} {l} ({b})'
                    out += den(lab, h, S.binary(op, F, G))
                    if op == 'wedge':
                        out.append((f'{lab}: its space', (h.space.k, h.space.orientation if o == q else None), (k + l, o if o == q else None)))
                    elif op == 'convect':
                        out.append((f'{lab}: its space', h.space is t, True))
                    else:
                        ks = {kind(n, k), kind(n, l)}
                        want = 'vector' if ks == {'scalar', 'vector'} or (ks == {'vector'} and n == 3) else 'scalar'
                        out.append((f'{lab}: a {want}', kind(n, h.space.k), want))
        for op in done:
            out.append((f'{op} exists', done[op] > 0, True))
        return out


@check.scenario('scalars and forms', samples=1)
@careful
def _(mk):
    CS = get('phyem.src.form.parameters:ConstantScalar0Form')
    mk.fn(CS.__add__, CS.__radd__, CS.__truediv__, get('phyem.src.form.parameters:constant_scalar'), get(FM + '.__rmul__'), get(FM + '.__truediv__'))
    W = World(2)
    sp = W.space(1, 'outer')
    a, b, c = W.c
    A, B, C = (S.scalar(x._pure_lin_repr) for x in W.c)
    one = S.const(1)
    two, half = ph.constant_scalar(2), ph.constant_scalar(.5)
    sc = {'a': (a, A), '2': (two, S.const(2)), '1/2': (half, S.const(Fraction(1, 2))), '3 as a float': (ph.constant_scalar(3.), S.const(3)), '-4': (ph.constant_scalar(-4), S.const(-4)),
          'a+b': (a + b, S.add(A, B)), 'a+2': (a + 2, S.add(A, S.const(2))), '2+a': (2 + a, S.add(A, S.const(2))), 'a+1/2': (a + half, S.add(A, S.const(Fraction(1, 2)))),
          '2+3': (two + 3, S.const(5)), '1/2+1': (half + 1, S.const(Fraction(3, 2))), '1+1/2': (1 + half, S.const(Fraction(3, 2))), '1/2+1/2': (half + half, one),
          'a/b': (a / b, S.scale(S.inverse(B), A)), 'a/2': (a / 2, S.scale(S.const(Fraction(1, 2)), A)),
          '(a+b)/c': ((a + b) / c, S.scale(S.inverse(C), S.add(A, B))), 'a/(b+c)': (a / (b + c), S.scale(S.inverse(S.add(B, C)), A)),
          'a/(b/c)': (a / (b / c), S.scale(S.inverse(S.scale(S.inverse(C), B)), A)), '(a/b)/c': ((a / b) / c, S.scale(S.inverse(C), S.scale(S.inverse(B), A))),
          'a+b/c': (a + b / c, S.add(A, S.scale(S.inverse(C), B))), '(a+b)+c': ((a + b) + c, S.add(S.add(A, B), C)), '1/(a+b)': (ph.constant_scalar(1) / (a + b), S.inverse(S.add(A, B)))}
    E, H = W.any_scalar(), W.any_scalar()
    e, h = (S.scalar(x._lin_repr) for x in (E, H))
    sc |= {'any': (E, e), 'any + any': (E + H, S.add(e, h)), 'any + a': (E + a, S.add(e, A)), 'a + any': (a + E, S.add(A, e)), 'any + 1': (E + 1, S.add(e, one)), '1/2 + any': (.5 + E, S.add(S.const(Fraction(1, 2)), e)),
           'any / any': (E / H, S.scale(S.inverse(h), e)), 'any / a': (E / a, S.scale(S.inverse(A), e)), 'a / any': (a / E, S.scale(S.inverse(e), A)), 'any / 2': (E / 2, S.scale(S.const(Fraction(1, 2)), e))}
    out = []
    for name, (x, X) in sc.items():
        out.append((f'scalar {name}', S.show(S.factor(x)), S.show(X)))
        if x.is_real():
            (v,) = X.values()
            out.append((f'the value of {name}', float(x()), float(v)))
        for kname, (f, F) in W.kinds(sp).items():
            if kname in SHORT:
                out += den(f'{name} times {kname}', x * f, S.scale(X, F))
                out += den(f'{kname} over {name}', f / x, S.scale(S.inverse(X), F))
    for v in (1, 2, -1, 10, .25, .1, 1 / 3, -2.5, 0):
        out.append((f'constant {v}', float(ph.constant_scalar(v)()), float(v)))
    return out


@check.scenario('replacing a form in an expression', samples=1)
@careful
def _(mk):
    mk.fn(get(FM + '.replace'))
    W = World(2)
    sp = W.space(1, 'outer')
    K = W.kinds(sp)
    x, y, z = W.root(sp), W.root(sp), W.root(sp)
    X, Y = S.atom(x._pure_lin_repr), S.atom(y._pure_lin_repr)
    out = []
    hosts = {'itself': lambda u, v: v, 'plus': lambda u, v: v + u, 'minus': lambda u, v: u - v, 'hodge': lambda u, v: ph.Hodge(v), 'd of sum': lambda u, v: (u + v).d(),
             'product left': lambda u, v: v.multi(u, sp), 'product right': lambda u, v: u.multi(v, sp), 'half': lambda u, v: v / 2, 'multiple': lambda u, v: W.c[1] * v,
             'twice': lambda u, v: (v + u) - v.time_derivative(), 'log': lambda u, v: v.log(), 'wedge': lambda u, v: u.wedge(v)}
    for h, make in hosts.items():
        for kname, (f, F) in K.items():
            if kname not in SHORT: continue
            host = make(y, x)
            want = make(y, f)
            got = host.replace(x, f)
            out.append((f'{h}: {kname} in place of a root', S.show(S.form(got)), S.show(S.form(want))))
            out.append((f'{h}: the host is untouched', S.show(S.form(host)), S.show(S.form(make(y, x)))))
        got = make(y, x).replace(z, y)
        out.append((f'{h}: a form that is not there', S.show(S.form(got)), S.show(S.form(make(y, x)))))
    # selected places
    host = (x + y) - x.time_derivative()
    tX = S.unary('time_derivative', X)
    for kname, (f, F) in K.items():
        if kname not in SHORT: continue
        tF = S.unary('time_derivative', F)
        for which, want in (([0], S.add(S.add(F, Y), tX, -1)), ([1], S.add(S.add(X, Y), tF, -1)), ([0, 1], S.add(S.add(F, Y), tF, -1)), ((1,), S.add(S.add(X, Y), tF, -1))):
            out.append((f'{kname} in the places {which}', S.show(S.form(host.replace(x, f, which=which))), S.show(want)))
    # every selection among up to five places
    ops = (lambda v: v, lambda v: v.time_derivative(), lambda v: v / 2, lambda v: v, lambda v: W.c[1] * v)
    for count in range(1, 6):
        def build(vs):
            g = None
            for o, v in zip(ops, vs):
                g = o(v) if g is None else g + o(v)
                if count % 2: g = g + y
            return g
        for m in range(1, count + 1):
            for which in itertools.combinations(range(count), m):
                got = build([x] * count).replace(x, z, which=list(which) if m % 2 else which)
                out.append((f'{count} places, {which} replaced', S.show(S.form(got)), S.show(S.form(build([z if i in which else x for i in range(count)])))))
                got = build([x] * count).replace(x, z, which=list(which[::-1]))
                out.append((f'{count} places, {which[::-1]} replaced', S.show(S.form(got)), S.show(S.form(build([z if i in which else x for i in range(count)])))))
    return out


@check.scenario('forms at instants', samples=1)
@careful
def _(mk):
    mk.fn(get(FM + '._evaluate_at'))
    W = World(2)
    sp = W.space(2, 'outer')
    x, y = W.root(sp), W.root(sp)
    ts = ph.time_sequence()
    out, seen = [], {}
    for f in (x, y):
        for k in ('k-1', 'k', 'k-1/2'):
            g = f @ ts[k]
            out += [(f'{f._pure_lin_repr} at {k}: the same object again', f @ ts[k] is g, True), ('a root', g.is_root(), True), ('its base', g._pAti_form['base_form'] is f, True),
                    ('its instant', g._pAti_form['ati'].k, k), ('its space', g.space is sp, True), ('itself only', [h._pure_lin_repr for h in g.elementary_forms], [g._pure_lin_repr])]
            key = S.show(S.form(g))
            out.append(('a name of its own', key in seen, False))
            seen[key] = 1
    dt = ts.make_time_interval('k-1', 'k')
    d = (x @ ts['k'] - x @ ts['k-1']) / dt
    D = S.scalar(dt._pure_lin_repr)
    a, b = (S.atom((x @ ts[k])._pure_lin_repr) for k in ('k', 'k-1'))
    out += den('a difference quotient', d, S.scale(S.inverse(D), S.add(a, b, -1)))
    q = 1 / dt
    out.append(('one over an interval', S.show(S.factor(q)), S.show(S.inverse(D))))
    out += den('one over an interval times a form', q * (x @ ts['k']), S.scale(S.inverse(D), a))
    return out


def expression(rng, W, leaves, sp, depth):
    r"""a random expression in the space, and its denotation by construction."""
    if depth == 0 or rng.random() < .12:
        f = rng.choice(leaves)
        return f, S.atom(f._pure_lin_repr)
    op = rng.choice(['+', '-', '-', '*', '/', 'dt', 'multi', 'HH', 'dd*', 'log', 'int'])
    f, F = expression(rng, W, leaves, sp, depth - 1)
    if op in '+-':
        g, G = expression(rng, W, leaves, sp, depth - 1)
        return (f + g, S.add(F, G)) if op == '+' else (f - g, S.add(F, G, -1))
    c = rng.choice(W.c)
    C = S.scalar(c._pure_lin_repr)
    if op == '*': return c * f, S.scale(C, F)
    if op == '/': return f / c, S.scale(S.inverse(C), F)
    if op == 'int': return 2 * f, S.scale(S.const(2), F)
    if op == 'dt': return f.time_derivative(), S.unary('time_derivative', F)
    if op == 'log': return f.log(), S.unary('log-e', F)
    if op == 'HH': return ph.Hodge(ph.Hodge(f)), S.unary('Hodge', S.unary('Hodge', F))
    if op == 'dd*': return ph.codifferential(ph.d(f)), S.unary('codifferential', S.unary('d', F))
    g, G = expression(rng, W, leaves, sp, depth - 1)
    return f.multi(g, sp), S.binary('multi', F, G)


@check.unit('random nested expressions', real=True)
def _(led):
    @careful
    def scn(mk):
        W = World(2)
        rng = random.Random(int(mk.real('seed', 0, 1) * 10**9))
        sp = W.space(1, 'inner')
        leaves = [W.root(sp) for _ in range(4)]
        out = []
        for i in range(12):
            f, F = expression(rng, W, leaves, sp, 4)
            out += den(f'expression {i}', f, F)
            out.append((f'expression {i}: found by its representation', S.show(S.form(get('phyem.src.form.others:_find_form')(f._lin_repr))), S.show(F)))
            for u in ('d', 'codifferential', 'time_derivative'):
                g = getattr(get(OPS), u)(f)
                h = get('phyem.src.form.others:_find_form')(g._lin_repr, upon=getattr(get(OPS), u))
                if h is None: raise Violation(f'the form under {u} is not found')
                out.append((f'expression {i}: found under {u}', S.show(S.form(h)), S.show(F)))
        return out
    R.bounded_scenario(led, 'random nested expressions', scn, samples=6)
