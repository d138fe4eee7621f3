r"""What a linguistic representation denotes.

The grammar is the one the operators of phyem write (their strings are read from src/config):  prefix operators bind tightest, then products, multiples
and quotients (from the left), then sums and differences (from the left); `\{ ... \}` groups.  A denotation is a linear combination: a dict
{(scalar monomial, form): Fraction}; operators that are linear in an argument distribute over it, so two expressions are equal in every interpretation of
the root forms and scalars exactly when their dicts are (up to identities between operators, which are not used).
"""
from fractions import Fraction
from pv.run import get

CFG = 'phyem.src.config'
PREFIX = ('Hodge', 'd', 'codifferential', 'time_derivative', 'trace', 'projection', 'log-e')
PRODUCT = ('wedge', 'cross_product', 'Cross_Product', 'CrossProduct', 'crossProduct', 'convect', 'tensor_product', 'multi')


HOLE = '⟦⟧'   # ⟦...⟧ stands for an arbitrary expression: any sum, so it may only stand where a sum may stand


class Meaningless(Exception): r"""the string denotes nothing."""


def const(x): return {((), None): Fraction(x)} if x else {}


def atom(name): return {((), name): Fraction(1)}


def scalar(name): return {(((name, 1),), None): Fraction(1)}


def number(text):
    try:
        return const(Fraction(text) if 'e' not in text else Fraction(float(text)).limit_denominator(10**12))
    except ValueError:
        return scalar(text)


def add(x, y, s=1):
    out = dict(x)
    for k, v in y.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0: del out[k]
    return out


def _mono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


def freeze(x): return tuple(sorted(((k, v) for k, v in x.items()), key=repr))


def scale(s, x):
    r"""a scalar times anything."""
    out = {}
    for (m, f), c in s.items():
        if f is not None: raise Meaningless('a factor that is no scalar')
        for (m2, g), c2 in x.items():
            k = (_mono(m, m2), g)
            out[k] = out.get(k, 0) + c * c2
    return {k: v for k, v in out.items() if v}


def inverse(s):
    if any(f is not None for _, f in s): raise Meaningless('a divisor that is no scalar')
    if not any(s.values()): raise Meaningless('division by zero')
    if len(s) == 1:
        ((m, _), c), = s.items()
        return {(tuple((k, -e) for k, e in m), None): 1 / c}
    lead = freeze(s)[0][1]
    key = ('1/', freeze({k: v / lead for k, v in s.items()}))
    return {(((key, 1),), None): 1 / lead}


def unary(op, x):
    if any(f is None for _, f in x): raise Meaningless(f'{op} of a scalar')
    if op == 'log-e': return atom((op, freeze(x)))
    return {(m, (op, f)): c for (m, f), c in x.items()}


def binary(op, x, y):
    if any(f is None for _, f in list(x) + list(y)): raise Meaningless(f'{op} of a scalar')
    out = {}
    for (m, f), c in x.items():
        for (m2, g), c2 in y.items():
            k = (_mono(m, m2), (op, f, g))
            out[k] = out.get(k, 0) + c * c2
    return {k: v for k, v in out.items() if v}


def is_scalar(x): return all(f is None for _, f in x)


def _strings():
    cfg = get(CFG)
    ops = cfg._global_operator_lin_repr_setting
    S = {}
    for k in PREFIX: S[ops[k]] = ('prefix', k)
    for k in PRODUCT: S[ops[k]] = ('product', k)
    S[ops['plus']], S[ops['minus']] = ('sum', 1), ('sum', -1)
    S[ops['multiply']], S[ops['division']] = ('product', 'multiply'), ('product', 'division')
    S[cfg._non_root_lin_sep[0]], S[cfg._non_root_lin_sep[1]] = ('open', None), ('close', None)
    R = cfg._global_lin_repr_setting
    return sorted(S.items(), key=lambda t: -len(t[0])), R


def tokens(s):
    S, R = _strings()
    out, i = [], 0
    while i < len(s):
        for k in ('form', 'scalar_parameter'):
            a, b = R[k]
            if s.startswith(a, i):
                j = s.find(b, i)
                if j < 0: raise Meaningless(f'unfinished name in {s!r}')
                out.append((k, s[i + len(a):j]))
                i = j + len(b)
                break
        else:
            if s[i] == HOLE[0]:
                j = s.find(HOLE[1], i)
                out.append(('hole', s[i:j + 1]))
                i = j + 1
                continue
            for t, what in S:
                if s.startswith(t, i):
                    out.append(what)
                    i += len(t)
                    break
            else:
                raise Meaningless(f'no operator or name at {s[i:]!r} of {s!r}')
    return out


def parse(s):
    r"""the denotation of a form's or a scalar's linguistic representation."""
    T = tokens(s)
    pos = [0]

    def peek(): return T[pos[0]] if pos[0] < len(T) else (None, None)

    def take():
        t = peek()
        pos[0] += 1
        return t

    def expr():
        x = prod()
        while peek()[0] == 'sum':
            sgn = take()[1]
            y = prod()
            x = add(x, y, sgn)
        return x

    def prod():
        x, seen = prefix(), set()
        while peek()[0] == 'product':
            op = take()[1]
            seen.add(op)
            if len(seen - {'multiply', 'division'}) > 1 or (seen - {'multiply', 'division'} and len(seen) > 1 and 'multiply' in seen):
                pass
            y = prefix()
            if op == 'multiply': x = scale(x, y) if is_scalar(x) else scale(y, x)
            elif op == 'division': x = scale(inverse(y), x)
            else: x = binary(op, x, y)
        return x

    def prefix():
        if peek()[0] == 'prefix':
            op = take()[1]
            return unary(op, prefix())
        k, v = take()
        if k == 'hole':
            before = T[pos[0] - 2] if pos[0] > 1 else (None, None)
            if before not in ((None, None), ('open', None), ('sum', 1)) or peek()[0] not in (None, 'close', 'sum'):
                raise Meaningless(f'an arbitrary expression is torn apart in {s!r}')
            return scalar(v) if v.startswith(HOLE[0] + 'c') else atom(v)
        if k == 'form': return atom(v)
        if k == 'scalar_parameter': return number(v)
        if k == 'open':
            x = expr()
            if take()[0] != 'close': raise Meaningless(f'unbalanced {s!r}')
            return x
        raise Meaningless(f'{s!r} breaks off at {k}')

    x = expr()
    if pos[0] != len(T): raise Meaningless(f'{s!r} goes on after its end')
    return x


def form(f):
    r"""the denotation of a form."""
    return parse(f._lin_repr)


def factor(c): return parse(c._lin_repr)


def term(t):
    r"""the denotation of a weak-form term: (kind, domain, f, g) with its factor distributed."""
    kind = {'L2InnerProductTerm': '(,)', 'DualityPairingTerm': '<|>'}.get(type(t).__name__, type(t).__name__)
    where = t._restrict_manifold._sym_repr if t._restrict_manifold is not None else t.manifold._sym_repr
    x = binary((kind, where), form(t._f0), form(t._f1))
    return scale(factor(t._factor), x)


def side(terms, signs):
    out = {}
    for t, s in zip(terms, signs, strict=True):
        if s not in ('+', '-'): raise Meaningless(f'sign {s!r}')
        out = add(out, term(t), 1 if s == '+' else -1)
    return out


def equation(wf, i):
    r"""left - right of equation i."""
    (lt, rt), (ls, rs) = wf._term_dict[i], wf._sign_dict[i]
    return add(side(lt, ls), side(rt, rs), -1)


def show(x):
    def f(g):
        if g == (): return '0'
        if isinstance(g, tuple): return f'{g[0]}(' + ', '.join(map(f, g[1:])) + ')'
        return str(g)
    return ' + '.join(f'{c}{"*" if m else ""}{"*".join(f"{k}^{e}" for k, e in m)} {"" if g is None else f(g)}' for (m, g), c in sorted(x.items(), key=repr)) or '0'


def roots(s):
    r"""the names of the root forms in a representation, in arbitrary expressions too."""
    out = set()
    for k, t in tokens(s):
        if k == 'form': out.add(t)
        if k == 'hole': out |= {v for q, v in tokens(t[t.index(' of ') + 4:-1]) if q == 'form'} if ' of ' in t else set()
    return sorted(out)
