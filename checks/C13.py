r"""C13: time sequences, instants and intervals give the times they denote, and refuse what they do not contain."""
import itertools
from fractions import Fraction
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check
from pv import sym
import pv.run as R

check = Check('C13')
TS = 'phyem.src.time_sequence'


def env(): return np_patched(get(TS))


def span(mk, n):
    r"""a start time and a length; in CPython dyadic (so the margins are exact)."""
    if mk.symbolic:
        t0, d = mk.real('t0', -5, 5), mk.real('d', 0, 9)
        mk.assume(d > 0)
        return t0, d
    t0, d = mk.real('t0', -5, 5), mk.real('d', 0, 9)
    return round(t0 * 8) / 8, n * (1 + round(d * 8)) / 8


def at(seq, k):
    try:
        return seq[k]()
    except get(TS + ':TimeInstantError'):
        return 'refused'


CASES = [(1, 1), (2, 1), (4, 1), (7, 1), (2, 2), (6, 2), (16, 2), (3, 3), (9, 3), (8, 4), (5, 5), (12, 6), (14, 7), (16, 8)]
for _n, _f in CASES:
    @check.scenario(f'constant sequence, {_n} intervals in steps of {_f}', tol=1e-9, samples=3)
    def _(mk, n=_n, f=_f):
        C = get(TS + ':ConstantTimeSequence')
        mk.fn(C.__init__, C.__getitem__, get(TS + ':TimeInstant'))
        t0, d = span(mk, n)
        with env():
            s = C([t0, t0 + d, n], f)
            K = n // f
            dt = d * f / n
            out = [('t_0', s.t_0, t0), ('t_max', s.t_max, t0 + d), ('k_max', s.k_max, K), ('dt', s.dt, dt),
                   ('the last step is t_max', at(s, K), t0 + d), ('the first is t_0', at(s, 0), t0)]
            ks = sorted({Fraction(i, f) for i in range(-2 * f, n + 2 * f + 1)} |
                        {Fraction(i, 24) for i in range(-25, 30)} | {Fraction(K) + Fraction(i, 10) for i in range(-11, 12)})
            for k in ks:
                want = t0 + k.numerator * dt / k.denominator
                if k < -1 or k > K + 1 or (k * f).denominator != 1:
                    want = 'refused'
                forms = [float(k)] + ([int(k)] if k.denominator == 1 else [])
                for v in forms:
                    got = at(s, v)
                    if not isinstance(want, str) and mk.symbolic and not isinstance(got, str):
                        # k is a float: the code's product is that of the float
                        want_ = t0 + v * dt
                    else:
                        want_ = want
                    out.append((f't[{v}]', got, want_))
            # instants computed in floating point (just below or above an instant) are the instant
            for i in range(0, n):
                for e in (-3e-16, -4e-15, 2e-13, -2e-12):
                    v = i / f + e
                    if -1 < v:
                        got = at(s, v)
                        out.append((f't[{i}/{f}{e:+}] is an instant', isinstance(got, str), False))
                        if not isinstance(got, str):
                            out.append((f't[{i}/{f}{e:+}]', got, t0 + v * dt))
            for bad in ('1', None, 1 + 0j):
                try:
                    s[bad]
                    out.append((f't[{bad!r}] refused', False, True))
                except AssertionError:
                    pass
        return out


@check.unit('constant sequence: refused definitions')
def _(led):
    C = get(TS + ':ConstantTimeSequence')
    led.functions.add('phyem.src.time_sequence:ConstantTimeSequence.__init__')
    def refused(*a):
        try:
            C(*a)
            return False
        except AssertionError:
            return True
    for a, want in [(([0, 1, 4], 2), 0), (([0, 1, 4], 3), 1), (([0, 1, 3], 2), 1), (([1, 1, 4], 1), 1), (([2, 1, 4], 1), 1),
                    (([0, 1, 0], 1), 1), (([0, 1, -2], 1), 1), (([0, 1, 2.5], 1), 1), (([0, 1, 4], 0), 1), (([0, 1, 4], -1), 1),
                    (([0, 1, 4], 8), 1), (([0, 1], 1), 1), (([0, 1, 6], 6), 0), (([0, 1, 4], 1.5), 1)]:
        if refused(*a) != bool(want):
            raise R.Violation(f'ConstantTimeSequence{a}: refused = {not want}', dict(args=repr(a)))
        led.bounded.append((f'definition {a}', 'one concrete evaluation'))


class Incr:
    def __init__(self, d): self.d, self.i = d, 0

    def __call__(self):
        self.i += 1
        return self.d[self.i - 1]


def interp(times, h, k):
    r"""the piecewise linear function through (i*h, times[i])."""
    i = int(k // h)
    if i * h == k:
        return times[i]
    r = Fraction(k) / Fraction(h) - i
    return times[i] + (times[i + 1] - times[i]) * r.numerator / r.denominator


def _histories():
    H = [[0, 1, 2, 3, 4], [1, 1, 1, 2, 0], [.5, 1, .25, 1.5, 2, .75], [2, 1, 2, 3], [3, 3, 3, 3], [-1, -.5, 0, 1, -1],
         [1, 2.5, .5, 2.5, 3], [1, 2, 3, 4, 2.25, .125, 3.5, 1.75], [.75, .5, .25, 0, 1.75, .5, 1.25, 2, 2.5, 1.875]]
    rng = np.random.default_rng(5)
    for _ in range(8):
        H.append([float(x) / 4 for x in rng.integers(-2, 18, 9)])
    return H


for _h in (1, 2, .5):
    for _n, _H in enumerate(_histories()):
        @check.scenario(f'function sequence, step {_h}, history {_n}', samples=2)
        def _(mk, h=_h, H=_H):
            C = get(TS + ':FunctionTimeSequence')
            mk.fn(C.__init__, C.__getitem__)
            t0 = mk.real('t0', -5, 5)
            d = [mk.real(f'd{i}', 0, 2) for i in range(12)]
            for x in d:
                mk.assume(x > 0)
            out = []
            with env():
                s = C(t0, Incr(d), step_interval=h)
                T = [t0]
                for k in H:
                    k = k * h
                    if k > (len(T) - 1) * h:       # at most one new step per request
                        T.append(T[-1] + d[len(T) - 1])
                    want = 'refused' if k < 0 or k > (len(T) - 1) * h else interp(T, h, k)
                    out.append((f'after {len(out)} requests t[{k}]', at(s, k), want))
                for i in range(len(T)):
                    out.append((f'step {i} again', at(s, i * h), T[i]))
            return out


@check.scenario('function sequence: a refused increment leaves the sequence as it was', samples=2)
def _(mk):
    C = get(TS + ':FunctionTimeSequence')
    mk.fn(C.__getitem__)
    d = [mk.real(f'd{i}', 0, 2) for i in range(3)]
    for x in d:
        mk.assume(x > 0)
    out = []
    with env():
        s = C(0, Incr([d[0], 0, d[1], -1, d[2]]))
        a = at(s, 1)
        for k in (2, 2, 3, 3):
            try:
                out.append((f't[{k}]', at(s, k), 0))
                if k == 2:
                    out[-1] = ('t[2]', out[-1][1], d[0] + d[1])
                else:
                    out[-1] = ('t[3]', out[-1][1], d[0] + d[1] + d[2])
            except AssertionError:
                out.append((f'refused {k}', True, True))
        out += [('t[1]', a, d[0]), ('t[1] again', at(s, 1), d[0]), ('t[2] again', at(s, 2), d[0] + d[1])]
    return out


EXPR = [('k', dict(k=3), 3), ('k+1', dict(k=2), 3), ('k-1', dict(k=-0.5), -1.5), ('k+1/2', dict(k=5), 5.5), ('2*k+j/4', dict(k=2, j=6), 5.5),
        ('k-j', dict(k=3, j=1), 2), ('7/4', {}, 1.75), ('(k+j)/2', dict(j=3, k=2), 2.5), ('k-j+1', dict(j=1, k=4), 4), ('0', {}, 0),
        ('k*j', dict(k=.5, j=4), 2), ('k-1/4', dict(k=1), .75), ('k+0', dict(k=7.75), 7.75), ('1-k', dict(k=.25), .75)]


@check.scenario('abstract instants and intervals evaluate their index expression', samples=2, tol=1e-9)
def _(mk):
    A = get(TS + ':AbstractTimeSequence')
    mk.fn(A.__getitem__, A.specify, A.make_time_interval, get(TS + ':AbstractTimeInstant').__call__,
          get(TS + ':AbstractTimeInterval').__call__, get(TS + ':TimeInterval').__init__)
    t0, d = span(mk, 32)
    out = []
    with env():
        a, b = A(), A()
        ins = {e: a[e] for e, _, _ in EXPR}
        early = a.make_time_interval('k', 'k+1/4')
        a.specify('constant', [t0, t0 + d, 32], 4)
        b.specify('constant', [t0 + 1, t0 + 1 + 2 * d, 32], 4)
        dt = d / 8
        for e, kw, k in EXPR:
            try:
                got = ins[e](**kw)()
            except get(TS + ':TimeInstantError'):
                got = 'refused'
            k_ok = -1 <= k <= 9 and (k * 4) % 1 == 0
            out.append((f"t['{e}']({kw})", got, t0 + k * dt if k_ok else 'refused'))
            out.append((f"'{e}' is one instant", a[e] is ins[e] and a[e] == ins[e] and ins[e].k == e, True))
            out.append((f"'{e}' of another sequence is another", b[e] != ins[e] and b[e] is not ins[e], True))
            if not isinstance(got, str):
                out.append((f"other t['{e}']({kw})", b[e](**kw)(), t0 + 1 + 2 * k * dt))
        for e0, e1, kw, w in [('k', 'k+1', dict(k=2), 1), ('k', 'k+1/2', dict(k=1), .5), ('k+1/2', 'k+1', dict(k=3), .5), ('k-1', 'k+1', dict(k=3), 2),
                              ('k', 'k+1', dict(k=0), 1), ('0', '3/4', {}, .75)]:
            I = a.make_time_interval(e0, e1)
            out += [(f'interval {e0}..{e1}', I(**kw)(), w * dt), ('start', I(**kw).start(), a[e0](**kw)()), ('end', I(**kw).end(), a[e1](**kw)()),
                    ('of instants: the same interval', a.make_time_interval(a[e0], a[e1]) is I, True),
                    ('start instant', I.start is a[e0] and I.end is a[e1], True)]
            J = b.make_time_interval(e0, e1)
            out += [(f'interval {e0}..{e1} of the other', J(**kw)(), 2 * w * dt), ('distinct', J is not I, True)]
        out.append(('an interval made before the sequence was specified', early(k=1)(), dt / 4))
        for e0, e1, kw in [('k+1', 'k', dict(k=2)), ('k', 'k+0', dict(k=2)), ('k', 'j', dict(k=3, j=2))]:
            I = a.make_time_interval(e0, e1)
            try:
                I(**kw)
                out.append((f'{e0}..{e1} refused', False, True))
            except AssertionError:
                out.append((f'{e0}..{e1} refused', True, True))
        try:
            a['k'](j=1)
            out.append(('unknown index name refused', False, True))
        except AssertionError:
            pass
        try:
            b.specify('constant', [0, 1, 2], 1)
            out.append(('second specification refused', False, True))
        except AssertionError:
            pass
    return out
