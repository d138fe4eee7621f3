# -*- coding: utf-8 -*-
r"""Obligation ledger, scenario runner and the check driver.

A *scenario* is a contract clause on real functions, written once and executed in two modes:

* symbolic: inputs are universally quantified symbols, the REAL function runs on them, every pair
  (label, got, want) it yields on every path is an obligation (got == want for all inputs);
* numeric: inputs are random floats, the same REAL function runs in plain CPython.  This is the
  cross-check of the engine, the replay of refuted obligations, and the (labelled) bounded stand-in
  when the code is outside the engine's subset.
"""
import hashlib
import inspect
import json
import math
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
import numpy as np

from . import sym, smt
from .sym import Unsupported, Sym

VERIF = os.environ.get('VERIF_ROOT') or os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..'))
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


def thorough():
    return TIER == 'thorough'


class Violation(Exception):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label, self.detail = label, detail


class Skip(Exception):
    r"""numeric sample does not satisfy the precondition."""


class Stub:
    r"""A stand-in for an object, carrying only what its contract promises."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise StubMiss(f'stub has no attribute {n}')


class StubMiss(Unsupported, AttributeError):
    pass


class Timeout(Unsupported):
    pass


def _alarm(*_):
    raise Timeout('time limit of the unit')


class deadline:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def raised_in_repo(tb):
    r"""did the exception come out of repository code?"""
    last = None
    for f in traceback.extract_tb(tb):
        last = f.filename
        if f.filename.startswith(REPO + '/') or f.filename.startswith('/opt/phyem_root/'):
            return True
    return False


# ----------------------------------------------------------------------------- makers
class SymMaker:
    symbolic = True

    def __init__(self):
        self.assumptions = []
        self.functions = set()
        self.names = []

    def real(self, name, lo=None, hi=None):
        v = sym.var(name)
        if name not in self.names:
            self.names.append(name)
            if lo is not None:
                self.assumptions.append(sym.cond('<=', sym.const(_fr(lo)), v))
                if lo >= 0:
                    sym.POSITIVE.add(name)
            if hi is not None:
                self.assumptions.append(sym.cond('<=', v, sym.const(_fr(hi))))
        return v

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    def int(self, name, lo=1, hi=4):
        r"""an integer >= lo, unbounded above (hi bounds only the concrete samples)."""
        return self.real('#' + name, lo)

    def array(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi)
        return a

    def pt(self, name, lo=None, hi=None):
        r"""a generic point: 1-element array, so that array code accepts it."""
        a = np.empty((1,), dtype=object)
        a[0] = self.real(name, lo, hi)
        return a

    def uf(self, name, args, d=None):
        out = _bc(lambda *x: sym.uf(name, *x, d=d), args)
        return out

    def func(self, name, d=None):
        def f(*args):
            return self.uf(name, args, d)
        return f

    def assume(self, c):
        if c is True or (isinstance(c, (bool, np.bool_)) and bool(c)):
            return
        self.assumptions.append(c)

    def sin(self, x): return _bc(sym.sin, [x])
    def cos(self, x): return _bc(sym.cos, [x])
    def exp(self, x): return _bc(sym.exp, [x])
    def sqrt(self, x): return _bc(sym.sqrt, [x])

    def num(self, x):
        r"""a concrete array the code under contract can mix with symbols."""
        return _bc(sym.S, [np.asarray(x, dtype=object)]) if np.ndim(x) else sym.S(x)

    @property
    def pi(self): return sym.PI

    def D(self, fun, args, i, order=1):
        r"""partial derivative of the real callable ``fun`` with respect to argument i at args."""
        v = sym.S(np.asarray(args[i], dtype=object).ravel()[0])
        assert v.k == 'v'
        r = fun(*args)
        return _map(lambda e: _nd(e, v, order), r)

    def fn(self, *fs):
        for f in fs:
            self.functions.add(qual(f))


def _nd(e, v, order):
    e = sym.S(e)
    for _ in range(order):
        e = sym.diff(e, v)
    return e


def _fr(x):
    from fractions import Fraction
    return Fraction(x)


def _map(f, r):
    if isinstance(r, np.ndarray):
        o = np.empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            o[i] = f(r[i])
        return o
    if isinstance(r, (list, tuple)):
        return [_map(f, x) for x in r]
    return f(r)


def _bc(f, args):
    args = [np.asarray(a, dtype=object) for a in args]
    b = np.broadcast(*args)
    if b.shape == ():
        return f(*[a.item() for a in args])
    o = np.empty(b.shape, dtype=object)
    args = np.broadcast_arrays(*args)
    for i in np.ndindex(*b.shape):
        o[i] = f(*[a[i] for a in args])
    return o


class NumMaker:
    symbolic = False

    def __init__(self, seed=0, env=None):
        self.env = sym.Env(env or {}, seed=seed)
        self.rng = np.random.default_rng(seed * 1009 + 17)
        self.assumptions = []
        self.functions = set()

    def real(self, name, lo=None, hi=None):
        if name not in self.env:
            a = -2.0 if lo is None else float(lo)
            b = (a + 4.0 if hi is None else float(hi))
            if lo is None and hi is not None:
                a = b - 4.0
            self.env[name] = float(self.rng.uniform(a, b))
        return self.env[name]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    def array(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi)
        return a

    def int(self, name, lo=1, hi=4):
        name = '#' + name
        if name not in self.env:
            self.env[name] = int(self.rng.integers(lo, hi + 1))
        return int(round(self.env[name]))

    def pt(self, name, lo=None, hi=None):
        return np.array([self.real(name, lo, hi)])

    def uf(self, name, args, d=None):
        args = [np.asarray(a, dtype=float) for a in args]
        d = d or (0,) * len(args)
        args = np.broadcast_arrays(*args)
        r = self.env.uf_value(name, args, d)
        return r if np.ndim(r) else float(r)

    def func(self, name, d=None):
        def f(*args):
            return self.uf(name, args, d)
        return f

    def assume(self, c):
        if not c:
            raise Skip()

    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def exp(self, x): return np.exp(x)
    def sqrt(self, x): return np.sqrt(x)
    pi = math.pi

    def num(self, x): return np.asarray(x, dtype=float) if np.ndim(x) else float(x)

    def D(self, fun, args, i, order=1):
        h = 2e-4 if order == 1 else 2e-3

        def at(s):
            a = list(args)
            a[i] = np.asarray(args[i], dtype=float) + s * h
            return fun(*a)

        if order == 1:
            w = {-2: 1 / 12, -1: -8 / 12, 1: 8 / 12, 2: -1 / 12}
        else:
            w = {-2: -1 / 12, -1: 16 / 12, 0: -30 / 12, 1: 16 / 12, 2: -1 / 12}
        vals = {s: at(s) for s in w}

        def comb(*xs):
            if isinstance(xs[0], (list, tuple)):
                return [comb(*y) for y in zip(*xs)]
            return sum(wi * np.asarray(x, dtype=float) for wi, x in zip(w.values(), xs)) / h ** order
        return comb(*vals.values())

    def fn(self, *fs):
        for f in fs:
            self.functions.add(qual(f))


def qual(f):
    if isinstance(f, str):
        return f
    f = getattr(f, '__func__', f)
    f = getattr(f, 'fget', f) if isinstance(f, property) else f
    try:
        path = inspect.getsourcefile(f) or '?'
        path = os.path.realpath(path)
        path = path.replace(REPO + '/', '')
        return f"{path}::{getattr(f, '__qualname__', repr(f))}"
    except TypeError:
        return f"{type(f).__module__}.{type(f).__qualname__}"


def get(path):
    r"""'phyem.a.b:attr.attr' -> object; a missing name is 'unreachable', not a violation."""
    import importlib
    mod, _, attr = path.partition(':')
    try:
        o = importlib.import_module(mod)
    except ImportError as e:
        raise Unsupported(f'cannot import {mod}: {e}')
    for a in filter(None, attr.split('.')):
        try:
            o = getattr(o, a)
        except AttributeError:
            raise Unsupported(f'{path} not found')
    return o


# ----------------------------------------------------------------------------- numpy proxy
def _has_sym(x):
    return isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object)


class NPProxy:
    r"""`numpy` with array constructors that can hold symbols (used only inside symbolic runs)."""
    _ctor = ('zeros', 'ones', 'empty')

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def zeros(shape, dtype=None, order='C', **k):
        if dtype in (int, bool, 'int', 'bool') and False:
            return np.zeros(shape, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a[...] = 0
        return a

    @staticmethod
    def ones(shape, dtype=None, order='C', **k):
        a = np.empty(shape, dtype=object)
        a[...] = 1
        return a

    @staticmethod
    def empty(shape, dtype=None, order='C', **k):
        return NPProxy.zeros(shape)

    @staticmethod
    def full(shape, v, **k):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a

    @staticmethod
    def zeros_like(x, **k):
        a = np.empty(np.shape(x), dtype=object)
        a[...] = 0
        return a

    @staticmethod
    def ones_like(x, **k):
        a = np.empty(np.shape(x), dtype=object)
        a[...] = 1
        return a

    @staticmethod
    def full_like(x, v, **k):
        a = np.empty(np.shape(x), dtype=object)
        a[...] = v
        return a

    @staticmethod
    def arctan2(y, x):
        return _bc(lambda a, b: sym.S(a).arctan2(b), (y, x))

    @staticmethod
    def einsum(sub, *ops, **k):
        k.pop('optimize', None)
        ops = [np.asarray(o) for o in ops]
        if any(o.dtype == object for o in ops):
            ops = [o.astype(object) for o in ops]
            return obj_einsum(sub, *ops)
        return np.einsum(sub, *ops, **k)

    @staticmethod
    def isclose(a, b, **k):
        return _bc(lambda x, y: bool(sym.S(x) == sym.S(y)), (a, b))

    @staticmethod
    def allclose(a, b, **k):
        return bool(np.all(NPProxy.isclose(a, b)))

    @staticmethod
    def array(x, *a, **k):
        k.pop('dtype', None)
        r = np.array(x, *a, **k)
        return r

    @staticmethod
    def shape(x):
        return np.shape(x)

    @staticmethod
    def _u(f, g, x):
        return _bc(g, [x]) if _has_sym(x) else f(x)

    @staticmethod
    def sqrt(x): return NPProxy._u(np.sqrt, sym.sqrt, x)
    @staticmethod
    def sin(x): return NPProxy._u(np.sin, sym.sin, x)
    @staticmethod
    def cos(x): return NPProxy._u(np.cos, sym.cos, x)
    @staticmethod
    def exp(x): return NPProxy._u(np.exp, sym.exp, x)
    @staticmethod
    def arccos(x): return NPProxy._u(np.arccos, lambda v: sym.S(v).arccos(), x)

    @staticmethod
    def hypot(x, y):
        return _bc(lambda a, b: sym.S(a).hypot(b), (x, y)) if _has_sym(x) or _has_sym(y) else np.hypot(x, y)

    @staticmethod
    def round(x, *a, **k):
        raise Unsupported('round of symbolic')


def obj_einsum(sub, *ops):
    r"""reference einsum over object arrays."""
    ins, _, out = sub.replace(' ', '').partition('->')
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise Unsupported('einsum form')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('einsum shape mismatch')
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        at = dict(zip(out, oi))
        s = 0
        for ri in np.ndindex(*[dims[c] for c in rest]):
            at.update(zip(rest, ri))
            t = 1
            for sx, o in zip(ins, ops):
                f = o[tuple(at[c] for c in sx)]
                if isinstance(f, Sym) and f.k == 'c' and f.a == 0:
                    t = 0
                    break
                if not isinstance(f, Sym) and f == 0:
                    t = 0
                    break
                t = t * f
            if not (isinstance(t, int) and t == 0):
                s = s + t
        res[oi] = s
    return res


class np_patched:
    r"""replace the global `np` of the given modules by NPProxy (restored on exit)."""

    def __init__(self, *mods, **repl):
        self.mods = mods
        self.repl = repl

    def __enter__(self):
        self.saved = []
        px = NPProxy()
        for m in self.mods:
            d = m if isinstance(m, dict) else m.__dict__
            for n in ('np', 'numpy') if MODE['symbolic'] else ():
                if n in d:
                    self.saved.append((d, n, d[n]))
                    d[n] = px
            if 'einsum' in d and MODE['symbolic']:
                self.saved.append((d, 'einsum', d['einsum']))
                d['einsum'] = px.einsum
            for n, v in self.repl.items():
                if n in d:
                    self.saved.append((d, n, d[n]))
                    d[n] = v
            for n, v in INJECT.items() if MODE['symbolic'] else ():
                if n not in d:
                    self.saved.append((d, n, _MISSING))
                    d[n] = v
        return self

    def __exit__(self, *a):
        for d, n, v in reversed(self.saved):
            if v is _MISSING:
                del d[n]
            else:
                d[n] = v


def _isinstance(o, t):
    r"""a symbolic real counts as a python float (the idealisation A-REAL)."""
    ts = tuple(float if x is _float else x for x in (t if isinstance(t, tuple) else (t,)))
    if isinstance(o, Sym):
        return any(x is float or isinstance(o, x) for x in ts)
    return isinstance(o, ts)


def _float(x=0.0):
    return x if isinstance(x, Sym) else float(x)


_MISSING = object()
MODE = {'symbolic': True}      # numeric runs execute the modules unpatched
INJECT = {'isinstance': _isinstance, 'float': _float}


# ----------------------------------------------------------------------------- ledger
class Ledger:
    def __init__(self, unit):
        self.unit = unit
        self.proved = []          # (label, backend, secs)
        self.bounded = []         # (label, note)
        self.viol = []            # dict(label, detail, confirmed)
        self.undecided = []       # (label, why)
        self.functions = set()
        self.assumptions = set()
        self.trusted = set()

    def prove(self, label, backend, secs=0.0):
        self.proved.append((label, backend, round(secs, 4)))

    def to(self):
        return dict(unit=self.unit, proved=self.proved, bounded=self.bounded, viol=self.viol,
                    undecided=self.undecided, functions=sorted(self.functions),
                    assumptions=sorted(self.assumptions), trusted=sorted(self.trusted))


def _num_close(g, w, tol):
    try:
        g = complex(g) if isinstance(g, complex) else float(g)
        w = complex(w) if isinstance(w, complex) else float(w)
    except Exception:
        return g == w
    if g != g or w != w:
        return (g != g) and (w != w)
    return abs(g - w) <= tol * (1 + abs(w) + abs(g))


def _pairs(items, numeric=False):
    r"""flatten (label, got, want[, local assumptions]) to scalars."""
    for label, got, want, *loc in items:
        loc = list(loc[0]) if loc else []
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray) or isinstance(got, (list, tuple)):
            g, w = sym.flat(got), sym.flat(want)
            if len(w) == 1 and len(g) > 1:
                w = w * len(g)
            if len(g) == 1 and len(w) > 1:
                g = g * len(w)
            if len(g) != len(w):
                yield f'{label}[shape]', len(g), len(w), loc
                continue
            for i, (x, y) in enumerate(zip(g, w)):
                yield f'{label}[{i}]', x, y, loc
        else:
            yield label, got, want, loc


def run_numeric(led, scn, samples, tol, seed0=0, env=None, max_try=40):
    r"""returns (ok_count, failure or None)"""
    MODE['symbolic'] = False
    try:
        return _run_numeric(led, scn, samples, tol, seed0, env, max_try)
    finally:
        MODE['symbolic'] = True


class Unusable(Unsupported):
    r"""a concrete evaluation broke off on what the code had returned (its shape, its type)."""


def unusable(e):
    r"""an error in a frame of the harness that comes from a value the code returned, as against a name, an argument or
    a module that is no longer there (the code may have been rearranged, which is no violation).
    """
    if isinstance(e, (Unsupported, Skip)) or 'argument' in str(e):
        return False
    return isinstance(e, (TypeError, ValueError, IndexError, ZeroDivisionError, AssertionError, np.linalg.LinAlgError))


def _run_numeric(led, scn, samples, tol, seed0, env, max_try):
    n, tries = 0, 0
    count = 0
    while n < samples and tries < max_try:
        tries += 1
        mk = NumMaker(seed=seed0 + tries + 1000 * SEED, env=env)
        try:
            with np.errstate(all='ignore'):
                items = list(_pairs(scn(mk), True))
        except Skip:
            continue
        except Unsupported:
            raise
        except Exception as e:
            if raised_in_repo(sys.exc_info()[2]):
                return count, dict(label=f'raises {type(e).__name__}',
                                   detail=dict(exception=repr(e), inputs=_jenv(mk.env),
                                               tb=traceback.format_exc()[-1800:]))
            raise (Unusable if unusable(e) else Unsupported)(
                f'harness: {type(e).__name__}: {e}\n{traceback.format_exc()[-900:]}')
        finally:
            led.functions |= mk.functions
        n += 1
        for label, g, w, _ in items:
            count += 1
            if not _num_close(g, w, tol):
                return count, dict(label=label, detail=dict(inputs=_jenv(mk.env), got=repr(g), want=repr(w)))
    if n == 0:
        raise Unsupported('no numeric sample satisfies the precondition')
    return count, None


def _jenv(env):
    return {k: v for k, v in list(env.items())[:60]}


def scenario(led, name, scn, samples=2, tol=1e-8, limit=120, max_paths=64, need_proof=True):
    r"""prove scn for all inputs; cross-check / replay / fall back numerically."""
    t0 = time.time()
    # 1. CPython cross-check (also covers the precondition)
    num_fail, num_err, cnt = None, None, 0
    try:
        with deadline(limit):
            cnt, num_fail = run_numeric(led, scn, samples, tol)
    except Unsupported as e:
        num_err = str(e)
    if num_fail is not None:
        led.viol.append(dict(label=f'{name}: {num_fail["label"]}', detail=num_fail['detail'], confirmed=True))
        return
    # 2. symbolic run
    proved, bad, und = [], [], []
    why = None
    try:
        with deadline(limit):
            mk = SymMaker()
            ex = sym.Explorer(max_paths=max_paths)
            ex.assume = mk.assumptions      # live list

            def go():
                return list(_pairs(scn(mk)))
            paths = ex.run(go)
            led.functions |= mk.functions
            for pc, items in paths:
                for label, g, w, loc in items:
                    t1 = time.time()
                    st, info = decide_eq(g, w, loc + mk.assumptions + pc)
                    lab = f'{name}: {label}'
                    if st == 'proved':
                        proved.append((lab, info, round(time.time() - t1, 4)))
                    elif st == 'refuted':
                        bad.append((lab, info))
                    else:
                        und.append((lab, info))
    except Unsupported as e:
        why = f'{type(e).__name__}: {e}'
    except ZeroDivisionError as e:
        why = repr(e)
    except RecursionError as e:
        why = repr(e)
    except Exception as e:
        why = f'symbolic run: {type(e).__name__}: {e} :: {traceback.format_exc()[-700:]}'
    if why is None and not proved and not bad and not und:
        why = 'no obligation generated'
    for lab, info in bad:
        # replay on the real code in CPython
        conf = None
        try:
            with deadline(60):
                _, conf = run_numeric(led, scn, 1, tol, env=info.get('env'), max_try=1)
                if conf is None:
                    _, conf = run_numeric(led, scn, 6, tol, seed0=500)
        except Unsupported:
            conf = None
        if conf is not None:
            led.viol.append(dict(label=lab, detail=dict(obligation=info, replay=conf), confirmed=True))
        else:
            led.viol.append(dict(label=lab, detail=dict(obligation=info), confirmed=False))
        return
    if why is None and not und:
        led.proved.extend(proved)
        return
    # undecided: bounded stand-in
    led.proved.extend(proved)
    note = why or f'{len(und)} undecided: {und[0]}'
    if num_err is None:
        try:
            with deadline(limit):
                c2, f2 = run_numeric(led, scn, 6 if not thorough() else 30, tol, seed0=100)
        except Unsupported as e:
            led.undecided.append((name, f'{note} / {e}'))
            return
        if f2 is not None:
            led.viol.append(dict(label=f'{name}: {f2["label"]}', detail=f2['detail'], confirmed=True))
            return
        led.bounded.append((name, f'{c2} concrete evaluations; engine: {note[:300]}'))
    else:
        led.undecided.append((name, f'{note} / {num_err}'))


def bounded_scenario(led, name, scn, samples=2, tol=1e-8, limit=150, env=None):
    r"""concrete evaluations of the real code only: a bounded stand-in, never counted as proved."""
    try:
        with deadline(limit):
            cnt, fail = run_numeric(led, scn, samples if not thorough() else samples * 4, tol)
    except Unusable as e:
        led.viol.append(dict(label=f'{name}: what the code returned can be used', detail=dict(error=str(e)), confirmed=False))
        return
    except Unsupported as e:
        led.undecided.append((name, str(e)))
        return
    if fail is not None:
        led.viol.append(dict(label=f'{name}: {fail["label"]}', detail=fail['detail'], confirmed=True))
    else:
        led.bounded.append((name, f'{cnt} concrete evaluations of the real code'))


def decide_eq(g, w, conds):
    try:
        gs, ws = sym.S(g), sym.S(w)
    except Unsupported:
        gs = NotImplemented
        ws = NotImplemented
    if gs is NotImplemented or ws is NotImplemented:
        if isinstance(g, sym.Cond) or isinstance(w, sym.Cond):
            return decide_bool(g, w, conds)
        ok = (g == w)
        if ok is True or (isinstance(ok, np.bool_) and bool(ok)):
            return 'proved', 'syntactic'
        return 'refuted', dict(got=repr(g), want=repr(w), env={})
    d = gs - ws
    if sym.is_zero(d):
        return 'proved', 'ring-normal-form'
    # under path conditions
    if conds:
        r, m, _ = smt.check(list(conds) + [sym.Cond('!=', d)])
        if r == 'unsat':
            return 'proved', 'z3'
    if sym.residue_only(d, gs, ws):
        return 'proved', 'ring-normal-form, constants to 1e-12'
    sp = sym.sqrt_split(d)
    if sp is not None:     # even = -odd*sqrt(.): the squares agree; the signs must
        r3, _, _ = smt.check(list(conds) + [sym.Cond('<', -(sp[0] * sp[1]))])
        if r3 == 'unsat':
            return 'proved', 'ring-normal-form+z3-sign'
    # numeric refutation
    names = sorted(sym.variables(d))
    hits = 0
    cand = []
    if conds:
        if r == 'sat':
            cand.append(smt.model_env(m))
        r2, m2, _ = smt.check(list(conds), 2000)
        if r2 == 'sat':
            cand.append(smt.model_env(m2))
    for s in range(60):
        env = sym.Env(seed=s)
        if s < len(cand):
            env.update(cand[s])
        else:
            rng = np.random.default_rng(s)
            sc = [1.0, 0.3, 3.0][s % 3]
            for nme in names:
                env[nme] = float(rng.integers(0, 7)) if nme.startswith('#') else float(rng.uniform(-sc, sc)) if s % 2 else float(rng.uniform(0.05, 0.95) * sc)
            if cand and s % 4 == 3:
                for k, v in cand[0].items():
                    env[k] = v if k.startswith('#') else v * (1 + 1e-3 * float(rng.uniform(-1, 1))) + 1e-4 * float(rng.uniform(-1, 1))
        try:
            if not all((c if isinstance(c, bool) else c.holds(env)) for c in conds):
                continue
            a, b = sym.evalf(gs, env), sym.evalf(ws, env)
        except (ValueError, ZeroDivisionError, OverflowError, AttributeError, Unsupported):
            continue
        hits += 1
        if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
            return 'refuted', dict(got=f'{a!r}', want=f'{b!r}', env=dict(env),
                                   got_expr=repr(gs)[:500], want_expr=repr(ws)[:500])
        if hits >= 8:
            break
    return 'unknown', f'normal form differs, {hits} samples agree; got={repr(gs)[:160]} want={repr(ws)[:160]}'


def decide_bool(g, w, conds):
    w = bool(w) if not isinstance(w, sym.Cond) else w
    g = bool(g) if not isinstance(g, sym.Cond) else g
    if isinstance(g, sym.Cond) and isinstance(w, bool):
        test = g.negate() if w else g
    elif isinstance(w, sym.Cond) and isinstance(g, bool):
        test = w.negate() if g else w
    else:
        test = sym.Cond('or', parts=(sym.Cond('and', parts=(g, w.negate())), sym.Cond('and', parts=(g.negate(), w))))
    r, m, _ = smt.check(list(conds) + [test])
    if r == 'unsat':
        return 'proved', 'z3'
    if r == 'sat':
        return 'refuted', dict(env=smt.model_env(m), got=repr(g)[:300], want=repr(w)[:300])
    return 'unknown', 'z3 unknown'


# ----------------------------------------------------------------------------- check driver
class Check:
    r"""A property's check: named units, each a function(led) run in a worker process."""

    def __init__(self, pid, level='proof', checker='contract VCs generated by symbolic execution of the real '
                 'functions; ring normal form + z3', assumptions=(), trusted=(), workers=8):
        self.pid, self.level, self.checker = pid, level, checker
        self.assumptions, self.trusted = list(assumptions), list(trusted)
        self.units = []
        self.workers = workers

    def unit(self, name, limit=300, quick=True, real=False):
        r"""real: only objects of the code itself are at work, through what it offers; its failing is a violation."""
        def deco(f):
            f.__dict__['_real'] = real
            self.units.append((name, f, limit, quick))
            return f
        return deco

    def scenario(self, name, limit=120, quick=True, **k):
        def deco(scn):
            def f(led):
                scenario(led, name, scn, limit=limit, **k)
            self.units.append((name, f, limit * 3 + 30, quick))
            return scn
        return deco

    # -- running
    def main(self):
        t0 = time.time()
        only = [a for a in sys.argv[1:] if not a.startswith('-')]
        units = [u for u in self.units if (u[3] or thorough())]
        if only:
            units = [u for u in units if any(o in u[0] for o in only)]
        budget = float(os.environ.get('VERIF_BUDGET', 780 if not thorough() else 3000))
        results = _pool(units, self.workers, budget)
        ok = self.report(results, time.time() - t0, len(units), verbose='-v' in sys.argv, partial=bool(only))
        sys.stdout.flush()
        os._exit(0 if ok else 1)

    def known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        out = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == self.pid and d.get('status') == 'known':
                        out.append(d)
        return out

    def report(self, results, wall, nunits, verbose=False, partial=False):
        proved = sum(len(r['proved']) for r in results)
        bounded = sum(len(r['bounded']) for r in results)
        und = [(r['unit'],) + tuple(u) for r in results for u in r['undecided']]
        backends = {}
        solver = 0.0
        for r in results:
            for lab, be, secs in r['proved']:
                backends[be] = backends.get(be, 0) + 1
                solver += secs
        known = self.known()
        new, old = [], []
        for r in results:
            for v in r['viol']:
                v = dict(v, unit=r['unit'])
                k = next((d for d in known if d['key'] in f"{v['unit']} :: {v['label']}"), None)
                (old if k else new).append((v, k))
        shown = set()
        for v, k in old:
            if k['key'] not in shown:
                shown.add(k['key'])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        new.sort(key=lambda t: not t[0]['confirmed'])
        for n, (v, _) in enumerate(new[:8]):
            path = os.path.join(rdir, f'{self.pid}-{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, obligation=v['label'], unit=v['unit'],
                               confirmed_on_real_code=v['confirmed'], detail=v['detail'],
                               rerun=f"cd {VERIF} && bin/check {self.pid} '{v['unit']}'"),
                          f, indent=1, default=repr)
            print(f"failed obligation: {v['unit']} :: {v['label']}")
            print(f"VIOLATION property={self.pid} replay={path}" +
                  ('' if v['confirmed'] else ' no-failing-input-found'))
        functions = sorted({f for r in results for f in r['functions']})
        for r in results:
            self.assumptions += [a for a in r['assumptions'] if a not in self.assumptions]
            self.trusted += [a for a in r['trusted'] if a not in self.trusted]
        nontriv = proved + len(new)
        cov = dict(
            obligations=proved + len(new) + len(und),
            discharged=proved,
            checker_cmd=f'bin/check {self.pid}: {self.checker}',
            trusted_base=self.trusted or ['the VC generator lib/pv', 'z3', 'CPython/numpy object-array dispatch'],
            functions_under_contract=functions,
            backends=backends,
            obligation_seconds=round(solver, 2),
            bounded_standins=[dict(unit=r['unit'], what=b[0], note=b[1]) for r in results for b in r['bounded']],
            bounded_count=bounded,
            undecided=[list(map(str, u)) for u in und],
            units=nunits,
            known_findings=[k['key'] for _, k in old],
            explanation='obligations = VCs generated from the current source of /repo; bounded stand-ins are '
                        'counted separately and never as discharged',
            evaluations=proved + bounded,
            samples=[dict(unit=r['unit'], obligation=r['proved'][0][0]) for r in results if r['proved']][:12],
        )
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(new))
        if not partial:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=repr)
        print(f'{self.pid}: {nunits} units, {proved} obligations discharged {backends}, {bounded} bounded stand-ins, '
              f'{len(und)} undecided, {len(new)} violations, {len(functions)} functions, {wall:.1f}s')
        if verbose:
            for r in results:
                print('  ', r['unit'], len(r['proved']), 'bounded', r['bounded'][:2], 'und', r['undecided'][:2], r.get('secs'))
        elif und:
            for u in und[:10]:
                print('  undecided:', [str(x)[:200] for x in u])
        return not new


def _repo_failed(e):
    r"""was it raised by the code of the repository (or what it called), not by the check?"""
    fs = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    fs = [f for f in fs if f.startswith((REPO + '/', VERIF + '/'))]
    return bool(fs) and fs[-1].startswith(REPO + '/')


def _work(job, conn):
    name, f, limit, _ = job
    led = Ledger(name)
    t0 = time.time()
    try:
        try:
            f(led)
        except Violation as e:
            led.viol.append(dict(label=e.label, detail=e.detail, confirmed=True))
        except Unsupported as e:
            led.undecided.append((name, f'{type(e).__name__}: {e}'))
        except Exception as e:
            if f.__dict__.get('_real') and not isinstance(e, NotImplementedError) and _repo_failed(e):
                led.viol.append(dict(label=f'the code works: {type(e).__name__}', detail=dict(error=str(e)[:300], traceback=traceback.format_exc()[-2500:]), confirmed=True))
            elif f.__dict__.get('_real') and unusable(e):
                led.viol.append(dict(label=f'what the code returned can be used: {type(e).__name__}',
                                     detail=dict(error=str(e)[:300], traceback=traceback.format_exc()[-2500:]), confirmed=False))
            else:
                led.undecided.append((name, f'harness error {type(e).__name__}: {e} {traceback.format_exc()[-1200:]}'))
        d = led.to()
        d['secs'] = round(time.time() - t0, 2)
        conn.send(json.dumps(d, default=repr))
    finally:
        conn.close()
        os._exit(0)


def _pool(units, workers, budget):
    r"""one forked process per unit, `workers` at a time, with limits."""
    ctx = mp.get_context('fork')
    pending = list(units)[::-1]
    live, out = [], []
    t_end = time.time() + budget
    sys.stdout.flush()
    while pending or live:
        while pending and len(live) < workers and time.time() < t_end:
            u = pending.pop()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_work, args=(u, b))
            p.start()
            b.close()
            live.append((u, p, a, time.time()))
        if not live:
            break
        conns = [x[2] for x in live]
        ready = mp.connection.wait(conns, timeout=1.0)
        nxt = []
        for u, p, a, ts in live:
            done = False
            if a in ready:
                try:
                    out.append(json.loads(a.recv()))
                except (EOFError, ValueError):
                    out.append(_lost(u[0], 'worker died'))
                p.join(10)
                done = True
            elif time.time() - ts > u[2] or time.time() > t_end:
                p.kill()
                p.join()
                out.append(_lost(u[0], 'time limit'))
                done = True
            if not done:
                nxt.append((u, p, a, ts))
            else:
                a.close()
        live = nxt
    for u in pending:
        out.append(_lost(u[0], 'budget exhausted'))
    return out


def _lost(name, why):
    d = Ledger(name)
    d.undecided.append((name, why))
    return d.to()


import multiprocessing.connection  # noqa: E402
