# -*- coding: utf-8 -*-
r"""z3 back end for path conditions / inequalities over symbolic reals."""
import time
import z3
from . import sym

TIMEOUT = 4000
stats = {'queries': 0, 'time': 0.0}


class Trans:
    def __init__(self):
        self.ax = []
        self.atoms = {}
        self.memo = {}

    def atom(self, key, mk=None):
        if key not in self.atoms:
            v = z3.Real(f'a{len(self.atoms)}')
            self.atoms[key] = v
            if mk:
                mk(v)
        return self.atoms[key]

    def t(self, n):
        n = sym.S(n)
        if n.id in self.memo:
            return self.memo[n.id]
        k = n.k
        if k == 'c':
            r = z3.RealVal(str(n.a))
        elif k == 'v':
            r = z3.ToReal(z3.Int(n.a)) if n.a.startswith('#') else z3.Real(n.a)    # '#': an integer
        elif k == 'pi':
            r = z3.Real('__pi')
            self.ax += [r > z3.RealVal('3.14159'), r < z3.RealVal('3.1416')]
        elif k == '+':
            r = self.t(n.a[0]) + self.t(n.a[1])
        elif k == '*':
            r = self.t(n.a[0]) * self.t(n.a[1])
        elif k == '/':
            b = self.t(n.a[1])
            self.ax.append(b != 0)
            r = self.t(n.a[0]) / b
        elif k == '^':
            b = self.t(n.a[0])
            r = b
            for _ in range(n.a[1] - 1):
                r = r * b
        elif k == 'f':
            f = n.a[0]
            args = tuple(sym.rkey(sym.nf(x)) for x in n.a[1:])
            if f in ('sin', 'cos'):
                s = self.atom(('sin', args))
                c = self.atom(('cos', args), lambda v: self.ax.append(v * v + s * s == 1))
                r = s if f == 'sin' else c
            elif f == 'sqrt':
                x = self.t(n.a[1])
                r = self.atom(('sqrt', args), lambda v: self.ax.extend([v >= 0, v * v == x]))
            elif f == 'exp':
                r = self.atom(('exp', args), lambda v: self.ax.append(v > 0))
            else:
                r = self.atom((f, args))
        else:
            r = self.atom(('uf', n.a[0], tuple(sym.rkey(sym.nf(x)) for x in n.a[1]), n.a[2]))
        self.memo[n.id] = r
        return r

    def c(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == 'and':
            return z3.And([self.c(p) for p in c.parts])
        if c.op == 'or':
            return z3.Or([self.c(p) for p in c.parts])
        e = self.t(c.e)
        return {'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0}[c.op]


class NotInt(Exception):
    pass


class IntTrans(Trans):
    r"""formulas in which every variable and constant is an integer (and nothing else occurs), over z3's integers."""

    def t(self, n):
        n = sym.S(n)
        if n.id in self.memo:
            return self.memo[n.id]
        k = n.k
        if k == 'c' and n.a == int(n.a):
            r = z3.IntVal(int(n.a))
        elif k == 'v' and n.a.startswith('#'):
            r = z3.Int(n.a)
        elif k == '+':
            r = self.t(n.a[0]) + self.t(n.a[1])
        elif k == '*':
            r = self.t(n.a[0]) * self.t(n.a[1])
        else:
            raise NotInt
        self.memo[n.id] = r
        return r


def check(conds, timeout=None):
    r"""sat/unsat/unknown of the conjunction; returns (status, model or None, translator)."""
    try:
        tr = IntTrans()
        fs = [tr.c(c) for c in conds if c is not True]
    except NotInt:
        tr = Trans()
        fs = [tr.c(c) for c in conds if c is not True]
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    s.add(*fs)
    s.add(*tr.ax)
    t0 = time.time()
    r = s.check()
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    return str(r), (s.model() if r == z3.sat else None), tr


def feasible(conds):
    return check(conds, 1500)[0] != 'unsat'


def model_env(model):
    env = {}
    for d in model.decls():
        v = model[d]
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(15)
            env[d.name()] = float(v.as_long()) if z3.is_int_value(v) else float(v.as_fraction())
        except Exception:
            pass
    return env
