r"""Operands of every shape: root forms, compound ones, arbitrary expressions, with their denotations by construction."""
import itertools
from fractions import Fraction
import phyem as ph
from pv.run import *
from pv.run import get
from pv import symb as S

FM = 'phyem.src.form.main:Form'


def fresh(n):
    get('phyem.src.config:_clear_all')() if hasattr(get('phyem.src.config'), '_clear_all') else None
    ph.config.set_embedding_space_dim(n)
    ph.config.set_pr_cache(False)
    mesh = ph.mesh(ph.manifold(n))
    ph.space.set_mesh(mesh)
    return mesh


class World:
    def __init__(self, n, mesh=None):
        self.n, self.mesh = n, fresh(n)
        self.count = itertools.count()
        self.c = [ph.constant_scalar(f'c_{i}', f'c{i}') for i in range(3)]

    def space(self, k, ori, kind='Lambda'): return ph.space.new(kind, k, orientation=ori)

    def root(self, sp):
        i = next(self.count)
        return sp.make_form(rf'x_{{{i}}}', f'x{i}')

    def any(self, sp):
        r"""an arbitrary expression that is no root form."""
        i = next(self.count)
        x = self.root(sp)
        return get(FM)(sp, rf'E_{{{i}}}', S.HOLE[0] + f'e{i} of ' + x._lin_repr + S.HOLE[1], False)

    def any_scalar(self):
        i = next(self.count)
        return get('phyem.src.form.parameters:ConstantScalar0Form')(rf'C_{{{i}}}', S.HOLE[0] + f'c{i}' + S.HOLE[1], False, False)

    def kinds(self, sp):
        r"""an operand of every top-level shape, with its denotation by construction."""
        x, y, z = self.root(sp), self.root(sp), self.root(sp)
        X, Y, Z = (S.atom(f._pure_lin_repr) for f in (x, y, z))
        c = self.c[0]
        C = S.scalar(c._pure_lin_repr)
        h = self.any(sp)
        out = {'root': (x, X), 'any expression': (h, S.atom(h._lin_repr)), 'sum': (x + y, S.add(X, Y)), 'difference': (x - y, S.add(X, Y, -1)),
               'difference of three': ((x - y) - z, S.add(S.add(X, Y, -1), Z, -1)),
               'difference with a sum': (x - (y + z), S.add(X, S.add(Y, Z), -1)), 'difference with a difference': (x - (y - z), S.add(X, S.add(Y, Z, -1), -1)),
               'prefix': (x.time_derivative(), S.unary('time_derivative', X)), 'prefix of a sum': ((x + y).time_derivative(), S.unary('time_derivative', S.add(X, Y))),
               'multiple': (c * x, S.scale(C, X)), 'multiple of a sum': (c * (x + y), S.scale(C, S.add(X, Y))), 'integer multiple': (3 * x, S.scale(S.const(3), X)),
               'quotient': (x / c, S.scale(S.inverse(C), X)), 'quotient of a sum': ((x + y) / 2, S.scale(S.const(Fraction(1, 2)), S.add(X, Y))),
               'product': (x.multi(y, sp), S.binary('multi', X, Y)), 'sum of a product': (x + y.multi(z, sp), S.add(X, S.binary('multi', Y, Z)))}
        return out


SHORT = ('root', 'any expression', 'sum', 'difference with a sum', 'prefix', 'multiple', 'quotient', 'product', 'sum of a product')


def careful(scn):
    def f(mk):
        try:
            return scn(mk)
        except S.Meaningless as e:
            raise Violation(f'a representation denotes nothing: {e}')
    return f
