r"""C09: vector calculus on fields: every operator returns the field its mathematical definition says."""
import itertools
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check, scenario, bounded_scenario, _bc
from pv import sym
import pv.run as R

check = Check('C09')
from pv.fields import *
from pv.fields import TS, NU, W, DIMS

# ---------------------------------------------------------------- scalars
for n in (1, 2, 3):
    for g in (givens(n) if n > 1 else [()]):
        @check.scenario(f'{n}d scalar operators, derivatives given: {g}', samples=2, tol=2e-5)
        def _(mk, n=n, g=g):
            C = get(W[n] + f'scalar:T{n}dScalar')
            mk.fn(*[v for k, v in vars(C).items() if callable(v) or isinstance(v, property)])
            with env():
                P = at(mk, n)
                s = mkscalar(mk, 's', n, g)
                out = [('value', s(*P), [val(mk, 's', P)]), ('value at t', s[P[0]](*P[1:]), [val(mk, 's', P)])]
                out += shape_kind(s, n, 's')
                td = s.time_derivative
                out += [('time derivative', td(*P), [val(mk, 's', P, 0)])] + shape_kind(td, n, 's')
                out += [('negative', (-s)(*P), [-val(mk, 's', P)])]
                if n == 1:
                    return out + [('derivative', s.derivative(*P), [val(mk, 's', P, 1)])]
                G = s.gradient
                out += [('gradient', G(*P), grad(mk, 's', P))] + shape_kind(G, n, 'v')
                if n == 2:
                    c = s.curl
                    gx, gy = grad(mk, 's', P)
                    out += [('curl', c(*P), [gy, -gx])] + shape_kind(c, n, 'v')
                    out += [('Laplacian', s.Laplacian(*P), [lap(mk, 's', P)]),
                            ('div curl = 0', c.divergence(*P)[0], 0),
                            ('time derivative of the gradient', G.time_derivative(*P),
                             [val(mk, 's', P, 0, 1), val(mk, 's', P, 0, 2)])]
                    out += [('rot grad = 0', G.rot(*P)[0], 0)]
                u = mkvector(mk, 'u', n)
                want = sum(a * b for a, b in zip(V(mk, 'u', P), grad(mk, 's', P)))
                cv = s.convection_by(u)
                out += [('convection u.grad s', cv(*P), [want])] + shape_kind(cv, n, 's')
                return out


@check.scenario('3d scalar, second derivatives', samples=3, tol=2e-2)
def _(mk):
    with env():
        P = at(mk, 3)
        G = mkscalar(mk, 's', 3).gradient
        return [('div grad', G.divergence(*P)[0], lap(mk, 's', P)), ('curl grad = 0', G.curl(*P), [0, 0, 0]),
                ('div curl = 0', mkvector(mk, 'v', 3).curl.divergence(*P)[0], 0)]


@check.scenario('2d scalar, steady, zero and second derivatives', samples=2, tol=2e-5)
def _(mk):
    C = get(W[2] + 'scalar:T2dScalar')
    with env():
        P = at(mk, 2)
        f = field(mk, 's', 2, steady=True)
        s = C(f, steady=True)
        X = P[1:]
        out = [('steady: time derivative', s.time_derivative(*P)[0], 0),
               ('steady: gradient', s.gradient(*P), [mk.uf('s', X, (1, 0)), mk.uf('s', X, (0, 1))])]
        # explicitly zero partial derivatives
        g = arity(2, lambda t, x, y: mk.uf('g', [x]))
        s = C(g, derivative=[0, None, 0])
        out += [('zero d/dt', s.time_derivative(*P)[0], 0), ('zero d/dy', s.gradient(*P), [mk.uf('g', X[:1], (1,)), 0])]
        # second derivatives given
        dd = {k: field(mk, 'q', 2, unit_d(2, k)) for k in [(0, 0), (1, 1), (1, 2), (2, 1), (2, 2)]}
        s = C(field(mk, 'q', 2), second_derivative=list(dd.values()))
        out += [('Laplacian from given second derivatives', s.Laplacian(*P), [lap(mk, 'q', P)])]
        for miss in range(5):
            L = list(dd.values())
            L[miss] = None
            s = C(field(mk, 'q', 2), second_derivative=L)
            out += [(f'Laplacian, second derivative {miss} missing', s.Laplacian(*P), [lap(mk, 'q', P)])]
        h = arity(2, lambda t, x, y: mk.uf('h', [y]))
        s = C(h, second_derivative=[0, 0, 0, 0, arity(2, lambda t, x, y: mk.uf('h', [y], (2,)))])
        out += [('zero d2/dx2', s.Laplacian(*P), [mk.uf('h', X[1:], (2,))])]
        return out


for n in (2, 3):
    @check.scenario(f'{n}d scalar algebra', samples=2, tol=1e-9)
    def _(mk, n=n):
        with env():
            P = at(mk, n)
            a, b = mkscalar(mk, 'a', n), mkscalar(mk, 'b', n)
            va, vb = val(mk, 'a', P), val(mk, 'b', P)
            out = [('sum', (a + b)(*P), [va + vb]), ('difference', (a - b)(*P), [va - vb]),
                   ('negative', (-a)(*P), [-va]), ('product', (a * b)(*P), [va * vb])]
            if n == 2:
                v = mkvector(mk, 'v', 2)
                v0, v1 = V(mk, 'v', P)
                out += [('number product', (a * 3)(*P), [3 * va]), ('product by a number', (2.5 * a)(*P), [va * mk.num(5) / 2]),
                        ('scalar * vector', (a * v)(*P), [va * v0, va * v1]),
                        ('scalar x vector', a.cross_product(v)(*P), [-va * v1, va * v0]),
                        ('vector x scalar', v.cross_product(a)(*P), [va * v1, -va * v0]),
                        ('vector x scalar (shortcut)', v.x(a)(*P), [va * v1, -va * v0]),
                        ('exp', a.exp(*P), [ap(mk, 'exp', va)]), ('exp, again', a.exp(*P), [ap(mk, 'exp', va)]),
                        ('log exp', a.exp.log()(*P), [ap(mk, 'log', ap(mk, 'exp', va))]),
                        ('abs', a.abs(*P)[0] ** 2, va * va), ('abs is not negative', bool(np.all(a.abs(*P)[0] >= 0)), True)]
                out += [('scalar * vector is a vector', (a * v).shape, (2,)), ('scalar x vector is a vector', a.cross_product(v).shape, (2,))]
            else:
                C = type(a)
                z = C(0)
                out += [('zero field', z(*P)[0], 0), ('gradient of zero', z.gradient(*P), [0, 0, 0]), ('- zero', (-z)(*P)[0], 0),
                        ('zero + b', (z + b)(*P), [vb]), ('zero d/dt', z.time_derivative(*P)[0], 0)]
                s = C(field(mk, 's', 3, steady=True), steady=True)
                out += [('steady: time derivative', s.time_derivative(*P)[0], 0)]
                s = C(arity(3, lambda t, x, y, z: mk.uf('g', [x, z])), derivative=[0, None, 0, None])
                out += [('zero partials', s.gradient(*P), [mk.uf('g', [P[1], P[3]], (1, 0)), 0, mk.uf('g', [P[1], P[3]], (0, 1))])]
                out[-1] = (out[-1][0], out[-1][1], out[-1][2])
            return out


# ---------------------------------------------------------------- vectors
def jgivens(n):
    yield ()
    for i in range(n):
        for j in range(n + 1):
            yield ((i, j),)
    yield tuple((i, j) for i in range(n) for j in range(n + 1))
    for i in range(n):
        for j in range(n + 1):
            yield tuple((a, b) for a in range(n) for b in range(n + 1) if (a, b) != (i, j))


for n in (2, 3):
    for gi, g in enumerate(jgivens(n)):
        quick = gi <= 1 + n * (n + 1)
        @check.scenario(f'{n}d vector operators, given {g if len(g) < 3 else "all but " + str([x for x in itertools.product(range(n), range(n + 1)) if x not in g])}',
                        samples=1, tol=2e-5, quick=True)
        def _(mk, n=n, g=g):
            C = get(W[n] + f'vector:T{n}dVector')
            mk.fn(*[v for k, v in vars(C).items() if callable(v) or isinstance(v, property)])
            with env():
                P = at(mk, n)
                v = mkvector(mk, 'v', n, g)
                out = [('value', v(*P), V(mk, 'v', P)), ('value at t', v[P[0]](*P[1:]), V(mk, 'v', P))]
                out += shape_kind(v, n, 'v')
                td = v.time_derivative
                out += [('time derivative', td(*P), [val(mk, f'v{i}', P, 0) for i in range(n)])] + shape_kind(td, n, 'v')
                out += [('divergence', v.divergence(*P), [div(mk, 'v', P)])] + shape_kind(v.divergence, n, 's')
                J = JV(mk, 'v', P)
                u = mkvector(mk, 'u', n)
                U = V(mk, 'u', P)
                cv = v.convection_by(u)
                out += [('convection (u.grad) v', cv(*P), [sum(U[j] * J[i][j] for j in range(n)) for i in range(n)])]
                out += shape_kind(cv, n, 'v')
                if n == 2:
                    out += [('rot', v.rot(*P), [rot(mk, 'v', P)]), ('gradient', v.gradient(*P), J),
                            ('curl', v.curl(*P), [[J[0][1], -J[0][0]], [J[1][1], -J[1][0]]])]
                    out += shape_kind(v.rot, n, 's') + shape_kind(v.gradient, n, 't') + shape_kind(v.curl, n, 't')
                    out += [('Laplacian', v.Laplacian(*P), [lap(mk, 'v0', P), lap(mk, 'v1', P)])]
                    out += [('rot of the gradient = 0', v.gradient.rot(*P), [0, 0])] if g in ((), ((0, 1),)) else []
                else:
                    out += [('curl', v.curl(*P), curl3(mk, 'v', P))] + shape_kind(v.curl, n, 'v')
                return out

for n in (2, 3):
    @check.scenario(f'{n}d vector algebra', samples=2, tol=1e-9)
    def _(mk, n=n):
        with env():
            P = at(mk, n)
            a, b = mkvector(mk, 'a', n), mkvector(mk, 'b', n)
            A, B = V(mk, 'a', P), V(mk, 'b', P)
            out = [('sum', (a + b)(*P), [x + y for x, y in zip(A, B)]), ('difference', (a - b)(*P), [x - y for x, y in zip(A, B)]),
                   ('negative', (-a)(*P), [-x for x in A]), ('times 3', (a * 3)(*P), [3 * x for x in A]),
                   ('-2.5 times', (-2.5 * a)(*P), [-x * mk.num(5) / 2 for x in A]),
                   ('dot', a.dot(b)(*P), [sum(x * y for x, y in zip(A, B))]), ('dot is a scalar', a.dot(b).shape, (1,))]
            c = a.cross_product(b)(*P)
            if n == 2:
                out += [('cross', c, [A[0] * B[1] - A[1] * B[0]]),
                        ('tensor product', a.tensor_product(b)(*P), [[x * y for y in B] for x in A]),
                        ('norm squared', a.norm(*P)[0] ** 2, A[0] * A[0] + A[1] * A[1]),
                        ('norm not negative', bool(np.all(a.norm(*P)[0] >= 0)) if not mk.symbolic else True, True)]
            else:
                out += [('cross', c, [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])]
            # zero components
            C = type(a)
            for i in range(n):
                f = [0] * n
                f[i] = field(mk, 'z', n)
                z = C(*f)
                out += [(f'only component {i}', z(*P), [val(mk, 'z', P) if k == i else 0 for k in range(n)]),
                        (f'only component {i}: divergence', z.divergence(*P), [val(mk, 'z', P, i + 1)])]
            s = C(*[field(mk, f's{i}', n, steady=True) for i in range(n)], steady=True)
            out += [('steady: time derivative', s.time_derivative(*P), [0] * n),
                    ('steady: divergence', s.divergence(*P), [sum(mk.uf(f's{i}', P[1:], unit_d(n - 1, i)) for i in range(n))])]
            # components evaluated together
            linked = arity(n, lambda t, *X: tuple(mk.uf(f'a{i}', [t] + list(X)) for i in range(n)))
            L = C(*[field(mk, f'a{i}', n) for i in range(n)], **{'v0v1_linked_object' if n == 2 else 'v0v1v2_linked_object': linked})
            out += [('linked components', L(*P), A)]
            # explicitly zero partial derivatives
            h = [arity(n, lambda t, *X, i=i: mk.uf(f'h{i}', [X[i]])) for i in range(n)]
            JM = [[None if i == j else 0 for j in range(n)] for i in range(n)]
            z = C(*h, Jacobian_matrix=JM)
            out += [('diagonal Jacobian: convection', z.convection_by(b)(*P), [B[i] * mk.uf(f'h{i}', [P[1 + i]], (1,)) for i in range(n)])]
            return out


@check.scenario('2d vector: time integral', samples=2, tol=1e-6)
def _(mk):
    C = get(W[2] + 'vector:T2dVector')
    with env():
        x, y = mk.pt('x'), mk.pt('y')
        c = [[mk.real(f'c{i}{k}') for k in range(2)] for i in range(2)]
        f = [arity(2, lambda t, x, y, i=i: mk.uf(f'p{i}', [x, y]) * (c[i][0] + c[i][1] * t)) for i in range(2)]
        v = C(*f)
        mk.fn(C.integral, C.___compute_integral___, C.___time_integrate___)
        out = []
        for t0, t1, h in ((0, 1, 0.3), (0.5, 0.25, 0.125), (1, 1, 0.1), (-1, 2.0, 5), (0.25, 0.75, 0.25)):
            I = v.integral(t0, h=h)
            want = [mk.uf(f'p{i}', [x, y]) * (c[i][0] * (t1 - t0) + c[i][1] * (t1 * t1 - t0 * t0) / 2) for i in range(2)]
            out += [(f'integral from {t0} to {t1}', I(t1, x, y), want)]
        return out


# ---------------------------------------------------------------- tensors
@check.scenario('2d tensor', samples=2, tol=2e-5)
def _(mk):
    C = get(W[2] + 'tensor:T2dTensor')
    mk.fn(*[v for k, v in vars(C).items() if callable(v) or isinstance(v, property)])
    with env():
        P = at(mk, 2)
        T = mktensor(mk, 't', 2)
        d = lambda i, j, *k: val(mk, f't{i}{j}', P, *k)
        return shape_kind(T, 2, 't') + [
            ('value', T(*P), [[d(0, 0), d(0, 1)], [d(1, 0), d(1, 1)]]), ('at t', T[P[0]](*P[1:]), [[d(0, 0), d(0, 1)], [d(1, 0), d(1, 1)]]),
            ('time derivative', T.time_derivative(*P), [[d(i, j, 0) for j in range(2)] for i in range(2)]),
            ('divergence', T.divergence(*P), [d(i, 0, 1) + d(i, 1, 2) for i in range(2)]),
            ('rot', T.rot(*P), [d(i, 1, 1) - d(i, 0, 2) for i in range(2)]),
            ('divergence of the curl of a vector = 0', mkvector(mk, 'v', 2).curl.divergence(*P), [0, 0])]


@check.scenario('3d tensor', samples=2, tol=2e-5)
def _(mk):
    C = get(W[3] + 'tensor:T3dTensor')
    mk.fn(*[v for k, v in vars(C).items() if callable(v) or isinstance(v, property)])
    with env():
        P = at(mk, 3)
        T = mktensor(mk, 't', 3)
        d = lambda i, j, *k: val(mk, f't{i}{j}', P, *k)
        return shape_kind(T, 3, 't') + [
            ('value', T(*P), [[d(i, j) for j in range(3)] for i in range(3)]), ('at t', T[P[0]](*P[1:]), [[d(i, j) for j in range(3)] for i in range(3)]),
            ('time derivative', T.time_derivative(*P), [[d(i, j, 0) for j in range(3)] for i in range(3)])]


# ---------------------------------------------------------------- the numerical derivative itself
@check.scenario('finite difference formulas', samples=3, tol=1e-5)
def _(mk):
    f = get('phyem.tools.numerical.derivative:derivative')
    mk.fn(f)
    x, h = mk.real('x', -1, 1), mk.real('h', 0.01, 0.1)
    c = [mk.real(f'c{i}') for i in range(5)]
    p = lambda x, k: sum(c[i] * x ** i for i in range(k + 1))
    out = [('central: exact for quadratics', f(lambda s: p(s, 2), x, h=h), c[1] + 2 * c[2] * x),
           ('default: exact for quadratics', f(lambda s: p(s, 2), x), c[1] + 2 * c[2] * x) if not mk.symbolic else ('-', 0, 0),
           ('central: error h^2/6 f""" for cubics', f(lambda s: p(s, 3), x, h=h), c[1] + 2 * c[2] * x + 3 * c[3] * x * x + c[3] * h * h),
           ('forward', f(lambda s: p(s, 2), x, method='forward', h=h), c[1] + 2 * c[2] * x + c[2] * h),
           ('backward', f(lambda s: p(s, 2), x, method='backward', h=h), c[1] + 2 * c[2] * x - c[2] * h)]
    return out


for n in (1, 2, 3):
    @check.scenario(f'numerical partial derivatives {n}d', samples=2, tol=2e-6)
    def _(mk, n=n):
        nm = 'T' + DIMS[n]
        A = get(NU + f'_{n}d.partial_derivative:NumericalPartialDerivative{nm}')
        B = get(NU + f'_{n}d.partial_derivative_as_functions:NumericalPartialDerivative{nm}Functions')
        mk.fn(*[v for c in (A, B) for v in vars(c).values() if callable(v)])
        with env():
            P = at(mk, n)
            f = field(mk, 'f', n)
            a, b = A(f, *P), B(f)
            out = []
            for i, c in enumerate('t' + DIMS[n]):
                out += [(f'd/d{c}', a.partial(c), val(mk, 'f', P, i)), (f'd/d{c} as function', b(c)(*P), val(mk, 'f', P, i))]
            out += [('total', list(a.total_partial), [val(mk, 'f', P, i) for i in range(n + 1)])]
            return out

    @check.unit(f'derivative checker {n}d')
    def _(led, n=n):
        def scn(mk):
            nm = 'T' + DIMS[n]
            A = get(NU + f'_{n}d.partial_derivative:NumericalPartialDerivative{nm}')
            rng = mk.rng
            X = [rng.uniform(-1, 1, (3, 4)) for _ in range(n)]
            t = float(rng.uniform(0, 1))
            f = field(mk, 'f', n)
            a = A(f, t, *X)
            out = []
            for i, c in enumerate('t' + DIMS[n]):
                chk = getattr(a, 'check_partial_' + c)
                out.append((f'accepts the true d/d{c}', bool(chk(field(mk, 'f', n, unit_d(n, i)))), True))
                for j in range(n + 1):
                    if j != i:
                        out.append((f'rejects d/d{j} for d/d{c}', bool(chk(field(mk, 'f', n, unit_d(n, j)))), False))
                out.append((f'rejects a locally wrong d/d{c}', bool(chk(arity(n, lambda *P: field(mk, 'f', n, unit_d(n, i))(*P) + 0.01 * (P[1] == X[0][1, 2])))), False))
            fs = [field(mk, 'f', n, unit_d(n, i)) for i in range(n + 1)]
            out.append(('check_total', list(map(bool, a.check_total(*fs))), [True] * (n + 1)))
            return out
        bounded_scenario(led, 'checker', scn, 2)


# ---------------------------------------------------------------- derivative checks when a mesh is given
class MseHttMeshPartial:
    def __init__(self, n):
        s = [(1.0, 0.3, 0.2), (0.1, 1.2, 0.4), (0.3, 0.2, 0.9)]
        def mp(k):
            return lambda *xi: [sum(s[i][j] * (xi[j] + 0.1 * k) for j in range(n)) + 0.2 * i for i in range(n)]
        self.composition = {k: Stub(ct=Stub(mapping=mp(k))) for k in (3, 7)}


@check.unit('given derivatives are checked on the mesh')
def _(led):
    def scn(mk):
        out = []
        def ok(f):
            try:
                f()
                return True
            except AssertionError:
                return False
        for n in (2, 3):
            m = MseHttMeshPartial(n)
            S, Vc = get(W[n] + f'scalar:T{n}dScalar'), get(W[n] + f'vector:T{n}dVector')
            true = [field(mk, 'f', n, unit_d(n, i)) for i in range(n + 1)]
            out.append((f'{n}d scalar: right derivatives accepted', ok(lambda: S(field(mk, 'f', n), derivative=true, mesh=m)), True))
            for i in range(n + 1):
                bad = [None] * (n + 1)
                bad[i] = true[(i + 1) % (n + 1)]
                out.append((f'{n}d scalar: wrong derivative {i} refused', ok(lambda: S(field(mk, 'f', n), derivative=bad, mesh=m)), False))
            if n == 2:
                keys = [(0, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
                sd = [field(mk, 'f', 2, unit_d(2, k)) for k in keys]
                out.append(('2d scalar: right second derivatives accepted', ok(lambda: S(field(mk, 'f', n), second_derivative=sd, mesh=m)), True))
                for i in range(5):
                    bad = [None] * 5
                    bad[i] = sd[(i + 1) % 5] if i != 2 else sd[0]
                    out.append((f'2d scalar: wrong second derivative {i} refused', ok(lambda: S(field(mk, 'f', n), second_derivative=bad, mesh=m)), False))
            fs = [field(mk, f'v{i}', n) for i in range(n)]
            JM = [[field(mk, f'v{i}', n, unit_d(n, j + 1)) for j in range(n)] for i in range(n)]
            TD = [field(mk, f'v{i}', n, unit_d(n, 0)) for i in range(n)]
            out.append((f'{n}d vector: right derivatives accepted', ok(lambda: Vc(*fs, Jacobian_matrix=JM, time_derivative=TD, mesh=m)), True))
            for i in range(n):
                for j in range(n):
                    bad = [[None] * n for _ in range(n)]
                    bad[i][j] = JM[i][(j + 1) % n]
                    out.append((f'{n}d vector: wrong derivative {i}{j} refused', ok(lambda: Vc(*fs, Jacobian_matrix=bad, mesh=m)), False))
                bad = [None] * n
                bad[i] = TD[(i + 1) % n]
                out.append((f'{n}d vector: wrong time derivative {i} refused', ok(lambda: Vc(*fs, time_derivative=bad, mesh=m)), False))
        return out
    bounded_scenario(led, 'mesh', scn, 2)


# ---------------------------------------------------------------- constants, factories, fields on lines
@check.scenario('constants and factories', samples=2, tol=2e-5)
def _(mk):
    vc = get('phyem.tools.vector_calculus')
    cfg = get(TS + '_2d.constant:CFGt')
    cfg3 = get(TS + '_3d.constant:CFG')
    cfg_t = get(TS + '_2d.constant:cfg_t')
    mk.fn(vc.scalar, vc.vector, vc.tensor, cfg, cfg3, cfg_t)
    with env():
        out = []
        c = mk.real('c')
        P2, P3, P1 = at(mk, 2), at(mk, 3), at(mk, 1)
        out += [('2d constant', cfg(c)()(*P2), c), ('3d constant', cfg3(c)()(*P3), c)]
        for k in (2, 0, -1.5, 2, 3):
            out += [(f'cached constant {k}', cfg_t(k)(*P2), [k])]
        for n, P in ((1, P1), (2, P2), (3, P3)):
            s = vc.scalar(field(mk, 's', n))
            out += [(f'scalar {n}d', s(*P), [val(mk, 's', P)])] + shape_kind(s, n, 's')
            if n > 1:
                v = vc.vector(*[field(mk, f'v{i}', n) for i in range(n)])
                out += [(f'vector {n}d', v(*P), V(mk, 'v', P))] + shape_kind(v, n, 'v')
                t = vc.tensor(*[field(mk, f't{i}{j}', n) for i in range(n) for j in range(n)])
                out += [(f'tensor {n}d', t(*P), [[val(mk, f't{i}{j}', P) for j in range(n)] for i in range(n)])] + shape_kind(t, n, 't')

        class M:
            def f1(self, t, x): return mk.uf('m', [t, x])
            def f2(self, t, x, y): return mk.uf('m', [t, x, y])
            def f3(self, t, x, y, z): return mk.uf('m', [t, x, y, z])
        for n, P in ((1, P1), (2, P2), (3, P3)):
            s = vc.scalar(getattr(M(), f'f{n}'))
            out += [(f'scalar {n}d from a method', s(*P), [mk.uf('m', P)]), ('its dimension', s.ndim, n)]
        C = get('phyem.src.config')
        for n, P in ((2, P2), (3, P3)):
            C.set_embedding_space_dim(n)
            s = vc.scalar(0)
            out += [(f'zero scalar {n}d', s(*P)[0], 0), ('its dimension', s.ndim, n)]
        return out


@check.scenario('fields on lines', samples=2, tol=1e-9)
def _(mk):
    G = get('phyem.tools.miscellaneous.geometries.m2n2')
    sol, vol = get(W[2] + 'scalar_on_lines:scalar_on_lines'), get(W[2] + 'vector_on_lines:vector_on_lines')
    mk.fn(sol, vol, get(W[2] + 'scalar_on_lines:_GenFunction_SOL_.__call__'), get(W[2] + 'vector_on_lines:_GenFunction_VOL_.__call__'))
    with env():
        L0, L1 = G.StraightSegment2((0, 0), (1, 0)), G.StraightSegment2((1, 0), (1, 2))
        L2 = G.StraightSegment2((1, 2), (0, 2))
        f = [field(mk, f'f{i}', 2) for i in range(2)]
        g = [field(mk, f'g{i}', 2) for i in range(2)]
        t = mk.real('t', 0, 1)
        s = sol((L0, f[0]), (L1, get(W[2] + 'scalar:T2dScalar')(f[1])), (L2, 4))
        v = vol((L0, (f[0], f[1])), (L1, get(W[2] + 'vector:T2dVector')(g[0], g[1])), (L2, (3, f[0])))
        x = np.array([0.25, 1.0, 0.5, 0.25, 1.0])
        y = np.array([0.0, 0.5, 0.5, 2.0, 0.0])       # on L0, on L1, nowhere, on L2, corner of L0 and L1
        at_ = lambda h, i: mk.uf(h, [t, x[i], y[i]])
        ws = [at_('f0', 0), at_('f1', 1), 0, 4, at_('f0', 4)]
        wx = [at_('f0', 0), at_('g0', 1), 0, 3, at_('f0', 4)]
        wy = [at_('f1', 0), at_('g1', 1), 0, at_('f0', 3), at_('f1', 4)]
        out = []
        xx, yy = np.array([[x[0], x[1]], [x[2], x[3]]]), np.array([[y[0], y[1]], [y[2], y[3]]])
        out += [('scalar, 1d points', s(t, x, y)[0], ws), ('scalar, 2d points', s(t, xx, yy)[0], ws[:4]),
                ('vector, 1d points', v(t, x, y), [wx, wy]), ('vector, 2d points', v(t, xx, yy), [wx[:4], wy[:4]]),
                ('vector components alone', [v._v0_(t, x, y), v._v1_(t, x, y)], [wx, wy])]
        for i in range(5):
            out += [(f'scalar at point {i}', s(t, float(x[i]), float(y[i]))[0], ws[i]),
                    (f'vector at point {i}', list(v(t, float(x[i]), float(y[i]))), [wx[i], wy[i]])]
        return out


# ---------------------------------------------------------------- continuous forms: d and its formal adjoint
KS = [(1, 0, 'outer'), (1, 0, 'inner')] + [(2, k, o) for k in (0, 1) for o in ('inner', 'outer')] + \
     [(3, k, o) for k in (0, 1, 2) for o in ('inner', 'outer')]


def as_components(mk, f, P): return [np.asarray(c) for c in f(*P)]


def mkfield(mk, name, n, k):
    return mkscalar(mk, name, n) if k in (0, n) else mkvector(mk, name, n)


CF = {'msehtt': 'phyem.msehtt.static.form.cf:MseHttStaticFormCF', 'msepy': 'phyem.msepy.form.cf:MsePyContinuousForm'}


def mkcf(impl, n, k, ori, fld):
    C = get(CF[impl])
    ab = Stub(indicator='Lambda', m=n, n=n, k=k, orientation=ori)
    space = Stub(abstract=ab, _imn_=('Lambda', n, n))
    S = get('phyem.src.spaces.continuous.Lambda:ScalarValuedFormSpace')
    if impl == 'msepy':
        a = S.__new__(S)
        object.__setattr__(a, '__dict__', dict(a.__dict__))
        a.__dict__.update(_mesh=Stub(m=n, n=n, ndim=n), _k=k, _orientation=ori)
        f = Stub(space=Stub(abstract=ab), abstract=Stub(space=a), mesh=Stub(regions=[0, 1]))
        c = C(f)
        c.field = fld
        return c, lambda r: r[1]
    c = C(Stub(space=space))
    c.field = fld
    return c, lambda r: r


for impl in CF:
    for n, k, ori in KS:
        @check.scenario(f'{impl} continuous forms m=n={n} k={k} {ori}: d, d d = 0, codifferential adjoint to d', samples=2, tol=3e-5)
        def _(mk, impl=impl, n=n, k=k, ori=ori):
            with env():
                P = at(mk, n)
                a, b = mkfield(mk, 'a', n, k), mkfield(mk, 'b', n, k + 1)
                ca, pick = mkcf(impl, n, k, ori, a)
                cb, _ = mkcf(impl, n, k + 1, ori, b)
                mk.fn(type(ca).exterior_derivative, type(ca).codifferential, type(ca).time_derivative, get('phyem.src.spaces.operators:_d_to_vc'),
                      get('phyem.src.spaces.operators:_d_ast_to_vc'))
                da = pick(ca.exterior_derivative())
                out = [('coboundary is the exterior derivative', pick(ca.coboundary())(*P), da(*P))]
                out += [('form of the next degree', tuple(da.shape), (1,) if k + 1 == n else (n,))]
                if k + 1 < n:
                    c2, _ = mkcf(impl, n, k + 1, ori, da)
                    dda = pick(c2.exterior_derivative())(*P)
                    out += [('d d = 0', dda, [0] * len(dda))]
                Vd = as_components(mk, da, P)
                sb = as_components(mk, b, P)
                sa = as_components(mk, a, P)
                if n == 1 and mk.symbolic is None:
                    pass
                cod = pick(cb.codifferential())
                Vc_ = as_components(mk, cod, P)
                # (da, b) - (a, d*b) is the divergence of the boundary flux, whatever a and b are
                lhs = sum(x * y for x, y in zip(Vd, sb)) - sum(x * y for x, y in zip(sa, Vc_))
                A = lambda i, *d: val(mk, 'a' if k in (0, n) else f'a{i}', P, *d)
                B = lambda i, *d: val(mk, 'b' if k + 1 == n else f'b{i}', P, *d)
                pr = lambda f, g, j: f(j) * g() + f() * g(j)        # d_j (f g)
                fa = lambda i: (lambda *d: A(i, *d))
                fb = lambda i: (lambda *d: B(i, *d))
                if n == 1:
                    flux = pr(fa(0), fb(0), 1)
                elif k == 0 and (n == 3 or ori == 'inner'):          # grad: div(a b)
                    flux = sum(pr(fa(0), fb(i), i + 1) for i in range(n))
                elif k == n - 1 and (n == 3 or ori == 'outer'):      # div: div(a b)
                    flux = sum(pr(fa(i), fb(0), i + 1) for i in range(n))
                elif n == 2 and k == 0:                              # (d_y a, -d_x a).b
                    flux = pr(fa(0), fb(0), 2) - pr(fa(0), fb(1), 1)
                elif n == 2 and k == 1:                              # rot: (d_x a1 - d_y a0) b
                    flux = pr(fa(1), fb(0), 1) - pr(fa(0), fb(0), 2)
                else:                                                # curl: div(a x b)
                    x = [(1, 2), (2, 0), (0, 1)]
                    flux = sum(pr(fa(p), fb(q), i + 1) - pr(fa(q), fb(p), i + 1) for i, (p, q) in enumerate(x))
                out += [('(da, b) - (a, d* b) is the boundary flux', lhs, flux)]
                td = pick(ca.time_derivative())(*P)
                out += [('time derivative', td, [A(i, 0) for i in range(len(sa))])]
                return out


@check.scenario('region-wise fields', samples=2, tol=1e-9)
def _(mk):
    R_ = get('phyem.tools.functions.region_wise_wrapper:RegionWiseFunctionWrapper')
    mk.fn(R_.__add__, R_.__sub__, R_.__neg__)
    with env():
        P = at(mk, 2)
        a, b = R_(), R_()
        for r in range(2):
            a[r], b[r] = mkvector(mk, f'a{r}', 2), mkvector(mk, f'b{r}', 2)
        out = []
        for r in range(2):
            A, B = V(mk, f'a{r}', P), V(mk, f'b{r}', P)
            out += [(f'sum {r}', (a + b)[r](*P), [x + y for x, y in zip(A, B)]), (f'difference {r}', (a - b)[r](*P), [x - y for x, y in zip(A, B)]),
                    (f'negative {r}', (-a)[r](*P), [-x for x in A])]
        return out


# ---------------------------------------------------------------- continuous forms of msepy: region by region
class Shift:
    r"""a field told apart by its name; its derivatives carry theirs."""
    def __init__(self, mk, name, n, shape): self.mk, self.name, self.ndim, self.shape = mk, name, n, shape
    def _is_time_space_func(self): return True
    def __getitem__(self, t):
        def at_(*x):
            def val(i): return self.mk.uf(f'{self.name}_{i}', [t] + list(x))
            if len(self.shape) == 1: return [val(i) for i in range(self.shape[0])]
            return [[val(f'{i}{j}') for j in range(self.shape[1])] for i in range(self.shape[0])]
        return at_
    def __getattr__(self, a):
        if a in ('time_derivative', 'gradient', 'curl', 'rot', 'divergence'): return Shift(self.mk, f'{self.name}.{a}', self.ndim, self.shape)
        raise AttributeError(a)
    def __neg__(self): return Shift(self.mk, f'-{self.name}', self.ndim, self.shape)


for n, kind, shape in [(1, 'scalar', (1,)), (2, 'scalar', (1,)), (2, 'vector', (2,)), (3, 'vector', (3,)), (2, 'tensor', (2, 2)), (3, 'tensor', (3, 3))]:
    @check.scenario(f'msepy continuous form, {n}d {kind}, regions of different sizes', samples=2, tol=1e-9)
    def _(mk, n=n, kind=kind, shape=shape):
        m = get('phyem.msepy.form.cf')
        bounds = [(0, 2), (2, 3), (3, 6)]
        cf = object.__new__(m.MsePyContinuousForm)
        fields = {r: Shift(mk, f'F{r}', n, shape) for r in range(3)}
        f = Stub(mesh=Stub(regions=range(3), elements=Stub(_elements_in_region=lambda r: bounds[r])), cf=cf,
                 abstract=Stub(space=Stub(mesh=Stub(m=n))))
        cf.__dict__.update(_f=f, _regions=range(3), _field=None, _shape=shape)
        out = []
        mk.fn(m.MsePyContinuousFormPartialTime.__call__, m.MsePyContinuousForm.__getitem__, m.MsePyContinuousForm.time_derivative, m.MsePyContinuousForm._proceed_field)
        t = mk.real('t', 0, 1)
        with np_patched(m):
            cf.field = fields
            dt = cf.time_derivative()
            out += [('regions of the time derivative', sorted(dt), [0, 1, 2])]
            out += [(f'time derivative in region {r}', dt[r].name, f'F{r}.time_derivative') for r in range(3)]
            for axis in (0, 1):
                sh = (6, 2) if axis == 0 else (2, 6)
                x = [mk.array(f'x{axis}{i}', sh, -1, 1) for i in range(n)]
                got = cf[t](*x, axis=axis)
                for e in range(6):
                    r = 0 if e < 2 else 1 if e < 3 else 2
                    for q in range(2):
                        ix = (e, q) if axis == 0 else (q, e)
                        for c in (range(shape[0]) if len(shape) == 1 else itertools.product(range(n), range(n))):
                            a = got[c] if len(shape) == 1 else got[c[0]][c[1]]
                            nm = c if len(shape) == 1 else f'{c[0]}{c[1]}'
                            out.append((f'axis {axis}: component {c} in element {e} at node {q}', a[ix], mk.uf(f'F{r}_{nm}', [t] + [xx[ix] for xx in x])))
        return out


# ---------------------------------------------------------------- bounded: constants at zero coordinates, merged boundary fields
@check.unit('constants everywhere, also on the coordinate planes')
def _(led):
    import phyem as ph
    cnt = 0
    for n in (1, 2, 3):
        ph.config.set_embedding_space_dim(n)
        for c in (0, 2.5, -3):
            fs = []
            if n > 1:
                fs = [('cfg', get(TS + f'_{n}d.constant:' + ('CFGt' if n == 2 else 'CFG'))(c)())]
            if n == 2: fs.append(('cfg_t', get(TS + '_2d.constant:cfg_t')(c)))
            if c == 0 and n > 1: fs.append(('scalar', lambda *a, c=c: ph.vc.scalar(c)(*a)[0]))
            for lab, f in fs:
                for t in (0, 0., -1.5):
                    for P in ([0.] * n, [0., 1., -2.][:n], [np.zeros(4)] * n, [np.array([[0., 1.], [2., 0.]])] * n):
                        cnt += 1
                        try: v = f(t, *P)
                        except NotImplementedError: continue
                        if np.shape(v) not in ((), np.shape(P[0]), (1,)) or not np.all(np.asarray(v, dtype=float) == c):
                            raise Violation(f'{n}d constant {c} ({lab}) at {P}, t={t}', dict(got=str(v)))
    led.bounded.append(('constants', f'{cnt} evaluations'))


@check.unit('checks of a derivative accept it and refuse others')
def _(led):
    cnt = 0
    for n, nm in ((1, 'tx'), (2, 'txy'), (3, 'txyz')):
        C = get(NU + f'_{n}d.partial_derivative:NumericalPartialDerivative{nm.title()}')
        for scale in (1., 1e4, 1e-3):
            f = lambda t, *x: scale * np.exp(.3 * t) * np.prod([np.sin(1.1 * q + .4 + i) for i, q in enumerate(x)], axis=0)
            def d(j):
                def g(t, *x):
                    a = [np.sin(1.1 * q + .4 + i) for i, q in enumerate(x)]
                    if j: a[j - 1] = 1.1 * np.cos(1.1 * x[j - 1] + .4 + j - 1)
                    return scale * np.exp(.3 * t) * np.prod(a, axis=0) * (1 if j else .3)
                return g
            X = [np.linspace(.1 + .1 * i, .8, 5) for i in range(n)]
            pat = {1: (lambda h: lambda t, x: h(t, x)), 2: (lambda h: lambda t, x, y: h(t, x, y)), 3: (lambda h: lambda t, x, y, z: h(t, x, y, z))}[n]
            o = C(pat(f), 2., *X)
            for j, a in enumerate(nm):
                chk = getattr(o, f'check_partial_{a}')
                for k, w in enumerate((1., 1.05, 0.9)):
                    h = pat(lambda t, *x: w * d(j)(t, *x))
                    cnt += 1
                    big = scale >= 1 or w == 1.
                    if big and bool(chk(h)) != (k == 0): raise Violation(f'{n}d: check_partial_{a} of a derivative times {w}', dict(scale=scale))
    led.bounded.append(('derivative checks', f'{cnt} checks'))


@check.unit('a field merged with a form over a part of the boundary', real=True)
def _(led):
    import phyem as ph
    cnt = 0
    for sides in ([1, 0, 0, 1], [0, 1, 1, 0], [0, 1, 0, 0]):
        ph.config.set_embedding_space_dim(2)
        man = ph.manifold(2); mesh = ph.mesh(man); ph.space.set_mesh(mesh)
        ns = dict(man=man, mesh=mesh)
        ns['f'] = ph.space.new('Lambda', 1, orientation='outer').make_form('f', 'f')
        mesh.boundary_partition('G1', 'G2')
        ph.space.finite(3)
        ms, obj = ph.fem.apply('msepy', ns)
        bm = ms.base['manifolds'][man._sym_repr]
        ms.config(bm)('crazy', c=0., bounds=[[0, 1], [0, 2]], periodic=False)
        g1 = ms.base['manifolds']['G1']
        ms.config(g1)(bm, {0: sides})
        ms.config(ms.base['meshes'][mesh._sym_repr])([2, 3])
        f = obj['f']
        ff = [lambda t, x, y: x * y + t, lambda t, x, y: x - 2 * y]
        f.cf = ph.vc.vector(*ff)
        t = .5
        f[t].reduce()
        vv = [lambda t, x, y: 30 + np.cos(x) * t, lambda t, x, y: 30 + y + t * x]
        w = ph.vc.vector(*vv)._merge_msepy_form_over_boundary(f, g1)
        s = np.linspace(.07, .93, 9)
        for side, (x, y) in enumerate([(0 * s + 1e-7, 2 * s), (0 * s + 1 - 1e-7, 2 * s), (s, 0 * s + 1e-7), (s, 0 * s + 2 - 1e-7)]):
            got = w(t, x, y)
            for i in range(2):
                want = (ff if sides[side] else vv)[i](t, x, y)
                cnt += len(s)
                if not np.max(np.abs(got[i] - want)) < 2e-2: raise Violation(f'side {side}, component {i}: {"the form" if sides[side] else "the field itself"}', dict(sides=sides, got=list(map(float, got[i])), want=list(map(float, want))))
    led.bounded.append(('merged fields', f'{cnt} values'))
