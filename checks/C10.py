r"""C10: the sample conditions and manufactured solutions satisfy the equations and conditions they state."""
import numpy as np
from pv.run import *
from pv.run import get, np_patched, Stub, Check, _bc
from pv import sym
from pv.fields import env as field_env, exact_derivative, ExactND, arity, unit_d
import pv.run as R

check = Check('C10')
SA = 'phyem.tools.samples.'
PW = 'phyem.tools.gen_piece_wise'
TOL = 2e-4


def tan_h(x): return _bc(lambda a: sym.S(a).tanh(), [x])


class env:
    r"""the field environment of C09 + the names the sample modules import from numpy."""
    def __init__(self, *mods):
        p = R.NPProxy()
        self.a = field_env()
        m = [get(SA + x) for x in mods] + [get(PW)]
        repl = dict(sin=p.sin, cos=p.cos, exp=p.exp, sqrt=p.sqrt, tanh=tan_h, pi=sym.PI, zeros_like=p.zeros_like)
        self.b = np_patched(*m, **(repl if R.MODE['symbolic'] else {}))

    def __enter__(self):
        self.a.__enter__()
        self.b.__enter__()

    def __exit__(self, *a):
        self.b.__exit__(*a)
        self.a.__exit__(*a)


def P2(mk, lo=0, hi=1): return [mk.real('t', 0, 1), mk.pt('X', lo, hi), mk.pt('Y', lo, hi)]


def P3(mk, lo=0, hi=1): return P2(mk, lo, hi) + [mk.pt('Z', lo, hi)]


def comp(mk, F, i, P, *ds):
    r"""the partial derivatives (0 = t, 1 = x ..) of component i of the field F, at P."""
    f = lambda *Q: F(*Q)[i]
    for d in ds[:-1]:
        f = (lambda g, d: lambda *Q: mk.D(g, list(Q), d))(f, d)
    return mk.D(f, list(P), ds[-1]) if ds else f(*P)


def d_(mk, F, P, i, *ds): return comp(mk, F, i, P, *ds)


def div(mk, F, P): return sum(d_(mk, F, P, i, i + 1) for i in range(len(P) - 1))


def grad(mk, F, P): return [d_(mk, F, P, 0, i) for i in range(1, len(P))]


def curl(mk, F, P):
    D = lambda i, j: d_(mk, F, P, i, j)
    return [D(2, 2) - D(1, 3), D(0, 3) - D(2, 1), D(1, 1) - D(0, 2)]


def rot2(mk, F, P): return d_(mk, F, P, 1, 1) - d_(mk, F, P, 0, 2)


def curl2(mk, F, P): return [d_(mk, F, P, 0, 2), -d_(mk, F, P, 0, 1)]


def dt(mk, F, P): return [d_(mk, F, P, i, 0) for i in range(len(F(*P)))]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def add(*vs): return [sum(x) for x in zip(*vs)]


def mul(c, v): return [c * x for x in v]


def boundary(mk, cond, P, sides, label):
    r"""cond(Q, axis) evaluated on the six faces."""
    out = []
    for ax in range(len(P) - 1):
        for s in sides:
            Q = list(P)
            Q[ax + 1] = (_bc(lambda a: s, [P[ax + 1]]) if mk.symbolic else 0 * P[ax + 1] + float(s))
            out += [(f'{label} on the face {"xyz"[ax]}={s!r} [{k}]', w, 0) for k, w in enumerate(cond(Q, ax))]
    return out


def tangential(F): return lambda Q, ax: [F(*Q)[j] for j in range(len(Q) - 1) if j != ax]


def vanishing(F): return lambda Q, ax: list(F(*Q))


def normal(F): return lambda Q, ax: [F(*Q)[ax]]


def periodic(mk, F, P, L, label):
    out = []
    for ax in range(len(P) - 1):
        Q = list(P)
        Q[ax + 1] = Q[ax + 1] + L
        out.append((f'{label} is periodic in {"xyz"[ax]}', list(F(*Q)), list(F(*P))))
    return out


def fns(mk, o):
    C = o if isinstance(o, type) else type(o)
    mk.fn(*[v for k, v in vars(C).items() if callable(v) or isinstance(v, (property, staticmethod))])


# ================================================================ 2d
@check.scenario('base 2d conditions', tol=TOL)
def _(mk):
    B = get(SA + '_base_2d:_TwoDimensionalConditionBase')
    fns(mk, B)
    with env('_base_2d'):
        b, P = B(), P2(mk, -1, 1)
        return [('zero scalar', b.zero_scalar(*P), [0]), ('zero vector', b.zero_vector(*P), [0, 0]),
                ('one', b.one_scalar(*P), [1]), ('half', b.half_scalar(*P), [mk.num(1) / 2]),
                ('minus one', b.minus_one_scalar(*P), [-1]), ('steady', b.half_scalar.time_derivative(*P), [0])]


@check.scenario('Taylor-Green vortex', tol=TOL, samples=2)
def _(mk):
    C = get(SA + 'manuSolution_NS2:ManufacturedSolutionNS2TGV')
    fns(mk, C)
    with env('manuSolution_NS2'):
        Re = mk.real('Re', 1, 100)
        s, P = C(Re=Re), P2(mk)
        u, p = s.u, s.p
        U = u(*P)
        lapu = [d_(mk, u, P, i, 1, 1) + d_(mk, u, P, i, 2, 2) for i in (0, 1)]
        adv = [U[0] * d_(mk, u, P, i, 1) + U[1] * d_(mk, u, P, i, 2) for i in (0, 1)]
        gp = grad(mk, p, P)
        return [('div u = 0', div(mk, u, P), 0), ('div_u', s.div_u(*P)[0], 0), ('body force f = 0', s.f(*P), [0, 0]),
                ('omega = rot u', s.omega(*P)[0], rot2(mk, u, P)),
                ('total pressure', s.P(*P)[0], p(*P)[0] + (U[0] * U[0] + U[1] * U[1]) / 2),
                ('momentum balance (convective form)', [a + b - c / Re + g for a, b, c, g in
                                                        zip(dt(mk, u, P), adv, lapu, gp)], [0, 0]),
                ('Re', s.Re, Re)] + periodic(mk, u, P, 2, 'u') + periodic(mk, p, P, 2, 'p')


@check.scenario('Eigen2', tol=TOL)
def _(mk):
    C = get(SA + 'manuSolution_Eigen2:Eigen2')
    fns(mk, C)
    with env('manuSolution_Eigen2'):
        s = C((mk.real('ox', 1, 4), mk.real('oy', 1, 4)), tuple(mk.real(f'phi{i}', -1, 1) for i in range(3)))
        P = P2(mk)
        a, b = s.a, s.b
        return [('da/dt = div b', dt(mk, a, P)[0], div(mk, b, P)), ('db/dt = grad a', dt(mk, b, P), grad(mk, a, P)),
                ('scalar is a', s.scalar(*P), a(*P)), ('vector is b', s.vector(*P), b(*P))]


@check.scenario('MHD 2d, ideal', tol=TOL)
def _(mk):
    C = get(SA + 'manuSolution_MHD2:ManufacturedSolutionMHD2Ideal1')
    fns(mk, C)
    with env('manuSolution_MHD2'):
        c, Rm, Rf = mk.real('c', 1, 3), mk.real('Rm', 1, 9), mk.real('Rf', 1, 9)
        s, P = C(c=c, Rm=Rm, Rf=Rf), P2(mk)
        u, B, E, Pr = s.u, s.B, s.E, s.P
        U, b, w = u(*P), B(*P), rot2(mk, u, P)
        W = s.omega
        j = rot2(mk, B, P)
        cw = curl2(mk, W, P)
        f = [x + y + z / Rf - c * q + g for x, y, z, q, g in zip(
            dt(mk, u, P), [-w * U[1], w * U[0]], cw, [-j * b[1], j * b[0]], grad(mk, Pr, P))]
        return [('u = curl of the stream function', list(U), curl2(mk, s.streamfunction, P)),
                ('div u = 0', div(mk, u, P), 0), ('div B = 0', div(mk, B, P), 0), ('divB', s.divB(*P)[0], 0),
                ('B_t + curl E = 0', add(dt(mk, B, P), curl2(mk, E, P)), [0, 0]),
                ('omega = rot u', W(*P)[0], w), ('j = rot B', s.j(*P)[0], j),
                ('m = j/Rm - E - u x B', s.m(*P)[0], j / Rm - E(*P)[0] - (U[0] * b[1] - U[1] * b[0])),
                ('f closes the momentum equation', s.f(*P), f), ('c', s.c, c), ('Rm', s.Rm, Rm), ('Rf', s.Rf, Rf)]


@check.scenario('PNPNS 2d, periodic', tol=2e-3)
def _(mk):
    C = get(SA + 'manuSolution_PNPNS2:Manufactured_Solution_PNPNS_2D_PeriodicDomain1')
    fns(mk, C)
    with env('manuSolution_PNPNS2'):
        eps, sh = mk.real('eps', .1, .3), mk.real('sh', 3, 5)
        s, P = C(epsilon=eps, shift=sh), P2(mk)
        out = []
        for f, g, d in [('_u', '_ut', 0), ('_u', '_ux', 1), ('_u', '_uy', 2), ('_v', '_vt', 0), ('_v', '_vx', 1),
                        ('_v', '_vy', 2), ('_sp', '_sp_t', 0), ('_sp', '_sp_x', 1), ('_sp', '_sp_y', 2),
                        ('_p', '_pt', 0), ('_p', '_px', 1), ('_p', '_py', 2), ('_psi', '_psi_t', 0),
                        ('_psi', '_psi_x', 1), ('_psi', '_psi_y', 2), ('_psi_t', '_psi_tt', 0),
                        ('_psi_x', '_psi_xx', 1), ('_psi_x', '_psi_xy', 2), ('_psi_y', '_psi_yx', 1),
                        ('_psi_y', '_psi_yy', 2)]:
            out.append((f'{g} is the derivative of {f}', getattr(s, g)(*P), mk.D(getattr(s, f), P, d)))
        p, n, psi, u, q = s.p, s.n, s.psi, s.u, s.static_pressure
        lap = lambda F: d_(mk, F, P, 0, 1, 1) + d_(mk, F, P, 0, 2, 2)
        U, gpsi, gp, gn = u(*P), grad(mk, psi, P), grad(mk, p, P), grad(mk, n, P)
        pv, nv = p(*P)[0], n(*P)[0]
        ln = (lambda x: _bc(lambda a: sym.S(a).log(), [x])) if mk.symbolic else np.log
        tp = q(*P)[0] + (U[0] * U[0] + U[1] * U[1]) / 2
        out += [('n = p + eps Laplacian psi', nv, pv + eps * lap(psi)), ('div u = 0', div(mk, u, P), 0),
                ('div_u', s.div_u(*P)[0], 0), ('omega', s.omega(*P)[0], rot2(mk, u, P)),
                ('mu = ln p + psi', s.mu(*P)[0], ln(pv) + psi(*P)[0]),
                ('nu = ln n - psi', s.nu(*P)[0], ln(nv) - psi(*P)[0]),
                ('delta = ln p', s.delta(*P)[0], ln(pv)), ('theta = ln n', s.theta(*P)[0], ln(nv)),
                ('tau = grad mu', list(s.tau(*P)), grad(mk, s.mu, P)),
                ('chi = grad nu', list(s.chi(*P)), grad(mk, s.nu, P)),
                ('p tau = grad p + p grad psi', list(s.pTau(*P)), add(gp, mul(pv, gpsi))),
                ('n chi = grad n - n grad psi', list(s.nChi(*P)), add(gn, mul(-nv, gpsi))),
                ('total pressure', s.total_pressure(*P)[0], tp), ('phi', s.phi(*P)[0], tp - pv - nv)]
        F = s.source_f(*P)
        want = [dt(mk, u, P)[i] + U[0] * d_(mk, u, P, i, 1) + U[1] * d_(mk, u, P, i, 2)
                - d_(mk, u, P, i, 1, 1) - d_(mk, u, P, i, 2, 2) + grad(mk, q, P)[i] + (pv - nv) * gpsi[i] for i in (0, 1)]
        out += [('source of the momentum equation', list(F), want)]
        conv = lambda g: U[0] * g[0] + U[1] * g[1]
        dotg = lambda g: g[0] * gpsi[0] + g[1] * gpsi[1]
        out += [('source of the p equation', s.source_p(*P)[0],
                 dt(mk, p, P)[0] + conv(gp) - lap(p) - dotg(gp) - pv * lap(psi)),
                ('source of the n equation', s.source_n(*P)[0],
                 dt(mk, n, P)[0] + conv(gn) - lap(n) + dotg(gn) + nv * lap(psi))]
        for nm in ('p', 'n', 'psi', 'u', 'static_pressure'):
            out += periodic(mk, getattr(s, nm), P, 2 * mk.pi, nm)
        return out


# ================================================================ 3d MHD
def mhd3(mk, s, P, hall, B0=True, solenoidal=True):
    u, B, E, Pr, W, J = s.u, s.B, s.E, s.P, s.omega, s.j
    U, b, e, w, j = list(u(*P)), list(B(*P)), list(E(*P)), curl(mk, u, P), curl(mk, B, P)
    jb = cross(j, b)
    m = add(mul(1 / s.Rm, j), mul(-1, e), mul(-1, cross(U, b)))
    if hall:
        m = add(m, mul(s.eta, jb))
    f = add(dt(mk, u, P), cross(w, U), mul(1 / s.Rf, curl(mk, W, P)), mul(-s.c, jb), grad(mk, Pr, P))
    out = ([('div u = 0', div(mk, u, P), 0)] if solenoidal else []) + [('div B = 0', div(mk, B, P), 0), ('divB', s.divB(*P)[0], 0),
           ('B_t + curl E = 0', add(dt(mk, B, P), curl(mk, E, P)), [0, 0, 0]),
           ('omega = curl u', list(W(*P)), w), ('j = curl B', list(J(*P)), j),
           ('m closes Ohm\'s law', list(s.m(*P)), m), ('f closes the momentum equation', list(s.f(*P)), f)]
    if B0:
        out.append(('B(t=0) = 0', list(B(0, *P[1:])), [0, 0, 0]))
    return out


def params(mk, hall):
    k = dict(c=mk.real('c', 1, 3), Rm=mk.real('Rm', 1, 9), Rf=mk.real('Rf', 1, 9))
    if hall:
        k['eta'] = mk.real('eta', 1, 2)
    return k


def helpers(mk, mod, table, P):
    return [(f'{g} is the derivative of {f}', getattr(mod, g)(*P) + 0 * P[1], mk.D(getattr(mod, f), P, d))
            for f, g, d in table]


E6 = [('Ex', 'dEx_dy', 2), ('Ex', 'dEx_dz', 3), ('Ey', 'dEy_dx', 1), ('Ey', 'dEy_dz', 3), ('Ez', 'dEz_dx', 1),
      ('Ez', 'dEz_dy', 2)]


def exact_parts(mk, s, P):
    r"""constructor parameters are kept."""
    return [('Rm', s.Rm, s._Rm), ('Rf', s.Rf, s._Rf), ('c', s.c, s._c)]


for k in (0, 1):
    @check.scenario(f'MHD 3d #{k}', tol=2e-2, samples=1)
    def _(mk, k=k):
        m = get(SA + 'manuSolution_MHD3')
        C = getattr(m, f'ManufacturedSolutionMHD3_{k}')
        fns(mk, C)
        with env('manuSolution_MHD3'):
            kw = params(mk, False)
            s, P = C(**kw), P3(mk)
            out = mhd3(mk, s, P, False) + [(x, getattr(s, x), kw[x]) for x in kw]
            out += helpers(mk, m, E6 if k == 0 else [('_' + a, '_' + b, c) for a, b, c in E6], P)
            if k == 0:
                out += [('g', s.g(*P)[0], 0)]
            else:
                for x in ('u', 'B', 'E', 'P'):
                    out += periodic(mk, getattr(s, x), P, 2 * mk.pi, x)
                out += [('curl f', list(s.curl_f(*P)), curl(mk, s.f, P))] if mk.symbolic else []
            return out


for k, suffix in [(0, ''), (1, ''), (2, ''), (3, ''), (4, '_TemporalAccuracy')]:
    @check.scenario(f'Hall MHD 3d #{k}', tol=2e-2, samples=1)
    def _(mk, k=k, suffix=suffix):
        m = get(SA + 'manuSolution_Hall_MHD')
        C = getattr(m, f'ManufacturedSolution_Hall_MHD3_{k}{suffix}')
        fns(mk, C)
        fns(mk, m.ManufacturedSolution_Hall_MHD3_0)
        with env('manuSolution_Hall_MHD'):
            kw = params(mk, True)
            s, P = C(**kw), P3(mk)
            out = mhd3(mk, s, P, True, solenoidal=k != 3) + [(x, getattr(s, x), kw[x]) for x in kw]
            out += [('H = B', list(s.H(*P)), list(s.B(*P))), ('div_u = div u', s.div_u(*P)[0], div(mk, s.u, P))]
            if k in (0, 2):
                out += helpers(mk, m, E6, P)
            if k in (1, 3):
                out += helpers(mk, m, [(a + '1', b + '1', c) for a, b, c in E6], P)
            if k == 3:
                out += helpers(mk, m, [(a.replace('E', 'U') + '1', b.replace('E', 'U') + '1', c) for a, b, c in E6], P)
            if k == 4:
                out += helpers(mk, m, [(f'T4_{a}', f'T4_{a}_{b[-2:]}', c) for a, b, c in E6], P)
            if k in (0, 1, 2, 3):
                for x in ('u', 'B', 'E', 'P'):
                    out += periodic(mk, getattr(s, x), P, 2 * mk.pi, x)
            sides = [0, 1] if k == 4 else [0, 2 * mk.pi]
            bd = lambda c, l: boundary(mk, c, P, sides, l)
            if k in (1, 2, 4):
                out += bd(tangential(s.u), 'u x n = 0')
            if k in (1, 3, 4):
                out += bd(tangential(s.B), 'B x n = 0')
            if k == 2:
                out += bd(tangential(s.E), 'E x n = 0')
            if k == 3:
                out += bd(tangential(s.omega), 'omega x n = 0')
            if k:
                out += bd(vanishing(s.P), 'P = 0')
            return out


# ================================================================ initial conditions
def rest(mk, s, P):
    return [('g', list(s.g(*P)), [0]), ('f', list(s.f(*P)), [0, 0, 0]), ('m', list(s.m(*P)), [0, 0, 0])]


def initE(mk, s, P, Rm, eta):
    u, B = s.u_initial_condition, s.B_initial_condition
    j = curl(mk, B, P)
    return [('E = j/Rm - u x B + eta j x B', list(s.E_initial_condition(*P)),
             add(mul(1 / Rm, j), mul(-1, cross(u(*P), B(*P))), mul(eta, cross(j, B(*P)))))]


def init3(mk, s, P):
    u, B = s.u_initial_condition, s.B_initial_condition
    return [('div u = 0', div(mk, u, P), 0), ('div B = 0', div(mk, B, P), 0),
            ('omega = curl u', list(s.w_initial_condition(*P)), curl(mk, u, P)),
            ('j = curl B', list(s.j_initial_condition(*P)), curl(mk, B, P))]


@check.scenario('Hall MHD 3d, conservation initial condition', tol=5e-3)
def _(mk):
    C = get(SA + 'manuSolution_Hall_MHD:ManufacturedSolution_Hall_MHD3_Conservation0')
    fns(mk, C)
    with env('manuSolution_Hall_MHD'):
        kw = params(mk, True)
        s, P = C(**kw), P3(mk)
        u, B = s.u_initial_condition, s.B_initial_condition
        half = mk.num(1) / 2
        X = P[1:]
        Z = X[2] * (X[2] - 1)
        h = [mk.pi * (a - half) for a in X]
        g = [mk.pi * a for a in X]
        out = init3(mk, s, P) + rest(mk, s, P) + initE(mk, s, P, kw['Rm'], kw['eta'])
        out += [('u as documented', list(u(*P)), [-mk.sin(h[0]) * mk.cos(h[1]) * Z, mk.cos(h[0]) * mk.sin(h[1]) * Z, 0]),
                ('B as documented', list(B(*P)), [mk.cos(g[0]) * mk.sin(g[1]) * Z, -mk.sin(g[0]) * mk.cos(g[1]) * Z, 0]),
                ('P = 0', list(s.P_boundary_condition(*P)), [0])]
        out += boundary(mk, tangential(u), P, [0, 1], 'u x n = 0') + boundary(mk, tangential(B), P, [0, 1], 'B x n = 0')
        return out


@check.scenario('Hall MHD 3d, null points', tol=5e-3)
def _(mk):
    C = get(SA + 'manuSolution_Hall_MHD:ManufacturedSolution_Hall_MHD3_NullPoints')
    fns(mk, C)
    with env('manuSolution_Hall_MHD'):
        kw = params(mk, True)
        s, P = C(**kw), P3(mk, -1, 1)
        s1 = C(c=1, **{k: v for k, v in kw.items() if k != 'c'})
        B = s.B_initial_condition
        return init3(mk, s, P) + rest(mk, s, P) + initE(mk, s, P, kw['Rm'], kw['eta']) + [
            ('u = 0', list(s.u_initial_condition(*P)), [0, 0, 0]),
            ('B as documented', list(B(*P)), [0, 0, -mk.num(2.5) * mk.sin(mk.pi * P[1])]),
            ('magnetic and hydrodynamic pressure are in balance (c = 1)', list(s1._f_init_(*P)), [0, 0, 0])]


@check.scenario('MHD 3d helicity test', tol=5e-3)
def _(mk):
    C = get(SA + 'condition_MHD3_Hu_helicity_test:MHD3_Helicity_Conservation_test1')
    fns(mk, C)
    with env('condition_MHD3_Hu_helicity_test'):
        s, P = C(), P3(mk)
        u, B = s.u_initial_condition, s.B_initial_condition
        g = [mk.pi * a for a in P[1:]]
        return init3(mk, s, P) + rest(mk, s, P) + boundary(mk, tangential(u), P, [0, 1], 'u x n = 0') \
            + boundary(mk, normal(B), P, [0, 1], 'B . n = 0') + [
                ('B as documented', list(B(*P)), [-mk.sin(g[0]) * mk.cos(g[1]), mk.cos(g[0]) * mk.sin(g[1]), 0])]


@check.scenario('NS 3d conservation', tol=5e-3)
def _(mk):
    C = get(SA + 'manuSolution_NS3:ManufacturedSolutionNS3Conservation1')
    fns(mk, C)
    with env('manuSolution_NS3'):
        Re = mk.real('Re', 1, 9)
        s, P = C(Re=Re), P3(mk)
        u = s.u
        tp = 2 * mk.pi
        return [('Re', s.Re, Re), ('div u = 0', div(mk, u, P), 0), ('div_u', s.div_u(*P)[0], 0),
                ('omega = curl u', list(s.omega(*P)), curl(mk, u, P)),
                ('u as published', list(u(*P)), [mk.cos(tp * P[3]), mk.sin(tp * P[3]), mk.sin(tp * P[1])])] + \
            periodic(mk, u, P, 1, 'u')


@check.scenario('Orszag-Tang vortex 2d', tol=5e-3)
def _(mk):
    C = get(SA + 'iniCond_Orszag_Tang_vortex:InitialConditionOrszagTangVortex')
    fns(mk, C)
    with env('iniCond_Orszag_Tang_vortex'):
        Rm = mk.real('Rm', 1, 9)
        s, P = C(Rm=Rm), P2(mk)
        t, x, y = P
        u, B = s.u, s.B
        ph = lambda t, x, y: 2 * mk.sin(y) - 2 * mk.cos(x)
        A = lambda t, x, y: mk.cos(2 * y) - 2 * mk.cos(x)
        U, b, j = u(*P), B(*P), rot2(mk, B, P)
        return [('u = curl phi', list(U), [mk.D(ph, P, 2), -mk.D(ph, P, 1)]),
                ('B = curl A', list(b), [mk.D(A, P, 2), -mk.D(A, P, 1)]),
                ('magnetic potential', s.magnetic_potential(*P)[0], A(*P)), ('H = B', list(s.H(*P)), list(b)),
                ('j = rot B', s.j(*P)[0], j), ('omega = rot u', s.omega(*P)[0], rot2(mk, u, P)),
                ('E = j/Rm - u x B', s.E(*P)[0], j / Rm - (U[0] * b[1] - U[1] * b[0])), ('f = 0', list(s.f(*P)), [0, 0]),
                ('div u = 0', div(mk, u, P), 0), ('div B = 0', div(mk, B, P), 0)] + \
            periodic(mk, u, P, 2 * mk.pi, 'u') + periodic(mk, B, P, 2 * mk.pi, 'B')


@check.scenario('Orszag-Tang vortex 3d', tol=5e-3)
def _(mk):
    C = get(SA + 'iniCond_Orszag_Tang_vortex:InitialConditionOrszagTangVortex_3D')
    fns(mk, C)
    with env('iniCond_Orszag_Tang_vortex'):
        Rm, eta = mk.real('Rm', 1, 9), mk.real('eta', 1, 9)
        s, P = C(Rm=Rm, eta=eta), P3(mk)
        u, B = s.u, s.B
        ph = lambda t, x, y, z: 2 * mk.sin(y) - 2 * mk.cos(x)
        A = lambda t, x, y, z: mk.cos(2 * y) - 2 * mk.cos(x)
        U, b, j = list(u(*P)), list(B(*P)), curl(mk, B, P)
        return [('u = curl phi', U, [mk.D(ph, P, 2), -mk.D(ph, P, 1), 0]),
                ('B = curl A', b, [mk.D(A, P, 2), -mk.D(A, P, 1), 0]),
                ('magnetic potential', list(s.magnetic_potential(*P)), [0, 0, A(*P)]), ('H = B', list(s.H(*P)), b),
                ('j = curl B', list(s.j(*P)), j), ('omega = curl u', list(s.omega(*P)), curl(mk, u, P)),
                ('E = j/Rm - u x B + eta j x B', list(s.E(*P)), add(mul(1 / Rm, j), mul(-1, cross(U, b)),
                                                                    mul(eta, cross(j, b)))),
                ('f = 0', list(s.f(*P)), [0, 0, 0]), ('zero', list(s.zero(*P)), [0, 0, 0]),
                ('div u = 0', div(mk, u, P), 0), ('div B = 0', div(mk, B, P), 0)]


@check.scenario('shear layer roll-up', tol=1e-6, samples=4)
def _(mk):
    C = get(SA + 'iniCond_shear_layer_rollup:InitialConditionShearLayerRollUp')
    fns(mk, C)
    mk.fn(get(PW + ':genpiecewise'))
    with env('iniCond_shear_layer_rollup'):
        de, ep = mk.real('delta', .1, .3), mk.real('eps', .01, .1)
        s, P = C(delta=de, epsilon=ep), P2(mk, 0, 6)
        t, x, y = P
        u, v = s.velocity(*P)
        th = tan_h if mk.symbolic else np.tanh
        y0 = y.ravel()[0]
        low = bool(y0 <= mk.pi)
        w = th((y - mk.pi / 2) / de) if low else th((3 * mk.pi / 2 - y) / de)
        return [('u', u, w), ('v = epsilon sin x', v, ep * mk.sin(x)), ('delta', s.delta, de), ('epsilon', s.epsilon, ep),
                ('default delta = pi/15', C().delta * 15, mk.num(np.pi) if mk.symbolic else np.pi), ('default epsilon', C().epsilon, mk.num(0.05))]


@check.scenario('loop advection', tol=1e-6, samples=4)
def _(mk):
    C = get(SA + 'iniCond_loop_advection:InitialCondition_LoopAdvection')
    fns(mk, C)
    with env('iniCond_loop_advection'):
        A0, Rr = mk.real('A0', .1, 1), mk.real('R', .2, .5)
        s = C(Lx=2, Ly=1, A0=A0, R=Rr)
        P = P2(mk, -1, 1)
        t, x, y = P
        r = mk.sqrt(x * x + y * y)
        inside = bool(r.ravel()[0] <= Rr)
        u = s.u(*P)
        A = s._potential(*P)[0]
        return [('potential', A, A0 * (Rr - r) if inside else 0 * r), ('u', list(u), [2 + 0 * x, 1 + 0 * x])]


def lid(name, mod, n):
    @check.scenario(name, tol=1e-9, samples=4)
    def _(mk):
        C = get(SA + f'{mod}:{name}')
        fns(mk, C)
        with env(mod):
            sp = mk.real('speed', -2, 2)
            s = C(lid_speed=sp)
            P = (P2 if n == 2 else P3)(mk)
            up = bool(P[2].ravel()[0] > mk.num(1) / 2)
            bc = list(s.velocity_boundary_condition_tangential(*P))
            lidv = sp if up else 0
            want = [lidv, 0] if n == 2 else [0, 0, lidv]
            out = [('lid velocity', bc, want), ('initial velocity', list(s.velocity_initial_condition(*P)), [0] * n),
                   ('initial vorticity', list(s.vorticity_initial_condition(*P)), [0] * (1 if n == 2 else 3))]
            if 'MHD' in name:
                out += [('B', list(s.B_initial_condition(*P)), [0, 1]), ('j', list(s.j_initial_condition(*P)), [0])]
            return out


lid('ConditionsLidDrivenCavity2', 'conditions_lid_driven_cavity', 2)
lid('ConditionsLidDrivenCavity3', 'conditions_lid_driven_cavity', 3)
lid('ConditionsLidDrivenCavity_2dMHD_1', 'conditions_lid_driven_cavity_MHD', 2)


@check.scenario('flow around a cylinder', tol=1e-9, samples=4)
def _(mk):
    C = get(SA + 'conditions_flow_around_cylinder_2d:ConditionsFlowAroundCylinder2')
    fns(mk, C)
    from phyem.msepy.mesh.main import MsePyMesh
    from phyem.msepy.manifold.predefined.cylinder_channel import _CylinderChannel
    with env('conditions_flow_around_cylinder_2d'):
        dl = mk.real('dl', 2, 10)
        s = object.__new__(C)
        conf = object.__new__(_CylinderChannel)
        object.__setattr__(conf, '_r', 1)
        object.__setattr__(conf, '_dl', dl)
        mesh = object.__new__(MsePyMesh)
        object.__setattr__(mesh, '_manifold', Stub(_configuration=conf))
        s.__init__(mesh)
        P = P2(mk, -10, 10)
        t, x, y = P
        inflow = bool(x.ravel()[0] < -mk.num(9) / 10 * dl)
        return [('boundary velocity', list(s.velocity_boundary_condition(*P)), [1 if inflow else 0, 0]),
                ('initial velocity', list(s.velocity_initial_condition(*P)), [0, 0]),
                ('initial vorticity', list(s.vorticity_initial_condition(*P)), [0])]


@check.scenario('discontinuous concentrations', tol=1e-9, samples=6)
def _(mk):
    m = get(SA + 'iniCond_PNPNS_InitialDiscontinuousConcentrations')
    C = m.Manufactured_Solution_PNPNS_2D_InitialDiscontinuousConcentrations
    fns(mk, C)
    mk.fn(m.___p0___, m.___n0___)
    lo = np_patched(m, **({'np': LogicNP()} if R.MODE['symbolic'] else {}))
    with env('iniCond_PNPNS_InitialDiscontinuousConcentrations'), lo:
        s = C()
        P = P2(mk)
        x, y = (a.ravel()[0] for a in P[1:])
        right = bool(x >= mk.num(3) / 4)
        pos = right and bool(y >= mk.num(11) / 20)
        neg = right and bool(y <= mk.num(9) / 20)
        small = mk.num(1e-6)
        return [('p', list(s.p(*P)), [1 if pos else small]), ('n', list(s.n(*P)), [1 if neg else small]),
                ('u', list(s.u(*P)), [0, 0]), ('omega', list(s.omega(*P)), [0])]


class LogicNP(R.NPProxy):
    @staticmethod
    def logical_and(a, b):
        return np.logical_and(a, b)


@check.scenario('normal dipole collision', tol=1e-6)
def _(mk):
    C = get(SA + 'conditions_normal_dipole_collision:ConditionsNormalDipoleCollision2')
    fns(mk, C)
    with env('conditions_normal_dipole_collision'):
        s = object.__new__(C)
        names = dict(_x1_=(-.3, .3), _y1_=(.05, .2), _x2_=(-.3, .3), _y2_=(-.2, -.05), _r0_square_=(.5, 1),
                     _abs_we_=(1, 3), _v_scale_=(1, 2))
        v = {k: mk.real(k, *b) for k, b in names.items()}
        for k, x in v.items():
            object.__setattr__(s, k, x)
        P = P2(mk, -1, 1)
        t, x, y = P
        # the velocity of two Gaussian monopoles of opposite circulation
        r1 = (x - v['_x1_']) * (x - v['_x1_']) + (y - v['_y1_']) * (y - v['_y1_'])
        r2 = (x - v['_x2_']) * (x - v['_x2_']) + (y - v['_y2_']) * (y - v['_y2_'])
        e1, e2 = mk.exp(-r1 / v['_r0_square_']), mk.exp(-r2 / v['_r0_square_'])
        k = v['_abs_we_'] * v['_v_scale_'] / 2
        u = s.velocity_initial_condition
        return [('velocity', list(u(*P)), [k * (-(y - v['_y1_']) * e1 + (y - v['_y2_']) * e2),
                                           k * ((x - v['_x1_']) * e1 - (x - v['_x2_']) * e2)]),
                ('div u = 0', div(mk, u, P), 0), ('vorticity', list(s.vorticity_initial_condition(*P))[0], rot2(mk, u, P)),
                ('boundary velocity', list(s.velocity_boundary_condition(*P)), [0, 0]),
                ('normal', list(s.normal_velocity_boundary_condition(*P)), [0]),
                ('tangential', list(s.tangential_velocity_boundary_condition(*P)), [0])]


@check.unit('normal dipole collision: the initial kinetic energy is K_scale')
def _(led):
    C = get(SA + 'conditions_normal_dipole_collision:ConditionsNormalDipoleCollision2')

    def scn(mk):
        x, w = np.polynomial.legendre.leggauss(140)
        X, Y = np.meshgrid(x, x, indexing='ij')
        out = []
        for kw in (dict(), dict(K_scale=3.5), dict(r0=0.2, we1=-10, we2=10, K_scale=1, y1=.3, y2=-.2, x1=.1)):
            s = C(**kw)
            e = .5 * np.einsum('ij,i,j->', s.u(0, X, Y)**2 + s.v(0, X, Y)**2, w, w)
            out.append((f'energy {kw}', e, kw.get('K_scale', 2)))
            out.append((f'abs we {kw}', s._abs_we_, abs(kw.get('we1', 320))))
        return out
    bounded_scenario(led, 'normal dipole energy', scn, 1, 1e-6)


@check.scenario('L-shape singularity', tol=2e-2, samples=3)
def _(mk):
    C = get(SA + 'manuSolution_L_singularity:ManufacturedSolutionLSingularity')
    fns(mk, C)
    cp = get('phyem.tools.functions.space._2d.Cartesian_polar_coordinates_switcher')
    mk.fn(cp.CartPolSwitcher.cart2pol)
    with env('manuSolution_L_singularity'), np_patched(cp):
        s, P = C(), P2(mk)
        P[1], P[2] = mk.pt('X', .2, 1), mk.pt('Y', -1, -.2)
        a = mk.num(2/3)
        th = (R.NPProxy if mk.symbolic else np).arctan2(P[2], P[1])
        r = mk.sqrt(P[1] * P[1] + P[2] * P[2])
        ph = s.potential
        return [('harmonic', d_(mk, ph, P, 0, 1, 1) + d_(mk, ph, P, 0, 2, 2), 0),
                ('value', ph(*P)[0], r**(2/3) * mk.sin(a * (th + mk.pi / 2)))]


# ================================================================ piecewise evaluation
@check.scenario('genpiecewise: every point gets the value of its condition', tol=1e-12, samples=6)
def _(mk):
    g = get(PW + ':genpiecewise')
    mk.fn(g)
    with env():
        n = 3
        x, y = mk.array('x', (n,), -1, 1), mk.array('y', (n,), -1, 1)
        c = mk.real('c', -.5, .5)
        f = mk.func('f')
        h = mk.func('h')
        F, H = (lambda a, b: f(a, b)), (lambda a, b: h(a, b))
        got = g([x, y], [x < c, x >= c], [F, H])
        pick = [bool(x[i] < c) for i in range(n)]
        want = [f(x[i], y[i]) if pick[i] else h(x[i], y[i]) for i in range(n)]
        dflt = g([x, y], [x < c], [F, H])
        hole = g([x, y], [x < c], [F], fillvalue=c)
        const = g([x, y], [x < c, x >= c], [F, c])
        return [('two pieces', list(got), want), ('default piece', list(dflt), want),
                ('fill value', list(hole), [w if p else c for w, p in zip(want, pick)]),
                ('constant piece', list(const), [w if p else c for w, p in zip(want, pick)])]


if __name__ == '__main__':
    check.main()
