"""C12: similarity solutions in physical coordinates are boundary layers."""
import itertools

import numpy as np

from ibl.analytic import Blasius, FalknerSkan

from mc.core import Result
from mc.util import close

LEVEL = "exploration"
RULE = ("every combination of beta, reference velocity, viscosity, density, "
        "streamwise location and way of getting there (constructed, "
        "reference values changed afterwards, beta reset afterwards): edge "
        "velocity, wall and edge values, continuity and momentum equation, "
        "integral thicknesses, shear, dissipation, transpiration velocity and "
        "shape factors are compared with each other through finite "
        "differences and quadrature of the reported velocities; scalar "
        "and array arguments agree. Non-trivial: beta differs from zero.")
ASSUMPTIONS = ["locations downstream of the origin and up to the reported "
               "maximum similarity coordinate", "beta below 2",
               "edge velocities within 40 decades of the "
               "reference velocity", "agreement to 1e-4 of the local scale (finite differences)"]
RHO = (1.0, 1.19)
QUERY = ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d",
         "shape_k")


def cases(tier):
    if tier == "quick":
        betas = [None, -.19, -.1, 0.0, .25, .5, 1.0, 1.6]
        us, nus, xs = (1.0, 3.0, 40.0), (1e-5, .5), (1e-4, .02, 1.0, 60.0)
    else:
        betas = [None] + [round(-.198 + .0314*i, 4) for i in range(70)] \
            + [0.0, .5, 1.0]
        us, nus, xs = (.1, 1.0, 3.0, 40.0, 900.0), (1e-6, 1e-5, .5, 1.0), \
            (1e-8, 1e-4, .001, .02, 1.0, 2.5, 70.0, 1e4)
    # edge velocities whose square is a number
    return [{"beta": b, "us": us, "nus": nus,
             "xs": [x for x in xs
                    if abs((b or 0)*np.log10(x)) <= 100*(2 - (b or 0))]}
            for b in betas]


def make(case, u, nu, way, sol):
    """None as beta: the Blasius solution."""
    b = case["beta"]
    e, f = sol
    if b is None:
        if way == "ctor":
            return Blasius(u, nu)
        s = Blasius(17.0, .03)
        s.u_ref = u
        s.nu_ref = nu
        return s
    if way == "ctor":
        return FalknerSkan(b, u, nu, eta_inf=e, fw_pp=f)
    if way == "set":
        s = FalknerSkan(b, 17.0, .03, eta_inf=e, fw_pp=f)
        s.delta_d(1.0)
        s.u_ref = u
        s.nu_ref = nu
        return s
    s = FalknerSkan(.9, u, nu, eta_inf=5.0, fw_pp=1.2)
    s.delta_d(1.0)
    s.reset_m(b/(2 - b), eta_inf=e, fw_pp=f)
    return s


def simpson(v, h):
    return h/3*(v[0] + v[-1] + 4*v[1:-1:2].sum() + 2*v[2:-1:2].sum())


def d1(fun, x, h):
    return (fun(x - 2*h) - 8*fun(x - h) + 8*fun(x + h) - fun(x + 2*h))/(12*h)


def d2(fun, x, h):
    return (-fun(x - 2*h) + 16*fun(x - h) - 30*fun(x) + 16*fun(x + h)
            - fun(x + 2*h))/(12*h*h)


def check(s, beta, u, nu, x, rho):
    m = 0.0 if not beta else beta/(2 - beta)
    ue = float(s.u_e(x))
    if not close(ue, u*x**m, 1e-10):
        return f"u_e({x}) is {ue}, should be {u*x**m}"
    due = m*ue/x
    steep = max(1.0, abs(m)/4)    # of the edge velocity in x
    # own transformation of the documented similarity coordinate
    b = beta or 0.0
    g = np.sqrt(ue/((2 - b)*nu*x))
    ymax = s.eta_inf/g
    y = np.linspace(0, ymax, 2001)
    xs = np.full_like(y, x)
    if not close(s.eta(xs, y), y*g, 1e-10):
        return f"eta at x={x} is off by {np.abs(s.eta(xs, y)/(y*g)).max()}"
    vel = s.u(xs, y)
    h = y[1]
    if abs(vel[0]) > 1e-12*ue or abs(float(s.v(x, 0.0))) > 1e-12*ue:
        return f"velocity at the wall is {vel[0]}, {s.v(x, 0.0)}"
    if not close(vel[-1], ue, 1e-6):
        return f"velocity at the edge is {vel[-1]}, u_e is {ue}"
    r = vel/ue
    grad = s.f_pp(y*g)*g*ue
    want = {"delta_d": simpson(1 - r, h), "delta_m": simpson(r*(1 - r), h),
            "delta_k": simpson(r*(1 - r*r), h)}
    for q, w in want.items():
        if not close(getattr(s, q)(x), w, 2e-5):
            return f"{q}({x}) is {getattr(s, q)(x)}, profile gives {w}"
    if not close(s.u(x, float(s.delta_s(x))), .99*ue, 1e-7):
        return f"u at delta_s is {s.u(x, float(s.delta_s(x)))/ue} u_e"
    for q in ("shape_d", "shape_k"):
        w = want["delta_d" if q == "shape_d" else "delta_k"]/want["delta_m"]
        if not close(s.__getattribute__(q)(x), w, 4e-5):
            return f"{q} is {getattr(s, q)(x)}, profile gives {w}"
    hy = 5e-3/g
    slope = (-25*s.u(x, 0.0) + 48*s.u(x, hy) - 36*s.u(x, 2*hy)
             + 16*s.u(x, 3*hy) - 3*s.u(x, 4*hy))/(12*hy)
    tau = float(s.tau_w(x, rho))
    if not close(tau, rho*nu*slope, 1e-5, 2e-5*rho*nu*ue*g):
        return f"tau_w({x}) is {tau}, slope at the wall gives {rho*nu*slope}"
    if not close(s.dissipation(x, rho), rho*nu*simpson(grad**2, h), 2e-5):
        return (f"dissipation({x}) is {s.dissipation(x, rho)}, profile gives "
                f"{rho*nu*simpson(grad**2, h)}")
    w = d1(lambda q: float(s.u_e(q)*s.delta_d(q)), x, 1e-3*x/steep)
    if not close(s.v_e(x), w, 1e-6):
        return f"v_e({x}) is {s.v_e(x)}, growth of u_e delta_d gives {w}"
    for e in np.linspace(.05, .97, 12)*s.eta_inf:
        yy = e/g
        hx, hy = 2e-3*x/steep, 1e-2/g
        uu, vv = float(s.u(x, yy)), float(s.v(x, yy))
        ux = d1(lambda q: float(s.u(q, yy)), x, hx)
        uy = d1(lambda q: float(s.u(x, q)), yy, hy)
        vy = d1(lambda q: float(s.v(x, q)), yy, hy)
        if not abs(ux + vy) < 2e-5*steep*ue/x*(1 + abs(e)):
            return f"continuity at eta={e}: u_x={ux}, v_y={vy}"
        uyy = d2(lambda q: float(s.u(x, q)), yy, hy)
        lhs, rhs = uu*ux + vv*uy, ue*due + nu*uyy
        if not abs(lhs - rhs) < 1e-4*steep*ue*ue/x:
            return f"momentum at eta={e}: {lhs} and {rhs}"
        if not close(uy, ue*g*float(s.f_pp(e)), 1e-4, 1e-5*ue*g):
            return f"slope at eta={e} is {uy}, from f'' {ue*g*s.f_pp(e)}"
    # momentum integral equation
    dm, dd = float(s.delta_m(x)), float(s.delta_d(x))
    ddm = d1(lambda q: float(s.delta_m(q)), x, 1e-3*x/steep)
    lhs = ddm + (2*dm + dd)*due/ue
    if not close(lhs, tau/(rho*ue*ue), 1e-5, 1e-6*(abs(ddm) + dm/x)):
        return f"momentum integral: {lhs} and {tau/(rho*ue*ue)}"
    return None


def shapes(s, xs):
    x = np.array(xs)
    x2 = np.array([x, x[::-1]])
    y = .3/np.sqrt(np.asarray(s.u_e(x), float)/(s.nu_ref*x))
    for q in QUERY + ("tau_w", "dissipation"):
        fun = getattr(s, q)
        if q in ("tau_w", "dissipation"):
            def fun(v, _f=getattr(s, q)):
                return _f(v, 1.3)
        one = np.array([float(fun(float(v))) for v in xs])
        if not close(fun(x), one, 1e-12):
            return f"{q} of an array is {fun(x)}, of scalars {one}"
        if not close(fun(x2), [one, one[::-1]], 1e-12):
            return f"{q} of a 2D array is {fun(x2)}, of scalars {one}"
        if not close(fun(np.array([1, 2])), [fun(1.0), fun(2.0)], 1e-12):
            return f"{q} of integers is {fun(np.array([1, 2]))}"
    n = 3001        # long arrays hold what short ones hold
    x3 = np.geomspace(.1, 10.0, n)[np.arange(n)*7 % n]
    y3 = .3/np.sqrt(np.asarray(s.u_e(x3), float)/(s.nu_ref*x3))
    for q in QUERY + ("tau_w", "dissipation", "u", "v", "eta"):
        def ask(k, _f=getattr(s, q), _q=q):
            if _q in ("u", "v", "eta"):
                return _f(x3[k], y3[k])
            return _f(x3[k], 1.3) if _q in ("tau_w", "dissipation") else \
                _f(x3[k])
        many = ask(slice(None))
        few = np.concatenate([ask(slice(i, i + 50)) for i in range(0, n, 50)])
        if not close(many, few, 1e-12):
            return f"{q} of {n} locations differs from that of few"
        if not close(many[-1], ask(n - 1), 1e-12):
            return f"{q} of {n} locations differs from that of one"
    for q in ("u", "v", "eta"):
        fun = getattr(s, q)
        one = np.array([float(fun(float(a), float(b)))
                        for a, b in zip(x, y)])
        if not close(fun(x, y), one, 1e-12):
            return f"{q} of an array is {fun(x, y)}, of scalars {one}"
    return None


def run_case(case):
    res = Result()
    b = case["beta"]
    base = Blasius(1.0, 1.0) if b is None else FalknerSkan(b, 1.0, 1.0)
    sol = (base.eta_inf, base.fw_pp)
    ways = ("ctor", "set") if b is None else ("ctor", "set", "reset")
    for u, nu, way in itertools.product(case["us"], case["nus"], ways):
        s = make(case, u, nu, way, sol)
        sub = {"beta": b, "us": [u], "nus": [nu], "xs": case["xs"]}
        msg = shapes(s, case["xs"])
        for x, rho in itertools.product(case["xs"], RHO):
            if abs((b or 0.0)/(2 - (b or 0.0))*np.log10(x)) > 40:
                continue    # nothing left of the velocities in doubles
            if msg is None:
                msg = check(s, b, u, nu, x, rho)
            res.count(evaluations=1, nontrivial=int(bool(b)))
        if msg:
            res.fail(f"beta={b} u_ref={u} nu_ref={nu} {way}: {msg}", sub)
            return res
        res.outcome(b, u, nu, round(float(s.delta_d(1.0)), 12))
    res.sample({"beta": b, "u_ref": case["us"][-1]})
    return res
