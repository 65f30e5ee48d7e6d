"""C11: similarity solutions solve the Falkner-Skan problem for every beta."""
import numpy as np
from scipy.integrate import solve_ivp

from ibl.analytic import Blasius, FalknerSkan

from mc import fsref
from mc.core import Result
from mc.util import close

LEVEL = "exploration"
RULE = ("every beta of a grid over the documented range, refined towards "
        "separation and around zero, for every way of getting there "
        "(constructor, reset_beta, reset_m, after another beta); the "
        "solution's profiles and its four thicknesses are compared with a "
        "collocation solution in which beta is the unknown, and user chosen "
        "end or wall values with an own integration. Non-trivial: beta "
        "differs from zero.")
ASSUMPTIONS = ["locations up to the reported maximum similarity coordinate",
               "agreement to 2e-6"]


def grid(n, k):
    b = [round(-.1988 + 2.1988*i/n, 6) for i in range(n + 1)]
    b += [round(-.1988 + .0188*i/k, 6) for i in range(k + 1)]
    b += [round(-.04 + .08*i/k, 6) for i in range(k + 1)]
    # next to the values that other solutions are known for
    b += [c + d*10.0**-j for c in (-.1, 0.0, .5, 1.0, 2.0) for d in (-1, 1)
          for j in range(2, 7) if c + d*10.0**-j <= 2]
    b += [0.0, .5, 1.0, 2.0, -.1988, 1.99, 1.995, 1.9999]
    return sorted(set(b))


def cases(tier):
    g = grid(60, 16) if tier == "quick" else grid(900, 150)
    out = []
    for i, b in enumerate(g):
        ways = ["ctor", "reset", "m"] if tier != "quick" else \
            [["ctor", "reset", "m"][i % 3]]
        for w in ways:
            if w == "m" and b == 2.0:
                out.append({"beta": b, "way": "minf"})
            else:
                out.append({"beta": b, "way": w})
    out.append({"beta": -0.19884, "way": "ctor"})
    ways = ["ctor", "reset", "m", "params"]
    for b in (-.1, 0.0, .3):
        for e in (5.0, 6.0, 7.0):
            for w in ways:
                out.append({"beta": b, "way": w, "eta_inf": e})
    for b, ef in ((0.0, ((6.0, .7), (5.0, 1.0), (4.0, .6))),
                  (.2, ((6.0, .7), (5.0, 1.0))), (.5, ((5.0, 1.0),))):
        for e, f in ef:
            for w in ways:
                out.append({"beta": b, "way": w, "eta_inf": e, "fw_pp": f})
    # the wall value of the solution itself, without a far end
    for b in (-.15, -.1, 0.0, .1, .3, .5, .8, 1.0, 1.5, 2.0):
        for w in ways[:3]:
            if w != "m" or b != 2:
                out.append({"beta": b, "way": w, "wall": True})
    for way in ("blasius", "blasius search"):
        out.append({"beta": 0.0, "way": way})
    out.append({"beta": 0.0, "way": "blasius", "eta_inf": 6.0})
    out.append({"beta": 0.0, "way": "blasius", "eta_inf": 6.0,
                "fw_pp": .47})
    return out


def obtain(case):
    b, way = case["beta"], case["way"]
    kw = {k: case[k] for k in ("eta_inf", "fw_pp") if k in case}
    if "wall" in case:
        kw["fw_pp"] = FalknerSkan(b, 2.0, 1e-5).fw_pp
    if way == "reset":
        s = FalknerSkan(.9, 2.0, 1e-5, eta_inf=5.0, fw_pp=1.2)
        s.reset_beta(b, **kw)
    elif way == "m":
        s = FalknerSkan(.9, 2.0, 1e-5, eta_inf=5.0, fw_pp=1.2)
        s.reset_m(b/(2 - b), **kw)
    elif way == "minf":
        s = FalknerSkan(.9, 2.0, 1e-5, eta_inf=5.0, fw_pp=1.2)
        s.reset_m(np.inf)
    elif way == "params":
        s = FalknerSkan(b, 2.0, 1e-5, eta_inf=5.5, fw_pp=1.2)
        s.set_solution_parameters(**kw)
    elif way == "blasius":
        s = Blasius(2.0, 1e-5, **kw)
    elif way == "blasius search":
        s = Blasius(2.0, 1e-5)
        s.set_solution_parameters()
    else:
        s = FalknerSkan(b, 2.0, 1e-5, **kw)
    return s


def profile(beta, fw_pp, eta):
    r = solve_ivp(lambda e, f: [f[1], f[2], -f[0]*f[2] - beta*(1 - f[1]**2)],
                  [0, eta[-1]], [0, 0, fw_pp], method="DOP853", rtol=1e-11,
                  atol=1e-13, t_eval=eta)
    return r.y


def check(s, case):
    beta = case["beta"]
    if not isinstance(s, Blasius):
        if abs(s.beta - beta) > 1e-12:
            return f"beta is {s.beta}"
        m = np.inf if beta == 2 else beta/(2 - beta)
        if not close(s.m, m, 1e-9, 1e-12):
            return f"m is {s.m}, should be {m}"
    for k in ("eta_inf", "fw_pp"):
        if k in case and not close(getattr(s, k), case[k], 1e-12):
            return f"{k} given as {case[k]} is {getattr(s, k)}"
    eta = np.linspace(0, s.eta_inf, 41)
    own = profile(beta, s.fw_pp, eta)
    got = np.array([s.f(eta), s.f_p(eta), s.f_pp(eta)])
    if not np.abs(got - own).max() < 5e-6:
        return (f"not a solution of the equation: differs by "
                f"{np.abs(got - own).max()}")
    if not np.abs(got[:, 0] - [0, 0, s.fw_pp]).max() < 1e-12:
        return f"wall values are {got[:, 0]}"
    # thicknesses are integrals of the reported profile
    fine = np.linspace(0, s.eta_inf, 4001)
    fp = s.f_p(fine)
    h = fine[1]

    def integral(v):
        return h/3*(v[0] + v[-1] + 4*v[1:-1:2].sum() + 2*v[2:-1:2].sum())
    exact = "fw_pp" not in case
    tol = 1e-5 if "eta_inf" not in case else 1e-3
    want = {"eta_d": integral(1 - fp)}
    if exact:
        want["eta_m"] = integral(fp*(1 - fp))
        want["eta_k"] = integral(fp*(1 - fp**2))
    else:
        want["eta_k"] = integral(2*got_f(s, fine)*fp*s.f_pp(fine))
        want["eta_m"] = (s.fw_pp - beta*want["eta_d"])/(1 + beta)
    for k, w in want.items():
        if not close(getattr(s, k), w, tol, tol):
            return f"{k} is {getattr(s, k)}, integral of profile is {w}"
    if abs(float(s.f_p(s.eta_s)) - .99) > 1e-9 or not 0 < s.eta_s < s.eta_inf:
        return f"at eta_s={s.eta_s} the velocity is {s.f_p(s.eta_s)}"
    if (fp[fine < s.eta_s - 1e-9] > .99 + 1e-9).any():
        return f"velocity exceeds .99 before eta_s={s.eta_s}"
    if "fw_pp" in case:
        return None
    if abs(got[1, -1] - 1) > 1e-6:
        return f"velocity at the edge is {got[1, -1]}"
    if "eta_inf" in case:
        return None
    if abs(got[2, -1]) > 1e-6:
        return f"slope at the edge is {got[2, -1]}"
    ref = fsref.solve(s.fw_pp)
    if abs(ref.p[0] - beta) > 2e-7:
        return (f"f''(0)={s.fw_pp} belongs to beta={ref.p[0]}, not {beta}")
    err = np.abs(got - ref.sol(eta)).max()
    if err > 2e-6:
        return f"differs from the collocation solution by {err}"
    edge = ref.x[-1] - ref.y[0, -1]
    if abs(s.eta_d - edge) > 2e-6:
        return f"eta_d {s.eta_d}, collocation {edge}"
    if (np.diff(fp) < -1e-9).any() or fp.max() > 1 + 1e-6:
        return "velocity profile is not monotone up to the edge velocity"
    return None


def got_f(s, eta):
    return s.f(eta)


def run_case(case):
    res = Result()
    res.count(evaluations=1, nontrivial=int(case["beta"] != 0))
    try:
        s = obtain(case)
        msg = check(s, case)
        if "wall" in case and not msg and \
                s.fw_pp != FalknerSkan(case["beta"], 2.0, 1e-5).fw_pp:
            msg = f"wall value given is {s.fw_pp}"
    except ValueError as ex:
        res.fail(f"no solution: {ex}", case)
        return res
    if msg:
        res.fail(msg, case)
    res.outcome(round(s.fw_pp, 9), round(s.eta_inf, 6))
    res.sample({**case, "fw_pp": s.fw_pp, "eta_inf": s.eta_inf,
                "eta_m": s.eta_m})
    return res
