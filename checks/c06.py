"""C06: turbulent solutions satisfy Head's documented equations."""
import numpy as np

from mc import ref
from mc.core import Result
from mc.flows import ALL, flow
from mc.util import METHODS, close

LEVEL = "exploration"
RULE = ("the full product of edge velocity x velocity scale x viscosity x "
        "start x initial momentum thickness Reynolds number x initial shape "
        "factor x order of setting them; momentum thickness, shape factor, "
        "displacement thickness and wall shear at every probe compared with "
        "an independent eighth order integration of the momentum integral "
        "and entrainment equations with independently written closures. "
        "Non-trivial: the shape factor changes by more than 1 %.")
ASSUMPTIONS = ["velocities above and shape factors clear of the code's "
               "limits (.001 and 1.11)", "agreement to 3e-4"]
CHUNK = 4


def cases(tier):
    nus = [1.5e-5, 1e-3] if tier == "quick" else [1e-6, 1.5e-5, 1e-4, 1e-2]
    scale = [10.0, 2e3] if tier == "quick" else [2.0, 10.0, 150.0, 2e3]
    starts = [0.0, .3] if tier == "quick" else [0.0, -.05, .3, .6]
    res = [300.0, 2e4] if tier == "quick" else [120.0, 300.0, 3e3, 2e4, 5e5]
    shapes = [1.3, 1.59, 1.7] if tier == "quick" else \
        [1.22, 1.3, 1.4, 1.59, 1.61, 1.7, 2.1]
    out = []
    for fl in ALL:
        for U in scale:
            for nu in nus:
                for x0 in starts:
                    for re in res:
                        for h in shapes:
                            out.append({"flow": fl, "U": U, "nu": nu,
                                        "x0": x0, "re": re, "h": h})
    # very slow flows
    for fl in ALL:
        for U in ((4e-3, .012) if tier == "quick" else (2.5e-3, 4e-3, .012)):
            for h in shapes:
                out.append({"flow": fl, "U": U, "nu": U*1e-6, "x0": 0.0,
                            "re": 3e3, "h": h})
    # slow flows, starts below zero, and short and long bodies
    more = [(.5, 1.0, 0.0), (.02, 1.0, 0.0), (10.0, 1.0, -.05),
            (10.0, 50.0, 0.0), (2e3, .02, .3)]
    if tier != "quick":
        more += [(U, L, x0) for U in (.1, 1e4) for L in (1e-3, .1, 10.0, 1e3)
                 for x0 in (-.05, .3)]
    for fl in ALL:
        for U, L, x0 in more:
            for h in shapes:
                out.append({"flow": fl, "U": U, "nu": 1.5e-5, "x0": x0*L,
                            "re": 500.0 if h < 1.4 else 3e3, "h": h, "L": L})
    return out


def run_case(case):
    res = Result()
    res.count(evaluations=1)
    L = case.get("L", 1.0)
    u, du, d2u = flow(case["flow"], case["U"], L)
    nu, x0, h0 = case["nu"], case["x0"], case["h"]
    x1 = x0 + .6*L
    dm0 = case["re"]*nu/u(x0)
    crit = 2.4
    s = METHODS["head"](nu, u, du, d2u)
    if case["re"] > 1000:
        s.initial_delta_m = dm0
        s.initial_shape_d = h0
    else:
        s.initial_shape_d = h0
        s.initial_delta_m = dm0
    r = s.solve(x0, x1)
    want = ref.head(u, du, nu, dm0, h0, crit, x0, x1)
    if not want.success:
        raise AssertionError("reference failed: " + want.message)
    if not r.success:
        res.fail(f"integration failed: {r}", case)
        return res
    if abs(r.x_end - want.t[-1]) > 2e-3*(x1 - x0):
        res.fail(f"ended at {r.x_end}, reference at {want.t[-1]}", case)
        return res
    end = min(float(r.x_end), float(want.t[-1]))
    xs = np.linspace(x0, x0 + .95*(end - x0), 9)
    d, h = want.sol(xs)
    if h.min() < 1.15:
        return res      # close to where the closure is limited
    cf = np.array([ref.ludwieg_tillman(a*b/nu, c)
                   for a, b, c in zip(u(xs), d, h)])
    tau = .5*1.3*u(xs)**2*cf
    tol = 3e-4
    for name, got, exp in (("delta_m", s.delta_m(xs), d),
                           ("shape_d", s.shape_d(xs), h),
                           ("delta_d", s.delta_d(xs), d*h),
                           ("tau_w", s.tau_w(xs, 1.3), tau)):
        if not close(got, exp, tol*(3 if name == "tau_w" else 1)):
            res.fail(f"{name} {got}, reference {exp}", case)
            return res
    for name, got, exp in (("delta_m", s.delta_m(x0), dm0),
                           ("shape_d", s.shape_d(x0), h0)):
        if not close(got, exp, 1e-9):
            res.fail(f"{name} starts at {got}, set to {exp}", case)
            return res
    res.outcome(np.round(d/d[0], 3).tolist(), np.round(h, 3).tolist())
    if abs(h/h[0] - 1).max() > .01:
        res.count(nontrivial=1)
    res.sample({**case, "x": xs[-1], "delta_m": d[-1], "shape_d": h[-1]})
    return res
