"""C22: separation is found where the method says, and only there."""
import numpy as np

from ibl.ibl_method import TermReason
from mc import ref
from mc.core import Result
from mc.util import METHODS, close

LEVEL = "exploration"
RULE = ("every combination of method form, data fit or critical shape "
        "factor, adverse edge velocity of five families with each strength, "
        "viscosity, initial thickness, and end of the surface "
        "(beyond, just beyond, at a step from, just before and well before "
        "the separation point of an independent integration, and next to the "
        "one found): the solve has "
        "to stop there, say so, report the state there, and not stop before "
        "or without it. Non-trivial: the reference separates.")
ASSUMPTIONS = ["edge velocity gradients change over distances longer than "
               "the steps of the integration",
               "separation point to 6e-4 of the distance"]
CHUNK = 8

ENDS = [1.7, 1.002, .998, .6]


def family(name, a, U):
    """u, du, d2u of an adverse edge velocity of strength a."""
    f = {
        "linear": (lambda x: U*(1 - a*x), lambda x: -a*U + 0*x,
                   lambda x: 0*x),
        "square": (lambda x: U*(1 - .5*a*x*x), lambda x: -a*U*x,
                   lambda x: -a*U + 0*x),
        "power": (lambda x: U*(1 + x)**-a, lambda x: -a*U*(1 + x)**(-a-1),
                  lambda x: a*(a+1)*U*(1 + x)**(-a-2)),
        "hump": (lambda x: U*(1 + a*np.sin(2*x)),
                 lambda x: 2*a*U*np.cos(2*x),
                 lambda x: -4*a*U*np.sin(2*x)),
        "expo": (lambda x: U*np.exp(-a*x), lambda x: -a*U*np.exp(-a*x),
                 lambda x: a*a*U*np.exp(-a*x)),
    }
    return f[name]


FAMS = ["linear", "square", "power", "hump", "expo"]


def cases(tier):
    strengths = [.05, .3, .8] if tier == "quick" else \
        [.02, .05, .1, .2, .3, .5, .8, 1.2]
    nus = [1e-5, 1e-3] if tier == "quick" else [1e-6, 1e-5, 1e-3, .1]
    sizes = [.02, .4] if tier == "quick" else [.005, .02, .1, .4, .9]
    out = []
    for fam in FAMS:
        for a in strengths:
            for nu in nus:
                for k in ("lin", "non"):
                    for fit in ref.FITS:
                        for z in sizes:
                            out.append({"method": k, "fit": fit, "fam": fam,
                                        "a": a, "nu": nu, "size": z})
                for crit in ([1.6, 2.0, 2.4, 3.0] if tier == "quick" else
                             [1.5, 1.6, 1.8, 2.0, 2.2, 2.4, 2.7, 3.0]):
                    for re in ([300., 5e3] if tier == "quick" else
                               [150., 300., 1e3, 5e3, 1e5]):
                        for h in ((1.4,) if tier == "quick" else
                                  (1.3, 1.4, 1.48)):
                            out.append({"method": "head", "crit": crit,
                                        "fam": fam, "a": a, "nu": nu,
                                        "re": re, "h": h})
    # other lengths: thin layers on small bodies, thick ones on large bodies
    for L in ((.01, 300.0) if tier == "quick" else (1e-3, .01, .1, 20.0,
                                                    300.0, 5e3)):
        out += [{**c, "L": L} for c in out if "L" not in c
                and c["fam"] in ("linear", "expo") and (
                    c["nu"] == 1e-3 or tier != "quick")
                and c.get("fit") in (None, "Spline", "White", "custom3")]
    return out


def run_case(case):
    res = Result()
    m, nu = case["method"], case["nu"]
    L = case.get("L", 1.0)
    # L/U above 1e-5 s: absolute tolerance of the integration
    U = 1e4*min(1.0, 10*L)
    u, du, d2u = family(case["fam"], case["a"], U)
    if L != 1.0:
        one, nu = (u, du, d2u), nu*L
        def u(x): return one[0](x/L)
        def du(x): return one[1](x/L)/L
        def d2u(x): return one[2](x/L)/L**2
    far = {"linear": .8/case["a"], "square": np.sqrt(1.6/case["a"]),
           "hump": 1.5}.get(case["fam"], 3.0/case["a"])
    far = min(far, 4.0)*L
    s = METHODS[m](nu, u, du, d2u)
    if m == "head":
        dm0 = case["re"]*nu/U
        s.initial_delta_m = dm0
        s.initial_shape_d = case["h"]
        s.set_shape_d_critical(case["crit"])
        want = ref.head(u, du, nu, dm0, case["h"], case["crit"], 0.0, far)
    else:
        s.set_data_fits(ref.fit_arg(case["fit"]))
        z0 = case["size"]*.09*L/U
        dm0 = np.sqrt(z0*nu)
        s.initial_delta_m = dm0
        want = ref.thwaites(m, case["fit"], u, du, nu, dm0, 0.0, far)
    if not want.success:
        raise AssertionError("reference failed: " + want.message)
    xs = float(want.t_events[0][0]) if len(want.t_events[0]) else None
    if xs is not None:
        res.count(nontrivial=1)
        ends = [xs*e for e in ENDS]
        if case["fam"] == "hump":   # the flow is accelerated again
            ends[0] = min(ends[0], 2.2*L)
    else:
        ends = [far, .5*far]
    for x1 in ends:
        r = s.solve(0.0, x1)
        res.count(evaluations=1)
        if not r.success:
            res.fail(f"integration to {x1} failed: {r}", case)
            return res
        if xs is not None and x1 > xs:
            if r.status != TermReason.SEPARATED:
                res.fail(f"no separation reported up to {x1}: {r}, "
                         f"reference {xs}", case)
                return res
            if abs(r.x_end - xs) > 6e-4*xs:
                res.fail(f"separation at {r.x_end}, reference {xs}", case)
                return res
        elif r.status != TermReason.REACHED_END:
            res.fail(f"stopped before {x1}: {r}, reference {xs}", case)
            return res
        elif r.x_end != x1:
            res.fail(f"ended at {r.x_end} instead of {x1}", case)
            return res
        xe = float(r.x_end)
        y = want.sol(min(xe, float(want.t[-1])))
        got = np.asarray(r.f_end, float)
        # close to separation the state changes quickly
        if not close(got, y, 5e-3):
            res.fail(f"state at {xe} reported as {got}, reference {y}", case)
            return res
        here = [s.delta_m(xe)**2/nu] if m != "head" else \
            [s.delta_m(xe), s.shape_d(xe)]
        if not close(np.ravel(here), got, 1e-6):
            res.fail(f"state at {xe} reported as {got}, solution {here}",
                     case)
            return res
        if m == "head" and xs is not None and x1 > xs and \
                not close(s.shape_d(xe), case["crit"], 1e-5):
            res.fail(f"shape factor at separation {s.shape_d(xe)}", case)
            return res
        if m != "head" and xs is not None and x1 > xs:
            tau = s.tau_w(xe, 1.0)/s.tau_w(0.0, 1.0)
            lo = ref.FITS[case["fit"]][3]
            lam = got[0]*du(xe)
            if min(ref.S(case["fit"], lam), lam - lo) > 1e-5:
                res.fail(f"separation at lambda {lam}, relative shear {tau}",
                         case)
                return res
    if xs is not None:   # ends next to the separation point it finds itself
        found = s.solve(0.0, ends[0])
        for z, want in ((1.0007, TermReason.SEPARATED),
                        (.9993, TermReason.REACHED_END)):
            x1 = found.x_end*z
            r = s.solve(0.0, x1)
            res.count(evaluations=1)
            if r.status != want or not close(
                    r.x_end, min(x1, found.x_end), 6e-4):
                res.fail(f"separated at {found.x_end}, and up to {x1}: {r}",
                         case)
                return res
    res.outcome(m, case.get("fit"), case.get("crit"), case["fam"], case["a"],
                None if xs is None else round(xs, 5))
    res.sample({**case, "separation": xs})
    return res
