"""C23: solutions of moved, scaled, cut and extended problems correspond."""
import itertools

import numpy as np

from mc.core import Result
from mc.flows import flow
from mc.ref import fit_arg
from mc.util import METHODS, close
from mc.drive import Ev

LEVEL = "exploration"
RULE = ("the full product of method (and data fit) x edge velocity (also as "
        "tables) x shift of the origin x length scale x velocity scale x "
        "viscosity scale (laminar) x places where the solve is cut and "
        "continued from the state reported there (with the same solver or a "
        "new one) x end location, and from the end against the flow; thickness, shape factor, wall shear, "
        "transpiration velocity, the end and the status are compared with "
        "those of the original problem mapped in the same way. Non-trivial: "
        "at least one of the maps is not the identity.")
ASSUMPTIONS = ["edge velocities far above the 1e-3 the code adds to them",
               "agreement to 6e-4 (interpolation between steps of the "
               "integration; 3e-3 for tables), for the transpiration velocity 1e-2 of its "
               "largest value, within 90 % of the integrated part"]
CHUNK = 4
U = 600.0
XT = np.linspace(0, 1, 9)
FLOWS = ["accel", "howarth", "curved", "decay", "table", "grad", "fd"]
KINDS = [("lin", "Spline"), ("non", "White"), ("non", "custom3"),
         ("head", None)]


def cases(tier):
    quick = tier == "quick"
    out = []
    for (m, fit), fl in itertools.product(KINDS, FLOWS):
        for sh, le, sp in itertools.product(
                (0.0, -2.5, 12.0) if quick else (0.0, -2.5, .7, -40.0, 12.0),
                (1.0, .05, 30.0, 1e3) if quick else
                (1.0, 1e-3, .05, .4, 3.0, 30.0, 1e3),
                (1.0, 6.0) if quick else (1.0, .5, 6.0, 100.0)):
            if fl == "fd" and (le != 1.0 or sh not in (0.0, .7, -2.5)):
                continue   # finite difference step has a length
            out.append({"method": m, "fit": fit, "flow": fl, "shift": sh,
                        "length": le, "speed": sp, "tier": tier})
    return out


def velocity(name, sh, a, b):
    """Arguments for the velocity u(x) -> b*u((x - sh)/a)."""
    if name == "table":
        u = U*np.array([.6, .7, .78, .84, .88, .91, .93, .94, .945])
        return ((sh + a*XT, b*u),)
    if name == "grad":
        g = U*np.array([.5, .4, .2, 0, -.1, -.2, -.3, -.35, -.4])
        return (b*U*.9, (sh + a*XT, b*g/a))
    if name == "fd":
        u, _, _ = flow("curved", U)
        return (lambda x: b*u((x - sh)/a),)
    u, du, d2u = flow(name, U)
    return (lambda x: b*u((x - sh)/a), lambda x: b/a*du((x - sh)/a),
            lambda x: b/a**2*d2u((x - sh)/a))


def solver(case, sh, a, b, c):
    m = case["method"]
    args = velocity(case["flow"], sh, a, b)
    kw = {"shape_d_crit": 1.9} if m == "head" else \
        {"data_fits": fit_arg(case["fit"])}
    return METHODS[m](NU*a*b*c, *args, **kw)


NU = 3e-4
X0, X1 = .103, .847


def start(s, m, dm, h):
    s.initial_delta_m = dm
    if m == "head":
        s.initial_shape_d = h


def dm0(m):
    return 1e-4 if m != "head" else 4e-4


def observe(s, xs):
    return np.array([np.array([float(v) for v in q]) for q in
                     (s.delta_m(xs), s.shape_d(xs), s.tau_w(xs, 1.2),
                      s.v_e(xs), s.delta_d(xs), s.u_e(xs))])


_BASE = {}


def base(case):
    key = (case["method"], case["fit"], case["flow"])
    if key not in _BASE:
        s = solver(case, 0.0, 1.0, 1.0, 1.0)
        start(s, case["method"], dm0(case["method"]), 1.45)
        r = s.solve(X0, X1)
        if not r.success:
            raise AssertionError("base problem failed: " + str(r))
        _BASE[key] = (s, float(r.x_end), int(r.status))
    return _BASE[key]


TOL = np.array([6e-4, 1e-3, 3e-3, 1e-2, 1e-3, 1e-6])


def agree(got, want, loose):
    names = "delta_m shape_d tau_w v_e delta_d u_e"
    for n, g, w, t in zip(names.split(), got, want, TOL):
        if loose and n != "u_e":     # kinks in the derivatives
            t *= 5
        if not np.isfinite(g).all() or not (
                np.abs(g - w) <= t*(np.abs(w).max() if n in ("v_e", "tau_w")
                                    else np.abs(w))).all():
            return f"{n} is {g}, should be {w}"
    return None


def plans(case):
    """Viscosity scales, cuts and ends."""
    quick = case["tier"] == "quick"
    visc = (1.0,) if case["method"] == "head" else (
        (1.0, 9.0) if quick else (1.0, .01, 9.0))
    cuts = [(), (.3,), (.25, .7)] if quick else \
        [(), (.05,), (.3,), (.8,), (.25, .7), (.1, .5, .85)]
    ends = (1.0, .7) if quick else (1.0, .85, .4)
    for c, cut, end, new, ev in itertools.product(
            visc, cuts, ends, (True, False), (False, True)):
        if not cut and new:
            continue
        yield c, cut, end, new, ev


def follow(case, plan, res):
    c, cut, end, new, ev = plan
    m = case["method"]
    sh, a, b = case["shift"], case["length"], case["speed"]
    ref, last, status = base(case)
    stop = X0 + end*(X1 - X0)
    want_end = last if last < stop else stop
    want_status = status if last <= stop else 0
    s = solver(case, sh, a, b, c)
    scale = np.array([a*c**.5, 1.0, b*b*c**.5, b*c**.5, a*c**.5, b])
    start(s, m, dm0(m)*a*c**.5, 1.45)
    marks = [X0, *(X0 + f*(stop - X0) for f in cut
                   if X0 + f*(stop - X0) < last - .02), stop]
    for lo, hi in zip(marks, marks[1:]):
        extra = [Ev(sh + a*(.5*lo + .5*hi), False, 2, "passing")] if ev \
            else None
        r = s.solve(sh + a*lo, sh + a*hi, extra)
        res.count(transitions=1)
        if not r.success:
            return f"failed between {lo} and {hi}: {r}"
        e = min(hi, want_end)
        top = lo + .9*(e - lo) if e == last and status == 1 else e
        xs = lo + np.linspace(0, 1, 7)*(top - lo)
        xs[-1] = top
        got = observe(s, np.minimum(sh + a*xs, float(r.x_end)))
        msg = agree(got, observe(ref, xs)*scale[:, None],
                    case["flow"] in ("table", "grad"))
        if msg:
            return f"between {lo} and {hi}: {msg}"
        if hi != stop:
            at = float(r.x_end)
            if abs(at - (sh + a*hi)) > 1e-12*(abs(sh) + a):
                return f"ended at {at}, should be {sh + a*hi}"
            dm, h = float(s.delta_m(at)), float(s.shape_d(at))
            if new:
                s = solver(case, sh, a, b, c)
            start(s, m, dm, h)
    if abs((float(r.x_end) - sh)/a - want_end) > 2e-3:
        return f"ended at {(r.x_end - sh)/a}, should be {want_end}"
    if int(r.status) != want_status:
        return f"status {r.status!r}, should be {want_status}"
    if want_status == 0 and not cut:
        return back(case, s, r, sh, a, ref, scale, c, ev, res)
    return None


def back(case, s, r, sh, a, ref, scale, c, ev, res):
    """Solving back from the end reproduces what led there."""
    m = case["method"]
    hi = float(r.x_end)
    dm, h = float(s.delta_m(hi)), float(s.shape_d(hi))
    xe = (hi - sh)/a
    lo = xe - (.2 if m == "head" else .5)*(xe - X0)
    start(s, m, dm, h)
    extra = [Ev(sh + a*(.4*lo + .6*xe), False, 2, "passing")] if ev else None
    r = s.solve(hi, sh + a*lo, extra)
    res.count(transitions=1)
    if not r.success or int(r.status) != 0 or r.x_end != sh + a*lo:
        return f"against the flow from {xe} to {lo}: {r}"
    xs = np.linspace(lo, xe, 7)
    msg = agree(observe(s, np.clip(sh + a*xs, float(r.x_end), hi)),
                observe(ref, xs)*scale[:, None],
                case["flow"] in ("table", "grad"))
    return f"against the flow from {xe} to {lo}: {msg}" if msg else None


def run_case(case):
    res = Result()
    todo = [case["plan"]] if "plan" in case else plans(case)
    for plan in todo:
        res.count(evaluations=1, nontrivial=int(
            bool(plan[1]) or (case["shift"], case["length"], case["speed"],
                              plan[0]) != (0.0, 1.0, 1.0, 1.0)))
        if abs(base(case)[1] - (X0 + plan[2]*(X1 - X0))) < .01 \
                and base(case)[2] == 1:
            continue
        msg = follow(case, plan, res)
        if msg:
            res.fail(f"{case} (viscosity, cuts, end, new, event)={plan}: "
                     f"{msg}", {**case, "plan": plan})
            return res
        res.outcome(case["method"], case["fit"], case["flow"], plan,
                    case["shift"], case["length"], case["speed"])
    res.sample({**case, "plan": list(plan), "x_end": base(case)[1],
                "status": base(case)[2]})
    return res
