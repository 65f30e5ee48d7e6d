"""
Histories of one solver: a model of its configuration and the real object.

The model of a solver is nothing but its current configuration: viscosity,
edge velocity, initial condition, data fits (laminar) or critical shape factor
(turbulent).  `fresh` makes a new solver straight from a configuration; what
it does is the oracle for whatever a solver with a history does.
"""
import numpy as np

from ibl.ibl_method import TermEvent, TermReason
from ibl.initial_condition import (FalknerSkanStagCondition, ManualCondition)

from mc.flows import flow
from mc.ref import fit_arg
from mc.util import METHODS, close, raises


class Ev(TermEvent):
    """User event at a location or state value."""

    def __init__(self, at, terminal=True, reason=TermReason.UNKNOWN, msg="",
                 comp=None, sign=1.0):
        super().__init__()
        self.terminal = terminal
        self.at, self.reason, self.msg = at, TermReason(reason), msg
        self.comp, self.sign = comp, sign

    def event_info(self):
        return self.reason, self.msg

    def _call_impl(self, x, f):
        return self.sign*((x if self.comp is None else f[self.comp])
                          - self.at)


# Edge velocities: all accelerate at 0 and .1, so that any initial condition
# can start there.
U = 10.0
XT = [0.0, 0.25, 0.5, 0.75, 1.0]
VELOCITY = {
    "accel": lambda: flow("accel", U),
    "wave": lambda: flow("wave", U),
    "fd": lambda: (lambda x: U*(.5 + .4*x - .2*x*x),),
    "table": lambda: ((XT, [U*.5, U*.6, U*.75, U*.8, U*.81]),),
    "fall": lambda: ((np.array(XT), U*np.array([1, 1.05, .9, .7, .4])),),
    "grad": lambda: (U*.5, (XT, [3.0, 2.0, 1.0, 0.0, -1.0])),
}
IC = {
    "fs": lambda: FalknerSkanStagCondition(1.0, 1.0),
    "man1": lambda: ManualCondition(8.1e-4, 4.5e-4, 6e-4),
    "man2": lambda: ManualCondition(4.5e-4, 3e-4, 5e-4),
}
MAN = {"man1": (8.1e-4, 4.5e-4), "man2": (4.5e-4, 3e-4)}
SOLVE = {
    "all": lambda: (0.0, 1.0),
    "part": lambda: (0.1, 0.6),
    "one": lambda: (0.0, 1.0, Ev(.3, True, 2, "one")),
    "many": lambda: (0.0, 1.0, [Ev(.2, False, 2, "no"),
                                Ev(.5, True, 3, "many"),
                                Ev(.8, True, 2, "late")]),
    "none": lambda: (0.0, .7, []),
}
XS = {"all": (0, 1), "part": (.1, .6), "one": (0, .3), "many": (0, .5),
      "none": (0, .7)}

QUERIES = {
    "delta_m": lambda s, x: s.delta_m(x),
    "delta_d": lambda s, x: s.delta_d(x),
    "shape_d": lambda s, x: s.shape_d(x),
    "tau_w": lambda s, x: s.tau_w(x, 1.2),
    "v_e": lambda s, x: s.v_e(x),
    "delta_k": lambda s, x: s.delta_k(x),
    "shape_k": lambda s, x: s.shape_k(x),
    "dissipation": lambda s, x: s.dissipation(x, 1.2),
    "u_e": lambda s, x: s.u_e(x),
    "du_e": lambda s, x: s.du_e(x),
    "d2u_e": lambda s, x: s.d2u_e(x),
}
STATE = ["delta_m", "delta_d", "shape_d", "tau_w", "v_e", "shape_k"]


def base(method):
    cfg = {"nu": 1e-5, "vel": "accel"}
    if method == "head":
        cfg.update(ic=[4e-4, 1.4], crit=2.4)
    else:
        cfg.update(ic=[4e-4, None], fits="Spline")
    return cfg


def fresh(method, cfg):
    """A new solver with just this configuration."""
    args = VELOCITY[cfg["vel"]]() if cfg["vel"] else ()
    if method == "head":
        s = METHODS[method](cfg["nu"], *args, shape_d_crit=cfg["crit"])
    else:
        s = METHODS[method](cfg["nu"], *args, data_fits=fit_arg(cfg["fits"]))
    ic = cfg["ic"]
    if ic == "fs":
        s.set_initial_condition(IC["fs"]())
    elif ic is not None:
        dm, h = ic
        s.set_initial_condition(ManualCondition(
            0.0 if h is None else dm*h, dm, 0.0))
    return s


def step(method, cfg, op):
    """Configuration after an operation (solves and queries change nothing)."""
    kind, val = op
    cfg = dict(cfg)
    if kind in ("nu", "vel", "fits", "crit"):
        cfg[kind] = val
    elif kind == "ic":
        if val == "fs":
            cfg["ic"] = "fs"
        else:
            dd, dm = MAN[val]
            cfg["ic"] = [dm, dd/dm if method == "head" else None]
    elif kind == "dm":
        if method == "head":
            h = 2.2162 if cfg["ic"] == "fs" else cfg["ic"][1]
            cfg["ic"] = [val, h]
        else:
            cfg["ic"] = [val, None]
    elif kind == "shape":
        if cfg["ic"] == "fs":
            cfg["ic"] = ["later", val]     # thickness has to be set as well
        else:
            cfg["ic"] = [cfg["ic"][0], val]
    return cfg


def ready(cfg):
    return cfg["vel"] is not None and cfg["ic"] is not None and (
        cfg["ic"] == "fs" or cfg["ic"][0] != "later")


def apply(s, op):
    """Perform an operation on the real solver; solves return their result."""
    kind, val = op
    if kind == "nu":
        s.nu = val
    elif kind == "vel":
        s.set_velocity(*VELOCITY[val]())
    elif kind == "fits":
        s.set_data_fits(fit_arg(val))
    elif kind == "crit":
        s.set_shape_d_critical(val)
    elif kind == "ic":
        s.set_initial_condition(IC[val]())
    elif kind == "dm":
        s.initial_delta_m = val
    elif kind == "shape":
        s.initial_shape_d = val
    elif kind == "solve":
        args = SOLVE[val]()
        keep = [list(a) if isinstance(a, list) else a for a in args]
        r = s.solve(*args)
        if len(keep) != len(args) or any(
                a != b if isinstance(a, list) else a is not b
                for a, b in zip(keep, args)):
            raise AssertionError("the caller's events were changed")
        return r
    elif kind == "ask":
        for x in (np.linspace(.12, .28, 5), .2):
            if val == "all":
                for q in QUERIES.values():
                    q(s, x)
            else:
                QUERIES[val](s, x)
    return None


def result(r):
    return {"x_end": float(r.x_end),
            "f_end": [float(v) for v in np.atleast_1d(r.f_end)],
            "status": int(r.status), "message": r.message,
            "success": bool(r.success), "text": str(r)}


def observe(s, x0, x1, n=7):
    """Everything a solution reports between two locations."""
    xs = np.linspace(x0, x1, n)
    return {q: np.array(QUERIES[q](s, xs), float) for q in STATE}


def setting(s, xs=(0.05, .4, .9)):
    """Everything a configuration reports."""
    xs = np.array(xs)
    out = {"nu": s.nu}
    for q in ("u_e", "du_e", "d2u_e"):
        try:
            out[q] = np.array(QUERIES[q](s, xs), float) + 0*xs
        except ValueError as ex:
            out[q] = "ValueError"
    for q in ("initial_delta_m", "initial_shape_d"):
        if hasattr(type(s), q):
            out[q] = float(getattr(s, q))
    return out


def differ(got, want, rtol=1e-8):
    """First difference between two observations, or None."""
    for k, w in want.items():
        g = got[k]
        if isinstance(w, (str, bool, int)) or isinstance(g, str):
            if k == "text":
                continue
            if type(g) is not type(w) or g != w:
                return f"{k} is {g!r}, should be {w!r}"
            continue
        scale = np.nanmax(np.abs(np.where(np.isfinite(w), w, 0)), initial=0)
        if not close(g, w, rtol, rtol*scale):
            return f"{k} is {g}, should be {w}"
    return None


_MEMO = {}


def oracle(method, cfg, variant):
    """What a new solver with this configuration reports for a solve."""
    key = (method, repr(sorted(cfg.items())), variant)
    if key not in _MEMO:
        s = fresh(method, cfg)
        r = result(s.solve(*SOLVE[variant]()))
        x0 = XS[variant][0]
        obs = observe(s, x0, r["x_end"]) if r["success"] else None
        _MEMO[key] = (r, obs, setting(s))
    return _MEMO[key]


def check_solve(method, cfg, variant, s, r):
    """Compare a solve in a history with that of a new solver."""
    wr, wo, ws = oracle(method, cfg, variant)
    gr = result(r)
    msg = differ(gr, wr)
    if msg is None and wo is None:
        for q in STATE:
            msg = msg or raises(ValueError, QUERIES[q], s, XS[variant][0])
    elif msg is None:
        msg = differ(observe(s, XS[variant][0], gr["x_end"]), wo)
    if msg is None:
        msg = differ(setting(s), ws)
    return msg
