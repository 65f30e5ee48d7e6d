"""C01: what an edge velocity specification means."""
import itertools

import numpy as np

from mc.core import Result
from mc.util import METHODS, close

LEVEL = "model_checking"
RULE = ("(a) every table over a value alphabet on every grid of the grid "
        "alphabet, for both kinds of tables, compared with the defining "
        "conditions (nodes, C1, monotone, exact derivative/antiderivative); "
        "(b) every sequence of accepted specifications up to the depth, over "
        "every specification style and method, compared after every step "
        "with the model 'last specification only'. Non-trivial: values "
        "change between at least two nodes / consecutive specifications.")
ASSUMPTIONS = ["values outside the tables' range are not examined",
               "finite difference derivatives are held to 2e-5 of the scale"]

GRIDS = [[0.0, 1.0], [0.5, 0.75], [0.0, 1.0, 2.0], [0.0, 0.25, 2.0],
         [-1.0, 0.5, 0.75], [0.0, 1.0, 2.0, 3.0], [0.1, 0.2, 1.7, 1.8],
         [0.0, 0.3, 0.6, 2.0, 2.5]]


def cases(tier):
    vals = [1.0, 2.0, 5.0] if tier == "quick" else [-2.0, 1.0, 1.5, 2.0, 5.0]
    out = []
    for g, grid in enumerate(GRIDS):
        vv = vals if len(grid) < 5 or tier == "quick" else vals[1:]
        for kind in ("u", "du"):
            for v0 in vv:
                out.append({"mode": "table", "kind": kind, "grid": grid,
                            "first": v0, "vals": vv,
                            "method": ["lin", "non", "head"][g % 3]})
    depth = 3 if tier == "quick" else 4
    for m in METHODS:
        for ctor in SPECS:
            out.append({"mode": "seq", "method": m, "ctor": ctor,
                        "depth": depth - 1 if m != "lin" else depth})
        out.append({"mode": "seq", "method": m, "ctor": None, "depth": 2})
    return out


# ---------------------------------------------------------------- tables
def check_table(s, grid, table, kind, u0):
    """Defining conditions of the tabulated specifications."""
    x = np.array(grid)
    t = np.array(table)
    scale = max(1.0, np.abs(t).max(), abs(u0))
    spl = s.u_e if kind == "u" else s.du_e      # what interpolates the table
    der = s.du_e if kind == "u" else s.d2u_e    # its derivative
    if not close(spl(x), t, 1e-12, 1e-12*scale):
        return f"nodes {t} reported as {spl(x)}"
    if kind == "du" and abs(float(s.u_e(x[0])) - u0) > 1e-12*scale:
        return f"start velocity {u0} reported as {s.u_e(x[0])}"
    acc = u0
    for i in range(len(x) - 1):
        h = x[i+1] - x[i]
        q = np.array([0.0, 0.15, 0.4, 0.5, 0.65, 0.9, 1.0])
        xs = x[i] + q*h
        xs[-1] = x[i+1]
        v = spl(xs)
        # one cubic per interval: four values fix it, the rest must agree
        c = np.polyfit(q[[0, 2, 4, 6]], v[[0, 2, 4, 6]], 3)
        if not close(np.polyval(c, q), v, 0, 1e-9*scale):
            return f"not a cubic between {x[i]} and {x[i+1]}"
        d = np.polyval(np.polyder(c), q)/h
        if kind == "u" or i == len(x) - 2:
            k = slice(None)
        else:
            k = slice(0, -1)   # second derivative may jump at nodes
        if kind == "du":
            if not close(der(xs)[k], d[k], 0, 1e-7*scale/h):
                return f"derivative {der(xs)} is not that of values, {d}"
            # u is the antiderivative, starting from u0
            for qq in q:
                want = acc + h*np.polyval(np.polyint(c), qq)
                got = float(s.u_e(x[i] + qq*h))
                if abs(got - want) > 1e-9*scale*max(1, x[-1]-x[0]):
                    return f"u_e({x[i]+qq*h}) is {got}, integral is {want}"
            acc += h*np.polyval(np.polyint(c), 1.0)
        else:
            if not close(der(xs), d, 0, 1e-7*scale/h):
                return f"derivative {der(xs)} is not that of values, {d}"
            d2 = np.polyval(np.polyder(c, 2), q)/h**2
            k = slice(None) if i == len(x) - 2 else slice(0, -1)
            if not close(s.d2u_e(xs)[k], d2[k], 0, 1e-6*scale/h**2):
                return f"second derivative {s.d2u_e(xs)}, should be {d2}"
        # monotone between nodes
        fine = spl(np.linspace(x[i], x[i+1], 33))
        step = np.diff(fine)*(1 if t[i+1] >= t[i] else -1)
        if (step < -1e-12*scale).any():
            return f"not monotone between {x[i]} and {x[i+1]}"
        if t[i+1] == t[i] and np.abs(fine - t[i]).max() > 1e-12*scale:
            return f"not constant between equal values at {x[i]}"
    # continuous slope at the interior nodes
    for xi in x[1:-1]:
        e = 1e-9
        lo, hi = float(der(xi - e)), float(der(xi + e))
        if kind == "u" and abs(lo - hi) > 1e-5*scale/np.diff(x).min()**2:
            return f"slope jumps at {xi}: {lo} {hi}"
    return None


def run_tables(case, res):
    grid, kind = case["grid"], case["kind"]
    cls = METHODS[case["method"]]
    tables = [case["table"]] if "table" in case else [
        [case["first"], *rest] for rest in
        itertools.product(case["vals"], repeat=len(grid)-1)]
    for n, table in enumerate(tables):
        u0 = 3.0
        forms = [(list, list), (np.array, np.array), (tuple, np.array)]
        fx, ft = forms[n % 3]
        xs, ts = fx(grid), ft(table)
        pair = (xs, ts) if n % 2 else [xs, ts]
        args = (pair,) if kind == "u" else (u0, pair)
        if n % 2:
            s = cls(1e-5, *args)
        else:
            s = cls(nu=1e-5)
            s.set_velocity(*args)
        msg = check_table(s, grid, table, kind, u0)
        if msg is None:
            # the caller's tables are the caller's: changing them later, or
            # having handed them over, changes nothing
            if list(xs) != list(grid) or list(ts) != list(table):
                msg = "tables were modified"
            for arr in (xs, ts):
                if not isinstance(arr, tuple):
                    for i in range(len(arr)):
                        arr[i] = 77.0
            msg = msg or check_table(s, grid, table, kind, u0)
            if msg and "modified" not in msg:
                msg = "after the caller changed its tables: " + msg
        res.count(evaluations=1, traces=1, transitions=1)
        res.state((grid, kind, table))
        res.outcome(np.round(s.u_e(np.array(grid) + .05), 9).tolist())
        if msg:
            sub = {k: case[k] for k in ("mode", "kind", "grid", "method")}
            sub.update(table=table)
            res.fail(msg, sub)
            return
    res.sample({"grid": grid, "table": table, "kind": kind})


# -------------------------------------------------------------- sequences
class Fun:
    """A callable object that offers its own derivative."""

    def __init__(self, *funs):
        self.funs = funs

    def __call__(self, x):
        return self.funs[0](x)

    def derivative(self, nu=1):
        return Fun(*self.funs[nu:])


class Odd:
    """A callable object whose `derivative` is not a method."""
    derivative = 3.0

    def __init__(self, fun):
        self.fun = fun

    def __call__(self, x):
        return self.fun(x)


def poly(*c):
    return lambda x: sum(k*np.asarray(x, float)**i for i, k in enumerate(c))


def wave(x):
    return 4 + np.sin(2*np.asarray(x, float))


# Supplied derivatives are deliberately not the derivatives of the velocity,
# so that which function is used can be seen.  Expected: (u, du, d2u, tols).
def specs():
    p = poly(3.0, 1.0, 0.5)
    d = {}
    d["fun"] = ((p,), (p, poly(1, 1), poly(1)), (0, 1e-6, 2e-5))
    d["wave"] = ((wave,), (wave, lambda x: 2*np.cos(2*np.asarray(x)),
                           lambda x: -4*np.sin(2*np.asarray(x))),
                 (0, 1e-6, 2e-5))
    q = poly(9.0, -2.0, 0.0, 1.0)
    d["fun_d"] = ((p, q), (p, q, poly(-2, 0, 3)), (0, 0, 2e-5))
    d["fun_d_d2"] = ((p, q, wave), (p, q, wave), (0, 0, 0))
    o = Fun(poly(1, 5), poly(7, 0, 1), poly(2, 2), poly(5))
    d["obj"] = ((o,), (poly(1, 5), poly(7, 0, 1), poly(2, 2)), (0, 0, 0))
    d["fun_objd"] = ((p, o), (p, poly(1, 5), poly(7, 0, 1)), (0, 0, 0))
    d["obj_d"] = ((o, q), (poly(1, 5), q, poly(-2, 0, 3)), (0, 0, 2e-5))
    d["obj_objd_d2"] = ((o, o, p), (poly(1, 5), poly(1, 5), p), (0, 0, 0))
    d["odd"] = ((Odd(p),), (p, poly(1, 1), poly(1)), (0, 1e-6, 2e-5))
    d["fun_oddd"] = ((p, Odd(q)), (p, q, poly(-2, 0, 3)), (0, 0, 2e-5))
    # straight tables: any monotone interpolant is the line itself
    xt = [0.0, 0.5, 1.25, 2.0]
    d["table"] = (((xt, [2 + 4*x for x in xt]),),
                  (poly(2, 4), poly(4), poly(0)), (1e-12, 1e-11, 1e-9))
    d["grad"] = ((6.0, (xt, [1 - 2*x for x in xt])),
                 (poly(6, 1, -1), poly(1, -2), poly(-2)),
                 (1e-12, 1e-12, 1e-10))
    d["grad_int"] = ((2, (xt, [3.0 for x in xt])),
                     (poly(2, 3), poly(3), poly(0)), (1e-12, 1e-12, 1e-10))
    d["two"] = ((np.array([[0.0, 2.0], [8.0, 4.0]]),),
                (poly(8, -2), poly(-2), poly(0)), (1e-12, 1e-11, 1e-9))
    # tables in arrays that the caller fills again for the next one
    bx, bt = np.array(xt), np.empty(4)

    def refill(slope):
        def args():
            bt[:] = 1 + slope*bx
            return ((bx, bt),)
        return args
    for name, k in (("reused", 3.0), ("refilled", -2.0)):
        d[name] = (refill(k), (poly(1, k), poly(k), poly(0)),
                   (1e-12, 1e-11, 1e-9))

    def regrad(slope):
        def args():
            bt[:] = 1 + slope*bx
            return (6.0, (bx, bt))
        return args
    d["regrad"] = (regrad(-2.0), (poly(6, 1, -1), poly(1, -2), poly(-2)),
                   (1e-12, 1e-12, 1e-10))
    return d


def args_of(spec):
    """The arguments of a specification, as they are when it is given."""
    return spec[0]() if callable(spec[0]) else spec[0]


SPECS = list(specs())
PROBES = [0.3, 0.0, -.2, 1e-7, np.float64(1.0), 1.9, np.array([0.7]),
          np.array([0.05, 0.5, 1.1, 1.6])]


def check_spec(s, spec):
    _, want, tol = spec
    for name, fun, w, t in zip(("u_e", "du_e", "d2u_e"),
                               (s.u_e, s.du_e, s.d2u_e), want, tol):
        for x in PROBES:
            keep = np.array(x, copy=True)
            got = fun(x)
            # a function may return whatever it likes for constants
            exp = w(x)*np.ones_like(x)
            if np.shape(got) != np.shape(exp) and np.size(exp) > 1:
                return f"{name} of shape {np.shape(got)} for {x}"
            if not np.allclose(got, exp, rtol=t, atol=t*10):
                return f"{name}({x}) is {got}, should be {exp}"
            if not np.array_equal(keep, x):
                return f"{name} modified the locations given to it"
    return None


def build(case, path, ask):
    """The solver after a history; `ask` queries it after every step."""
    table = specs()
    cls = METHODS[case["method"]]
    ask = ask and case["ctor"] is not None
    if case["ctor"] is None:
        s = cls()
    else:
        s = cls(1e-5, *args_of(table[case["ctor"]]))
    for name in path:
        if ask:
            for x in PROBES[:2] + PROBES[-1:]:
                s.u_e(x), s.du_e(x), s.d2u_e(x)
        s.set_velocity(*args_of(table[name]))
    last = path[-1] if path else case["ctor"]
    return s, table[last] if last else None


def run_seq(case, res):
    if "path" in case:
        todo = [case["path"]]
    else:
        todo = [list(p) for n in range(case["depth"])
                for p in itertools.product(SPECS, repeat=n)]
        if case["ctor"] is None:
            todo = todo[1:]
    for path in todo:
        s, want = build(case, path, False)
        if want is None:
            continue
        msg = check_spec(s, want)
        if msg is None and path:
            s, want = build(case, path, True)
            msg = check_spec(s, want)
        res.count(evaluations=1, traces=1, transitions=len(path) + 1)
        res.state((case["method"], case["ctor"], path))
        res.outcome(np.round([float(s.u_e(.3)), float(s.du_e(.3)),
                              float(s.d2u_e(.3))], 3).tolist())
        if msg:
            res.fail(msg, {"mode": "seq", "method": case["method"],
                           "ctor": case["ctor"], "path": path})
            return
    res.sample({"ctor": case["ctor"], "path": todo[-1]})


def run_case(case):
    res = Result()
    if case["mode"] == "table":
        run_tables(case, res)
    else:
        run_seq(case, res)
    return res
