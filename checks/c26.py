"""C26: the form in which arguments are given does not matter."""
import functools
import itertools

import numpy as np
from scipy.interpolate import (Akima1DInterpolator, BSpline, CubicSpline,
                               PPoly, PchipInterpolator, UnivariateSpline)

from ibl.analytic import Blasius, FalknerSkan
from ibl.ibl_method import IntegrationResult, TermReason
from ibl.initial_condition import FalknerSkanStagCondition, ManualCondition
from ibl.skin_friction import felsch, ludwieg_tillman, white

from mc.core import Result
from mc.util import METHODS, close

LEVEL = "exploration"
RULE = ("every argument of the public classes and functions, in every "
        "representation of the same value (Python, numpy and own subclasses "
        "of numbers, integral values as integers, 0-d arrays, single "
        "precision; functions as lambdas, methods, partials, objects, "
        "polynomials and splines that return numbers or arrays; tables in "
        "every container, type and memory layout; by position, by name in "
        "every order, or left to its default), alone and in every pair "
        "(thorough: triple): all answers equal those for plain floats in "
        "value and shape. Non-trivial: at least one argument is not a plain "
        "float, lambda or list.")
ASSUMPTIONS = ["values are exact in every representation",
               "agreement to 1e-11 (2e-6 where single precision or one more "
               "finite difference is involved)"]
CHUNK = 2


class Own(float):
    """Number of a user, with a unit, say."""


KINDS = {"float": float, "np": np.float64, "own": Own,
         "single": np.float32, "0d": lambda v: np.array(v, float),
         "int": int, "int64": np.int64, "int32": np.int32,
         "uint": np.uint16, "0d int": lambda v: np.array(int(v)),
         "long": np.longdouble}
WHOLE = ("int", "int64", "int32", "uint", "0d int")


def kinds(v):
    """Names of the representations the value has."""
    return [k for k in KINDS if k not in WHOLE or v == int(v)]


def loose(*names):
    return "single" in names


XS = np.array([0.0, .125, .25, .5])


def ask(s, xs=XS, rho=1.25):
    return [np.asarray(f(xs), float) for f in (
        s.delta_m, s.shape_d, s.delta_d, lambda x: s.tau_w(x, rho), s.v_e)]


def same_answers(a, b, single):
    t = 2e-6 if single else 1e-11
    for n, p, q in zip("delta_m shape_d delta_d tau_w v_e".split(), a, b):
        scale = np.abs(q).max()
        if not close(p, q, t, t*scale*(30 if n == "v_e" and single else 1)):
            return f"{n} is {p}, should be {q}"
    return None


def hump(u):
    return (lambda x: u*(1 + x - .875*x*x), lambda x: u*(1 - 1.75*x),
            lambda x: -1.75*u + 0*x)


def whole(u):
    """Gives integers for integers."""
    return (lambda x: u + u*x, lambda x: u + 0*x, lambda x: 0*x)


# slots of a solver: name -> value; the first flow has no whole numbers but
# the origin, the second nothing else
FLOWS = {"hump": (hump(128.0), {"nu": 2.0**-16, "dm": 2.0**-13, "h": 1.5,
                                "crit": 2.75, "x0": 0.0, "x1": .5,
                                "rho": 1.25}),
         "whole": (whole(4096), {"nu": 2.0, "dm": 1.0, "h": 2.0, "crit": 3.0,
                                 "x0": 0.0, "x1": 2.0, "rho": 3.0})}


def numbers(method, name, form, way):
    """Answers of a solver whose numbers have the given forms."""
    funs, val = FLOWS[name]
    v = {k: KINDS[form.get(k, "float")](w) for k, w in val.items()}
    cls = METHODS[method]
    extra = {"shape_d_crit": v["crit"]} if method == "head" else {}
    if way == "ctor":
        s = cls(v["nu"], *funs, **extra)
    else:
        s = cls(1.0, *funs)
        s.nu = v["nu"]
        if extra:
            s.set_shape_d_critical(v["crit"])
    if way == "condition":
        s.set_initial_condition(ManualCondition(v["dm"]*v["h"], v["dm"],
                                                v["dm"]))
    else:
        s.initial_delta_m = v["dm"]
        if method == "head":
            s.initial_shape_d = v["h"]
    r = s.solve(v["x0"], v["x1"])
    if not r.success or int(r.status) != 0 or r.x_end != val["x1"] or \
            s.nu != val["nu"]:
        raise AssertionError(f"{r} nu={s.nu}")
    out = ask(s, XS if name == "hump" else 4*XS, v["rho"])
    return out, s


_PLAIN = {}


def plain(method, name):
    if (method, name) not in _PLAIN:
        _PLAIN[method, name] = numbers(method, name, {}, "ctor")[0]
    return _PLAIN[method, name]


WAYS = ("ctor", "set", "condition")


def check_numbers(case, res):
    m, name = case["method"], case["flow"]
    val = dict(FLOWS[name][1])
    if m != "head":
        for k in ("h", "crit"):
            val.pop(k)
    slots = list(val)
    todo = []
    for n in range(case["n"] + 1):
        for some in itertools.combinations(slots, n):
            if case["first"] is not None and n and some[0] != case["first"]:
                continue
            for ks in itertools.product(*([k for k in kinds(val[q])
                                           if k != "float"] for q in some)):
                todo.append(dict(zip(some, ks)))
    for form in todo:
        for way in WAYS[:1] if case.get("ctor") and len(form) > 1 else WAYS:
            if way == "condition" and "0d" in " ".join(
                    form.get(k, "") for k in ("dm", "h")):
                continue    # a condition's values are floats
            out, _ = numbers(m, name, form, way)
            res.count(evaluations=1, nontrivial=int(bool(form)))
            msg = same_answers(out, plain(m, name), loose(*form.values()))
            if msg:
                return f"{m} {name} {way} {form}: {msg}"
        res.outcome(m, name, form)
    return None


def check_locations(case, res):
    """Scalars and arrays of every kind as locations."""
    m, name = case["method"], case["flow"]
    _, s = numbers(m, name, {}, "ctor")
    xs = [0.0, .125, .25, .5] if name == "hump" else [0.0, 1.0, 2.0]
    fun = {"delta_m": s.delta_m, "shape_d": s.shape_d, "delta_d": s.delta_d,
           "tau_w": lambda x: s.tau_w(x, 1.25), "v_e": s.v_e,
           "u_e": s.u_e, "du_e": s.du_e, "d2u_e": s.d2u_e}
    for q, f in fun.items():
        want = np.asarray(f(np.array(xs)), float)
        for i, x in enumerate(xs):
            for k in kinds(x):
                got = np.asarray(f(KINDS[k](x)), float)
                res.count(evaluations=1, nontrivial=1)
                t = 2e-6 if k == "single" else 1e-11
                if got.shape != () or not close(got, want[i], t,
                                                t*np.abs(want).max()):
                    return f"{m} {name}: {q} at {k} {x} is {got}, not {want[i]}"
        forms = {"column": np.array([xs, xs]).T[:, 0],
                 "back": np.array(xs[::-1])[::-1],
                 "other endian": np.array(xs, ">f8"),
                 "single": np.array(xs, np.float32),
                 "subclass": np.array(xs).view(Sub),
                 "record": np.array([(x, 1) for x in xs],
                                    [("x", float), ("n", int)])["x"]}
        if name == "whole":
            forms |= {t: np.array(xs, t) for t in ("i1", "u2", "i4", "i8")}
        for k, x in forms.items():
            keep = np.array(x)
            got = np.asarray(f(x), float)
            res.count(evaluations=1, nontrivial=1)
            t = 2e-6 if k == "single" else 1e-11
            if not close(got, want, t, t*np.abs(want).max()):
                return f"{m} {name}: {q} of {k} array is {got}, not {want}"
            if not (keep == np.array(x)).all():
                return f"{m} {name}: {q} changed the {k} array"
        res.outcome(m, name, q)
    return None


class Sub(np.ndarray):
    """Array of a user."""


# what a constant function may return
RETURN = {"float": lambda v: lambda x: v, "int": lambda v: lambda x: int(v),
          "np": lambda v: lambda x: np.float64(v),
          "np int": lambda v: lambda x: np.int64(v),
          "single": lambda v: lambda x: np.float32(v),
          "own": lambda v: lambda x: Own(v),
          "0d": lambda v: lambda x: np.array(v, float),
          "like x": lambda v: lambda x: v + 0*np.asarray(x, float),
          "full": lambda v: lambda x: np.full(np.shape(x), v),
          "whole array": lambda v: lambda x: np.full(np.shape(x), int(v)),
          "frozen": lambda v: lambda x: frozen(np.full(np.shape(x), v))}


def frozen(a):
    a.flags.writeable = False
    return a


def solver(method, fit, args, dm=2.0**-13):
    s = METHODS[method](2.0**-16, *args)
    s.initial_delta_m = dm
    if method == "head":
        s.initial_shape_d = 1.5
    elif fit:
        s.set_data_fits(fit)
    return s


def check_returns(case, res):
    """Functions that return numbers of every kind, whatever they get."""
    m, fit, flow_ = case["method"], case["fit"], case["flow"]
    if flow_ == "flat":
        vals, base = (128.0, 0.0, 0.0), None
    else:       # the velocity is a function, its derivatives are constants
        vals, base = (None, 64.0, 0.0), lambda x: 128 + 64*x
    ref = solver(m, fit, [base or RETURN["like x"](128.0),
                          *(RETURN["like x"](v) for v in vals[1:])])
    ref.solve(0.0, .5)
    want = ask(ref)
    choice = [list(RETURN) if v is not None else [None] for v in vals]
    if case["n"] == 2:
        combos = [c for c in itertools.product(*choice)
                  if sum(k not in ("like x", None) for k in c) <= 2]
    else:
        combos = list(itertools.product(*choice))
    for c in combos:
        args = [base if k is None else RETURN[k](v) for k, v in zip(c, vals)]
        s = solver(m, fit, args)
        r = s.solve(0.0, .5)
        res.count(evaluations=1, nontrivial=1)
        if not r.success or r.x_end != .5:
            return f"{m} {fit} {flow_} returning {c}: {r}"
        msg = same_answers(ask(s), want, loose(*c))
        for i, x in enumerate(XS):
            one = ask(s, float(x))
            if msg is None and any(np.shape(v) != () for v in one):
                msg = f"shapes at a scalar {[np.shape(v) for v in one]}"
            msg = msg or same_answers(one, [w[i] for w in want], True)
        if msg:
            return f"{m} {fit} {flow_} returning {c}: {msg}"
        res.outcome(m, fit, flow_, c)
    return None


class Poly:
    """Functions of every kind for one polynomial (lowest power first)."""

    def __init__(self, c):
        self.c = np.array(c, float)

    def method(self, x):
        return np.polynomial.polynomial.polyval(x, self.c)

    @staticmethod
    def static(c, x):
        return np.polynomial.polynomial.polyval(x, c)

    def __call__(self, x):
        return self.method(x)

    @property
    def forms(self):
        c, d = self.c, np.polynomial.polynomial.polyder(self.c)

        def function(x, scale=1.0):
            return scale*np.polynomial.polynomial.polyval(x, c)

        class Slots:
            __slots__ = ()

            def __call__(self, x):
                return function(x)

        class Meta(type):
            def __call__(cls, x):
                return function(x)
        return {"lambda": lambda x: function(x), "function": function,
                "object": self, "bound": self.method,
                "partial": functools.partial(Poly.static, c),
                "named": functools.partial(function, scale=1.0),
                "poly1d": np.poly1d(c[::-1]),
                "polynomial": np.polynomial.Polynomial(c),
                "cheb": np.polynomial.Polynomial(c).convert(
                    kind=np.polynomial.Chebyshev),
                "vectorized": np.vectorize(function, otypes=[float],
                                           excluded=["scale"]),
                "cached": functools.lru_cache(None)(function)
                if False else functools.wraps(function)(
                    lambda x: function(x)),
                "class": Meta("M", (), {}), "slots": Slots(), "grad": d}


def pieces(c, kind):
    """Spline with a derivative method that is the polynomial."""
    p = np.polynomial.Polynomial(c)
    x = np.linspace(-.25, .75, 9)
    if kind == "ppoly":
        q = [p.deriv(k)(x[:-1])/f for k, f in zip(range(3, -1, -1),
                                                  (6, 2, 1, 1))]
        return PPoly(np.array(q), x)
    if kind == "cubic":
        return CubicSpline(x, p(x))
    if kind == "univariate":
        return UnivariateSpline(x, p(x), s=0)
    if kind == "bspline":
        t = np.r_[[x[0]]*3, x, [x[-1]]*3]
        from scipy.interpolate import make_interp_spline
        return BSpline(*make_interp_spline(x, p(x), k=3).tck) if len(t) \
            else None
    if kind == "akima":
        return Akima1DInterpolator(x, p(x))
    return PchipInterpolator(x, p(x))


COEF = [128.0, 64.0, -96.0]     # Akima and Pchip follow the line only
LINE = [128.0, 64.0]
SPLINES = ("ppoly", "cubic", "univariate", "bspline", "akima", "pchip")


def check_callables(case, res):
    m, fit = case["method"], case["fit"]
    for name, c in (("curve", COEF), ("line", LINE)):
        d1 = np.polynomial.polynomial.polyder(c)
        d2 = np.polynomial.polynomial.polyder(d1)
        ref = solver(m, fit, [Poly(q).method for q in (c, d1, d2)])
        ref.solve(0.0, .5)
        want = ask(ref)
        u, du, d2u = (Poly(q).forms for q in (c, d1, d2))
        every = [k for k in u if k != "grad"]
        todo = []
        for a, b in itertools.product(every, every):
            todo += [((a, b, "lambda"), (u[a], du[b], d2u["lambda"])),
                     (("lambda", a, b), (u["lambda"], du[a], d2u[b])),
                     ((a, "lambda", b), (u[a], du["lambda"], d2u[b])),
                     ((a, b), (u[a], du[b]))]
        todo += [((a,), (u[a],)) for a in every]
        for k in SPLINES:
            if name == "curve" and k in ("akima", "pchip"):
                continue
            p = pieces(c, k)
            todo += [((k,), (p,))]
            if k != "univariate" or name == "curve":
                todo += [((a, k), (u[a], pieces(d1, k) if len(d1) > 1
                                   else p.derivative())) for a in every]
        for names, args in todo:
            s = solver(m, fit, args)
            r = s.solve(0.0, .5)
            res.count(evaluations=1, nontrivial=1)
            fd = len(args) < 3
            if not r.success or r.x_end != .5:
                return f"{m} {fit} {name} {names}: {r}"
            msg = same_answers(ask(s), want, fd)
            if msg:
                return f"{m} {fit} {name} {names}: {msg}"
            res.outcome(m, fit, name, names)
    return None


TX = [0, 1, 2, 3, 5]
TU = [4096, 4500, 4800, 5000, 5100]
TG = [400, 300, 250, 100, 50]
# some numbers with a fraction: either the stations or the values
PART = {"stations": ([0, .75, 2.25, 3, 5], TU, TG),
        "values": (TX, [4096.5, 4500, 4800.25, 5000, 5100.125],
                   [400.5, 300, 250.25, 100.125, 50])}
INTEGRAL = ("int", "short", "unsigned")
CONTAINERS = {
    "list": list, "tuple": tuple, "float": lambda v: np.array(v, float),
    "int": lambda v: np.array(v, np.int64),
    "short": lambda v: np.array(v, np.int16),
    "unsigned": lambda v: np.array(v, np.uint16),
    "single": lambda v: np.array(v, np.float32),
    "strided": lambda v: np.repeat(np.array(v, float), 2)[::2],
    "reversed": lambda v: np.array(v[::-1], float)[::-1],
    "frozen": lambda v: frozen(np.array(v, float)),
    "endian": lambda v: np.array(v, ">f8"),
    "own": lambda v: list(map(Own, v)),
    "mixed": lambda v: [float(v[0]), *v[1:]],
    "subclass": lambda v: np.array(v, float).view(Sub)}
PAIRS = {"tuple": lambda a, b: (a, b), "list": lambda a, b: [a, b],
         "array": lambda a, b: np.array([np.array(a, float),
                                         np.array(b, float)]),
         "integers": lambda a, b: np.array([np.array(a, int),
                                            np.array(b, int)]),
         "fortran": lambda a, b: np.asfortranarray(
             np.array([np.array(a, float), np.array(b, float)])),
         "columns": lambda a, b: np.array(
             [np.array(a, float), np.array(b, float)]).T.copy().T}


def check_tables(case, res):
    m, fit, first = case["method"], case["fit"], case["first"]
    at = np.array([0.0, .5, 1.0, 2.75, 4.0])
    part = case.get("part")
    xs, us, gs = PART[part] if part else (TX, TU, TG)
    vals = [xs, us] if case["what"] == "u" else [xs, gs]
    start = [None] if case["what"] == "u" else [
        k for k in kinds(4096.0) if not k.startswith("0d")]

    def build(pair, a, b, k):
        t = PAIRS[pair](CONTAINERS[a](vals[0]), CONTAINERS[b](vals[1]))
        return (t,) if k is None else (KINDS[k](4096.0), t)
    ref = solver(m, fit, build("tuple", "float", "float",
                               start[0] and "float"), 2.0**-8)
    ref.solve(0.0, 4.0)
    want = ask(ref, at)
    for pair, second, k in itertools.product(PAIRS, CONTAINERS, start):
        if pair != "tuple" and k not in (None, "float", "int"):
            continue
        if part and (pair not in ("tuple", "array")
                     or part == "values" and second in INTEGRAL):
            continue
        names = (pair, first, second, k)
        s = solver(m, fit, build(*names), 2.0**-8)
        r = s.solve(0.0, 4.0)
        res.count(evaluations=1, nontrivial=1)
        if not r.success or r.x_end != 4.0:
            return f"{m} {fit} table {names}: {r}"
        msg = same_answers(ask(s, at), want, False)
        if msg is None and not close(s.u_e(at), ref.u_e(at), 1e-13):
            msg = f"edge velocity {s.u_e(at)}, should be {ref.u_e(at)}"
        if msg:
            return f"{m} {fit} table {names}: {msg}"
        res.outcome(m, fit, case["what"], part, names)
    return None


def check_fits(case, res):
    """Data fits as functions of every kind."""
    m = case["method"]
    args = [Poly(COEF).method, Poly([64.0, -192.0]).method,
            Poly([-192.0]).method]
    fits = [[.22, 1.5], [2.6, -4.0, 5.0], [-4.0, 10.0]]
    ref = solver(m, tuple(Poly(c).method for c in fits), args)
    ref.solve(0.0, .5)
    want = ask(ref)
    forms = [Poly(c).forms for c in fits]
    every = [k for k in forms[0] if k != "grad"]
    for a, b in itertools.product(every, every):
        for names in ((a, b, "bound"), (a, "bound", b), ("bound", a, b),
                      (a, b)):
            fit = tuple(f[k] for f, k in zip(forms, names))
            for way in ("ctor", "set"):
                s = METHODS[m](2.0**-16, *args, data_fits=fit) \
                    if way == "ctor" else METHODS[m](2.0**-16, *args)
                if way == "set":
                    s.set_data_fits(fit)
                s.initial_delta_m = 2.0**-13
                s.solve(0.0, .5)
                res.count(evaluations=1, nontrivial=1)
                msg = same_answers(ask(s), want, len(names) == 2)
                if msg:
                    return f"{m} fits {names} {way}: {msg}"
            res.outcome(m, names)
    return None


def profile(s, xk=float, yk=float):
    out = []
    for x in (1.0, 2.0):
        x = xk(x)
        out += [getattr(s, q)(x) for q in (
            "u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s",
            "shape_d", "shape_k")]
        out += [s.tau_w(x, 1.25), s.dissipation(x, 1.25)]
        y = yk(2.0**-3)
        out += [s.eta(x, y), s.u(x, y), s.v(x, y)]
    return out + [s.fw_pp, s.eta_inf, s.eta_d, s.eta_m, s.eta_k, s.eta_s]


def close_all(got, want, single):
    t = 2e-6 if single else 1e-10
    for i, (a, b) in enumerate(zip(got, want)):
        a = np.asarray(a, float)
        if a.shape != () or not close(a, b, t, 1e-12):
            return f"value {i} is {a}, should be {b}"
    return None


def check_similarity(case, res):
    beta = case["beta"]
    wall = {None: .46875, 0.0: .46875, .5: .9375, 1.0: 1.2421875}[beta]
    val = {"u": 2.0, "nu": 2.0**-9, "eta": 5.0, "fw": wall}
    if case.get("whole"):
        val = {"u": 2.0, "nu": 1.0, "eta": 4.0, "fw": 1.0}
    if beta is not None:
        val["beta"] = beta

    def build(form, way):
        v = {k: KINDS[form.get(k, "float")](w) for k, w in val.items()}
        if beta is None:
            if way == "ctor":
                return Blasius(v["u"], v["nu"], eta_inf=v["eta"],
                               fw_pp=v["fw"])
            s = Blasius(9.0, .3)
            s.set_solution_parameters(eta_inf=v["eta"], fw_pp=v["fw"])
        else:
            if way == "ctor":
                return FalknerSkan(v["beta"], v["u"], v["nu"],
                                   eta_inf=v["eta"], fw_pp=v["fw"])
            s = FalknerSkan(0.0, 9.0, .3, eta_inf=4.0, fw_pp=.5)
            if way == "m":
                m = beta/(2 - beta)
                k = form.get("beta", "float")
                s.reset_m(KINDS[k](m) if k in kinds(m) else m,
                          eta_inf=v["eta"], fw_pp=v["fw"])
            else:
                s.reset_beta(v["beta"], eta_inf=v["eta"], fw_pp=v["fw"])
        s.u_ref, s.nu_ref = v["u"], v["nu"]
        return s
    want = profile(build({}, "ctor"))
    ways = ("ctor", "set") if beta is None else ("ctor", "set", "m")
    for n in range(case["n"] + 1):
        for some in itertools.combinations(val, n):
            for ks in itertools.product(*([k for k in kinds(val[q])
                                           if k not in ("float", "0d",
                                                        "0d int")]
                                          for q in some)):
                form = dict(zip(some, ks))
                for way in ways:
                    res.count(evaluations=1, nontrivial=int(n > 0))
                    msg = close_all(profile(build(form, way)), want,
                                    loose(*ks) or way == "m")
                    if msg:
                        return f"{beta} {way} {form}: {msg}"
                res.outcome(beta, form)
    s = build({}, "ctor")
    for a, b in itertools.product(kinds(1.0), kinds(.125)):
        res.count(evaluations=1, nontrivial=1)
        msg = close_all(profile(s, KINDS[a], KINDS[b]), want, loose(a, b))
        if msg:
            return f"{beta} at {a} x and {b} y: {msg}"
    return None


def check_friction(case, res):
    for f in (ludwieg_tillman, felsch, white):
        for re, h in itertools.product((128.0, 1024.0, 2.0**14),
                                       (1.0, 1.25, 2.0)):
            want = f(re, h)
            # numpy's logarithm of a short integer is in short precision
            for a, b in itertools.product(
                    *([k for k in kinds(v) if k != "uint"]
                      for v in (re, h))):
                got = f(KINDS[a](re), KINDS[b](h))
                res.count(evaluations=1, nontrivial=1)
                if np.shape(got) != () or not close(
                        got, want, 3e-6 if loose(a, b) else 1e-12):
                    return f"{f.__name__} of {a} {re}, {b} {h}: {got}"
            both = {"strided": lambda v: np.repeat(np.array([v]*3), 2)[::2],
                    "int": lambda v: np.array([v]*3, int),
                    "single": lambda v: np.array([v]*3, np.float32),
                    "endian": lambda v: np.array([v]*3, ">f8"),
                    "sub": lambda v: np.array([v]*3).view(Sub)}
            for a, b in itertools.product(both, both):
                if "int" in (b,) and h != int(h):
                    continue
                got = f(both[a](re), both[b](h))
                res.count(evaluations=1, nontrivial=1)
                if np.shape(got) != (3,) or not close(
                        np.asarray(got, float), [want]*3,
                        3e-6 if loose(a, b) else 1e-12):
                    return f"{f.__name__} of {a} {re}, {b} {h}: {got}"
            for kw in ({"re_delta_m": re, "shape_d": h},
                       {"shape_d": h, "re_delta_m": re}):
                if f(**kw) != want:
                    return f"{f.__name__} by name: {f(**kw)}"
            res.outcome(f.__name__, re, h)
    return None


def check_conditions(case, res):
    val = {"du_e": 4.0, "nu": 2.0**-9}
    want = None
    for ks in itertools.product(*(kinds(v) for v in val.values())):
        v = {n: KINDS[k](w) for (n, w), k in zip(val.items(), ks)}
        for way in range(4):
            if way == 0:
                c = FalknerSkanStagCondition(v["du_e"], v["nu"])
            elif way == 1:
                c = FalknerSkanStagCondition(**v)
            elif way == 2:
                c = FalknerSkanStagCondition(nu=v["nu"], du_e=v["du_e"])
            else:
                c = FalknerSkanStagCondition(7.0, 3.0)
                c.nu, c.du_e = v["nu"], v["du_e"]
            got = [c.delta_m(), c.delta_d(), c.delta_k(), c.shape_d(),
                   c.shape_k(), c.nu, c.du_e]
            if want is None:
                want = got
            res.count(evaluations=1, nontrivial=1)
            msg = close_all(got, want, loose(*ks))
            if msg:
                return f"stagnation condition {ks} {way}: {msg}"
        res.outcome(ks)
    val = {"delta_d": 4.0, "delta_m": 2.0, "delta_k": 3.0}
    for ks in itertools.product(*(kinds(v) for v in val.values())):
        v = {n: KINDS[k](w) for (n, w), k in zip(val.items(), ks)}
        for way in ("position", "name", "set"):
            if way == "position":
                c = ManualCondition(*v.values())
            elif way == "name":
                c = ManualCondition(**dict(reversed(v.items())))
            else:
                c = ManualCondition(1.0, 1.0, 1.0)
                c.del_k, c.del_d, c.del_m = (v["delta_k"], v["delta_d"],
                                             v["delta_m"])
            got = [c.delta_m(), c.delta_d(), c.delta_k(), c.shape_d(),
                   c.shape_k()]
            res.count(evaluations=1, nontrivial=1)
            msg = close_all(got, [2.0, 4.0, 3.0, 2.0, 1.5], False)
            if msg:
                return f"manual condition {ks} {way}: {msg}"
        res.outcome(ks)
    return None


def orders(kw):
    """Every order and every number of arguments given by position."""
    names = list(kw)
    for n in range(len(names) + 1):
        for rest in itertools.permutations(names[n:]):
            yield [kw[k] for k in names[:n]], {k: kw[k] for k in rest}


def check_names(case, res):
    """By position, by name in every order, and left to the default."""
    m = case["method"]
    funs, val = FLOWS["hump"]
    args = {"nu": val["nu"], "U_e": funs[0], "dU_edx": funs[1],
            "d2U_edx2": funs[2]}
    if m == "head":
        args["shape_d_crit"] = 1.625
    else:
        args["data_fits"] = "White"
    vel = {"u_e": funs[0], "du_e": funs[1], "d2u_e": funs[2]}
    want = end = None

    def start(s):
        s.initial_delta_m = 2.0**-13
        if m == "head":
            s.initial_shape_d = 1.5
        return s
    runs = [(a, k, [.0, .5], {}) for a, k in orders(args)]
    runs += [(list(args.values()), {}, a, k)
             for a, k in orders({"x0": 0.0, "x_end": .5, "term_event": None})]
    for a, k, sa, sk in runs:
        s = start(METHODS[m](*a, **k))
        r = s.solve(*sa, **sk)
        got = ask(s, XS[:2])
        if want is None:
            want, end = got, r.x_end
        res.count(evaluations=1, nontrivial=1)
        msg = same_answers(got, want, False)
        if msg or r.x_end != end:
            return f"{m} {len(a)} by position, {list(k)}, {list(sk)}: {msg}"
    for a, k in orders(vel):
        s = METHODS[m](val["nu"])
        if m == "head":
            s.set_shape_d_critical(shape_d_crit=1.625)
        else:
            s.set_data_fits(data_fits="White")
        s.set_velocity(*a, **k)
        start(s).solve(0.0, .5)
        res.count(evaluations=1, nontrivial=1)
        msg = same_answers(ask(s, XS[:2]), want, False)
        if msg:
            return f"{m} velocity {len(a)} by position, {list(k)}: {msg}"
    # what is left out is what the documentation says
    dflt = [((), {}, (1.0,), {}), ((2.0,), {}, (2.0, None, None, None), {})]
    for a, k, fa, fk in dflt:
        one, two = METHODS[m](*a, **k), METHODS[m](*fa, **fk)
        if m == "head":
            two.set_shape_d_critical(2.4)
        else:
            two.set_data_fits("Spline")
        for s in (one, two):
            s.set_velocity(lambda x: 4096*(1 - .2*x), lambda x: -819.2 + 0*x,
                           lambda x: 0*x)
            s.initial_delta_m = .01 if m != "head" else 1.0
            if m == "head":
                s.initial_shape_d = 1.5
        q, w = one.solve(0.0, 4.5), two.solve(0.0, 4.5)
        res.count(evaluations=1, nontrivial=1)
        if one.nu != fa[0] or str(q) != str(w) or int(q.status) != 1:
            return f"{m}{a}: {q}, with the defaults given {w}"
    x = np.array([.125, .25])
    for got, exp in ((s.tau_w(x=x, rho=2.0), s.tau_w(x, 2.0)),
                     (s.tau_w(rho=2.0, x=x), s.tau_w(x, 2.0)),
                     (s.delta_m(x=x), s.delta_m(x)),
                     (s.v_e(x=x), s.v_e(x)), (s.u_e(x=x), s.u_e(x))):
        if not close(got, exp, 1e-15):
            return f"{m} by name: {got}, should be {exp}"
    res.outcome(m)
    return None


def check_more_names(case, res):
    fs = {"beta": .5, "u_ref": 2.0, "nu_ref": 2.0**-9, "fw_pp": .9375,
          "eta_inf": 5.0}
    want = profile(FalknerSkan(.5, 2.0, 2.0**-9, .9375, 5.0))
    for a, k in orders(fs):
        res.count(evaluations=1, nontrivial=1)
        msg = close_all(profile(FalknerSkan(*a, **k)), want, False)
        if msg:
            return f"FalknerSkan {len(a)} by position, {list(k)}: {msg}"
    par = {"eta_inf": 5.0, "fw_pp": .9375}
    for name, v in (("reset_beta", {"beta": .5}), ("reset_m", {"m": 1/3}),
                    ("set_solution_parameters", {})):
        for a, k in orders({**v, **par}):
            s = FalknerSkan(.5 if not v else 1.0, 2.0, 2.0**-9, eta_inf=4.0,
                            fw_pp=1.25)
            getattr(s, name)(*a, **k)
            res.count(evaluations=1, nontrivial=1)
            msg = close_all(profile(s), want, False)
            if msg:
                return f"{name} {len(a)} by position, {list(k)}: {msg}"
    bl = {"u_ref": 2.0, "nu_ref": 2.0**-9, "fw_pp": .46875, "eta_inf": 6.0}
    want = profile(Blasius(*bl.values()))
    for a, k in orders(bl):
        res.count(evaluations=1, nontrivial=1)
        msg = close_all(profile(Blasius(*a, **k)), want, False)
        if msg:
            return f"Blasius {len(a)} by position, {list(k)}: {msg}"
    it = {"x_end": 2.0, "f_end": 3.0, "status": TermReason.SEPARATED,
          "message": "text", "success": True}
    for a, k in orders(it):
        r = IntegrationResult(*a, **k)
        res.count(evaluations=1, nontrivial=1)
        if [r.x_end, r.f_end, r.status, r.message, r.success] != list(
                it.values()):
            return f"IntegrationResult {len(a)} by position, {list(k)}: {r}"
    res.outcome("names")
    return None


CHECKS = {"numbers": check_numbers, "locations": check_locations,
          "returns": check_returns, "callables": check_callables,
          "tables": check_tables, "fits": check_fits,
          "similarity": check_similarity, "friction": check_friction,
          "conditions": check_conditions, "names": check_names,
          "more names": check_more_names}
FITS = (None, "White", "Cebeci-Bradshaw", "Drela")


def cases(tier):
    quick = tier == "quick"
    out = []
    for m in METHODS:
        for name in FLOWS:
            out.append({"what_": "locations", "method": m, "flow": name})
            for first in FLOWS[name][1]:
                if m == "head" or first not in ("h", "crit"):
                    out.append({"what_": "numbers", "method": m,
                                "flow": name, "first": first,
                                "n": 2 if quick else 3, "ctor": quick})
        for fit in (FITS if m != "head" else (None,)):
            for name in ("flat", "line"):
                out.append({"what_": "returns", "method": m, "fit": fit,
                            "flow": name, "n": 2 if quick else 3})
            if quick and fit is not None:
                continue
            out.append({"what_": "callables", "method": m, "fit": fit})
            for first in CONTAINERS:
                for what in ("u", "grad"):
                    for part in (None, *PART):
                        if part == "stations" and first in INTEGRAL:
                            continue
                        out.append({"what_": "tables", "method": m,
                                    "fit": fit, "first": first, "what": what,
                                    "part": part})
        if m != "head":
            out.append({"what_": "fits", "method": m})
        out.append({"what_": "names", "method": m})
    for b in (None, 0.0, .5, 1.0):
        out.append({"what_": "similarity", "beta": b, "n": 1 if quick else 2})
    for b in (None, 0.0):
        out.append({"what_": "similarity", "beta": b, "whole": True,
                    "n": 2 if quick else 3})
    out += [{"what_": "friction"}, {"what_": "conditions"},
            {"what_": "more names"}]
    return out


def run_case(case):
    res = Result()
    bad = CHECKS[case["what_"]](case, res)
    if bad:
        res.fail(bad, case)
    res.sample(case)
    return res
