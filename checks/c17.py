"""C17: invalid reference data are rejected and valid data kept."""
import itertools

import numpy as np

from ibl.reference._stanford_1968_station import (
    StanfordOlympics1968SmoothVel, StanfordOlympics1968StationData)
from ibl.reference._xfoil_data import XFoilAirfoilData, XFoilWakeData

from mc import dump, olympics
from mc.core import Result
from mc.util import close, same

LEVEL = "exploration"
RULE = ("every property of the station records times every value of a "
        "boundary alphabet (negative, zero, smallest positive, ordinary, "
        "infinite; arrays with such a value at every place) set on a loaded "
        "record; every column of every record line replaced by every such "
        "value, every number of columns, every column not a number; every "
        "duplicate or derived Stanford quantity disturbed below and above its "
        "tolerance in both unit systems; every sequence of resets up to the "
        "bound. Accepted values are stored and nothing else changes, rejected "
        "values raise ValueError and setting them changes nothing. "
        "Non-trivial: the value or line is not a regular one.")
ASSUMPTIONS = ["the documented ranges of the properties",
               "a record whose reset failed is not used further"]
CHUNK = 4
ZERO, POS, ANY = "zero or more", "positive", "any"
KINDS = {
    "airfoil": (XFoilAirfoilData, {
        "s": ZERO, "x": ANY, "y": ANY, "u_e_rel": ANY, "delta_d": ZERO,
        "delta_m": ZERO, "c_f": ZERO, "shape_d": POS, "shape_k": POS,
        "mom_defect": ANY, "mass_defect": ANY, "ke_defect": ANY}),
    "wake": (XFoilWakeData, {
        "s": ZERO, "x": ANY, "y": ANY, "u_e_rel": ANY, "delta_d": ZERO,
        "delta_m": ZERO, "shape_d": POS}),
    "station": (StanfordOlympics1968StationData, {
        "x": ANY, "u_e": POS, "du_e": ANY, "delta_d": POS, "delta_m": POS,
        "delta_k": POS, "delta_c": POS, "shape_d": POS, "shape_k": POS,
        "shape_eq": POS, "c_f": ANY, "c_f_lt": ANY, "c_f_exp": ANY,
        "beta_eq": ANY, "u_star": POS, "nu": POS, "re_delta_d": POS,
        "re_delta_m": POS}),
}
PROFILE = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")
VALUES = [-1e9, -1.0, -1e-12, 0.0, 1e-12, .5, 1.0, 3e7, np.inf]
LINES = {"airfoil": dump.AF, "wake": None}
# quantity of the station summary, disturbance accepted, rejected (SI units)
LIMIT = {"x": 2e-3, "u_e": 6e-2, "delta_m": 2e-3, "shape_d": 2e-3,
         "shape_k": 2e-3, "shape_eq": 2e-3, "delta_d": 5e-3, "delta_k": 5e-3,
         "re_delta_m": 5.0, "re_delta_d": 5.0, "u_star": 5e-3}
TOL = {q: (.4*v, .85*v, 1.2*v, 4*v) for q, v in LIMIT.items()}
PTOL = {q: (.4*v, .85*v, 1.2*v, 4*v) for q, v in {
    "y_plus": 1.0, "y_c": .5, "u_plus": .5, "u_defect": .5}.items()}


def cases(tier):
    out = []
    for k, (_, props) in KINDS.items():
        for q in props:
            out.append({"set": k, "q": q})
    for q in PROFILE:
        out.append({"setarr": q})
    for k in ("airfoil", "wake"):
        out += [{"line": k, "mode": m} for m in ("value", "columns", "word")]
        out.append({"resets": k, "depth": 3 if tier == "quick" else 5})
    for metric in (True, False):
        out += [{"disturb": q, "metric": metric, "sign": s}
                for q in [*TOL, *PTOL] for s in (1, -1)]
        out += [{"slines": m, "metric": metric}
                for m in ("columns", "word", "value")]
        out.append({"smooth": metric})
        out.append({"resets": "station", "metric": metric,
                    "depth": 3 if tier == "quick" else 4})
    return out


def ok(rule, v):
    return rule == ANY or v > 0 or (rule == ZERO and v == 0)


def regular(kind, variant=0):
    air, wake = dump.rows([1.0, .5, -.2, -1.0], .1, 2, variant)
    if kind == "airfoil":
        return dump.line(air[1])
    if kind == "wake":
        return dump.wake_line(wake[1])
    return station_args(olympics.station(variant, 0.0, 3), True)


def station_args(st, metric, level=2):
    return (metric, olympics.row(st["summary"], olympics.SUM, metric),
            olympics.row(st["station"], olympics.STA, metric)
            if level else "",
            [olympics.row(p, olympics.PRO, metric) for p in st["profile"]]
            if level > 1 else [])


def make(kind, variant=0):
    cls = KINDS[kind][0]
    a = regular(kind, variant)
    return cls(*a) if kind == "station" else cls(a)


def observe(kind, r):
    out = [float(getattr(r, q)) for q in KINDS[kind][1]]
    if kind == "station":
        out += [np.array(getattr(r, q)) for q in PROFILE]
        out.append(r.sample_count())
    return out


def equal(a, b):
    return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))


def attempt(fun):
    try:
        fun()
        return None
    except ValueError:
        return "ValueError"


def set_one(case, res):
    kind, q = case["set"], case["q"]
    rule = KINDS[kind][1][q]
    i = list(KINDS[kind][1]).index(q)
    for v, first in itertools.product(VALUES, (None, .25)):
        r = make(kind)
        if first is not None:
            setattr(r, q, first)
        before = observe(kind, r)
        got = attempt(lambda r=r, v=v: setattr(r, q, v))
        now = observe(kind, r)
        res.count(evaluations=1, nontrivial=int(v <= 0 or np.isinf(v)))
        if ok(rule, v) != (got is None):
            return f"{kind}.{q}={v} {'raised' if got else 'was accepted'}"
        if ok(rule, v):
            before[i] = v
        if not equal(before, now):
            return f"{kind}.{q}={v} leaves {now}, should be {before}"
    return None


def set_array(case, res):
    q = case["setarr"]
    i = len(KINDS["station"][1]) + PROFILE.index(q)
    for v, at in itertools.product(VALUES, range(3)):
        r = make("station")
        before = observe("station", r)
        arr = np.array([.1, .2, .3])
        arr[at] = v
        got = attempt(lambda r=r, arr=arr: setattr(r, q, arr))
        now = observe("station", r)
        res.count(evaluations=1, nontrivial=int(v <= 0))
        if (v >= 0) != (got is None):
            return f"{q}={arr} {'raised' if got else 'was accepted'}"
        if v >= 0:
            before[i] = arr
        if not equal(before, now):
            return f"{q}={arr} leaves {now}, should be {before}"
    return None


def line_case(case, res):
    kind, mode = case["line"], case["mode"]
    cls, rules = KINDS[kind]
    cols = regular(kind).split()
    names = list(dump.AF) if kind == "airfoil" else [
        "s", "x", "y", "u_e_rel", "delta_d", "delta_m", None, "shape_d"]

    def build(c, reset):
        if reset:
            r = make(kind, 1)
            r.reset(" ".join(c))
            return r
        return cls(" ".join(c))
    for reset in (False, True):
        if mode == "columns":
            for n in range(1, len(cols) + 5):
                c = (cols*2)[:n]
                got = attempt(lambda c=c, reset=reset: build(c, reset))
                res.count(evaluations=1, nontrivial=int(n != len(cols)))
                if (got is None) != (n == len(cols)):
                    return f"{kind} line with {n} columns: {got}"
            continue
        if mode == "word":
            for i, w in itertools.product(range(len(cols)),
                                          ("x", "1.2.3", "1,5", "--")):
                c = cols[:i] + [w] + cols[i + 1:]
                res.count(evaluations=1, nontrivial=1)
                if attempt(lambda c=c, reset=reset: build(c, reset)) is None:
                    return f"{kind} line with {w} in column {i} was accepted"
            continue
        for i, v in itertools.product(range(len(cols)), VALUES[:-1]):
            c = cols[:i] + [repr(v)] + cols[i + 1:]
            rule = ANY if names[i] is None else rules[names[i]]
            res.count(evaluations=1, nontrivial=int(v <= 0))
            try:
                r = build(c, reset)
            except ValueError:
                if ok(rule, v):
                    return f"{kind} line with {v} in column {i} was rejected"
                continue
            if not ok(rule, v):
                return f"{kind} line with {v} in column {i} was accepted"
            want = [float(c[j]) for j, n in enumerate(names) if n]
            if not same(np.array(observe(kind, r)), np.array(want)):
                return f"{kind} line {c} read as {observe(kind, r)}"
    return None


def resets(case, res):
    """Only the last reset counts."""
    kind = case["resets"]
    if kind == "station":
        m = case["metric"]
        alphabet = [station_args(olympics.station(i, s, p), t, lv)
                    for i, s, p, t, lv in (
                        (0, 0.0, 3, m, 2), (1, 1.0, 2, m, 2),
                        (2, 0.0, 0, m, 1), (3, 0.0, 0, m, 0),
                        (1, 0.0, 4, not m, 2), (0, 0.0, 0, not m, 0))]
    else:
        alphabet = [(regular(kind, i),) for i in range(3)] + [("",)]
    cls = KINDS[kind][0]
    for seq in itertools.product(alphabet, repeat=case["depth"]):
        r = cls(*seq[0])
        other = cls(*alphabet[0])
        kept = observe(kind, other)
        for a in seq[1:]:
            old = [(v, np.copy(v)) for v in observe(kind, r)]
            r.reset(*a)
            want = observe(kind, cls(*a))
            if not equal(observe(kind, r), want):
                return (f"after reset to {a} the record is "
                        f"{observe(kind, r)}, a new one {want}")
            if not all(same(p, q) for p, q in old):
                return "an array handed out before changed"
        if not equal(observe(kind, other), kept):
            return "another record changed"
        res.count(evaluations=1, nontrivial=1)
    if kind != "station":
        r = cls("")
        if not all(np.isinf(v) for v in observe(kind, r)):
            return f"empty record holds {observe(kind, r)}"
    return None


def disturb(case, res):
    q, metric = case["disturb"], case["metric"]
    # thick and thin layers: small numbers can be too large as well
    for size, i, thick in itertools.product(range(4), range(3),
                                            (1.0, 40.0, .002)):
        st = olympics.station(i, 0.0, 3, thick=thick)
        tol = (TOL.get(q) or PTOL[q])[size]*case["sign"]
        if q in TOL:
            s = st["station"]
            s[q] += tol
            if q == "delta_m":   # keep the derived quantities consistent
                s["re_delta_m"] = st["summary"]["u_e"]*s[q]/s["nu"]
            if q == "delta_d":
                s["re_delta_d"] = st["summary"]["u_e"]*s[q]/s["nu"]
            if s[q] <= 0:
                continue
            st["profile"] = []
            todo = [st]
        else:
            todo = []
            for k in range(3):
                one = olympics.station(i, 0.0, 3, thick=thick)
                one["profile"][k][q] += tol
                if q != "y_plus" and one["profile"][k][q] < 0:
                    continue
                todo.append(one)
        for one in todo:
            res.count(evaluations=1, nontrivial=1)
            try:
                r = StanfordOlympics1968StationData(
                    *station_args(one, metric, 2))
            except ValueError as ex:
                if size < 2:
                    return f"{q} off by {tol} was rejected: {ex}"
                continue
            if size > 1:
                return f"{q} off by {tol} was accepted"
            if q in TOL and not close(getattr(r, q), one["station"][q],
                                      1e-10):
                return f"{q} is {getattr(r, q)}, should be the station's own"
    return None


def slines(case, res):
    """Lines of the three Stanford tables."""
    m, metric = case["slines"], case["metric"]
    args = station_args(olympics.station(1, 0.0, 3), metric, 2)
    tables = [args[1], args[2], *args[3]]
    rules = [[KINDS["station"][1].get(q, ANY) for q in olympics.SUM]]

    def build(t):
        return StanfordOlympics1968StationData(metric, t[0], t[1], t[2:])
    for k, line in enumerate(tables):
        cols = line.split()
        if m == "columns":
            for n in range(1, len(cols) + 4):
                if n == len(cols):
                    continue
                t = list(tables)
                t[k] = " ".join((cols*2)[:n])
                res.count(evaluations=1, nontrivial=1)
                if attempt(lambda t=t: build(t)) is None:
                    return f"table {k} with {n} columns was accepted"
        elif m == "word":
            for i in range(len(cols)):
                t = list(tables)
                t[k] = " ".join(cols[:i] + ["1x"] + cols[i + 1:])
                res.count(evaluations=1, nontrivial=1)
                if attempt(lambda t=t: build(t)) is None:
                    return f"table {k} with a word in column {i} was accepted"
        elif k == 0:
            for i, rule in enumerate(rules[0]):
                for v in (-1.0, 0.0):
                    if rule == ANY:
                        continue
                    t = " ".join(cols[:i] + [repr(v)] + cols[i + 1:])
                    res.count(evaluations=1, nontrivial=1)
                    if attempt(lambda t=t: StanfordOlympics1968StationData(
                            metric, t, "", [])) is None:
                        return f"summary with {v} in column {i} was accepted"
    return None


def smooth(case, res):
    metric = case["smooth"]
    f = 1.0 if metric else olympics.FT
    for n in range(5):
        rows = olympics.smooth(n, 1)
        data = [f"{a/f!r} {b/f!r} {c!r}" for a, b, c in rows]
        r = StanfordOlympics1968SmoothVel(metric, data)
        old = r.x
        res.count(evaluations=1, nontrivial=int(n != 2))
        if r.size() != n or not all(
                close(getattr(r, q), [w[k] for w in rows], 1e-12)
                for k, q in enumerate(("x", "u_e", "du_e"))):
            return f"{n} samples read as {r.x}, {r.u_e}, {r.du_e}"
        r.reset(metric, data[:1] + data)
        if r.size() != len(data[:1] + data) or old.size != n:
            return f"after reset there are {r.size()} samples"
        for i in range(n):
            for bad in ("1 2", "1 2 3 4", "1 2 x"):
                d = list(data)
                d[i] = bad
                if attempt(lambda d=d: StanfordOlympics1968SmoothVel(
                        metric, d)) is None:
                    return f"sample {bad} was accepted"
    return None


def run_case(case):
    res = Result()
    for key, fun in (("set", set_one), ("setarr", set_array),
                     ("line", line_case), ("resets", resets),
                     ("disturb", disturb), ("slines", slines),
                     ("smooth", smooth)):
        if key in case:
            msg = fun(case, res)
            if msg:
                res.fail(msg, case)
            break
    res.outcome(case)
    res.sample(case)
    return res
