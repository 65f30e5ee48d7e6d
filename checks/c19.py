"""C19: skin friction correlations follow their published formulas."""
import math

import numpy as np

from ibl.skin_friction import felsch, ludwieg_tillman, white
from mc.core import Result
from mc.util import close, same

LEVEL = "exploration"
RULE = ("the full grid of momentum thickness Reynolds number x displacement "
        "shape factor for each correlation, evaluated as scalars (Python and "
        "numpy, integer and real), vectors, matrices, and every broadcast of "
        "one against the other, and compared with formulas evaluated with "
        "the standard math library from the published constants; "
        "monotonicity between all neighbours; mutual agreement in the "
        "moderate range; agreement with the Ludwieg-Tillman values tabulated "
        "for every supplied experiment. Non-trivial: the "
        "correlation is not clipped.")
ASSUMPTIONS = ["Felsch is zero to 1e-9 beyond its separation shape factor "
               "2.9986 and constant below 1"]
CHUNK = 8
NAMES = {"ludwieg_tillman": ludwieg_tillman, "felsch": felsch, "white": white}


def formula(name, re, h):
    if name == "ludwieg_tillman":
        return .246*re**-.268*10**(-.678*h)
    if name == "felsch":
        h = min(max(h, 1.0), 2.9986313485)
        return .058*max(.93 - 1.95*math.log10(h), 0.0)**1.705/re**.268
    return .3*math.exp(-1.33*h)/math.log10(re)**(1.74 + .31*h)


def cases(tier):
    n = 40 if tier == "quick" else 200
    re = np.concatenate((np.geomspace(30, 1e7, n), np.geomspace(2e7, 1e13, 8),
                         np.geomspace(1.5, 25, 8), [100, 1000, 12345]))
    out = [{"law": f, "re": float(r), "n": 80 if tier == "quick" else 400}
           for f in NAMES for r in re]
    out += [{"law": f, "grid": n} for f in NAMES]
    out += [{"law": "agree", "n": 40 if tier == "quick" else 200}]
    out += [{"law": "data"}]
    return out


def one(case, res):
    f, name, re = NAMES[case["law"]], case["law"], case["re"]
    hs = np.concatenate((np.linspace(.7, 4, case["n"]), [1, 2, 3, 4, 2.9986]))
    want = np.array([formula(name, re, h) for h in hs])
    res.count(evaluations=len(hs))
    keep = hs.copy()
    rv = np.full(hs.shape, re)
    shapes = {
        "scalar": [f(re, float(h)) for h in hs],
        "numpy scalar": [f(np.float64(re), np.float64(h)) for h in hs],
        "vector": f(re, hs),
        "vectors": f(rv, hs),
        "matrix": f(re, np.reshape(hs, (1, -1)))[0],
        "columns": f(rv[:, None], hs[:, None])[:, 0],
        "read only": None,
        "strided": f(np.repeat(rv, 2)[::2], np.repeat(hs, 2)[::2]),
        "0-d": [f(np.array(re), np.array(h)) for h in hs],
    }
    ro = hs.copy()
    ro.flags.writeable = False
    shapes["read only"] = f(re, ro)
    for how, (a, b) in {"1x1": (re, hs[:1].reshape(1, 1)),
                        "1": (re, hs[:1]), "1 both": (rv[:1], hs[:1]),
                        "1 Reynolds number": (rv[:1], float(hs[0])),
                        "1x1x1": (rv[:1].reshape(1, 1, 1), hs[0]),
                        "none": (re, hs[:0]), "none both": (rv[:0], hs[:0]),
                        "row and column": (rv[:1, None], hs[:1]),
                        "0-d": (np.array(re), np.array(hs[0]))}.items():
        got = f(a, b)
        dims = np.broadcast(a, b).shape
        if np.shape(got) != dims:
            return f"{name} {how} has shape {np.shape(got)}, not {dims}"
        if np.size(got) and not close(np.ravel(got)[0], want[0], 1e-10,
                                      1e-11):
            return f"{name} {how} at {re}, {hs[0]}: {got}, not {want[0]}"
    for how, got in shapes.items():
        if not close(got, want, 1e-10, 1e-11):
            i = int(np.argmax(~np.isclose(got, want, 1e-10, 1e-11)))
            return f"{name} {how} at {re}, {hs[i]}: {got[i]}, not {want[i]}"
    if re == int(re) and re >= 100:
        for h in (1, 2, 3):
            got = f(int(re), h)
            if not close(got, formula(name, re, h), 1e-10, 1e-11):
                return f"{name} integers {re}, {h}: {got}"
    if not same(hs, keep) or not same(rv, np.full(hs.shape, re)):
        return f"{name} modified its input"
    srt = np.sort(hs[(hs >= 1) & (hs <= 2.99)])
    v = np.asarray(f(re, srt))
    if not (v > 0).all() or not np.isfinite(v).all():
        return f"{name} at {re} not positive: {v.min()}"
    d = np.diff(v)[np.diff(srt) > 0]
    if not (d < 0).all():
        return f"{name} at {re} does not fall with the shape factor"
    res.count(nontrivial=int(((hs > 1) & (hs < 2.99)).sum()))
    res.outcome(name, round(re, 3), np.round(np.asarray(got)*1e6).tolist())
    res.sample({"law": name, "re": re, "shape_d": hs[5], "c_f": float(v[5])})
    return None


def grid(case, res):
    f, name = NAMES[case["law"]], case["law"]
    re = np.geomspace(3, 1e12, case["grid"])
    hs = np.linspace(1, 2.99, case["grid"])
    a, b = np.meshgrid(re, hs, indexing="ij")
    got = f(a, b)
    res.count(evaluations=a.size)
    want = np.array([[formula(name, r, h) for h in hs] for r in re])
    if not close(got, want, 1e-10, 1e-11):
        return f"{name} differs on the grid"
    if not close(f(re[:, None], hs[None, :]), want, 1e-10, 1e-11):
        return f"{name} differs on the broadcast grid"
    many = np.tile(np.array([a.ravel(), b.ravel()]), 1 + 40000//a.size)
    if not close(f(*many), np.tile(want.ravel(), 1 + 40000//a.size), 1e-10,
                 1e-11):
        return f"{name} differs for {many.shape[1]} values"
    for h in hs:
        if not close(f(re, h), [formula(name, r, h) for r in re], 1e-10,
                     1e-11):
            return f"{name} differs for a vector of Reynolds numbers, {h}"
    if not (np.diff(got, axis=0) < 0).all():
        return f"{name} does not fall with the Reynolds number"
    res.count(nontrivial=a.size)
    res.outcome(name, case["grid"])
    return None


def agree(case, res):
    for re in np.geomspace(1e3, 5e4, case["n"]):
        for h in np.linspace(1.25, 1.6, case["n"]):
            v = [f(re, h) for f in NAMES.values()]
            res.count(evaluations=3)
            if max(v) > 1.15*min(v):
                return f"correlations disagree at {re}, {h}: {v}"
    return None


def data(case, res):
    from ibl.reference import StanfordOlympics1968
    for ident in ("1100", "1200", "1300", "2200", "2300"):
        so = StanfordOlympics1968(ident)
        for i, x in enumerate(so.x()):
            st = so.station(i)
            got = ludwieg_tillman(st.re_delta_m, st.shape_d)
            want = so.c_f_lt()[i]
            res.count(evaluations=1)
            # station and summary values are rounded independently
            if abs(got/want - 1) > .03:
                return (f"{ident} station {i}: {got}, tabulated {want} at "
                        f"{st.re_delta_m}, {st.shape_d}")
    return None


def run_case(case):
    res = Result()
    if case["law"] == "agree":
        bad = agree(case, res)
    elif case["law"] == "data":
        bad = data(case, res)
    elif "grid" in case:
        bad = grid(case, res)
    else:
        bad = one(case, res)
    if bad:
        res.fail(bad, case)
    return res
