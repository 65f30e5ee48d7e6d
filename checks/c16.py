"""C16: Stanford Olympics data are complete, in SI units and consistent."""
import itertools
import os
import tempfile

import numpy as np

from mc import olympics
from mc.core import Result
from mc.util import close

LEVEL = "exploration"
RULE = ("every station of every case supplied with the library, read by an "
        "own parser and converted to SI units, and tested against the "
        "definitions of the quantities (shape factors, Reynolds numbers, "
        "shear velocity, Clauser thickness, equilibrium parameters, "
        "Ludwieg-Tillman law, profiles and their integrals); and every made "
        "case file up to the bound over unit system, number of stations, of "
        "profile points and of smoothed samples, tables present and layout, "
        "whose SI values are known by construction. Non-trivial: English "
        "units or profiles.")
ASSUMPTIONS = ["case numbers starting with 1 are in metric units (cm for "
               "thicknesses), others in English units, as in the files"]
CHUNK = 8
IDS = ("1100", "1200", "1300", "2200", "2300")
COUNTS = {"1100": 12, "1200": 10, "1300": 12, "2200": 8, "2300": 8}


def cases(tier):
    out = [{"real": c, "station": i} for c in IDS for i in range(COUNTS[c])]
    n = 4 if tier == "quick" else 6
    for ident in ("1901", "2901", "3300", "4500") + (
            ("1777", "5100", "9000") if tier != "quick" else ()):
        for ns, level, pts, sm in itertools.product(
                range(1, n), (0, 1, 2), range(1, n), range(0, n)):
            if level < 2 and pts > 1:
                continue
            if sm == 0 and level == 0:
                continue
            out.append({"made": [ident, ns, level, pts, sm]})
        # long tables and many stations: up to more than 64 kB
        for big in ([14, 2, 30, 60], [40, 2, 5, 9], [3, 2, 150, 0],
                    [2, 0, 1, 400], [60, 1, 1, 1], [12, 2, 90, 100]):
            out.append({"made": [ident, *big]})
    return out


def blocks(path):
    """Own parser: table title -> rows of numbers."""
    out, title = {}, None
    head = {}
    with open(path, encoding="utf8") as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            if line.startswith("#"):
                t = line[1:].strip()
                if t.lower().startswith(("summary", "edge", "station")):
                    title = t.lower()
                    out[title] = []
                continue
            if "=" in line:
                k, v = line.split("=")
                head[k.strip().lower()] = v.strip()
            else:
                out[title].append([float(w) for w in line.split()])
    return head, out


def si(q, v, metric):
    return v*olympics.UNIT[q][0 if metric else 1] if q in olympics.UNIT else v


def real(case):
    """List of (quantity, message)."""
    from ibl.reference import StanfordOlympics1968
    import ibl
    c, i = case["real"], case["station"]
    path = os.path.join(os.path.dirname(ibl.__file__), "data",
                        "stanford_olympics", "1968", f"case {c}.txt")
    head, blk = blocks(path)
    metric = c[0] == "1"
    s = StanfordOlympics1968(c)
    bad = []

    def need(q, got, want, tol=1e-12, atol=0.0):
        if not close(got, want, tol, atol):
            bad.append((q, f"{q} is {got}, should be {want}", "as written"))

    def ratio(q, what, value, tol):
        if not np.all(np.abs(np.asarray(value) - 1) <= tol):
            bad.append((q, f"{what} is {value} times what its definition "
                        "gives", round(float(value), 4)))
    n = COUNTS[c]
    if head["ident"] != c or s.case != c or s.station_count() != n \
            or len(blk["summary data"]) != n \
            or len(blk["stations summary"]) != n:
        return [("count", f"case {s.case} has {s.station_count()} stations, "
                 f"should be {n}", "")]
    need("nu_ref", s.nu_ref, si("nu", float(head["v"]), metric))
    sm = np.array(blk["edge velocity plot"])
    for k, (q, arr) in enumerate((("x", s.x_smooth()), ("u_e", s.u_e_smooth()),
                                  ("du_e", s.du_e_smooth()))):
        need(q + "_smooth", arr, si(q, sm[:, k], metric))
    d = {q: si(q, v, metric) for q, v in
         zip(olympics.SUM, blk["summary data"][i])}
    summary = dict(d)
    d.update({q: si(q, v, metric) for q, v in
              zip(olympics.STA, blk["stations summary"][i])})
    st = s.station(i)
    for q, v in d.items():
        need(q, getattr(st, q), v)
        need(q, getattr(s, q)()[i], v)
        if q in summary and q not in ("x",):
            ratio(q, f"{q} in the station summary",
                  d[q]/summary[q] if summary[q] else 1.0, 3e-3)
    g = d
    ratio("delta_d", "displacement thickness",
          g["delta_d"]/g["delta_m"]/g["shape_d"], 1e-3)
    ratio("delta_k", "kinetic energy thickness",
          g["delta_k"]/g["delta_m"]/g["shape_k"], 1e-3)
    ratio("nu", "viscosity", g["nu"]/s.nu_ref, 1e-9)
    ratio("re_delta_m", "momentum Reynolds number",
          g["re_delta_m"]*g["nu"]/g["u_e"]/g["delta_m"], 5e-4)
    ratio("re_delta_d", "displacement Reynolds number",
          g["re_delta_d"]*g["nu"]/g["u_e"]/g["delta_d"], 5e-4)
    w = np.sqrt(2/g["c_f"])
    ratio("u_star", "shear velocity", g["u_star"]/g["u_e"]*w, 6e-3)
    ratio("delta_c", "Clauser thickness", g["delta_c"]/(g["delta_d"]*w), 6e-3)
    ratio("shape_eq", "equilibrium shape factor",
          g["shape_eq"]/((1 - 1/g["shape_d"])*w), 6e-3)
    ratio("beta_eq", "equilibrium parameter", g["beta_eq"]
          / (-w*w*g["delta_d"]*g["du_e"]/g["u_e"]), 1e-2)
    ratio("c_f_lt", "Ludwieg-Tillman friction", g["c_f_lt"]
          / (.246*10**(-.678*g["shape_d"])*g["re_delta_m"]**-.268), 1e-2)
    ratio("c_f_exp", "reported friction", g["c_f_exp"]/g["c_f"], .25)
    ratio("u_e", "edge velocity", g["u_e"]
          / np.interp(g["x"], s.x_smooth(), s.u_e_smooth()), .02)
    pro = blk.get(f"station {i + 1} data", [])
    need("samples", st.sample_count(), len(pro))
    if pro:
        p = np.array(pro)
        y = si("y", p[:, 2], metric)
        u = p[:, 3]*g["u_e"]
        for q, v in (("y_plus", p[:, 0]), ("u_plus", p[:, 1]), ("y", y),
                     ("u", u), ("y_c", p[:, 4]), ("u_defect", p[:, 5])):
            need(q, getattr(s, q)(i), v)
            need(q, getattr(st, q), v)
        for q, v, ref, tol in (
                ("y_plus", p[:, 0], y*g["u_star"]/g["nu"], .7),
                ("u_plus", p[:, 1], u/g["u_star"], .02),
                ("y_c", p[:, 4], y/g["delta_c"], 1e-3),
                ("u_defect", p[:, 5], (g["u_e"] - u)/g["u_star"], .015)):
            k = int(np.argmax(np.abs(v - ref)))
            if abs(v[k] - ref[k]) > tol:
                bad.append((q, f"{q} of sample {k} is {v[k]}, definition "
                            f"gives {ref[k]}", [k, v[k]]))
        if not ((np.diff(y) > 0).all() and (np.diff(u) >= 0).all()):
            bad.append(("y", "profile is not increasing", ""))
        h = np.diff(y)
        r = p[:, 3]

        def integral(v):
            return float((.5*(v[1:] + v[:-1])*h).sum())
        ratio("delta_d", "displacement thickness of profile",
              integral(1 - r)/g["delta_d"], .05)
        ratio("delta_m", "momentum thickness of profile",
              integral(r*(1 - r))/g["delta_m"], .05)
    return bad


_MADE = {}


def made_module():
    if not _MADE:
        _MADE["tmp"] = tempfile.TemporaryDirectory(prefix="verif-so-")
        _MADE["mod"] = olympics.scratch(_MADE["tmp"].name)
    return _MADE["mod"]


def compare(got, want, level):
    for q, v in want.items():
        if q == "stations":
            continue
        if not close(got[q], v, 1e-10, 1e-13):
            return f"{q} is {got[q]}, should be {v}"
    for i, d in enumerate(want["stations"]):
        for q, v in d.items():
            if q in ("nu", "delta_c", "re_delta_m", "re_delta_d") \
                    and level < 1:
                continue
            if not close(got["stations"][i][q], v, 1e-10, 1e-13):
                return (f"station {i}: {q} is {got['stations'][i][q]}, should "
                        f"be {v}")
            if q.startswith("p_") and not close(
                    got["stations"][i]["q" + q[1:]], v, 1e-10, 1e-13):
                return f"station {i}: its own {q[2:]} is different"
    return None


def made(case):
    ref, folder = made_module()
    ident, ns, level, pts, sm = case["made"]
    path = os.path.join(folder, f"case {ident}.txt")
    forms = [f + ("plain",) for f in itertools.product(
        (0.0, 1.0, -1.0), (0, 1), (False, True), (True, False),
        ("ctor", "set"))] + [(1.0, 1, lower, gap, "ctor", layout)
                             for lower, gap, layout in itertools.product(
                                 (False, True), (True, False),
                                 olympics.LAYOUTS[1:])]
    for shift, kind, lower, gap, way, layout in forms:
        stations = [olympics.station(i, shift, pts + i, kind)
                    for i in range(ns)]
        smo = olympics.smooth(sm, kind)
        with open(path, "w", encoding="utf8", newline="") as f:
            f.write(olympics.laid(olympics.text(
                ident, stations, smo, level, 1.5e-5, lower, gap), layout))
        try:
            if way == "ctor":
                s = ref.StanfordOlympics1968(ident)
            else:
                s = ref.StanfordOlympics1968("1100")
                s.case = ident
        except ValueError as ex:
            return f"{layout} file not read: {ex}"
        finally:
            os.remove(path)
        if s.case != ident:
            return f"case is {s.case}"
        msg = compare(olympics.read_all(s), olympics.expect(
            stations, smo, level, 1.5e-5), level)
        if msg:
            return f"shift {shift}, kind {kind}, {layout} file: {msg}"
    return None


def run_case(case):
    res = Result()
    if "real" in case:
        for q, msg, val in real(case):
            res.fail(f"case {case['real']} station {case['station']}: {msg}",
                     {**case, "quantity": q, "value": val})
        res.count(evaluations=1, nontrivial=int(case["real"][0] != "1"
                                                or case["real"] < "1300"))
        res.outcome(case)
    else:
        msg = made(case)
        res.count(evaluations=68, nontrivial=68*int(
            case["made"][0][0] != "1" or case["made"][2] == 2))
        if msg:
            res.fail(f"made case (number, stations, tables, points, samples)="
                     f"{case['made']}: {msg}", case)
        res.outcome(case["made"][1:])
    res.sample(case)
    return res
