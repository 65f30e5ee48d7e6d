"""C14: an XFOIL dump is split at the stagnation point without loss."""
import itertools
import os
import tempfile

import numpy as np

from ibl.reference import XFoilReader

from mc import dump
from mc.core import Result
from mc.util import close

LEVEL = "exploration"
RULE = ("every small dump made from a set of chord stations: number of "
        "points on each side, location of the stagnation point (between any "
        "two points and exactly at any point), a velocity elsewhere that is "
        "zero or has the sign of the other surface, a defect of either "
        "sign, length of the wake, header, "
        "blank lines, number format and line ends, loaded through the "
        "constructor and through the filename property; every station and "
        "every array the reader offers is compared with the rows that were "
        "written. Non-trivial: the stagnation point is not at the leading "
        "edge.")
ASSUMPTIONS = ["header lines are at least 80 characters long, as written by "
               "XFOIL",
               "the chord location of the stagnation point is only compared "
               "where the stations tell on which side of the leading edge it "
               "is"]
CHUNK = 4
GRIDS = [[1.0, .55, .25, .05, -.1, -.35, -.7, -1.0],
         [1.0, .5, .2, 0.0, -.2, -.5, -1.0],
         [1.0, .3, -.3, -1.0], [.4, -.5], [.9, .3, -.6], [.9, -.3, -.6]]


def stags(ts):
    out = list(ts[:-1])
    for a, b in zip(ts, ts[1:]):
        out += [round(a + .3*(b - a), 5), round(a + .85*(b - a), 5)]
    return out


def cases(tier):
    out = []
    grids = list(GRIDS)
    if tier != "quick":
        base = [1.0, .8, .45, .2, .06, 0.0, -.03, -.15, -.4, -.75, -1.0]
        for n in range(2, 7):
            for c in itertools.combinations(base, n):
                if c[0] > 0 > c[-1]:
                    grids.append(list(c))
    for g, ts in enumerate(grids):
        for st in stags(ts):
            # the complete product is applied inside the case
            out.append({"ts": ts, "stag": st, "deep": g < len(GRIDS)})
    # many points: 160 as XFOIL, and files of more than 64 kB
    for n, wake in ((80, 23), (161, 0), (350, 80), (700, 3)) if tier == \
            "quick" else itertools.product((80, 161, 350, 700), (0, 3, 80)):
        for st in (0.0, .00321, -.4, .8):
            out.append({"many": n, "stag": st, "wake": wake, "deep": False})
    return out


def points(case):
    if "many" not in case:
        return case["ts"]
    n = case["many"]
    return [round(1 - i/n, 6) for i in range(2*n + 1)]


def odd(case):
    """Changes of single rows that leave the stagnation point alone."""
    air, _ = dump.rows(case["ts"], case["stag"], 0)
    k = next(i for i, r in enumerate(air) if r["u_e_rel"] < 0)
    out = [[i, "repeat", 0] for i in range(len(air))]
    if air[k-1]["u_e_rel"] == 0:
        out.append([k - 1, "u_e_rel", -0.0])
    for i, r in enumerate(air):
        out += [[i, q, -r[q]] for q in ("mass_defect", "ke_defect")]
        out += [[i, q, 0.0] for q in ("mass_defect", "ke_defect", "c_f")]
        if i not in (k - 1, k):
            out.append([i, "u_e_rel", 0.0])
            if i > k:
                out.append([i, "u_e_rel", -r["u_e_rel"]])
    return out


def variants(case):
    if "variant" in case:
        return [case["variant"]]
    if "many" in case:
        return [[case["wake"], h, b, e, "\n", w, 2.5] for h, b, e, w in (
            (True, "", False, "ctor"), (False, "rows", True, "set"))]
    more = [[n, True, "", False, "\n", "ctor", 2.0, *o] for n in (0, 2)
            for o in odd(case)]
    return plain(case) + more


def plain(case):
    if not case["deep"]:
        return [[n, True, "", False, "\n", "ctor", 2.0] for n in (0, 2)]
    return [list(v) for v in itertools.product(
        (0, 1, 3), (True, False), ("", "end", "wake", "start", "rows", "none"),
        (False, True), ("\n", "\r\n"), ("ctor", "set"), (2.5,))]


def mismatch(got, exp, u_ref, sure):
    up, lo, wk = exp
    for side, st in (("upper", up), ("lower", lo), ("wake", wk)):
        if len(got[side]) != len(st):
            return (f"{side} has {len(got[side])} stations, should have "
                    f"{len(st)}")
        keys = dump.AF if side != "wake" else dump.WK
        for i, (a, b) in enumerate(zip(got[side], st)):
            for q in keys:
                if q == "x" and i == 0 and side != "wake" and not sure:
                    if not 0 <= a[q] <= max(up[1]["x"], lo[1]["x"]):
                        return f"x at stagnation is {a[q]}"
                    continue
                if not close(a[q], b[q], 1e-10, 1e-10):
                    return f"{side}({i}).{q} is {a[q]}, should be {b[q]}"
        names = dump.ARR if side != "wake" else (
            "s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d")
        # arrays hold what the stations hold
        for n, w in dump.side_arrays(got[side], names, u_ref).items():
            if not close(got[f"{n}_{side}"], w, 1e-12, 1e-14):
                return (f"{n}_{side} is {got[f'{n}_{side}']}, stations have "
                        f"{w}")
    return None


def one(case, v, path):
    n_wake, header, blank, exp, eol, way, u_ref = v[:7]
    air, wake = dump.rows(points(case), case["stag"], n_wake)
    if len(v) > 7:
        if v[8] == "repeat":
            air.insert(v[7], dict(air[v[7]]))
        else:
            air[v[7]][v[8]] = v[9]
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(dump.text(air, wake, header, blank, exp, eol))
    want = dump.expect(air, wake)
    if way == "ctor":
        r = XFoilReader(path)
    else:
        r = XFoilReader()
        r.filename = path
    if r.filename != path:
        return f"filename is {r.filename!r}"
    msg = mismatch(dump.read_all(r), want[:3], 1.0, want[3])
    if msg:
        return msg
    r.u_ref = u_ref
    msg = mismatch(dump.read_all(r), want[:3], u_ref, want[3])
    if msg:
        return f"with u_ref={u_ref}: {msg}"
    su, sl = r.s_upper(), r.s_lower()
    grow = np.diff(su), np.diff(sl)
    if v[8:9] == ["repeat"]:    # rows at the same place
        grow = [np.where(g == 0, 1, g) for g in grow]
    if not (su[0] == 0 and sl[0] == 0 and (grow[0] > 0).all()
            and (grow[1] > 0).all()):
        return f"arc lengths are {su} and {sl}"
    if not close(su[-1] + sl[-1], air[-1]["s"] - air[0]["s"], 1e-12):
        return f"total arc length is {su[-1] + sl[-1]}"
    return None


def run_case(case):
    res = Result()
    with tempfile.TemporaryDirectory(prefix="verif-xf-") as d:
        path = os.path.join(d, "dump.txt")
        for v in variants(case):
            try:
                msg = one(case, v, path)
            except Exception as ex:
                msg = f"raised {type(ex).__name__}: {ex}"
            res.count(evaluations=1, nontrivial=int(case["stag"] != 0))
            if msg:
                res.fail(f"dump with points {case.get('many') or case['ts']}, stagnation at "
                         f"{case['stag']}, (wake, header, blank, exponents, "
                         f"line end, way, u_ref)={v}: {msg}",
                         {**case, "variant": v})
                return res
            res.outcome(points(case), case["stag"], v[0])
    res.sample({"points": points(case)[:12], "stagnation": case["stag"]})
    return res
