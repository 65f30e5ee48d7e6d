"""XFOIL dump files: making them and what a reader has to report."""
import numpy as np

HEADER = ("#    s        x        y     Ue/Vinf    Dstar     Theta      Cf"
          "       H       H*        P         m          K          tau"
          "         Di\n")
AF = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d",
      "shape_k", "mom_defect", "mass_defect", "ke_defect")
WK = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d")
FLIP = ("u_e_rel", "mass_defect", "ke_defect")


def rows(ts, stag, n_wake, variant=0):
    """
    Airfoil rows at chord parameters ts (1 at the upper trailing edge, 0 at
    the leading edge, -1 at the lower trailing edge) and wake rows.
    """
    air, wake = [], []
    v = 1 + .25*variant
    s = .0
    for i, t in enumerate(ts):
        if i:
            s = round(s + 1.02*abs(ts[i] - ts[i-1]), 5)
        ue = round(v*1.3*(t - stag), 5) + 0.0
        i %= 40
        air.append(dict(zip(AF, (
            s, round(abs(t), 5), round(.06*t*(1.2 - t*t), 5), ue,
            round(.0011*(i + 2)*v, 6), round(.0005*(i + 1.5)*v, 6),
            round(.003*(1 + .1*i)*v, 6), round(2.1 + .03*i + .2*variant, 4),
            round(1.5 + .011*i, 4), round(.004*(i + 1), 5),
            round(.002*(i + 3)*np.sign(ue), 5),
            round(.007*(i + 2)*np.sign(ue), 5)))))
    s = air[-1]["s"]
    for i in range(n_wake):
        wake.append(dict(zip(WK, (
            round(s + .001 + .1*i, 5), round(1 + .1*i, 5),
            round(-.002*i, 5), round(.8 + .02*(i % 9), 5),
            round(.012 - .001*(i % 9), 6), round(.006 - .0003*(i % 9), 6),
            round(2.0 - .1*(i % 9), 4)))))
    return air, wake


def line(row, exp=False):
    if exp:
        f = " ".join("%13.6E" % row[k] for k in row)
        return " " + f + "\n"
    w = [row[k] for k in AF]
    return ("%10.5f%9.5f%9.5f%9.5f%10.6f%10.6f%10.6f%10.4f%10.4f"
            "%9.5f%9.5f%9.5f\n" % tuple(w))


def wake_line(row):
    w = [row[k] for k in WK]
    return ("%10.5f%9.5f%9.5f%9.5f%10.6f%10.6f%10.6f%10.4f\n"
            % (*w[:6], 0.0, w[6]))


def text(air, wake, header=True, blank="", exp=False, eol="\n"):
    parts = [HEADER] if header else []
    parts += [line(r, exp) for r in air]
    tail = [wake_line(r) for r in wake]
    if blank == "end":
        tail.append("\n")
    elif blank == "wake":
        parts.append("  \n")
    elif blank == "start":
        parts.insert(0, "\n")
    elif blank == "rows":
        parts = [p + "\n" for p in parts]
        tail = [p + "\n" for p in tail]
    elif blank == "none" and (tail or parts):
        (tail or parts)[-1] = (tail or parts)[-1].rstrip("\n")
    return "".join(parts + tail).replace("\n", eol)


def expect(air, wake):
    """(upper, lower, wake) stations and whether x at stagnation is known."""
    k = next((i for i, r in enumerate(air) if r["u_e_rel"] < 0), None)
    if k is None or k == 0:
        return None
    up = [dict(r) for r in air[:k]][::-1]
    lo = [dict(r) for r in air[k:]]
    for r in lo:
        for q in FLIP:
            r[q] = -r[q]
    sure = True
    if up[0]["u_e_rel"] == 0:
        stag = dict(up[0])
        lo.insert(0, dict(stag))
    else:
        a, b = up[0], lo[0]
        w = a["u_e_rel"]/(a["u_e_rel"] + b["u_e_rel"])
        stag = {q: (1 - w)*a[q] + w*b[q] for q in AF}
        stag["u_e_rel"] = 0.0
        if np.sign(a["y"]) != np.sign(b["y"]):   # around the leading edge
            stag["x"] = abs((1 - w)*a["x"] - w*b["x"])
        small = min(r["x"] for r in air)
        sure = (np.sign(a["y"])*np.sign(b["y"]) <= 0
                or small not in (a["x"], b["x"]))
        up.insert(0, stag)
        lo.insert(0, dict(stag))
    s0 = stag["s"]
    for r in up:
        r["s"] = s0 - r["s"]
    for r in lo:
        r["s"] -= s0
    wk = [dict(r) for r in wake]
    if wk:
        s1 = wk[0]["s"]
        for r in wk:
            r["s"] -= s1
    return up, lo, wk, sure


ARR = {"s": "s", "x": "x", "y": "y", "u_e": "u_e_rel", "delta_d": "delta_d",
       "delta_m": "delta_m", "shape_d": "shape_d", "delta_k": None,
       "shape_k": "shape_k", "c_f": "c_f", "mass_defect": "mass_defect",
       "mom_defect": "mom_defect", "ke_defect": "ke_defect"}


def side_arrays(st, names, u_ref):
    out = {}
    for name in names:
        if name == "delta_k":
            v = [r["shape_k"]*r["delta_m"] for r in st]
        else:
            v = [r[ARR[name]] for r in st]
        out[name] = (u_ref if name == "u_e" else 1.0)*np.array(v)
    return out


def read_all(r):
    """Everything a reader reports."""
    out = {"filename": r.filename, "name": r.name, "alpha": r.alpha,
           "u_ref": r.u_ref, "c": r.c, "re": r.reynolds,
           "n_trans": r.n_trans, "xu": r.x_trans_upper,
           "xl": r.x_trans_lower}
    for side, count in (("upper", r.upper_count()),
                        ("lower", r.lower_count()),
                        ("wake", r.wake_count())):
        names = ARR if side != "wake" else ("s", "x", "y", "u_e", "delta_d",
                                            "delta_m", "shape_d")
        for n in names:
            out[f"{n}_{side}"] = np.array(getattr(r, f"{n}_{side}")())
        keys = AF if side != "wake" else WK
        out[side] = [{q: float(getattr(getattr(r, side)(i), q))
                      for q in keys} for i in range(count)]
    return out
