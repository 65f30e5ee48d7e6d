"""
Stanford 1968 case files: making them and what the reader has to report.

The reader finds its cases inside the package, so the package is copied from
the working tree to a scratch directory, the made cases are written into the
copy, and the copy is imported instead.
"""
import importlib
import os
import shutil
import sys

import numpy as np

FT, IN = .3048, .0254
SUM = ("x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq",
       "c_f", "c_f_lt", "c_f_exp", "beta_eq")
STA = ("x", "u_star", "u_e", "nu", "delta_m", "delta_d", "delta_k", "delta_c",
       "shape_d", "shape_eq", "shape_k", "re_delta_m", "re_delta_d")
PRO = ("y_plus", "u_plus", "y", "u_rel", "y_c", "u_defect")
# one file unit in SI units: (cases starting with 1, other cases)
UNIT = {"x": (1, FT), "u_e": (1, FT), "u_star": (1, FT), "nu": (1e-4, FT*FT),
        "delta_m": (1e-2, IN), "delta_d": (1e-2, IN), "delta_k": (1e-2, IN),
        "delta_c": (1e-2, IN), "y": (1e-2, IN)}
ARRAYS = SUM + ("delta_d", "delta_k")
STATION_ARRAYS = ("u_star", "nu", "delta_c", "re_delta_m", "re_delta_d")
PROFILE = ("y", "y_plus", "y_c", "u", "u_plus", "u_defect")


def scratch(folder):
    """Import a copy of the package living in folder; its data directory."""
    repo = os.environ.get("VERIF_REPO", "/repo")
    dst = os.path.join(folder, "ibl")
    shutil.copytree(os.path.join(repo, "ibl"), dst,
                    ignore=shutil.ignore_patterns("__pycache__"))
    for name in [m for m in sys.modules if m == "ibl"
                 or m.startswith("ibl.")]:
        del sys.modules[name]
    sys.path.insert(0, folder)
    importlib.invalidate_caches()
    ref = importlib.import_module("ibl.reference")
    if not os.path.realpath(ref.__file__).startswith(
            os.path.realpath(folder)):
        raise RuntimeError(f"imported {ref.__file__}")
    sys.path.remove(folder)
    return ref, os.path.join(dst, "data", "stanford_olympics", "1968")


def station(i, shift=0.0, points=0, kind=0, thick=1.0):
    """A station of a flow in SI units; shift: differs from the summary."""
    n, i = i, i % 7
    ue = 31.0 - 2.3*i + 5*kind
    cf = .0026 - .0003*i
    th = (.0021 + .0008*i + .0004*kind)*thick
    h, hk = 1.38 + .05*i, 1.77 - .02*i
    nu = 1.52e-5 + 1e-7*i
    g = (1 - 1/h)*np.sqrt(2/cf)
    out = {"summary": dict(zip(SUM, (
        .8 + .5*n + .1*kind, ue, -2.5 + .3*i, th, h, hk, g, cf, .99*cf,
        1.02*cf, .2 + .4*i)))}
    sx = dict(out["summary"])
    ue2, th2, h2, hk2 = ue*(1 + .001*shift), th*(1 + .1*shift), \
        h + .001*shift, hk - .001*shift
    us = ue*np.sqrt(cf/2) + .002*shift
    dd, dk = h2*th2*(1 + .002*shift), hk2*th2*(1 - .002*shift)
    out["station"] = dict(zip(STA, (
        sx["x"] + .001*shift, us, ue2, nu, th2, dd, dk, h*th/us*ue*.98,
        h2, g + .0015*shift, hk2, ue*th2/nu + .5*shift,
        ue*dd/nu - .5*shift)))
    st = out["station"]
    pro = []
    for k in range(points):
        y = .0004*(k + i)
        r = .0 if y == 0 else min(1.0, .5 + .13*k + .02*i)
        pro.append(dict(zip(PRO, (
            y*us/nu*(1 + 1e-4*shift), r*ue2/us + .01*shift, y, r,
            y/st["delta_c"] + .01*shift,
            (1 - r)*ue2/us + .01*shift*(r < 1)))))
    out["profile"] = pro
    return out


def smooth(n, kind=0):
    return [(.75 + .3*i, 33.0 - 1.1*(i % 13) + kind, -2.2 - .3*(i % 13))
            for i in range(n)]


def conv(q, v, si):
    """SI value in the units of the file."""
    return v/UNIT[q][0 if si else 1] if q in UNIT else v


def row(d, keys, si):
    return "  ".join(repr(float(conv(q, d[q], si))) for q in keys) + "\n"


def text(ident, stations, smo, level, nu, lower=False, gap=True):
    """level 0: summary only, 1: station summaries, 2: profiles."""
    si = ident[0] == "1"
    end = "\n" if gap else ""
    out = ["# A made flow\n",
           f"{'ident' if lower else 'IDENT'} = {ident}\n",
           f"{'v' if lower else 'V'} = {conv('nu', nu, si)!r}\n", end,
           "# Summary data\n", "# X UI DUI THETA H HS G CF CFLT CFE BETA\n"]
    out += [row(s["summary"], SUM, si) for s in stations]
    out += [end, "# Edge velocity plot\n", "# X UI DUI\n"]
    out += [row(dict(zip(("x", "u_e", "du_e"), r)), ("x", "u_e", "du_e"), si)
            for r in smo]
    if level >= 1:
        out += [end, "# Stations summary\n",
                "# X US UI V THETA DELS ENTH CLTH H G HS RTHETA RDELS\n"]
        out += [row(s["station"], STA, si) for s in stations]
    if level >= 2:
        for i, s in enumerate(stations):
            out += [end, f"# Station {i + 1} data\n",
                    "# Y+ U+ Y U/UI Y/CD UDEF\n"]
            out += [row(p, PRO, si) for p in s["profile"]]
    return "".join(out)


LAYOUTS = ("plain", "crlf", "tabs", "padded", "tight", "exponent")


def laid(content, layout):
    """The same content, written another way."""
    lines = content.split("\n")[:-1]
    if layout == "crlf":
        return "\r\n".join(lines) + "\r\n"
    if layout == "tabs":
        lines = [x if x.startswith("#") else x.replace("  ", "\t")
                 for x in lines]
    elif layout == "padded":   # columns of equal width, blank at both ends
        lines = [x if not x or x[0] == "#" or "=" in x else
                 "  " + "".join(f"{w:>26}" for w in x.split()) + "  "
                 for x in lines]
    elif layout == "tight":    # nothing around "=", no last end of line
        lines = [x if x.startswith("#") else x.replace(" = ", "=")
                 for x in lines]
        return "\n".join(lines)
    elif layout == "exponent":
        lines = [x if not x or x[0] == "#" or "=" in x else
                 " ".join(f"{float(w):+.17E}" for w in x.split())
                 for x in lines]
    return "\n".join(lines) + "\n"


def expect(stations, smo, level, nu):
    """What the reader has to report, in SI units."""
    out = {"nu_ref": nu, "count": len(stations)}
    for k, q in enumerate(("x_smooth", "u_e_smooth", "du_e_smooth")):
        out[q] = np.array([r[k] for r in smo])
    rows_ = []
    for s in stations:
        d = dict(s["summary"])
        d["delta_d"] = d["shape_d"]*d["delta_m"]
        d["delta_k"] = d["shape_k"]*d["delta_m"]
        d["u_star"] = d["u_e"]*np.sqrt(d["c_f"]/2)
        if level >= 1:
            d.update(s["station"])
        d["samples"] = len(s["profile"]) if level >= 2 else 0
        for q in PROFILE:
            if q == "u":
                d["p_u"] = np.array([p["u_rel"]*d["u_e"]
                                     for p in s["profile"]]
                                    if level >= 2 else [])
            else:
                d["p_" + q] = np.array([p[q] for p in s["profile"]]
                                       if level >= 2 else [])
        rows_.append(d)
    for q in ARRAYS + ("u_star",) + (STATION_ARRAYS if level >= 1 else ()):
        out[q] = np.array([d[q] for d in rows_])
    out["stations"] = rows_
    return out


def read_all(s):
    """Everything the reader reports."""
    out = {"case": s.case, "nu_ref": s.nu_ref, "count": s.station_count()}
    for q in ("x_smooth", "u_e_smooth", "du_e_smooth") + ARRAYS \
            + STATION_ARRAYS:
        out[q] = np.array(getattr(s, q)())
    out["stations"] = []
    for i in range(s.station_count()):
        st = s.station(i)
        d = {q: float(getattr(st, q)) for q in ARRAYS + STATION_ARRAYS}
        d["samples"] = st.sample_count()
        for q in PROFILE:
            d["p_" + q] = np.array(getattr(s, q)(i))
            d["q_" + q] = np.array(getattr(st, q))
        out["stations"].append(d)
    return out
