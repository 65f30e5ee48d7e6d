"""C24: reference data and similarity solutions drive the solvers."""
import itertools
import os
import tempfile

import numpy as np
from scipy.interpolate import PchipInterpolator

from ibl.analytic import Blasius, FalknerSkan
from ibl.initial_condition import FalknerSkanStagCondition
from ibl.reference import StanfordOlympics1968, XFoilReader

from checks.c16 import COUNTS, IDS, blocks, si
from mc import dump, olympics, ref
from mc.core import Result
from mc.util import METHODS, close, same

LEVEL = "exploration"
RULE = ("every supplied Stanford case x kind of velocity table x first "
        "station, every XFOIL dump of the repository and a set of made ones "
        "x surface x reference velocity x method x way of starting, and "
        "similarity solutions for a grid of wedge parameters x start x "
        "method x data fit x kind of derivative: the solver fed with what "
        "the library's objects report answers like one fed with the same "
        "numbers from an own parser or formula, reproduces the velocity, "
        "agrees with an independent integration, is not changed by what the "
        "objects load afterwards and does not change them. Non-trivial: "
        "all.")
ASSUMPTIONS = ["Thwaites' method is within 8 % of a similarity solution for "
               "wedge parameters from -.1 to 1",
               "agreement with the independent integration to 3e-3"]
CHUNK = 2
ROOT = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
DUMPS = ["examples/data/xfoil_0003_laminar_dump.txt",
         "examples/data/xfoil_0012_turbulent_dump.txt",
         "examples/data/xfoil_natural_dump.txt",
         "examples/data/xfoil_0003_inviscid_dump.txt",
         "examples/data/xfoil_0012_inviscid_dump.txt",
         "tests/data/xfoil_inviscid_dump.txt",
         "tests/data/xfoil_viscous_dump.txt"]
MADE = [([1.0, .8, .45, .2, .06, 0.0, -.03, -.15, -.4, -.75, -1.0], .03),
        ([1.0, .7, .5, .3, .1, -.1, -.3, -.5, -.7, -1.0], -.2),
        ([1.0, .6, .2, 0.0, -.2, -.6, -1.0], 0.0)]
FITS = ["Spline", "White", "Cebeci-Bradshaw", "Drela"]


def cases(tier):
    quick = tier == "quick"
    out = []
    for c in IDS:
        for kind in ("stations", "smooth", "gradient", "smooth gradient"):
            for i in range(COUNTS[c] - 1):
                out.append({"so": c, "kind": kind, "first": i})
    for d in [*DUMPS, *range(len(MADE))]:
        for side, u_ref, m in itertools.product(
                ("upper", "lower"), (1.0, 20.0) if quick else (.3, 1.0, 20.0,
                                                               300.0),
                ("lin", "non", "head")):
            out.append({"dump": d, "side": side, "u_ref": u_ref, "method": m})
    n = 12 if quick else 60
    for b in [*np.round(np.linspace(-.1, 1, n), 6), 0.0, "blasius"]:
        for x0 in (.2, 2.0):
            for m in ("lin", "non"):
                for fit in FITS:
                    out.append({"beta": b, "x0": x0, "method": m,
                                "fit": fit})
    return out


def answers(s, xs, u_ref=1.0):
    names = ("delta_m", "shape_d", "delta_d", "u_e", "du_e", "v_e")
    return [np.array(getattr(s, q)(xs), float) for q in names] + [
        np.array(s.tau_w(xs, 1.2), float)]


def solve(m, nu, args, ic, span, fit=None):
    kw = {"data_fits": fit} if fit else {}
    s = METHODS[m](nu, *args, **kw)
    if ic[0] == "stag":
        s.set_initial_condition(FalknerSkanStagCondition(1.0, 1.0))
    else:
        s.initial_delta_m = ic[0]
        if m == "head":
            s.initial_shape_d = ic[1]
    return s, s.solve(*span)


def compare(m, nu, args, plain, ic, span, fit=None):
    """(message, solver, result) of arrays against plain numbers."""
    s, r = solve(m, nu, args, ic, span, fit)
    t, q = solve(m, nu, plain, ic, span, fit)
    if not r.success or not q.success:
        return (None if r.success == q.success else
                f"one of both failed: {r}, {q}"), s, r
    if (int(r.status), r.message) != (int(q.status), q.message) \
            or not close(r.x_end, q.x_end, 1e-9):
        return f"ended as {r}, with plain numbers as {q}", s, r
    if int(r.status) not in (0, 1) or (int(r.status) == 0
                                       and r.x_end != span[1]):
        return f"ended as {r}", s, r
    xs = np.linspace(span[0], float(r.x_end), 9)
    for g, w in zip(answers(s, xs), answers(t, xs)):
        if not close(g, w, 1e-8, 1e-8*np.abs(w).max()):
            return f"gives {g}, with plain numbers {w}", s, r
    return None, s, r


def independent(m, s, r, nu, u, du, ic, x0, fit):
    """Against an own integration, away from separation."""
    x1 = float(r.x_end)
    if m == "head":
        want = ref.head(u, du, nu, ic[0], ic[1], 2.4, x0, x1)
    else:
        want = ref.thwaites(m, fit, u, du, nu, ic[0], x0, x1)
    end = min(float(want.t[-1]), x1)
    if abs(end - x1) > .01*abs(x1 - x0):
        return f"ends at {x1}, integration at {end}"
    xs = x0 + np.linspace(0, .9, 7)*(end - x0)
    y = want.sol(xs)
    dm = y[0] if m == "head" else np.sqrt(y[0]*nu)
    if not close(s.delta_m(xs), dm, 3e-3):
        return f"delta_m {s.delta_m(xs)}, integration {dm}"
    if m == "head" and not close(s.shape_d(xs), y[1], 3e-3):
        return f"shape_d {s.shape_d(xs)}, integration {y[1]}"
    return None


def stanford(case):
    import ibl
    c, i, kind = case["so"], case["first"], case["kind"]
    path = os.path.join(os.path.dirname(ibl.__file__), "data",
                        "stanford_olympics", "1968", f"case {c}.txt")
    head, blk = blocks(path)
    metric = c[0] == "1"
    so = StanfordOlympics1968(c)
    col = {q: [si(q, row[k], metric) for row in blk["summary data"]]
           for k, q in enumerate(olympics.SUM)}
    col.update({q: [si(q, row[k], metric) for row in blk["stations summary"]]
                for k, q in enumerate(olympics.STA)})
    smo = [[si(q, row[k], metric) for row in blk["edge velocity plot"]]
           for k, q in enumerate(("x", "u_e", "du_e"))]
    nu = si("nu", float(head["v"]), metric)
    if kind == "stations":
        args, plain = ([so.x(), so.u_e()],), ((col["x"], col["u_e"]),)
    elif kind == "smooth":
        args = ((so.x_smooth(), so.u_e_smooth()),)
        plain = ((smo[0], smo[1]),)
    elif kind == "gradient":
        args = (so.u_e()[0], [so.x(), so.du_e()])
        plain = (col["u_e"][0], (col["x"], col["du_e"]))
    else:
        args = (so.u_e_smooth()[0], (so.x_smooth(), so.du_e_smooth()))
        plain = (smo[1][0], (smo[0], smo[2]))
    x = so.x()
    lo, hi = x[i], x[-1]
    if "smooth" in kind:
        lo, hi = max(lo, smo[0][0]), min(hi, smo[0][-1])
        if lo >= hi:
            return None
    ic = (so.delta_m()[i], so.shape_d()[i])
    want = (col["delta_m"][i], col["shape_d"][i])
    if not close(ic, want, 1e-12):
        return f"station starts with {ic}, file has {want}"
    kept = olympics.read_all(so)
    msg, s, r = compare("head", so.nu_ref, args, plain, ic, (lo, hi))
    if msg:
        return msg
    if not close(so.nu_ref, nu, 1e-12):
        return f"viscosity {so.nu_ref}"
    if kind in ("stations", "smooth"):
        px, pu = plain[0]
        if not close(s.u_e(np.array(px)), pu, 1e-12):
            return f"edge velocity {s.u_e(np.array(px))}, table {pu}"
        p = PchipInterpolator(px, pu)
    else:
        p = PchipInterpolator(plain[1][0], plain[1][1])
        if not close(s.du_e(np.array(plain[1][0])), plain[1][1], 1e-12):
            return "edge velocity gradient differs from the table"
        q = p.antiderivative()
        first = plain[0]
        p = _Sum(q, first)
    if r.success:
        msg = independent("head", s, r, nu, p, p.derivative(), ic, lo, None)
        if msg:
            return msg
    if not equal_all(olympics.read_all(so), kept):
        return "solving changed the case"
    xs = np.linspace(lo, float(r.x_end), 5)
    before = answers(s, xs)
    so.case = "1300" if c != "1300" else "2200"
    so.case = ""
    if not all(same(a, b) for a, b in zip(answers(s, xs), before)):
        return "selecting another case changed the solution"
    return None


class _Sum:
    def __init__(self, q, c):
        self.q, self.c = q, c

    def __call__(self, x):
        return self.q(x) + self.c

    def derivative(self):
        return self.q.derivative()


def equal_all(a, b):
    from checks.c18 import equal
    return equal(a, b)


def parse(text):
    air, wake = [], []
    for line in text.splitlines():
        if line.startswith("#") or not line.strip():
            continue
        w = [float(v) for v in line.split()]
        if len(w) >= 12:
            air.append(dict(zip(dump.AF, w)))
        else:
            wake.append(dict(zip(dump.WK, w[:6] + w[7:8])))
    return air, wake


def xfoil(case):
    d, side, m = case["dump"], case["side"], case["method"]
    with tempfile.TemporaryDirectory() as tmp:
        if isinstance(d, int):
            ts, stag = MADE[d]
            text = dump.text(*dump.rows(ts, stag, 3))
            path = os.path.join(tmp, "dump.txt")
            with open(path, "w", encoding="utf8") as f:
                f.write(text)
        else:
            path = os.path.join(ROOT, d)
            with open(path, encoding="utf8") as f:
                text = f.read()
        air, wake = parse(text)
        exp = dump.expect(air, wake)
        st = exp[0 if side == "upper" else 1]
        reader = XFoilReader()
        reader.filename = path
        reader.u_ref = case["u_ref"]
        xs = getattr(reader, f"s_{side}")()
        ue = getattr(reader, f"u_e_{side}")()
        dms = getattr(reader, f"delta_m_{side}")()
        hs = getattr(reader, f"shape_d_{side}")()
        px = [q["s"] for q in st]
        pu = [case["u_ref"]*q["u_e_rel"] for q in st]
        if not close(xs, px, 1e-9, 1e-9) or not close(ue, pu, 1e-9, 1e-9):
            return "arc length or edge velocity differ from the file"
        kept = dump.read_all(reader)
        fit = "Spline"
        nu = 2e-5*case["u_ref"]
        todo = []
        n = len(px)
        for k in sorted({1, 2, n//3}):
            if pu[k] < .02*case["u_ref"]:
                continue
            todo.append((k, None))
        if m != "head":
            todo += [(0, "stag"), (0, "size")]
        for k, how in todo:
            span = (xs[k], xs[-1])
            if how == "stag":
                ic = ("stag",)
            elif how == "size" or m != "head":
                g = float(METHODS["lin"](nu, (px, pu)).du_e(px[0]))
                ic = (float(np.sqrt(.075*nu/g)), None)
            else:
                dm, h = dms[k], hs[k]
                ic = (dm if dm > 1e-7 else 1e-4, h if 1.2 < h < 2.2 else 1.4)
            fit = None if m == "head" else "Spline"
            msg, s, r = compare(m, nu, ([xs, ue],), ((px, pu),), ic, span,
                                fit)
            if msg:
                return f"from station {k} {how}: {msg}"
            if not close(s.u_e(xs), pu, 1e-9, 1e-9):
                return "edge velocity is not the one of the stations"
            if not r.success:
                continue
            if how is None and case["u_ref"] > 15 and m != "head":
                p = PchipInterpolator(px, pu)
                msg = independent(m, s, r, nu, p, p.derivative(), ic,
                                  span[0], fit)
                if msg:
                    return f"from station {k}: {msg}"
            if not equal_all(dump.read_all(reader), kept):
                return "solving changed the reader"
            at = np.linspace(span[0], float(r.x_end), 5)
            before = answers(s, at)
            reader.u_ref = 2*case["u_ref"]
            reader.filename = ""
            if not all(same(a, b) for a, b in zip(answers(s, at), before)):
                return "unloading changed the solution"
            reader.filename = path
            reader.u_ref = case["u_ref"]
    return None


def similarity(case):
    b, x0, m, fit = case["beta"], case["x0"], case["method"], case["fit"]
    u_ref, nu = 200.0, 1e-5
    fs = Blasius(u_ref, nu) if b == "blasius" else FalknerSkan(b, u_ref, nu)
    n = 0.0 if b == "blasius" else b/(2 - b)

    def u(x):
        return u_ref*x**n

    def du(x):
        return n*u_ref*x**(n - 1)
    dm0 = float(fs.delta_m(x0))
    span = (x0, x0 + 1.3)
    g = fs.f_pp(0.0)
    msg = None
    for args in ((fs.u_e,), (fs.u_e, du)):
        msg, s, r = compare(m, nu, args, (u, du)[:len(args)], (dm0, None),
                            span, fit)
        if msg:
            return msg
        if not r.success or int(r.status) != 0:
            return f"ended as {r}"
        msg = independent(m, s, r, nu, u, du, (dm0, None), x0, fit)
        if msg:
            return msg
        xs = np.linspace(*span, 9)
        for q in ("delta_m", "shape_d", "delta_d"):
            got, want = getattr(s, q)(xs), getattr(fs, q)(xs)
            off = np.abs(got/want - 1).max()
            if not off <= (.08 if q != "delta_d" else .15):
                return f"{q} is {off} off the similarity solution"
        if not close(s.u_e(xs), fs.u_e(xs), 1e-12):
            return "edge velocity is not that of the similarity solution"
    if fs.f_pp(0.0) != g or fs.u_ref != u_ref or fs.nu_ref != nu:
        return "solving changed the similarity solution"
    return None


def run_case(case):
    res = Result()
    res.count(evaluations=1, nontrivial=1)
    msg = (stanford if "so" in case else xfoil if "dump" in case
           else similarity)(case)
    if msg:
        res.fail(f"{case}: {msg}", case)
    res.outcome(case)
    res.sample(case)
    return res
