"""C20: the data fits of Thwaites' method, at every lambda."""
import numpy as np

from mc import ref
from mc.core import Result
from mc.util import METHODS, close

LEVEL = "exploration"
RULE = ("for each data fit and method form: lambda swept along the surface "
        "over every part of its range and beyond it (edge velocity so large "
        "that the momentum thickness does not change, so lambda follows the "
        "gradient exactly), and held at every value of a grid including "
        "every tabulated value and both sides of every limit and kink; shape "
        "factor, shear and displacement thickness compared with independently "
        "written fits and tables, transpiration velocity with the derivative "
        "built from them, and values beyond the range with those at its "
        "ends. Non-trivial: lambda is not at the end of the range.")
ASSUMPTIONS = ["edge velocity far above its gradient (1e15)",
               "transpiration velocity only inside the range of the fit, "
               "where the fits have one derivative"]
CHUNK = 16
U0 = 1e15
FITS = list(ref.FITS)
# White's and the custom fits have no upper limit; values still compared
SWEEPS = [(.0, .2), (.2, .0), (-1e-3, -.085), (-.085, -.001), (.09, .26),
          (.26, .09), (.25, .6), (.6, .11), (-.15, -.3), (-.3, -.11),
          (0.05, .051), (-.06, .08), (.12, -.05)]


def grid(fit, tier):
    n = 80 if tier == "quick" else 700
    lam = list(np.linspace(-.14, .34, n)) + list(ref.TAB_LAM) + [
        0.0, 1e-9, -1e-9, .1, .1001, .0999, .25, .2501, .2499, -.0901, -.0899,
        -.0999, -.1001, .5, 1.0, -.5]
    return sorted({round(float(q), 12) for q in lam})


def cases(tier):
    out = []
    setups = [(1e-5, 1.0)] if tier == "quick" else \
        [(1e-5, 1.0), (.3, 1e-3), (1e-6, 20.0)]
    for fit in FITS:
        for kind in ("lin", "non"):
            for nu, z in setups:
                for a, b in SWEEPS:
                    if a < sep(fit) < b:
                        continue    # starts beyond separation
                    out.append({"fit": fit, "kind": kind, "sweep": [a, b],
                                "nu": nu, "z": z,
                                "n": (3001 if (a, b) == SWEEPS[0] else 61)
                                if tier == "quick" else 5001 if
                                (a, b) == SWEEPS[0] else 601})
                for q in grid(fit, tier):
                    out.append({"fit": fit, "kind": kind, "lam": q,
                                "nu": nu, "z": z})
    return out


def sep(fit):
    """Where the shear becomes zero, or the range of the fit ends."""
    lo = ref.FITS[fit][3]
    q = 0.0
    while q > max(lo, -.2) and ref.S(fit, q) > 0:
        q -= 1e-4
    return q


def setup(case, a, b):
    """A solver whose lambda goes from a to b along [0, 1]."""
    z, nu = case["z"], case["nu"]
    g0, g1 = a/z, (b - a)/z

    def u(x):
        return U0 + g0*x + .5*g1*x*x

    def du(x):
        return g0 + g1*np.asarray(x, float)

    def d2u(x):
        return g1 + 0*np.asarray(x, float)
    s = METHODS[case["kind"]](nu, u, du, d2u,
                              data_fits=ref.fit_arg(case["fit"]))
    s.initial_delta_m = np.sqrt(z*nu)
    return s, s.solve(0.0, 1.0)


def run_case(case):
    res = Result()
    fit, z, nu = case["fit"], case["z"], case["nu"]
    lo, hi = ref.FITS[fit][3:5]
    a, b = case["sweep"] if "sweep" in case else (case["lam"],)*2
    s, r = setup(case, a, b)
    end = 1.0
    if not r.success:
        res.fail(f"integration failed: {r}", case)
        return res
    qs = sep(fit)
    if a > qs + 1e-3 and b < qs - 1e-3:
        end = float(r.x_end)
        where = a + (b - a)*end
        if abs(where - qs) > 3e-4:
            res.fail(f"separated at lambda {where}, not {qs}", case)
            return res
    elif min(abs(a - qs), abs(b - qs)) < 1e-3:
        end = float(r.x_end)    # at separation from the start
    elif r.x_end != 1.0:
        res.fail(f"ended at {r.x_end}: {r}", case)
        return res
    if a != b:
        x = np.linspace(0, end, case["n"])
        nodes = (np.array(ref.TAB_LAM) - a)/(b - a)
        x = np.sort(np.append(x, nodes[(nodes >= 0) & (nodes <= end)]))
        x = x[(x > 1e-9) & (x < end*(1 - 1e-9))]
    else:
        x = np.array([0.0, .3*end, end])
    lam = a + (b - a)*x
    safe = np.ones(lam.shape, bool)
    if fit == "Cebeci-Bradshaw":
        safe &= (np.abs(lam) > 1e-10) | (lam == 0) & (a == b)
    if fit == "White":      # the power of a rounded zero
        safe &= np.abs(lam + .09) > 1e-9
    x, lam = x[safe], lam[safe]
    if not len(x):
        return res
    H = np.array([ref.H(fit, q) for q in lam])
    S = np.array([ref.S(fit, q) for q in lam])
    dm = np.sqrt(z*nu)
    res.count(evaluations=len(lam),
              nontrivial=int(((lam > lo) & (lam < hi)).sum()))
    tol = 1e-7
    got = {"shape_d": s.shape_d(x), "delta_m": s.delta_m(x),
           "delta_d": s.delta_d(x), "tau_w": s.tau_w(x, 1.3)}
    want = {"shape_d": H, "delta_m": dm + 0*H, "delta_d": H*dm,
            "tau_w": 1.3*nu*U0*S/dm}
    inside = (lam > lo + 1e-6) & (lam < hi - 1e-6) & (np.abs(lam) > 1e-9)
    if case["kind"] == "lin":
        F = .45 - 6*lam
    else:
        F = 2*(S - lam*(H + 2))
    Hp = np.array([ref.Hp(fit, q) for q in lam])
    g1 = (b - a)/z
    ve = np.sqrt(nu/z)*(lam*H + .5*H*F + Hp*(lam*F + U0*z*z*g1))
    got["v_e"], want["v_e"] = s.v_e(x)[inside], ve[inside]
    for name in got:
        loose = 1e-6 if name == "v_e" else tol
        scale = np.max(np.abs(want[name]), initial=0)
        if name == "tau_w":
            scale = max(scale, 1e-4*nu*U0/dm)
        if not close(got[name], want[name], loose, loose*scale):
            i = int(np.argmax(~np.isclose(got[name], want[name], loose,
                                          loose*scale)))
            q = lam[inside] if name == "v_e" else lam
            res.fail(f"{name} at lambda {q[i]} is {got[name][i]}, "
                     f"not {want[name][i]}", case)
            return res
    for i in range(0, len(x), max(1, len(x)//12)):
        for name in ("shape_d", "delta_m", "delta_d", "tau_w", "v_e"):
            v = getattr(s, name)(x, *((1.3,) if name == "tau_w" else ()))[i]
            w = getattr(s, name)(float(x[i]),
                                 *((1.3,) if name == "tau_w" else ()))
            if not close(w, v, 1e-12, 1e-14*abs(float(v)) + 1e-300):
                res.fail(f"{name} at {x[i]} is {w} alone and {v} in a "
                         "vector", case)
                return res
    res.outcome(fit, np.round(H, 6).tolist(), np.round(S, 6).tolist())
    if len(lam):
        res.sample({**case, "lambda": lam[-1], "shape_d": H[-1],
                    "shear": S[-1]})
    return res
