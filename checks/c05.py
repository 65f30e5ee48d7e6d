"""C05: laminar solutions satisfy the documented Thwaites equation."""
import numpy as np

from mc import ref
from mc.core import Result
from mc.flows import ALL, flow
from mc.util import METHODS, close

LEVEL = "exploration"
RULE = ("the full product of method form x data fit x edge velocity x "
        "viscosity x start x initial thickness (given through its lambda or "
        "as a multiple of the flow's own thickness); momentum thickness, "
        "shape factor and wall shear at every probe compared with an "
        "independent eighth order integration of the documented equation "
        "with independently written data fits. Non-trivial: the momentum "
        "thickness changes by more than 1 % between the probes.")
ASSUMPTIONS = ["edge velocities far above the 1e-3 the code adds to them",
               "agreement to 3e-4 (interpolation between steps of the integration), "
               "more for slow flows because of that 1e-3",
               "times L/U above 1e-5 s (absolute tolerance 1e-11 s of the "
               "integration)"]

U = 1e4
FITS = list(ref.FITS)


def cases(tier):
    nus = [1e-5, 1e-3, 2e-2] if tier == "quick" else [1e-6, 1e-5, 1e-3, 2e-2, 1.0]
    starts = [0.0, -.05, 0.3] if tier == "quick" else [0.0, -.05, .1, .3, .6]
    scale = [U] if tier == "quick" else [U, 2e3]
    sizes = [0.02, .3, 1.0] if tier == "quick" else [0.005, .02, .2, 1.0, 1.5]
    out = [{"kind": k, "fit": f, "flow": fl, "U": s, "nu": nu, "x0": x0,
            "size": z}
           for k in ("lin", "non") for f in FITS for fl in ALL
           for s in scale for nu in nus for x0 in starts for z in sizes]
    # slow flows, and short and long bodies
    more = [(2.0, 1.0, 0.0), (50.0, 40.0, .3*40), (100.0, .02, -.05*.02)]
    if tier != "quick":
        more += [(s, L, x0*L) for s in (1.0, 200.0, U)
                 for L in (1e-3, .1, 10.0, 1e3) for x0 in (0.0, -.05, .3)
                 if L/s > 9e-6]
    out += [{"kind": k, "fit": f, "flow": fl, "U": s, "nu": 1.5e-5, "x0": x0,
             "size": z, "L": L}
            for k in ("lin", "non") for f in FITS for fl in ALL
            for s, L, x0 in more for z in (.05, .5)]
    # strongly accelerated: lambda at the start far beyond the tables
    for fl in ("accel", "wedge", "rise", "wave"):
        for k, f in [("lin", f) for f in FITS] + [("non", f) for f in (
                "Spline", "Cebeci-Bradshaw", "custom2", "custom3")]:
            # Drela's fit of the shear is negative beyond .6
            for lam in ((.3, .5) if f == "Drela" else (.3, .6, 2.0) if tier == "quick" else
                        (.2, .26, .3, .45, .6, .9, 2.0, 5.0)):
                for nu in nus[:2]:
                    out.append({"kind": k, "fit": f, "flow": fl, "U": U,
                                "nu": nu, "x0": 0.0, "size": 1.0,
                                "lam0": lam})
    return out


CHUNK = 4


def start(fl, u, du, x0, size, L=1.0):
    """Initial (thickness squared)/viscosity: a part of the natural one."""
    z = .45*.2*L/u(x0)*size
    if du(x0) > 0:
        z = min(z, .075/du(x0)*min(size, 1.1))
    elif du(x0) < 0:
        z = min(z, .05/-du(x0)*min(size, 1.1))
    return z


def run_case(case):
    res = Result()
    res.count(evaluations=1)
    L = case.get("L", 1.0)
    u, du, d2u = flow(case["flow"], case["U"], L)
    nu, x0 = case["nu"], case["x0"]
    x1 = x0 + .6*L
    z0 = start(case["flow"], u, du, x0, case["size"], L)
    if "lam0" in case:
        z0 = case["lam0"]/float(du(x0))
    dm0 = np.sqrt(z0*nu)
    s = METHODS[case["kind"]](nu, u, du, d2u,
                              data_fits=ref.fit_arg(case["fit"]))
    s.initial_delta_m = dm0
    r = s.solve(x0, x1)
    want = ref.thwaites(case["kind"], case["fit"], u, du, nu, dm0, x0, x1)
    if not want.success:
        raise AssertionError("reference failed: " + want.message)
    if not r.success:
        res.fail(f"integration failed: {r}", case)
        return res
    end = min(float(r.x_end), float(want.t[-1]))
    if abs(r.x_end - want.t[-1]) > (2e-3 + 4e-3/case["U"])*L:
        res.fail(f"ended at {r.x_end}, reference at {want.t[-1]}", case)
        return res
    tol = 3e-4 + 2e-3/case["U"]
    xs = np.linspace(x0, x0 + .95*(end - x0), 9)
    z = want.sol(xs)[0]
    dm = np.sqrt(z*nu)
    got = s.delta_m(xs)
    if not close(got, dm, tol):
        res.fail(f"delta_m {got}, reference {dm}", case)
        return res
    if not close(s.delta_m(x0), dm0, 1e-7):
        res.fail(f"delta_m starts at {s.delta_m(x0)}, set to {dm0}", case)
        return res
    lam = z*du(xs)
    lo, hi = ref.FITS[case["fit"]][3:5]
    # probes near a jump, a kink or a limit of the fits have no single value
    safe = (np.abs(lam - lo) > 2e-3 + 1e-2/case["U"]) \
        & (np.abs(lam - hi) > 1e-4 + 1e-2/case["U"])
    if case["fit"] == "Cebeci-Bradshaw":
        safe &= (np.abs(lam) > 1e-4 + 1e-2/case["U"]) | (du(xs) == 0)
    h = np.array([ref.H(case["fit"], q) for q in lam])
    tau = np.array([1.3*nu*uu*ref.S(case["fit"], q)/d
                    for uu, q, d in zip(u(xs), lam, dm)])
    gh, gt = s.shape_d(xs), s.tau_w(xs, 1.3)
    if not close(gh[safe], h[safe], 5*tol):
        res.fail(f"shape_d {gh}, reference {h} at lambda {lam}", case)
    elif not close(gt[safe], tau[safe], 20*tol, 20*tol*np.max(tau)):
        res.fail(f"tau_w {gt}, reference {tau} at lambda {lam}", case)
    elif not close(s.delta_d(xs)[safe], (h*dm)[safe], 6*tol):
        res.fail(f"delta_d {s.delta_d(xs)}, reference {h*dm}", case)
    res.outcome(case["kind"], case["fit"], case["flow"], case["size"],
                np.round(got/got[0], 4).tolist())
    if abs(dm[-1]/dm[0] - 1) > .01:
        res.count(nontrivial=1)
    res.sample({**case, "x": xs[-1], "delta_m": got[-1],
                "reference": dm[-1]})
    return res
