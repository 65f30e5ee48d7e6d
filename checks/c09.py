"""C09: solvers do not interfere, whatever the interleaving."""
import itertools
import locale
import os
import random
import signal
import sys
import warnings

import numpy as np

from ibl.analytic import Blasius, FalknerSkan
from ibl.reference import StanfordOlympics1968, XFoilReader
from ibl.skin_friction import felsch, ludwieg_tillman, white

from mc import drive, sched
from mc.core import Result
from mc.util import METHODS

LEVEL = "model_checking"
RULE = ("for every pair (and some triples) of jobs: every interleaving, with "
        "up to the stated number of preemptions, at the calls the code makes "
        "to user functions; every position of one complete run of the other "
        "job at any executed line of the library (for the long jobs, where "
        "each line is executed the first and the last time); and every "
        "position of the other job nested in the user functions of the "
        "first. The settings of the process (floating point errors, "
        "warnings, random numbers, ...) stay as they are. Each job's "
        "complete results are compared, exactly, with those of running it "
        "alone. Non-trivial: a preemption happens inside a job.")
ASSUMPTIONS = ["each thread has its own solver, or only queries a shared one",
               "Python statements are the grain of the line level schedules"]

LIB = os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"),
                                    "ibl"))
XS = np.array([.02, .05, .08])


def hump(U, point):
    def wrap(f):
        def g(x):
            point()
            return f(x)
        return g
    return wrap(lambda x: U*(1 + x - .9*x*x)), lambda x: U*(1 - 1.8*x), \
        lambda x: -1.8*U + 0*x


def solve_job(m, U, nu, dm, extra):
    def job(point):
        s = METHODS[m](nu, *hump(U, point))
        s.initial_delta_m = dm
        if m == "head":
            s.initial_shape_d = extra
            s.set_shape_d_critical(2.0 + extra/10)
        else:
            s.set_data_fits(extra)
        r = drive.result(s.solve(0.0, .1, drive.Ev(.09, False)))
        return [r, {q: np.array(f(s, XS)).tolist()
                    for q, f in drive.QUERIES.items()}]
    return job


SHARED_FITS = (lambda q: .22 + 1.5*q, lambda q: 2.6 - 4*q + 5*q**2)
SOLVES = {
    "lin1": lambda: solve_job("lin", 100., 1e-5, 1e-4, "Spline"),
    "lin2": lambda: solve_job("lin", 30., 1e-4, 3e-4, "White"),
    "non1": lambda: solve_job("non", 100., 2e-5, 1e-4, "Cebeci-Bradshaw"),
    "non2": lambda: solve_job("non", 50., 1e-5, 5e-5, "Spline"),
    "non3": lambda: solve_job("non", 70., 1e-5, 5e-5, SHARED_FITS),
    "non4": lambda: solve_job("non", 40., 3e-5, 8e-5, SHARED_FITS),
    "non5": lambda: solve_job("non", 40., 3e-5, 8e-5, "Drela"),
    # lambda 0.2 at the start, beyond the range of one of the fits
    "wide": lambda: solve_job("lin", 100., 1e-5, (.2e-7)**.5, "Spline"),
    "narrow": lambda: solve_job("lin", 100., 1e-5, (.2e-7)**.5,
                                "Cebeci-Bradshaw"),
    "head1": lambda: solve_job("head", 10., 1e-5, 1e-3, 1.4),
    "head2": lambda: solve_job("head", 40., 2e-5, 2e-3, 1.35),
}


def flow_job(kind):
    def job(point):
        s = METHODS["lin"](1e-5)
        xs = np.linspace(0, .1, 5)
        if kind == "tables":
            s.set_velocity((xs, 10*(1 + xs)))
        else:
            s.set_velocity(4.0, (xs, 5 - xs))
        s.set_initial_condition(drive.IC["fs"]())
        r = drive.result(s.solve(0.0, .1))
        return [r, {q: np.array(f(s, XS)).tolist()
                    for q, f in drive.QUERIES.items()}]
    return job


def blasius(point):
    b = Blasius(2.0, 1e-5)
    x, y = np.array([.5, 1.0]), np.array([1e-3, 2e-3])
    return [b.fw_pp, b.eta_inf, b.eta_d, b.eta_m, b.eta_k, b.eta_s,
            b.u(x, y).tolist(), b.v(x, y).tolist(), b.delta_d(x).tolist(),
            b.tau_w(x, 1.2).tolist(), b.dissipation(x, 1.2).tolist()]


def fs(beta):
    def job(point):
        s = FalknerSkan(beta, 2.0, 1e-5, eta_inf=5.0)
        return [s.fw_pp, s.eta_inf, float(s.delta_d(1.0))]
    return job


def stanford(case):
    def job(point):
        s = StanfordOlympics1968(case)
        return [s.case, s.nu_ref, s.x().tolist(), s.u_e().tolist(),
                s.delta_d().tolist(), s.c_f().tolist(),
                s.u_e_smooth().tolist(), s.station(0).x,
                s.station_count()]
    return job


def dump(n, sign):
    """Text of a small dump: n points a side, one wake point."""
    rows = []
    for i in range(-n, n + 1):
        ue = -(i + .5)*sign/4
        rows.append(" ".join("%9.5f" % v for v in (
            (n + i)*.1, abs(i)*.2 + .01, -i*.05, ue, .001*abs(i) + .001,
            .0005*abs(i) + .0005, .003, 2.1, .01, .002, .0003, 1.5)))
    rows.append(" ".join("%7.4f" % v for v in (
        1.2, 1.1, .01, .9, .004, .002, .0, 2.0)))
    return "\n".join(rows) + "\n"


def xfoil(n):
    import tempfile
    fd, path = tempfile.mkstemp(prefix="verif-xf-")
    with os.fdopen(fd, "w") as f:
        f.write(dump(n, 1))

    def job(point):
        r = XFoilReader(path)
        return [r.upper_count(), r.lower_count(), r.wake_count(),
                r.s_upper().tolist(), r.x_lower().tolist(),
                r.u_e_lower().tolist(), r.delta_m_wake().tolist(),
                r.c_f_upper().tolist()]
    job.path = path
    return job


def frictions(a):
    def job(point):
        re, h = np.array([1e3, 2e4])*a, np.array([1.4, 1.9])
        return [f(re, h).tolist() for f in (ludwieg_tillman, felsch, white)]
    return job


OTHER = {
    "tables": lambda: flow_job("tables"), "grad": lambda: flow_job("grad"),
    "blasius": lambda: blasius, "so1100": lambda: stanford("1100"),
    "so2200": lambda: stanford("2200"), "xf3": lambda: xfoil(3),
    "xf4": lambda: xfoil(4), "cf1": lambda: frictions(1),
    "cf2": lambda: frictions(3.3),
    "fs1": lambda: fs(.1), "fs2": lambda: fs(.3),
}
ALLJOBS = {**SOLVES, **OTHER}


def shared(name):
    """Solver both jobs query, solved beforehand."""
    m = name.split("-")[0]
    hook = {"point": lambda: None}
    s = METHODS[m](1e-5, *hump(100.0, lambda: hook["point"]()))
    s.initial_delta_m = 1e-4
    if m == "head":
        s.initial_shape_d = 1.5
    else:
        s.set_data_fits("Cebeci-Bradshaw" if m == "non" else "Spline")
    s.solve(0.0, .1)
    return s, hook


def query_job(s, hook, q, xs):
    def job(point):
        return np.array(drive.QUERIES[q](s, xs)).tolist()
    return job


_FS = []


def similarity():
    if not _FS:
        _FS.append(FalknerSkan(.3, 2.0, 1e-5))
    return _FS[0]


FSQ = {
    "u": lambda s, a: s.u(np.array(a), np.array([1e-3, 2e-3])),
    "v": lambda s, a: s.v(np.array(a), np.array([1e-3, 2e-3])),
    "f": lambda s, a: s.f(np.array(a)),
    "delta_d": lambda s, a: s.delta_d(np.array(a)),
    "tau_w": lambda s, a: s.tau_w(np.array(a), 1.2),
    "dissipation": lambda s, a: s.dissipation(np.array(a), 1.2),
    "v_e": lambda s, a: s.v_e(np.array(a)),
    "shape_d": lambda s, a: s.shape_d(np.array(a)),
    "eta": lambda s, a: s.eta(np.array(a), np.array([1., 2.])),
}


def cases(tier):
    out = []
    q = tier == "quick"
    pairs = [("lin1", "lin2"), ("lin1", "head1"), ("head1", "head2"),
             ("non1", "non2"), ("non3", "non4"), ("non1", "lin2"),
             ("non5", "non2"), ("wide", "narrow")]
    if not q:
        pairs = list(itertools.combinations(SOLVES, 2))
    for a, b in pairs:
        for x, y in ((a, b), (b, a)):
            out.append({"mode": "points", "jobs": [x, y], "preempt": 1})
            for part in range(8 if q else 16):
                out.append({"mode": "points", "jobs": [x, y], "preempt": 2,
                            "part": [part, 8 if q else 16]})
    for trio in [("lin1", "head1", "non1"), ("non2", "non3", "lin2"),
                 ("head1", "head2", "lin1")]:
        for order in itertools.permutations(trio):
            out.append({"mode": "points", "jobs": list(order), "preempt": 1})
    names = list(ALLJOBS)
    if q:
        lines = [(a, b) for a, b in pairs] + [(b, a) for a, b in pairs]
        lines += [("tables", "grad"), ("grad", "tables"), ("tables", "lin1"),
                  ("lin1", "tables"), ("so2200", "so1100"), ("xf3", "xf4"), ("xf4", "xf3"),
                  ("cf1", "cf2"), ("cf2", "cf1"), ("lin1", "lin1"),
                  ("head1", "head1"), ("head1", "cf1"), ("non2", "blasius"),
                  ("cf1", "head1")]
    else:
        big = ("so1100", "blasius", "fs1", "fs2")
        lines = [p for p in itertools.product(names, names)
                 if p[0] not in big]
        lines += [(a, b) for a in big for b in ("so2200", "lin1", "xf3",
                                                "blasius")
                  if a[:2] != "fs"]
    for a, b in lines:
        parts = 8 if a in ("so1100", "so2200", "blasius") else 3
        for p in range(parts):
            out.append({"mode": "lines", "jobs": [a, b], "part": [p, parts]})
    for a, b in [("fs1", "fs2"), ("fs2", "fs1"), ("fs1", "blasius"),
                 ("so1100", "so2200")]:
        parts = 4
        for p in range(parts):
            out.append({"mode": "lines", "jobs": [a, b], "part": [p, parts],
                        "distinct": True})
    for a in SOLVES:
        for b in (SOLVES if not q else ["lin1", "non2", "head1"]):
            out.append({"mode": "nested", "jobs": [a, b]})
    for m in ("lin", "non", "head"):
        out.append({"mode": "shared", "solver": m})
    out.append({"mode": "sharedfs"})
    for a in ALLJOBS:
        out.append({"mode": "settings", "jobs": [a]})
    return out


_ALONE = {}


def alone(name):
    if name not in _ALONE:
        job = ALLJOBS[name]()
        n, out = sched.count_points(job)
        if out[0] != "ok":
            raise AssertionError(f"{name} alone {out}")
        _ALONE[name] = (n, out)
        drop(job)
    return _ALONE[name]


def drop(job):
    if hasattr(job, "path"):
        os.unlink(job.path)


def schedules(case):
    """All schedules of the jobs with exactly that many preemptions."""
    ns = [alone(j)[0] for j in case["jobs"]]
    if case["preempt"] == 1:
        return [[(0, k), *[(i, 10**9) for i in range(1, len(ns))]]
                for k in range(ns[0])]
    part, parts = case["part"]
    return [[(0, k), (1, j), (0, 10**9)]
            for k in range(part, ns[0], parts) for j in range(ns[1])]


def run_points(case, res):
    names = case["jobs"]
    todo = [case["schedule"]] if "schedule" in case else schedules(case)
    want = [alone(n)[1] for n in names]
    for sch in todo:
        jobs = [ALLJOBS[n]() for n in names]
        run = sched.Scheduler(jobs, sch)
        got = run.run()
        res.count(evaluations=1, traces=1, transitions=len(sch),
                  preemptions=run.switches)
        res.state((names, sch))
        if got != want:
            i = [a == b for a, b in zip(got, want)].index(False)
            res.fail(f"{names} under {sch}: {names[i]} gave {got[i]}, alone "
                     f"{want[i]}"[:1500],
                     {"mode": "points", "jobs": names, "preempt":
                      case["preempt"], "schedule": sch})
            return
    res.outcome(names)
    res.sample({"jobs": names, "schedule": todo[-1]})


def run_lines(case, res):
    a, b = case["jobs"]
    want = [alone(a)[1], alone(b)[1]]
    ja, jb = ALLJOBS[a](), ALLJOBS[b]()
    try:
        if case.get("distinct"):
            ks, out = sched.distinct(ja, LIB)
        else:
            total, out = sched.lines(ja, LIB)
            ks = range(1, total + 1)
        if out != want[0]:
            res.fail(f"{a} repeated gave {out}"[:1500], case)
            return
        if "line" in case:
            ks = [case["line"]]
        else:
            part, parts = case["part"]
            ks = ks[part::parts]
        for k in ks:
            got = sched.at_line(ja, k, jb, LIB)
            res.count(evaluations=1, traces=1, transitions=2, preemptions=1)
            res.state((a, b, k))
            if list(got) != want:
                i = [x == y for x, y in zip(got, want)].index(False)
                res.fail(f"{b} in another thread at line {k} of {a}: "
                         f"{case['jobs'][i]} gave {got[i]}, alone "
                         f"{want[i]}"[:1500],
                         {"mode": "lines", "jobs": [a, b], "line": k})
                return
    finally:
        drop(ja)
        drop(jb)
    res.outcome(a, b)


def run_nested(case, res):
    a, b = case["jobs"]
    n, wa = alone(a)
    wb = alone(b)[1]
    for k in ([case["point"]] if "point" in case else range(n)):
        count = [0]
        inner = []

        def point():
            count[0] += 1
            if count[0] == k + 1:
                try:
                    inner.append(("ok", ALLJOBS[b]()(lambda: None)))
                except Exception as ex:
                    inner.append(("raised", repr(ex)))
        try:
            got = ("ok", ALLJOBS[a]()(point))
        except Exception as ex:
            got = ("raised", repr(ex))
        res.count(evaluations=1, traces=1, transitions=2)
        res.state((a, b, k))
        if got != wa or inner != [wb]:
            res.fail(f"{b} nested in call {k} of {a}: outer {got}, inner "
                     f"{inner}; alone {wa}, {wb}"[:1900],
                     {"mode": "nested", "jobs": [a, b], "point": k})
            return


def run_shared(case, res):
    """Two threads query one solution, at every line."""
    if case["mode"] == "sharedfs":
        s, qs = similarity(), FSQ
        args = [[.5, 1.5], [.8, 2.0]]

        def make(q, i):
            return lambda p: np.array(FSQ[q](s, args[i])).tolist()
    else:
        s, hook = shared(case["solver"])
        qs = [q for q in drive.QUERIES]
        args = [np.array([.02, .05]), np.array([.03, .09])]

        def make(q, i):
            return query_job(s, hook, q, args[i])
    for a, b in itertools.product(qs, qs):
        ja, jb = make(a, 0), make(b, 1)
        want = [("ok", ja(None)), ("ok", jb(None))]
        total, out = sched.lines(ja, LIB)
        for k in range(1, total + 1):
            got = sched.at_line(ja, k, jb, LIB)
            res.count(evaluations=1, traces=1, transitions=2, preemptions=1)
            res.state((a, b, k))
            if list(got) != want:
                res.fail(f"{b} at line {k} of {a} on one solution: {got}, "
                         f"alone {want}", case)
                return


def process():
    """Settings that everything in a process shares."""
    return {"floating point errors": np.geterr(),
            "error callback": np.geterrcall(),
            "print options": np.get_printoptions(),
            "warning filters": list(warnings.filters),
            "numpy's random numbers": str(np.random.get_state()),
            "random numbers": random.getstate(),
            "directory": os.getcwd(), "environment": dict(os.environ),
            "locale": locale.setlocale(locale.LC_ALL),
            "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "signal handler": signal.getsignal(signal.SIGINT),
            "trace function": sys.gettrace()}


def run_settings(case, res):
    """A job leaves the settings of the process as they were."""
    name = case["jobs"][0]
    want = alone(name)[1]
    job = ALLJOBS[name]()
    # values that are not set by chance (other cases ran in this process)
    old = np.geterr(), list(warnings.filters)
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    warnings.filterwarnings("ignore", message="a filter of the user")
    np.set_printoptions(linewidth=74)
    np.random.seed(11)
    random.seed(12)
    before = process()
    try:
        out = ("ok", job(lambda: None))
        if out != want:
            res.fail(f"{name} repeated gave {out}"[:1500], case)
            return
        now = process()
        changed = [k for k in before if now[k] != before[k]]
        if changed:
            res.fail(f"{name} changed the {changed[0]} of the process from "
                     f"{before[changed[0]]} to {now[changed[0]]}", case)
        res.count(evaluations=1, traces=1, transitions=1)
        res.state(("settings", name))
        res.outcome("settings", name)
    finally:
        np.seterr(**old[0])
        np.set_printoptions(linewidth=75)
        warnings.filters[:] = old[1]
        drop(job)


def run_case(case):
    res = Result()
    {"points": run_points, "lines": run_lines, "nested": run_nested,
     "shared": run_shared, "sharedfs": run_shared,
     "settings": run_settings}[case["mode"]](case, res)
    return res
