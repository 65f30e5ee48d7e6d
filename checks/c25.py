"""C25: the base classes serve methods and solutions written by users."""
import itertools

import numpy as np
from scipy.integrate import solve_ivp

from ibl.analytic import Analytic2dSimilarityIncompressible, FalknerSkan
from ibl.ibl_method import IBLMethod
from ibl.head_method import HeadMethod
from ibl.initial_condition import InitialCondition
from ibl.thwaites_method import ThwaitesMethod

from mc import ref
from mc.core import Result
from mc.drive import Ev
from mc.flows import ALL, flow
from mc.util import close

LEVEL = "model_checking"
RULE = ("(a) an own method with 1 to 3 states whose exact solution is known, "
        "for every choice of tolerances (given or left to the base class), "
        "of its own termination events (none, set, added, one or several, "
        "changed between solves), of user events and of initial conditions "
        "written by the user, in every sequence of solves up to the bound: "
        "exact solution, end, status, message, end state, and what the "
        "initial condition was told; methods derived from those of the "
        "library with an own equation or own events, against an independent "
        "integration; (b) own similarity solutions made from "
        "the base class for every pair of parameters on a grid, made and "
        "changed in every way, against the library's solution of the same "
        "flow in another coordinate. Non-trivial: an event is present, "
        "or alpha differs from one.")
ASSUMPTIONS = ["no event is exactly zero at the start",
               "tolerances left to the base class give at least 3e-4"]
CHUNK = 2


class Own(IBLMethod):
    """States y0' = -k y0, y1' = u_e(x), y2' = du_e(x)*y0."""

    def __init__(self, n, rtol, atol, *args, **kw):
        super().__init__(*args, **kw)
        self.n, self.tols = n, (rtol, atol)
        self.setups = 0

    def _ode_setup(self):
        self.setups += 1
        y0 = [self._ic.delta_m(), self._ic.shape_d(), self._ic.delta_d()]
        return np.array(y0[:self.n]), *self.tols

    def _ode_impl(self, x, f):
        out = [-2.0*f[0]]
        if self.n > 1:
            out.append(self.u_e(x))
        if self.n > 2:
            out.append(self.du_e(x)*f[0])
        return np.array(out, float)

    def state(self, x):
        return self._solution(x)

    def none(self):
        return self._solution is None

    def v_e(self, x):
        return self._solution(x)[0]

    delta_d = delta_m = delta_k = shape_d = shape_k = v_e

    def tau_w(self, x, rho):
        return rho*self._solution(x)[0]

    dissipation = tau_w

    def use(self, how, evs):
        if how == "split":      # a list that belongs to somebody else
            mine, more = evs[:1], evs[1:]
            self._set_kill_event(mine)
            self._add_kill_event(more)
            if mine != evs[:1] or more != evs[1:]:
                raise AssertionError("list of events was changed")
            mine.append(Ev(-.01, True, 2, "not given"))
            more.append(Ev(.15, True, 2, "not given"))
        elif how == "set":
            self._set_kill_event(list(evs))
        elif how == "set one":
            self._set_kill_event(evs[0])
            for e in evs[1:]:
                self._add_kill_event(e)
        elif how == "add":
            for e in evs:
                self._add_kill_event(e)
        elif how == "add list":
            self._add_kill_event(list(evs))


class Told(InitialCondition):
    """Initial condition that depends on what it is told."""

    def __init__(self, size=1.0):
        super().__init__(du_e=-7.0, nu=9.0)
        self.size = size

    def delta_m(self):
        return (1.0 + self.nu + .1*self.du_e)*self.size

    def shape_d(self):
        return 2.0 + self.nu

    def delta_d(self):
        return .5*self.du_e

    def delta_k(self):
        return 0.0

    def shape_k(self):
        return 0.0


U = 3.0
NAMES = ("flat", "accel", "decay", "wave")


def exact(name, nu, n, x0, xs, size=1.0, start=None):
    """The solution from x0 at xs."""
    u, du, _ = flow(name, U)
    d0 = float(du(x0) + 0*x0)
    a, b, c = start or ((1.0 + nu + .1*d0)*size, 2.0 + nu, .5*d0)
    out = []
    for x in np.atleast_1d(xs):
        t, w = np.polynomial.legendre.leggauss(40)
        q = x0 + (x - x0)*(t + 1)/2
        w = w*(x - x0)/2
        y = [a*np.exp(-2*(x - x0)), b + (w*u(q)).sum(),
             c + (w*du(q)*a*np.exp(-2*(q - x0))).sum()]
        out.append(y[:n])
    return np.array(out).T


OWN = {"none": [], "early": [[.35, True, 1, "own"]],
       "late": [[.8, True, 1, "own late"]],
       "two": [[.9, True, 1, ""], [.6, True, 2, "own two"]],
       "idle": [[.3, False, 1, "idle"]],
       "state": [["state", True, 3, "level"]]}
USER = {"none": None, "one": [[.5, True, 3, "user"]],
        "list": [[.2, False, 2, ""], [.45, True, 2, ""]],
        "tie": [[2.0, True, 3, "never"]]}


def cases(tier):
    out = []
    spans = [(0.0, 1.0), (-.2, .7), (.1, 1.1)]
    for n, name, span in itertools.product((1, 2, 3), NAMES, spans):
        out.append({"n": n, "flow": name, "span": span, "accuracy": True})
        out.append({"n": n, "flow": name, "span": span, "start": True})
        out.append({"n": n, "flow": name, "span": span,
                    "deep": tier != "quick"})
    for name, x0 in itertools.product(ALL, (0.0, -.05, .1)):
        out.append({"derived": 1, "fit": "head", "flow": name, "x0": x0})
        out += [{"derived": 1, "fit": fit, "fun": q, "flow": name, "x0": x0}
                for fit in ref.FITS for q in FUN]
    g = [0.0, .2, .5, 1.0] if tier == "quick" else \
        [-.1, 0.0, .1, .2, .35, .5, .75, 1.0]
    for b in g:
        for alpha in ((1.0, .5) if tier == "quick" else (1.0, .5, 2.0)):
            out.append({"alpha": alpha, "beta": b})
    for alpha, beta, gamma in itertools.product(
            (1.0, .5, 2.0), (-.1, 0.0, .3, 1.0), (1.0, .6, .95, 1.1)
            if tier == "quick" else (1.0, .0, .3, .6, .9, .95, 1.1, 1.2)):
        out.append({"alpha": alpha, "beta": beta, "gamma": gamma})
    return out


TEXT = {0: "Completed", 1: "Separated", 2: "Transition", 3: "Unknown Event"}


def event(e, level):
    at, term, reason, msg = e
    if at == "state":
        return Ev(level, term, reason, msg, comp=0)
    return Ev(at, term, reason, msg)


def one(s, case, nu, own, user, res, tol):
    """A solve and its comparison."""
    n, name = case["n"], case["flow"]
    x0, x1 = case["span"]
    level = exact(name, nu, 1, x0, [x0 + .55*(x1 - x0)])[0, 0]
    s.nu = nu
    before = s.setups
    evs = None if user == "none" else [event(e, level) for e in USER[user]]
    r = s.solve(x0, x1, evs[0] if user == "one" else evs)
    res.count(transitions=1)
    if s.setups != before + 1:
        return f"the state was set up {s.setups - before} times"
    hits = [(x1, 0, "")]
    for e in own + (USER[user] or []):
        at = x0 + .55*(x1 - x0) if e[0] == "state" else e[0]
        if e[1] and x0 < at < x1:
            hits.append((at, e[2], e[3]))
    x, st, txt = min(hits)
    if not r.success or abs(r.x_end - x) > 20*tol or int(r.status) != st or \
            r.message != TEXT[st] + (": " + txt if txt else ""):
        return f"ended as {r}, should be {x}, {st}, {txt!r}"
    end = float(r.x_end)
    if np.shape(r.f_end) != (n,) or not close(
            r.f_end, exact(name, nu, n, x0, [end])[:, 0], tol, tol):
        return (f"end state {r.f_end}, exact "
                f"{exact(name, nu, n, x0, [end])[:, 0]}")
    xs = np.linspace(x0, end, 6)
    want = exact(name, nu, n, x0, xs)
    if not close(s.state(xs), want, tol, tol):
        return f"state {s.state(xs)}, exact {want}"
    if not close(s.state(x0), want[:, 0], 1e-12, 1e-12):
        return f"starts at {s.state(x0)}, should be {want[:, 0]}"
    return None


ACC = [(None, None, 1.0, 2e-4), (1e-9, 1e-12, 1.0, 2e-8),
       (1e-8, None, 1.0, 1e-6), (1e-12, None, 1.0, 1e-6),
       (None, 1e-12, 1.0, 2e-4), (None, 1e-13, 1e-6, 2e-4),
       (1e-9, 1e-18, 1e-9, 2e-8), (1e-11, 1e-14, 1.0, 1e-9),
       (1e-9, 1e-12, 1e3, 2e-8), (1e-10, 1e-6, 1e5, 2e-7),
       # nothing but a relative tolerance
       (1e-9, 0.0, 1.0, 2e-8), (1e-9, 0, 1e-12, 2e-8), (1e-6, 0.0, 1e-9, 1e-4)]


def accuracy(case, res):
    """The end state is as accurate as the tolerances asked for."""
    n, name, (x0, x1) = case["n"], case["flow"], case["span"]
    for rtol, atol, size, tol in ACC:
        if (size != 1.0 or atol == 0) and n > 1:     # states may be zero
            continue
        for nu, ev in itertools.product((.5, 2.0), (None, .5)):
            s = Own(n, rtol, atol, nu, *flow(name, U), Told(size))
            r = s.solve(x0, x1, None if ev is None else Ev(ev, True, 3, ""))
            want = exact(name, nu, n, x0, [float(r.x_end)], size)[:, 0]
            res.count(transitions=1, evaluations=1, traces=1, nontrivial=1)
            # between steps of the integration: interpolated
            t = tol if ev is None else 50*tol
            if not r.success or not close(r.f_end, want, t):
                return (f"{n} states, {name}, tolerances {rtol}, {atol}, "
                        f"size {size}, {ev}: {r}, exact {want}", case)
            res.state((n, name, case["span"], rtol, atol, size, nu, ev))
    return None


def stagnation(nu, du):
    """State of a method that is not told how to start."""
    dm = np.sqrt(nu*.29235*1.23259/(4.2162*du))
    return dm, 2.2162, 2.2162*dm


def start(case, res):
    """Own methods without an initial condition, or given it in any way."""
    n, name, (x0, x1) = case["n"], case["flow"], case["span"]
    f = flow(name, U)
    du0 = float(f[1](x0) + 0*x0)
    for way, tl in itertools.product(
            ("nothing", "none", "name", "set", "velocity later", "replaced"),
            ((None, None), (1e-9, 1e-12))):
        tol = 2e-5 if tl[0] is not None else 3e-4
        if way in ("nothing", "none", "velocity later") and du0 <= 0:
            continue
        told = True
        if way == "nothing":
            s, told = Own(n, *tl, .5, *f), False
        elif way == "none":
            s, told = Own(n, *tl, .5, *f, None), False
        elif way == "name":
            s = Own(n, *tl, nu=.5, u_e=f[0], du_e=f[1], d2u_e=f[2],
                    ic=Told())
        elif way == "set":
            s = Own(n, *tl, .5, *f)
            s.set_initial_condition(Told())
        elif way == "velocity later":
            s, told = Own(n, *tl, .5), False
            s.set_velocity(*f)
        else:
            s = Own(n, *tl, .5, *f, Told(3.0))
            s.set_initial_condition(Told())
        for nu in (None, .5, 2.0, .03):
            if nu is not None:
                s.nu = nu
            r = s.solve(x0, x1)
            xs = np.linspace(x0, x1, 5)
            want = exact(name, nu or .5, n, x0, xs,
                         start=None if told else stagnation(nu or .5, du0))
            res.count(transitions=1, evaluations=1, traces=1, nontrivial=1)
            res.state((n, name, case["span"], way, tl, nu))
            if not r.success or r.x_end != x1 or not close(
                    s.state(xs), want, tol, tol) or not close(
                        r.f_end, want[:, -1], tol, tol):
                return (f"{n} states, {name}, condition {way}, nu {nu}: {r} "
                        f"{s.state(xs)}, exact {want}", case)
    return None


class OwnThwaites(ThwaitesMethod):
    """Other numbers, or another function, in Thwaites' equation."""

    def __init__(self, fun, events, *args, **kw):
        self.fun = fun
        super().__init__(*args, **kw)
        for e in events:
            self._add_kill_event(e)

    def _calc_f(self, x, delta_m2_on_nu):
        return self.fun(delta_m2_on_nu*self.du_e(x))


class OwnHead(HeadMethod):
    """Head's method with a trip of its own."""

    def __init__(self, events, *args, **kw):
        super().__init__(*args, **kw)
        self._add_kill_event(list(events))


FUN = {"a": lambda q: .441 - 5.68*q, "b": lambda q: .3 - 4*q,
       "flat": lambda q: .6 + 0*q, "curved": lambda q: .44 - 5*q + 3*q*q,
       "bent": lambda q: .45 - 6*np.minimum(q, .02)}
TRIP = {"none": [], "one": [[.27, True, 2, "trip"]],
        "two": [[.4, True, 1, ""], [.15, False, 3, "idle"],
                [.33, True, 3, "own"]]}


def derived(case, res):
    """Methods derived from those of the library."""
    fit, name, x0 = case["fit"], case["flow"], case["x0"]
    x1 = x0 + .6
    f = flow(name, 1e4)
    for trip, user, nu in itertools.product(TRIP, (None, .2), (1e-5, 1e-3)):
        events = [Ev(*e) for e in TRIP[trip]]
        more = None if user is None else Ev(user, True, 2, "user")
        z0 = 2e-6
        dm0 = np.sqrt(z0*nu) if fit != "head" else 900*nu/f[0](x0)
        if fit == "head":
            s = OwnHead(events, nu, *f)
            s.initial_shape_d = 1.45
            want = ref.head(f[0], f[1], nu, dm0, 1.45, 2.4, x0, x1)
        else:
            fun = FUN[case["fun"]]
            s = OwnThwaites(fun, events, nu, *f, data_fits=ref.fit_arg(fit))
            want = ref.thwaites(fun, fit, f[0], f[1], nu, dm0, x0, x1)
        s.initial_delta_m = dm0
        r = s.solve(x0, x1, more)
        res.count(transitions=1, evaluations=1, traces=1, nontrivial=1)
        what = (fit, name, x0, case.get("fun"), trip, user, nu)
        res.state(what)
        ends = [(x1, 0, "")]
        if want.status == 1:
            ends = [(float(want.t[-1]), 1, "")]
        ends += [(e[0], e[2], e[3]) for e in TRIP[trip] if e[1]]
        if user is not None:
            ends.append((user, 2, "user"))
        ends = sorted(e for e in ends if e[0] > x0)
        at, st, txt = ends[0]
        if len(ends) > 1 and ends[1][0] - at < 3e-3:
            continue
        if not r.success or abs(r.x_end - at) > 2e-3 or int(r.status) != st \
                or r.message != TEXT[st] + (": " + txt if txt else ""):
            return f"{what}: {r}, should be {ends[0]}", case
        end = min(float(r.x_end), float(want.t[-1]))
        xs = np.linspace(x0, x0 + .95*(end - x0), 7)
        u, du, d2u = (np.array([q(x) for x in xs], float) for q in f)
        if fit == "head":
            exp = dict(zip(("delta_m", "shape_d"), want.sol(xs)))
            loose = 3e-4
        else:
            z = want.sol(xs)[0]
            lam, dz, dm = z*du, fun(z*du)/u, np.sqrt(z*nu)
            h = np.array([ref.H(fit, q) for q in lam])
            hp = np.array([ref.Hp(fit, q) for q in lam])
            exp = {"delta_m": dm, "shape_d": h,
                   "v_e": du*h*dm + u*(hp*(dz*du + z*d2u)*dm
                                       + h*nu*dz/(2*dm))}
            lo, hi = ref.FITS[fit][3:5]
            if (lam < lo + 2e-3).any() or (lam > hi - 1e-4).any() or \
                    fit == "Cebeci-Bradshaw" and (np.abs(lam) < 1e-4).any() \
                    or case["fun"] == "bent" and (
                        np.abs(lam - .02) < 1e-4).any():
                exp = {"delta_m": dm}
            loose = 1e-3
        for q, w in exp.items():
            got = getattr(s, q)(xs)
            tol = loose if q != "v_e" else 1e-2
            if not close(got, w, tol, tol*np.abs(w).max()
                         if q == "v_e" else 0.0):
                return f"{what}: {q} is {got}, should be {w}", case
        res.outcome(what, st)
    return None


def method(case, res):
    n, name = case["n"], case["flow"]
    u, du, d2u = flow(name, U)
    ways = ["set", "set one", "add", "add list", "split"]
    tols = [(None, None), (1e-9, 1e-12), (1e-8, None), (None, 1e-12)]
    steps = [(o, w, q, nu) for o in OWN for w in ways for q in USER
             for nu in (.5, 2.0)]
    todo = case.get("todo")
    if todo is None:
        todo = []
        for t in tols:
            for st in steps:
                if st[0] == "none" and st[1] != "set":
                    continue
                todo.append((t, [st]))
        few = [st for st in steps if st[1] in ("set", "set one")
               and st[3] == .5]
        if not case["deep"]:
            few = few[::5]
        few = [list(st) for st in few if st[0] != "none"]
        for a, b in itertools.product(few, few):
            b = list(b)
            b[3] = 2.0
            todo.append(((1e-9, 1e-12), [a, b]))
            todo.append(((None, None), [a, ["keep", "", b[2], 2.0]]))
    for tl, seq in todo:
        tol = 2e-5 if tl[0] is not None else 3e-4
        ic = Told()
        s = Own(n, *tl, .7, u, du, d2u, ic)
        own = []
        for o, w, q, nu in seq:
            if o != "keep":
                own = OWN[o]
                level = exact(name, nu, 1, case["span"][0], [
                    case["span"][0] + .55*(case["span"][1]
                                           - case["span"][0])])[0, 0]
                if o == "none":
                    s._set_kill_event([])
                else:
                    s.use(w, [event(e, level) for e in own])
            elif own and own[0][0] == "state":
                break
            msg = one(s, case, nu, own, q, res, tol)
            if msg is None and (s.nu != nu or ic.nu != nu or not close(
                    ic.du_e, du(case["span"][0]), 1e-12)):
                msg = f"initial condition was told {ic.nu}, {ic.du_e}"
            if msg:
                return (f"{n} states, {name}, {case['span']}, tolerances "
                        f"{tl}, {seq}: {msg}", {**case,
                                                "todo": [[tl, seq]]})
        res.count(evaluations=1, traces=1, nontrivial=1)
        res.state((n, name, case["span"], tl, seq))
        res.outcome(n, name, case["span"], seq, tl)
    return None


class OwnEquation(Analytic2dSimilarityIncompressible):
    def _g(self, x):
        return np.sqrt(self.u_e(x)/((2*self._alpha - self._beta)
                                    * self.nu_ref*x))


def equation(case, res):
    """The functions solve the equation with its three parameters."""
    a, b, g = case["alpha"], case["beta"], case["gamma"]

    def rhs(_, f):
        return [f[1], f[2], -(a*f[0]*f[2] + b*(g - f[1]**2))]

    for e, fw in itertools.product((2.0, 3.0), (None, .9, 1.5)):
        try:
            s = OwnEquation(1.0, 1e-3, a, b, g, eta_inf=e, fw_pp=fw)
        except ValueError:
            if fw is None:
                return f"{case} eta_inf={e} was rejected", case
            continue      # does not reach the edge velocity
        res.count(transitions=1, evaluations=1, traces=1, nontrivial=1)
        if s.eta_inf != e or (fw is not None and s.fw_pp != fw):
            return f"{case}: set to {e}, {fw}, is {s.eta_inf}, {s.fw_pp}", case
        eta = np.linspace(0, e, 13)
        sol = solve_ivp(rhs, [0, e], [0, 0, s.fw_pp], method="DOP853",
                        t_eval=eta, rtol=1e-11, atol=1e-13)
        if sol.status != 0:
            raise AssertionError("reference failed: " + sol.message)
        for q, w in zip(("f", "f_p", "f_pp"), sol.y):
            if not close(getattr(s, q)(eta), w, 2e-5, 2e-5*np.abs(w).max()):
                return (f"{case} eta_inf={e} fw_pp={fw}: {q} is "
                        f"{getattr(s, q)(eta)}, equation gives {w}", case)
        if fw is None and not close(s.f_p(e), 1.0, 1e-6):
            return f"{case} eta_inf={e}: edge velocity {s.f_p(e)}", case
        if not close(s.f_p(s.eta_s), .99, 1e-7) or not close(
                s.eta_d, e - sol.y[0][-1], 1e-5, 1e-5):
            return (f"{case} {e} {fw}: eta_s {s.eta_s} has f_p "
                    f"{s.f_p(s.eta_s)}, eta_d {s.eta_d}, equation gives "
                    f"{e - sol.y[0][-1]}", case)
        res.state((a, b, g, e, fw))
        res.outcome(a, b, g, e, fw)
    return None


class OwnFlow(Analytic2dSimilarityIncompressible):
    """
    The flow of Falkner and Skan in a similarity coordinate that is
    1/sqrt(alpha) times theirs: alpha and alpha*beta take the place of 1 and
    beta in the equation.
    """

    def __init__(self, alpha, beta, u_ref, nu_ref, **kw):
        super().__init__(u_ref, nu_ref, alpha, alpha*beta, 1.0, **kw)
        self.b = beta

    def _g(self, x):
        return np.sqrt(self.u_e(x)/((2 - self.b)*self.nu_ref*x)/self._alpha)


X = np.array([.1, .7, 2.0, 5.0])


def similarity(case, res):
    alpha, beta = case["alpha"], case["beta"]
    k = alpha**.5
    fs = FalknerSkan(beta, 2.0, 1e-4)
    for kw, way in itertools.product(({}, {"eta_inf": 5.5}, {
            "eta_inf": fs.eta_inf/k, "fw_pp": fs.fw_pp*k}), (
                "new", "changed", "failed")):
        if "fw_pp" not in kw and "eta_inf" in kw:
            want = FalknerSkan(beta, 2.0, 1e-4, eta_inf=5.5*k) \
                if 3.5 < 5.5*k < 6 else None
            if want is None:
                continue
        else:
            want = fs
        if way == "new":
            s = OwnFlow(alpha, beta, 2.0, 1e-4, **kw)
        else:
            s = OwnFlow(alpha, beta, 7.0, 1e-2)
            s.u_ref, s.nu_ref = 2.0, 1e-4
            if way == "failed":
                for bad in ((-1.0, None), (None, 0.0), (1.0, .01)):
                    try:
                        s.set_solution_parameters(*bad)
                        return f"{bad} was accepted", case
                    except ValueError:
                        pass
            s.set_solution_parameters(**kw)
        eta = np.linspace(0, min(s.eta_inf, want.eta_inf/k), 23)
        y = eta[1:, None]/s._g(X)[None, :]
        xx = np.broadcast_to(X, y.shape)
        pairs = [("fw_pp", s.fw_pp, k*want.fw_pp),
                 ("f_p", s.f_p(eta), want.f_p(k*eta)),
                 ("f", s.f(eta), want.f(k*eta)/k),
                 ("f_pp", s.f_pp(eta), want.f_pp(k*eta)*k)]
        pairs += [(q, getattr(s, q), getattr(want, q)/k)
                  for q in ("eta_d", "eta_m", "eta_k", "eta_s")]
        pairs += [(q, getattr(s, q)(X), getattr(want, q)(X)) for q in (
            "u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s",
            "shape_d", "shape_k")]
        pairs += [(q, getattr(s, q)(X, 1.3), getattr(want, q)(X, 1.3))
                  for q in ("tau_w", "dissipation")]
        for j in range(y.shape[0]):
            pairs += [(q, getattr(s, q)(xx[j], y[j]),
                       getattr(want, q)(xx[j], y[j])) for q in ("u", "v")]
        for q, got, exp in pairs:
            res.count(transitions=1)
            scale = np.abs(np.asarray(exp)).max()
            if not close(got, exp, 5e-6, 5e-6*scale):
                return (f"alpha={alpha} beta={beta} {kw} {way}: {q} is "
                        f"{got}, should be {exp}", case)
        for bad in (0.0, -1.0):
            for name in ("u_ref", "nu_ref"):
                try:
                    setattr(s, name, bad)
                    return f"{name}={bad} was accepted", case
                except ValueError:
                    pass
        if (s.u_ref, s.nu_ref) != (2.0, 1e-4):
            return "a rejected value was kept", case
        res.count(evaluations=1, traces=1, nontrivial=1)
        res.state((alpha, beta, kw, way))
        res.outcome(alpha, beta, list(kw), way)
    return None


def run_case(case):
    res = Result()
    if "accuracy" in case:
        bad = accuracy(case, res)
    elif "derived" in case:
        bad = derived(case, res)
    elif "start" in case:
        bad = start(case, res)
    elif "gamma" in case:
        bad = equation(case, res)
    else:
        bad = (method if "n" in case else similarity)(case, res)
    if bad:
        res.fail(*bad)
    res.sample({k: v for k, v in case.items() if k != "todo"})
    return res
