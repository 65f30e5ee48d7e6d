"""C10: a user function that raises does no damage."""
import itertools

import numpy as np

from ibl.ibl_method import TermEvent, TermReason
from ibl.initial_condition import InitialCondition

from mc import drive
from mc.core import Result
from mc.util import METHODS

LEVEL = "fault_enumeration"
RULE = ("for every user supplied function (edge velocity and derivatives, "
        "termination event, data fit, initial condition, derivative method), "
        "every call the library makes of it during a solve, a query or a "
        "change of velocity: that call raises an exception (of three kinds at "
        "every call and of 27 at the first three, the middle and the last two "
        "calls; thorough: of all kinds at every call). "
        "The exception has to reach the caller unchanged, the solver has to "
        "answer as before, and the next solve has to equal that of a solver "
        "nothing ever happened to. Thorough adds every pair of faults among the first 40 calls. "
        "Non-trivial: the fault strikes after the operation has started to "
        "use the function.")
ASSUMPTIONS = ["user functions have no state of their own"]


PAIRS = 40   # pairs of faults: both among the first so many calls


class Boom(Exception):
    pass


class Stop(BaseException):
    """Like an interrupt from the keyboard."""


KINDS = {"own": Boom, "value": ValueError, "stop": Stop,
         "arith": FloatingPointError, "type": TypeError,
         "zero": ZeroDivisionError, "over": OverflowError, "key": KeyError,
         "index": IndexError, "attr": AttributeError, "name": NameError,
         "iter": StopIteration, "exit": SystemExit, "int": KeyboardInterrupt,
         "gen": GeneratorExit, "os": OSError, "run": RuntimeError,
         "todo": NotImplementedError, "rec": RecursionError,
         "assert": AssertionError, "mem": MemoryError, "warn": RuntimeWarning,
         "uni": UnicodeError, "eof": EOFError, "imp": ImportError,
         "lin": np.linalg.LinAlgError, "time": TimeoutError}
MAIN = ["own", "value", "stop"]     # at every call


class Trap:
    """Counts the calls of one function and raises on a given one."""

    def __init__(self, exc):
        self.exc = exc
        self.n = 0
        self.at = None

    def hit(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise self.exc

    def arm(self, at):
        self.n = 0
        self.at = at

    def wrap(self, fun):
        def f(*a):
            self.hit()
            return fun(*a)
        return f


class Event(TermEvent):
    def __init__(self, at, trap, info):
        super().__init__()
        self.at, self.trap, self.info = at, trap, info

    def event_info(self):
        if self.info:
            self.trap.hit()
        return TermReason.TRANSITIONED, "there"

    def _call_impl(self, x, f):
        if not self.info:
            self.trap.hit()
        return x - self.at


class Condition(InitialCondition):
    """User's own initial condition."""

    def __init__(self, trap):
        self.trap = None
        super().__init__(1.0, 1.0)
        self.trap = trap

    def delta_m(self):
        if self.trap:
            self.trap.hit()
        return 2e-4

    def shape_d(self):
        if self.trap:
            self.trap.hit()
        return 1.5

    def shape_k(self):
        return 1.7

    def delta_d(self):
        return 1.5e-4

    def delta_k(self):
        return 1.7e-4


class Table:
    """Velocity object with a derivative method."""

    def __init__(self, trap, c):
        self.trap, self.c = trap, np.poly1d(c)

    def __call__(self, x):
        return self.c(x)

    def derivative(self, nu=1):
        self.trap.hit()
        return np.polyder(self.c, nu)


U = 100.0
FUNS = (lambda x: U*(1 + x - .9*x*x), lambda x: U*(1 - 1.8*x),
        lambda x: -1.8*U + 0*x)
TARGETS = {"lin": ["u", "du", "d2u", "fdu", "event", "info", "ic", "shear",
                   "shape", "shape_p", "shape2", "table"],
           "non": ["u", "du", "d2u", "fdu", "event", "info", "ic", "shear",
                   "shape", "shape_p", "shape2", "table"],
           "head": ["u", "du", "d2u", "fdu", "event", "info", "ic",
                    "table"]}
QUERY = ["delta_m", "delta_d", "shape_d", "tau_w", "v_e", "shape_k", "u_e",
         "du_e", "d2u_e"]
XS = np.array([.02, .05, .08])


def setup(m, target, trap):
    """Solver with the function under fault in place, and its event."""
    funs = list(FUNS)
    event = None
    if target in ("u", "du", "d2u"):
        i = ["u", "du", "d2u"].index(target)
        funs[i] = trap.wrap(funs[i])
    elif target == "fdu":
        funs = [trap.wrap(funs[0])]
    elif target == "table":
        pass
    s = METHODS[m](1e-5, *funs)
    s.initial_delta_m = 1e-4 if m != "head" else 1e-3
    if m == "head":
        s.initial_shape_d = 1.5
    if target == "ic":
        s.set_initial_condition(Condition(trap))
    if target in ("event", "info"):
        event = Event(.07, trap, target == "info")
    fits = [lambda q: .22 + 1.5*q, lambda q: 2.6 - 4*q + 5*q**2,
            lambda q: -4 + 10*q]
    if target in ("shear", "shape", "shape_p"):
        i = ["shear", "shape", "shape_p"].index(target)
        fits[i] = trap.wrap(fits[i])
        s.set_data_fits(tuple(fits))
    if target == "shape2":
        s.set_data_fits((fits[0], trap.wrap(fits[1])))
    return s, event


def operations(target):
    """What is interrupted: [name, argument]."""
    if target == "table":
        return [["set", "table"], ["set", "slope"]]
    ops = [["solve", "same"], ["solve", "other"]]
    if target in ("u", "du", "d2u", "fdu", "shear", "shape", "shape_p",
                  "shape2"):
        ops += [["ask", q] for q in QUERY]
    return ops


def operate(s, op, event, trap):
    if op[0] == "solve":
        span = (0.0, .1) if op[1] == "same" else (.01, .12)
        return s.solve(*span, event)
    if op[0] == "ask":
        return drive.QUERIES[op[1]](s, XS)
    t = Table(trap, [-.5*U, .3*U, U])
    if op[1] == "table":
        return s.set_velocity(t)
    return s.set_velocity(FUNS[0], t)


def snapshot(s, solved, event):
    out = {}
    for q in ("u_e", "du_e", "d2u_e"):
        out[q] = np.array(drive.QUERIES[q](s, XS)).tolist()
    out["nu"] = s.nu
    out["dm"] = s.initial_delta_m
    if hasattr(s, "initial_shape_d"):
        out["shape"] = s.initial_shape_d
    for q in drive.STATE:
        if solved is None:
            try:
                out[q] = np.array(drive.QUERIES[q](s, XS)).tolist()
            except ValueError:
                out[q] = "ValueError"
        elif solved:
            out[q] = np.array(drive.QUERIES[q](s, XS)).tolist()
        else:
            try:
                drive.QUERIES[q](s, XS)
                out[q] = "no error"
            except ValueError:
                out[q] = "ValueError"
    if event is not None:
        out["terminal"] = event.terminal
    return out


def closing(s, event, first):
    """The solves to come: with the event, and without it one way or other."""
    out = []
    for e in ((event, None) if first else (None, event)):
        r = drive.result(s.solve(0.0, .1, e))
        out += [r, snapshot(s, True, event)]
        if event is None:
            break
    return out


_WANT = {}


def cases(tier):
    out = []
    for m, targets in TARGETS.items():
        for t in targets:
            for op in operations(t):
                for solved in (False, True):
                    if op[0] == "ask" and not solved \
                            and op[1] not in ("u_e", "du_e", "d2u_e"):
                        continue
                    kinds = MAIN if tier == "quick" else list(KINDS)
                    out.append({"method": m, "target": t, "op": op,
                                "solved": solved, "kinds": kinds,
                                "pairs": tier != "quick" and solved
                                and op[0] == "solve"})
    return out


def after(case):
    trap = Trap(None)
    s, event = setup(case["method"], case["target"], trap)
    operate(s, case["op"], event, trap)
    return snapshot(s, True, event)


def play(case, ks, kind):
    """Faults at the given calls of successive operations; None if fine."""
    trap = Trap(KINDS[kind]("injected"))
    s, event = setup(case["method"], case["target"], trap)
    if case["solved"]:
        s.solve(0.0, .1, event)
    before = snapshot(s, case["solved"], event)
    for k in ks:
        trap.arm(k)
        try:
            got = operate(s, case["op"], event, trap)
            msg = f"returned {got!r}"
        except BaseException as ex:
            if type(ex).__name__ == "Hang":
                raise
            msg = None if ex is trap.exc else f"raised {ex!r}"
        trap.arm(None)
        if msg:
            return f"{case['op']} {msg} instead of the user's exception"
        if case["target"] == "info":
            # the integration was over: its solution may be in place
            now = snapshot(s, None, event)
            if repr(now) in (repr(before), repr(after(case))):
                continue
        now = snapshot(s, case["solved"], event)
        if repr(now) != repr(before):
            bad = [q for q in now if repr(now[q]) != repr(before[q])][0]
            return f"afterwards {bad} is {now[bad]}, was {before[bad]}"
    first = ks[0] % 2 == 0
    got = closing(s, event, first)
    key = (case["method"], case["target"])
    if (*key, first) not in _WANT:
        _WANT[*key, first] = closing(*setup(*key, Trap(None)), first)
    want = _WANT[*key, first]
    if repr(got) != repr(want):
        return f"the next solve gave {got}, should be {want}"
    return None


def calls(case):
    """How often the operation calls the function."""
    trap = Trap(None)
    s, event = setup(case["method"], case["target"], trap)
    if case["solved"]:
        s.solve(0.0, .1, event)
    trap.arm(None)
    operate(s, case["op"], event, trap)
    return trap.n


def run_case(case):
    res = Result()
    if "ks" in case:
        todo = [(case["ks"], case["kind"])]
    else:
        n = calls(case)
        todo = [([k], kind) for k in range(1, n + 1)
                for kind in case["kinds"]]
        # all kinds at the first calls, one within, and the last ones
        some = sorted({1, 2, 3, (n + 1)//2, n - 1, n} & set(range(1, n + 1)))
        todo += [([k], kind) for k in some for kind in KINDS
                 if kind not in case["kinds"]]
        if case["pairs"]:
            todo += [(list(p), "own") for p in
                     itertools.product(range(1, min(n, PAIRS) + 1),
                                       repeat=2)]
    for ks, kind in todo:
        msg = play(case, ks, kind)
        res.count(evaluations=1, traces=1,
                  nontrivial=1 if ks[0] > 1 else 0)
        if msg:
            sub = {k: case[k] for k in ("method", "target", "op", "solved")}
            res.fail(f"{sub} fault {kind} at call {ks}: {msg}",
                     {**sub, "ks": ks, "kind": kind, "kinds": [],
                      "pairs": False})
            return res
        res.outcome(case["method"], case["target"], case["op"], ks)
    if todo:
        res.sample({"target": case["target"], "op": case["op"],
                    "calls": todo[-1][0], "kind": todo[-1][1]})
    return res
