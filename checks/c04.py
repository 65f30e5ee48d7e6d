"""C04: how an integration ends and what is reported about it."""
import itertools

import numpy as np
from scipy.optimize import brentq

from ibl.ibl_method import TermEvent, TermReason

from mc import drive
from mc.core import Result
from mc.util import METHODS, close, raises

LEVEL = "model_checking"
RULE = ("every ordered tuple, up to the length, of user events from an "
        "alphabet of location x terminal or not x sign x reason x message, "
        "in every way of passing them, for every method on flows that do and "
        "do not separate and on one whose integration fails part way; the "
        "reported end, status, message, state and solution are compared with "
        "the model 'first terminal event along the flow ends it'. "
        "Non-trivial: at least one event lies inside the interval.")
ASSUMPTIONS = ["no event is exactly zero at the start of the integration",
               "each event changes sign at most once along the flow",
               "where events coincide either may be reported"]

U = 1e4
TEXT = {0: "Completed", 1: "Separated", 2: "Transition", 3: "Unknown Event"}
# flow -> (velocity spec, x0, x_end); the laminar separation lies at .123 or
# so of the second and at .48 or so of the third
SPANS = [(0.0, 1.0), (0.05, 0.7), (-.3, .7)]


def velocity(name):
    if name == "rise":
        return (lambda x: U*(1+x), lambda x: U + 0*x, lambda x: 0*x)
    if name == "fall":
        return (lambda x: U*(1.05 - x), lambda x: -U + 0*x, lambda x: 0*x)
    if name == "late":
        return (lambda x: U*(1 + x - 1.6*x*x), lambda x: U*(1 - 3.2*x),
                lambda x: -3.2*U + 0*x)
    if name == "fails":   # not defined beyond .5
        def u(x):
            return np.where(np.asarray(x) > .5, np.nan, U*(1+x))[()]
        return (u, lambda x: U + 0*x, lambda x: 0*x)
    raise KeyError(name)


def solver(m, name, span=(0, 1)):
    s = METHODS[m](1e-3, *velocity(name))
    s.initial_delta_m = 1e-4
    if span[1] < span[0]:
        s.initial_delta_m = 2e-3 if m == "head" else 2e-4
    if m == "head":
        s.initial_shape_d = 1.4
    return s


# short ones, far away ones and a long one, on the first flow only
FAR = [(50.0, 50.01), (50.0, 50.00001), (-.5, -.49999), (3.0, 3.5),
       (1e3, 1e3 + 1e-3), (0.0, 1e-6), (-1e-3, 1e-3), (0.0, 300.0),
       (.2, .2), (-.3, -.3)]
# against the flow
BACK = [("rise", (.5, .1)), ("rise", (.35, .05)), ("late", (.31, .05))]


# events: [where, terminal, sign, reason, message]; where is a location or
# ["state", fraction of the way the first state has gone at the end]
def alphabet(size):
    reasons = [[3, ""], [3, "user"], [2, ""], [2, "trip wire"], [1, "mine"],
               [0, "enough"]]
    out = []
    if size == "full":
        for at in (.12, .3, .44, .9, 9.0, "state"):
            for t in (True, False):
                for sg, (r, msg) in zip((1, -1, 1, -1, 1, -1), reasons):
                    out.append([at, t, sg, r, msg])
    elif size == "mid":
        for i, at in enumerate((.12, .3, .44, .9, 9.0, "state")):
            for t in (True, False):
                r, msg = reasons[(i + t) % 6]
                out.append([at, t, 1 if i % 2 else -1, r, msg])
    else:
        for i, at in enumerate((.12, .3, "state")):
            for t in (True, False):
                r, msg = reasons[(2*i + t) % 6]
                out.append([at, t, -1 if i % 2 else 1, r, msg])
    return out


def cases(tier):
    out = []
    for m in METHODS:
        for span in FAR:
            out.append({"method": m, "flow": "rise", "span": span,
                        "size": "full", "n": 1})
        for name, span in BACK:
            c = {"method": m, "flow": name, "span": span}
            out.append({**c, "size": "full", "n": 1})
            for first in alphabet("mid"):
                out.append({**c, "size": "mid", "n": 2, "first": first})
        for name in ("rise", "fall", "late", "fails"):
            for span in SPANS:
                c = {"method": m, "flow": name, "span": span}
                out.append({**c, "size": "full", "n": 1})
                if span == SPANS[2] and tier == "quick":
                    for first in alphabet("small"):
                        out.append({**c, "size": "small", "n": 2,
                                    "first": first})
                    continue
                for first in alphabet("mid"):
                    out.append({**c, "size": "mid", "n": 2, "first": first})
                if tier == "quick":
                    if span == SPANS[0]:
                        for first in alphabet("small"):
                            out.append({**c, "size": "small", "n": 3,
                                        "first": first})
                else:
                    for first in alphabet("mid"):
                        out.append({**c, "size": "mid", "n": 3,
                                    "first": first})
                    if span == SPANS[0]:
                        for first in alphabet("small"):
                            out.append({**c, "size": "small", "n": 4,
                                        "first": first})
                        for first in alphabet("full"):
                            out.append({**c, "size": "full", "n": 2,
                                        "first": first})
    return out


_REF = {}


def reference(m, name, span):
    """Run without user events: end, separation or not, and solution."""
    key = (m, name, tuple(span))
    if key not in _REF:
        s = solver(m, name, span)
        if name == "fails":
            r = s.solve(span[0], .499)
            end, status = None, None
        else:
            r = s.solve(*span)
            end, status = float(r.x_end), int(r.status)
        if not r.success or int(r.status) not in (0, 1):
            raise AssertionError("reference run ended as " + str(r))
        _REF[key] = (s, float(r.x_end), end, status)
    return _REF[key]


def state(s, x):
    """State at a location, from what the solver reports."""
    if isinstance(s, METHODS["head"]):
        return np.array([s.delta_m(x), s.shape_d(x)])
    return np.array([s.delta_m(x)**2/s.nu])


class Lazy(TermEvent):
    """Event that only knows its reason once it has seen the flow."""

    def __init__(self, ev):
        super().__init__()
        self.terminal = ev.terminal
        self.ev, self.near = ev, False

    def _call_impl(self, x, f):
        v = self.ev(x, f)
        self.near = self.near or v*self.ev.sign > -1e-12
        return v

    def event_info(self):
        return self.ev.event_info() if self.near else (TermReason.UNKNOWN,
                                                       "too early")


def make(ev, level, lazy=False):
    if lazy:
        return Lazy(make(ev, level))
    at, term, sign, reason, msg = ev
    if at == "state":
        return drive.Ev(level, term, reason, msg, comp=0, sign=sign)
    return drive.Ev(at, term, reason, msg, sign=sign)


def expected(m, case, evs):
    """Possible (x_end, status, message) by the model, None for a failure."""
    ref, last, end, status = reference(m, case["flow"], case["span"])
    x0, x1 = case["span"]
    f0, f1 = state(ref, x0)[0], state(ref, last)[0]
    level = f0 + .4*(f1 - f0)
    where = None
    hits = []
    for ev in evs:
        x = ev[0]
        if x == "state":
            if where is None:
                where = brentq(lambda x: state(ref, x)[0] - level, x0, last,
                               xtol=1e-14)
            x = where
        if ev[1] and min(x0, x1) < x < max(x0, x1) and \
                min(x0, last) <= x <= max(x0, last):
            hits.append((x, ev[3], ev[4]))
    if status == 1:
        hits.append((end, 1, ""))
    elif end is not None:
        hits.append((end, 0, None))
    if not hits:
        return None, level, ref
    first = min(abs(h[0] - x0) for h in hits)
    return [h for h in hits if abs(h[0] - x0) <= first + 1e-6], level, ref


def check(case, evs, form, res):
    m = case["method"]
    want, level, ref = expected(m, case, evs)
    s = solver(m, case["flow"], case["span"])
    x0, x1 = case["span"]
    objs = [make(e, level, form == "lazy") for e in evs]
    if form in ("list", "lazy"):
        arg = list(objs)
    elif form == "one":
        arg = objs[0]
    else:
        arg = None
    if form == "after":      # the events belong to an earlier solve only
        s.solve(x0, min(x1, .45), list(objs))
        r = s.solve(x0, x1)
        want = expected(m, case, [])[0]
    else:
        r = s.solve(x0, x1, arg)
    if form == "list" and (len(arg) != len(objs) or any(
            a is not b for a, b in zip(arg, objs))):
        return "the caller's list of events was changed"
    for o, e in zip(objs, evs):
        if o.terminal is not e[1]:
            return "an event's terminal flag was changed"
    if want is None:
        if r.success or r.status != TermReason.UNKNOWN:
            return f"failed integration reported as {r}"
        if not r.message.startswith("Unknown Event: "):
            return f"failed integration's message is {r.message!r}"
        for q in drive.STATE:
            msg = raises(ValueError, drive.QUERIES[q], s, .5*(x0 + .5))
            if msg:
                return f"{q} after a failed integration {msg}"
        return None
    if not r.success:
        return f"not reported as success: {r}, should be {want}"
    if not isinstance(r.status, TermReason):
        return f"status {r.status!r} is not a TermReason"
    for x, st, txt in want:
        message = TEXT[st] + (": " + txt if txt else "")
        if (abs(r.x_end - x) < 1e-6 and int(r.status) == st
                and r.message == message and str(r.status) == TEXT[st]):
            break
    else:
        return (f"ended at {r.x_end} {r.status!r} {r.message!r}, "
                f"should be {want}")
    if int(r.status) == 0 and want[0][2] is None and r.x_end != x1:
        return f"completed at {r.x_end}, not {x1}"
    f_end = np.atleast_1d(r.f_end)
    if not close(f_end, state(s, r.x_end), 1e-10):
        return f"f_end {f_end} but the solution is {state(s, r.x_end)}"
    xs = np.linspace(x0, min(r.x_end, reference(
        m, case["flow"], case["span"])[1], key=lambda q: abs(q - x0)), 6)
    for x in xs:
        if not close(state(s, x), state(ref, x), 2e-6):
            return (f"at {x} solution is {state(s, x)} with the events and "
                    f"{state(ref, x)} without")
    text = str(r)
    for part in (f"x_end: {r.x_end}", f"status: {r.status}",
                 f"message: {r.message}", f"success: {r.success}"):
        if part not in text:
            return f"{part!r} is missing from {text!r}"
    return None


def run_case(case):
    res = Result()
    if "evs" in case:
        todo = [(case["evs"], case["form"])]
    else:
        todo = []
        a = alphabet(case["size"])
        for rest in itertools.product(
                a, repeat=case["n"] - ("first" in case)):
            if case["span"][0] == case["span"][1] and rest[0][0] == "state":
                continue    # zero at the start
            evs = ([case["first"]] if "first" in case else []) + list(rest)
            todo.append((evs, "list"))
            if case["n"] <= 2 and case["size"] != "full" or case["n"] == 1:
                todo.append((evs, "lazy"))
            if case["n"] == 1:
                todo.append((evs, "one"))
                todo.append((evs, "after"))
        if case["n"] == 1:
            todo += [([], "none"), ([], "list")]
    for evs, form in todo:
        res.count(evaluations=1, traces=1, transitions=1 + len(evs))
        res.state((case["method"], case["flow"], case["span"], evs, form))
        msg = check(case, evs, form, res)
        if msg:
            res.fail(f"{case['method']} {case['flow']} {form} {evs}: {msg}",
                     {"method": case["method"], "flow": case["flow"],
                      "span": case["span"], "evs": evs, "form": form})
            return res
        want = expected(case["method"], case, evs)[0]
        res.outcome(want and [round(want[0][0], 6), want[0][1:]])
    res.sample({"events": todo[-1][0], "form": todo[-1][1],
                "flow": case["flow"]})
    return res
