"""C02: rejected input is reported as ValueError and changes nothing."""
import itertools

import numpy as np

from ibl.initial_condition import FalknerSkanStagCondition, ManualCondition

from mc import drive
from mc.core import Result
from mc.util import METHODS, raises

LEVEL = "fault_enumeration"
RULE = ("every rejected input of the alphabet, given after every history up "
        "to the depth of every method (alone after the shorter histories, all "
        "in a row, in both orders, after the longest ones); the solver is then "
        "compared, exactly, with a twin that was never given it: its "
        "configuration, its existing solution and its next solve. "
        "Non-trivial: the input is rejected while a configuration (and, "
        "after a solve, a solution) exists that could be damaged.")
ASSUMPTIONS = ["only inputs the documentation describes as invalid are given"]


def fun(x):
    return 4.0 + 0*x


X = [0.0, 1.0, 2.0]
BAD_VELOCITY = {
    "scalar only": (1.0,), "scalar, scalar pair": (1, (1, 2)),
    "scalar, scalar": (1, 3), "scalar, function": (1.5, fun),
    "scalar, one point": (1, ([0.], [1.])),
    "scalar, unequal": (1, (X, X[:2])),
    "scalar, not increasing": (1, ([1., 0.], [1., 2.])),
    "scalar, three vectors": (1, (X, X, X)),
    "scalar, 2d": (1, ([[0., 1.]], [[1., 2.]])),
    "numpy scalar only": (np.float64(2.0),),
    "numpy scalar, unequal": (np.float32(2.0), (X, X[:2])),
    "pair of scalars": ((1, 2),), "unequal": ((X, X[:2]),),
    "one point": (([0.], [1.]),),
    "2d": (([[0., 1.], [1., 2.]], [[0., 1.], [1., 2.]]),),
    "2d values": ((X, [X, X]),), "not increasing": (([0., 2., 1.], X),),
    "repeated": (([0., 0., 1.], X),),
    "string": ("ab",), "long string": ("abc",), "none": (None,),
    "three vectors": ((X, X, X),), "dict": ({},), "list": ([],),
    "function, scalar": (fun, 1.0), "function, table": (fun, (X, X)),
    "function, second only": (fun, None, fun),
    "function, function, scalar": (fun, fun, 2.0),
    "function, function, table": (fun, fun, (X, X)),
}
BAD_FITS = {
    "name": "Thwaites", "empty name": "", "case": "spline",
    "one": (fun,), "four": (fun, fun, fun, fun), "list": [fun, fun],
    "none": None, "number": 3, "not callable 2a": (1, fun),
    "not callable 2b": (fun, 2), "not callable 3a": (3, fun, fun),
    "not callable 3b": (fun, 3, fun), "not callable 3c": (fun, fun, 3),
    "empty": (), "function": fun,
}


def bad_inputs(method):
    out = [["nu", 0], ["nu", -1e-5], ["nu", 0.0], ["nu", -np.inf],
           ["dm", 0], ["dm", -1e-3], ["dm", -np.inf], ["ic nu", 0.0],
           ["ic nu", -1.0], ["ic new", 0], ["ic new", -1e-9]]
    out += [["vel", k] for k in BAD_VELOCITY]
    if method == "head":
        out += [["shape", 0], ["shape", -1.4], ["shape", -np.inf]]
    else:
        out += [["fits", k] for k in BAD_FITS]
    return out


def give(s, ic, bad):
    """Give a solver an invalid input; None if it is rejected as it must."""
    kind, val = bad
    if kind == "nu":
        return raises(ValueError, setattr, s, "nu", val)
    if kind == "dm":
        return raises(ValueError, setattr, s, "initial_delta_m", val)
    if kind == "shape":
        return raises(ValueError, setattr, s, "initial_shape_d", val)
    if kind == "vel":
        return raises(ValueError, s.set_velocity, *BAD_VELOCITY[val])
    if kind == "fits":
        return raises(ValueError, s.set_data_fits, BAD_FITS[val])
    if kind == "ic nu":
        keep = [ic.nu, ic.du_e]
        msg = raises(ValueError, setattr, ic, "nu", val)
        if msg is None and [ic.nu, ic.du_e] != keep:
            msg = f"initial condition is now {[ic.nu, ic.du_e]}, was {keep}"
        return msg
    return raises(ValueError, FalknerSkanStagCondition, 1.0, val)


def ops(method):
    out = [["nu", 4e-5], ["vel", "fall"], ["vel", "fd"], ["dm", 2.5e-4],
           ["ic", "fs"], ["ic", "man2"], ["solve", "all"], ["solve", "one"],
           ["ask", "all"]]
    if method == "head":
        out += [["shape", 1.7], ["crit", 1.5]]
    else:
        out += [["fits", "White"], ["fits", "custom2"]]
    return out


def cases(tier):
    out = [{"mode": "ctor", "method": m} for m in METHODS]
    out += [{"mode": "unset", "method": m} for m in METHODS]
    for m in METHODS:
        for a in ops(m):
            if tier == "quick":
                out.append({"mode": "hist", "method": m, "prefix": [a],
                            "depth": 2})
            else:
                out += [{"mode": "hist", "method": m, "prefix": [a, b],
                         "depth": 3} for b in ops(m)]
        out.append({"mode": "hist", "method": m, "prefix": [], "depth": 0})
    return out


def state_of(s, solved, ready):
    out = drive.setting(s)
    if solved and ready:
        out.update(drive.observe(s, .12, .28, 4))
    elif not solved:
        for q in drive.STATE:
            out[q] = raises(ValueError, drive.QUERIES[q], s, .2)
    return out


def exact(got, want):
    for k, w in want.items():
        g = got[k]
        if w is None or isinstance(w, str):
            ok = g == w
        else:
            ok = np.array_equal(np.asarray(g), np.asarray(w), equal_nan=True)
        if not ok:
            return f"{k} is {g}, was {w}"
    return None


def walk(m, hist):
    """Solver after a history, its initial condition, model and solved."""
    cfg = drive.base(m)
    s = drive.fresh(m, cfg)
    # the initial condition starts with an object the caller still has
    h = 1.4 if m == "head" else 0.0
    ic = ManualCondition(h*4e-4, 4e-4, 0.0)
    s.set_initial_condition(ic)
    solved = False
    for op in hist:
        if op[0] == "solve" and not drive.ready(cfg):
            continue
        if op[0] == "ask" and not solved:
            continue
        if op[0] == "ic":
            ic = drive.IC[op[1]]()
            s.set_initial_condition(ic)
        else:
            drive.apply(s, op)
        solved = solved or op[0] == "solve"
        cfg = drive.step(m, cfg, op)
    return s, ic, cfg, solved


_TWIN = {}


def twin(m, hist):
    """What a solver does that is never given anything invalid."""
    key = (m, repr(hist))
    if key not in _TWIN:
        s, _, cfg, solved = walk(m, hist)
        before = state_of(s, solved, True)
        after = None
        if drive.ready(cfg):
            r = drive.result(s.solve(*drive.SOLVE["all"]()))
            after = (r, state_of(s, True, True))
        _TWIN[key] = (before, after)
    return _TWIN[key]


def play(m, hist, bads, res):
    """Give the inputs one after another after the history."""
    before, after = twin(m, hist)
    s, ic, cfg, solved = walk(m, hist)
    for bad in bads:
        msg = give(s, ic, bad)
        if msg is None:
            res.count(traces=1, nontrivial=1)
            msg = exact(state_of(s, solved, True), before)
            if msg:
                msg = "afterwards " + msg
        if msg:
            return bad, msg
    if after:
        r = drive.result(s.solve(*drive.SOLVE["all"]()))
        msg = exact(r, after[0]) or exact(state_of(s, True, True), after[1])
        if msg:
            return bads, "the next solve: " + msg
    return None


def run_ctor(m, res):
    """Constructors reject the same things."""
    cls = METHODS[m]
    todo = [(f"nu={nu}", lambda nu=nu: cls(nu, fun)) for nu in (0, -1, -1e-9)]
    todo += [(f"nu={nu}, no velocity", lambda nu=nu: cls(nu))
             for nu in (0, -1)]
    todo += [(k, lambda a=a: cls(1e-5, *a)) for k, a in BAD_VELOCITY.items()
             if k != "none"]
    todo += [("du only", lambda: cls(1e-5, None, fun)),
             ("d2u only", lambda: cls(1e-5, None, None, fun)),
             ("du and d2u only", lambda: cls(1e-5, None, fun, fun)),
             ("du table only", lambda: cls(1e-5, dU_edx=(X, X)))]
    if m != "head":
        todo += [(k, lambda a=a: cls(1e-5, fun, data_fits=a))
                 for k, a in BAD_FITS.items()]
    for name, f in todo:
        res.count(evaluations=1, traces=1, nontrivial=1)
        msg = raises(ValueError, f)
        if msg:
            res.fail(f"constructor with {name}: {msg}",
                     {"mode": "ctor", "method": m})
            return


def run_unset(m, res):
    """What needs a velocity or a solution is rejected without one."""
    def some(s, dm=True):
        if dm:
            s.initial_delta_m = 4e-4
        if m == "head":
            s.initial_shape_d = 1.4
        return s
    for q in drive.QUERIES:
        if q in ("delta_k", "dissipation"):
            continue
        for x in (.2, np.array([.2, .3])):
            s = METHODS[m](1e-5)
            res.count(evaluations=1)
            msg = raises(ValueError, drive.QUERIES[q], s, x)
            if msg is None:
                s.set_velocity(fun)
                if q in drive.STATE:
                    msg = raises(ValueError, drive.QUERIES[q], s, x)
            if msg:
                res.fail(f"{q} without data {msg}",
                         {"mode": "unset", "method": m})
                return
    s = some(METHODS[m](1e-5))
    msg = raises(ValueError, s.solve, 0, 1)
    if msg is None:
        for q in drive.STATE:
            msg = msg or raises(ValueError, drive.QUERIES[q], s, .2)
    if msg is None:
        s.set_velocity(*drive.VELOCITY["accel"]())
        cfg = drive.base(m)
        r = s.solve(0.0, 1.0)
        msg = drive.check_solve(m, cfg, "all", s, r)
    res.count(evaluations=1, nontrivial=1)
    if msg:
        res.fail("solve without edge velocity: " + msg,
                 {"mode": "unset", "method": m})


def run_case(case):
    res = Result()
    m = case["method"]
    if case["mode"] == "ctor":
        run_ctor(m, res)
        return res
    if case["mode"] == "unset":
        run_unset(m, res)
        return res
    if "hist" in case:
        todo = [(case["hist"], [case["bads"]])]
    else:
        pre, alphabet = case["prefix"], ops(m)
        todo = []
        for n in range(case["depth"] - len(pre) + 1):
            for t in itertools.product(alphabet, repeat=n):
                hist = pre + list(t)
                bads = bad_inputs(m)
                alone = [[b] for b in bads]
                if len(hist) == case["depth"] and hist:
                    alone = [bads, bads[::-1]]
                todo.append((hist, alone))
    for hist, groups in todo:
        for bads in groups:
            res.count(evaluations=len(bads))
            hit = play(m, hist, bads, res)
            if hit:
                which = bads[:bads.index(hit[0])+1] \
                    if hit[0] in bads else hit[0]
                res.fail(f"{hit[0]} after {hist}: {hit[1]}",
                         {"mode": "hist", "method": m, "hist": hist,
                          "bads": which})
                return res
        res.outcome(m, hist, len(groups))
    res.sample({"method": m, "history": todo[-1][0],
                "inputs": todo[-1][1][-1][-1:]})
    return res
