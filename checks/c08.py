"""C08: queries of a solution are pure functions of the location."""
import itertools

import numpy as np

from mc import drive
from mc.core import Result
from mc.util import METHODS, same, close

LEVEL = "model_checking"
RULE = ("every sequence up to the depth over (query x form of the locations) "
        "on one solved solver, each answer compared with that of an "
        "untouched twin, the caller's arrays watched (also one it fills "
        "again for every query) and every returned array overwritten; and for every query, scalar answers compared "
        "with the elements of array answers in every order of the "
        "locations; arrays of up to 5003 (thorough: 70001) locations, in "
        "order, reversed, mixed, strided and read only, compared with short "
        "ones and scalars. Non-trivial: a query follows another one.")
ASSUMPTIONS = ["locations are scalars or one dimensional arrays"]

PROBES = [0.0, .13, .3, .47, .6]
FORMS = {
    "float": lambda: .3, "int": lambda: 0, "np": lambda: np.float64(.47),
    "up": lambda: np.array(PROBES), "down": lambda: np.array(PROBES[::-1]),
    "one": lambda: np.array([.13]), "mixed": lambda: np.array(
        [.47, .13, .6, .13]),
    # next to others, closer than any step or rounding
    "close": lambda: .3 + 2e-10, "closer": lambda: np.array(
        [.13 + 3e-11, .13, .13 - 3e-11]),
    # one array that the caller fills again for every query
    "reuse1": lambda: fill([.13, .3, .6]),
    "reuse2": lambda: fill([.47, .6, .13]),
}
BUFFER = np.zeros(3)


def fill(values):
    BUFFER[:] = values
    return BUFFER


class Stored:
    """User velocity that hands out its own storage."""

    def __init__(self, fun):
        self.fun = fun
        self.seen = []
        self.frozen = False

    def __call__(self, x):
        out = np.asarray(self.fun(x), float)
        if out.ndim == 0:
            return float(out)
        out = np.array(out)
        self.seen.append((np.array(x), x, out, np.array(out)))
        if self.frozen:
            out.setflags(write=False)
        return out

    def check(self):
        for keep_x, x, out, keep in self.seen:
            if not same(out, keep):
                return f"velocity values {keep} were overwritten with {out}"
        self.seen = []
        return None


def hump(U):
    """Accelerates, then slows down without separating."""
    return (lambda x: U*(1 + x - .9*x*x), lambda x: U*(1 - 1.8*x),
            lambda x: -1.8*U + 0*x)


def config(name):
    """A solved solver, its edge velocity functions and configuration."""
    m, what = name.split(":")
    funs = [Stored(f) for f in hump(
        5e-4 if what == "slow" else 100.0)]
    args = funs
    if what == "table":
        xs = np.linspace(0, .6, 7)
        args = ((xs, funs[0].fun(xs)),)
        funs = []
    elif what == "fd":
        args = funs[:1]
    elif what == "fall":
        funs = [Stored(f) for f in (
            lambda x: 100*(1 - .1*x - .05*x*x), lambda x: -10 - 10*x,
            lambda x: -10 + 0*x)]
        args = funs
    s = METHODS[m](1e-5 if what != "slow" else 1e-9, *args)
    if m == "head":
        s.initial_delta_m = 1e-3
        s.initial_shape_d = 1.12 if what == "low" else 1.5
    else:
        s.initial_delta_m = 1e-4
        if what == "cb":
            s.set_data_fits("Cebeci-Bradshaw")
        if what == "white":
            s.set_data_fits("White")
        if what == "c2":
            s.set_data_fits((lambda q: .22 + 1.5*q,
                             lambda q: 2.6 - 4*q + 5*q**2))
    r = s.solve(0.0, .6)
    if not r.success or r.x_end < .6 - 1e-12:
        raise AssertionError(f"{name}: {r}")
    for f in funs:
        f.seen = []
    return s, funs


CONFIGS = {"quick": ["lin:three", "non:fd", "lin:table", "non:cb", "non:c2",
                     "head:three", "head:fd", "head:table", "head:low",
                     "head:slow", "lin:fall", "head:fall"],
           "thorough": ["lin:three", "non:fd", "lin:table", "non:cb",
                        "non:white", "non:c2", "non:three", "lin:fd",
                        "non:table", "lin:cb", "head:three", "head:fd",
                        "head:table", "head:low", "head:slow", "lin:fall",
                         "non:fall", "head:fall"]}


# settings that can be asked for: no location
SETTINGS = {"nu": lambda s, x: s.nu,
            "initial_delta_m": lambda s, x: s.initial_delta_m,
            "initial_shape_d": lambda s, x: getattr(s, "initial_shape_d",
                                                    0.0)}
ASK = {**drive.QUERIES, **SETTINGS}


def actions(depth):
    forms = list(FORMS) if depth == 2 else ["float", "up", "reuse1", "reuse2"]
    return [[q, f] for q in drive.QUERIES for f in forms] + \
        [[q, "float"] for q in SETTINGS]


def cases(tier):
    out = []
    for c in CONFIGS[tier]:
        out.append({"mode": "elements", "config": c})
        out.append({"mode": "many", "config": c, "sizes": [17, 300, 5003]
                    if tier == "quick" else [17, 300, 5003, 70001]})
        for q in ASK:
            out.append({"mode": "seq", "config": c, "depth": 2, "first": q})
            if tier == "thorough":
                out.append({"mode": "seq", "config": c, "depth": 3,
                            "first": q})
            else:
                out.append({"mode": "seq", "config": c, "depth": 3,
                            "first": q, "few": True})
    return out


def ask(s, act):
    x = FORMS[act[1]]()
    keep = np.array(x, copy=True)
    out = ASK[act[0]](s, x)
    if not same(x, keep):
        return out, f"{act} modified the locations given to it"
    if isinstance(x, np.ndarray) and np.shares_memory(x, out):
        return out, f"{act} returned the caller's own array"
    return out, None


_WANT = {}


def want(name, act):
    key = (name, tuple(act))
    if key not in _WANT:
        s, _ = config(name)     # a solver nothing else was asked of
        _WANT[key] = np.array(ask(s, act)[0], float)
    return _WANT[key]


def play(name, s, funs, seq):
    for act in seq:
        out, msg = ask(s, act)
        if msg:
            return msg
        # u_e and its derivatives hand on what the user's functions return
        if not same(out, want(name, act)):
            return f"{act} gave {out}, alone gives {want(name, act)}"
        for f in funs:
            msg = f.check()
            if msg:
                return f"{act}: {msg}"
        if isinstance(out, np.ndarray) and out.ndim and out.flags.writeable:
            out *= 3.0
            out += 1.0
    return None


def run_elements(case, res):
    name = case["config"]
    s, funs = config(name)
    for q, fun in drive.QUERIES.items():
        single = {x: np.asarray(fun(s, x), float) for x in PROBES}
        for x, v in single.items():
            if v.ndim:
                res.fail(f"{q} of a scalar has shape {v.shape}", case)
                return
        for n in (1, 2, 3, 5):
            for xs in itertools.permutations(PROBES, n):
                got = np.asarray(fun(s, np.array(xs)))
                exp = np.array([single[x] for x in xs])
                res.count(evaluations=1, traces=1, transitions=1)
                scale = np.abs(list(single.values())).max()
                if not close(got, exp, 1e-11, 1e-11*scale):
                    res.fail(f"{q}({xs}) is {got}, one by one {exp}", case)
                    return
        res.outcome(name, q, [round(float(v), 9) for v in single.values()])
    for f in funs:
        msg = f.check()
        if msg:
            res.fail(msg, case)


def run_many(case, res):
    """Long arrays, in order and not, hold what short ones hold."""
    name = case["config"]
    s, _ = config(name)
    for q, fun in drive.QUERIES.items():
        for n in case["sizes"]:
            xs = .6*np.arange(n)/(n - 1)
            want = np.concatenate([np.asarray(fun(s, xs[i:i + 9]))
                                   for i in range(0, n, 9)])
            scale = np.abs(want).max()
            mix = np.argsort(np.arange(n)*7919 % n, kind="stable")
            wide = np.zeros(2*n)
            wide[::2] = xs
            lock = xs.copy()
            lock.flags.writeable = False
            for how, x, w in (("up", xs, want), ("down", xs[::-1],
                                                  want[::-1]),
                              ("mixed", xs[mix], want[mix]),
                              ("strided", wide[::2], want),
                              ("read only", lock, want)):
                got = np.asarray(fun(s, x))
                res.count(evaluations=1, traces=1, transitions=1)
                if not close(got, w, 1e-11, 1e-11*scale):
                    k = "shape" if got.shape != w.shape else int(
                        np.argmax(~np.isclose(got, w, 1e-11, 1e-11*scale)))
                    res.fail(f"{q} of {n} locations ({how}) differs from "
                             f"that of few at {k}", case)
                    return
            for i in range(0, n, max(1, n//40)):
                if not close(fun(s, float(xs[i])), want[i], 1e-11,
                             1e-11*scale):
                    res.fail(f"{q} of {xs[i]} is {fun(s, float(xs[i]))} "
                             f"alone, {want[i]} in an array", case)
                    return
        res.outcome(name, q, "many")


def run_case(case):
    res = Result()
    name = case["config"]
    if case["mode"] == "elements":
        run_elements(case, res)
        return res
    if case["mode"] == "many":
        run_many(case, res)
        return res
    s, funs = config(name)
    if "seq" in case:
        todo = [case["seq"]]
    else:
        acts = actions(case["depth"])
        if case.get("few"):
            acts = [a for a in acts if a[0] in SETTINGS or a[1] != "float"
                    and a[0] in ("delta_m", "shape_d", "tau_w", "v_e", "u_e",
                                 "du_e", case["first"])]
        todo = [[a, *rest] for a in acts if a[0] == case["first"]
                for rest in itertools.product(acts, repeat=case["depth"]-1)]
    for seq in todo:
        msg = play(name, s, funs, seq)
        res.count(evaluations=1, traces=1, transitions=len(seq))
        res.state((name, seq))
        if msg:
            res.fail(f"{name} {seq}: {msg}",
                     {"mode": "seq", "config": name, "depth": case["depth"],
                      "seq": seq})
            return res
    res.sample({"config": name, "queries": todo[-1]})
    return res
