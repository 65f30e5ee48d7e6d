"""C21: initial conditions give the state the integration starts from."""
import itertools

import numpy as np

from ibl.initial_condition import (FalknerSkanStagCondition, InitialCondition,
                                   ManualCondition)
from mc.core import Result
from mc.flows import ALL, flow
from mc.util import METHODS, close

LEVEL = "model_checking"
RULE = ("every sequence up to the depth of setting each property of an "
        "initial condition to each value of its alphabet (valid or not) on a "
        "real object next to another one, with all its values compared with "
        "a model after each step; and every solver method x edge velocity x "
        "start x viscosity x initial condition (stagnation, manual, user "
        "class, set through the solver before or after, invalid settings in "
        "between) with the solution at the start compared with the values "
        "the condition has for the viscosity of the solver and the velocity "
        "gradient at the start. Non-trivial: the sequence sets more than one "
        "property.")
ASSUMPTIONS = ["positive velocity gradient for the stagnation condition"]
CHUNK = 8

STAG_OPS = [("nu", 1e-5), ("nu", .3), ("nu", 0.0), ("nu", -1e-5),
            ("du_e", 3.0), ("du_e", 1e4), ("du_e", 2)]
MAN_OPS = [("del_d", 3e-3), ("del_d", .5), ("del_m", 1e-3), ("del_m", .4),
           ("del_k", 2e-3), ("del_k", .6), ("nu", 1e-3), ("nu", -1.0),
           ("du_e", 7.0)]


def cases(tier):
    depth = 4 if tier == "quick" else 6
    out = [{"object": "stag", "prefix": [list(a), list(b)], "depth": depth}
           for a in STAG_OPS for b in STAG_OPS]
    out += [{"object": "manual", "prefix": [list(a), list(b)],
             "depth": min(depth, 5)} for a in MAN_OPS for b in MAN_OPS]
    out.append({"object": "exact"})
    x0s = [0.0, .2, -.05] if tier == "quick" else [0.0, .2, -.05, .05, .1, .5]
    for m, fl, x0, nu, how in itertools.product(
            METHODS, ALL, x0s, [1e-5, 2e-4],
            ["stag", "manual", "user", "set", "reset"]):
        for off in (None, 1.05, .8):
            if off is None or how in ("stag", "user"):
                out.append({"method": m, "flow": fl, "x0": x0, "nu": nu,
                            "how": how, "off": off})
    return out


# ---------------------------------------------------------- objects
def want_stag(st):
    dm = np.sqrt(st["nu"]*.29235*1.23259/((2.2162 + 2)*st["du_e"]))
    return {"shape_d": 2.2162, "shape_k": 1.6257, "delta_m": dm,
            "delta_d": 2.2162*dm, "delta_k": 1.6257*dm}


def want_manual(st):
    return {"shape_d": st["del_d"]/st["del_m"],
            "shape_k": st["del_k"]/st["del_m"], "delta_m": st["del_m"],
            "delta_d": st["del_d"], "delta_k": st["del_k"]}


def compare(obj, want, st):
    for name, w in want.items():
        got = getattr(obj, name)()
        if not close(got, w, 1e-12):
            return f"{name} {got}, not {w}"
    for name in ("nu", "du_e"):
        if getattr(obj, name) != st[name]:
            return f"{name} {getattr(obj, name)}, not {st[name]}"
    return None


def follow(kind, seq, res):
    if kind == "stag":
        st = {"nu": 2e-5, "du_e": 11.0}
        obj = FalknerSkanStagCondition(11.0, 2e-5)
        twin, tst = FalknerSkanStagCondition(nu=.5, du_e=.25), \
            {"nu": .5, "du_e": .25}
        want = want_stag
    else:
        st = {"del_d": .01, "del_m": .006, "del_k": .009, "nu": 1e-5,
              "du_e": 0.0}
        obj = ManualCondition(.01, .006, .009)
        twin = ManualCondition(delta_k=.07, delta_m=.05, delta_d=.11)
        tst = {"del_d": .11, "del_m": .05, "del_k": .07, "nu": 1e-5,
               "du_e": 0.0}
        want = want_manual
    bad = compare(obj, want(st), st)
    for i, (name, v) in enumerate(seq):
        if bad:
            break
        ok = not (name == "nu" and v <= 0)
        try:
            setattr(obj, name, v)
            done = True
        except ValueError:
            done = False
        res.count(transitions=1)
        if done != ok:
            return f"{name} = {v} was {'accepted' if done else 'rejected'}"
        if ok:
            st = {**st, name: v}
        bad = compare(obj, want(st), st)
        res.state((kind, sorted(st.items())))
    return bad or compare(twin, want(tst), tst)


def exact(res):
    """The stagnation values are those of the exact similarity solution."""
    from ibl.analytic import FalknerSkan
    s = FalknerSkan(1.0, 2.0, 1e-5)
    c = FalknerSkanStagCondition(2.0, 1e-5)
    res.count(transitions=5)
    for name in ("delta_d", "delta_m", "delta_k"):
        a, b = getattr(c, name)(), float(getattr(s, name)(.7))
        if not close(a, b, 2e-4):
            return f"{name} {a}, exact {b}"
    for cls, args in ((FalknerSkanStagCondition, (1.0, 0.0)),
                      (FalknerSkanStagCondition, (1.0, -1e-5))):
        try:
            cls(*args)
            return f"{cls.__name__}{args} was accepted"
        except ValueError:
            pass
    return None


# ---------------------------------------------------------- solver
class User(InitialCondition):
    """Everything it returns depends on what the solver tells it."""

    def delta_m(self):
        return np.sqrt(self.nu*.02/(1e4 + abs(self.du_e)))

    def shape_d(self):
        return 1.5 + .1*np.tanh(self.du_e/1e4)

    def shape_k(self):
        return 1.7

    def delta_d(self):
        return self.delta_m()*self.shape_d()

    def delta_k(self):
        return self.delta_m()*self.shape_k()


def solver(case, res):
    u, du, d2u = flow(case["flow"], 1e4)
    nu, x0, how, m = case["nu"], case["x0"], case["how"], case["method"]
    dux, x1 = float(du(x0)), x0 + .05
    if how == "stag" and dux <= 0:
        return None
    s = METHODS[m](nu, u, du, d2u)
    dm, h = 2e-4*np.sqrt(nu/1e-5)*.1, 1.45
    # what the condition knows before it is told: something else altogether,
    # or values close to the right ones
    off = case.get("off")
    told = (99.0, .7) if off is None else (dux*off, nu/off)
    if how == "stag":
        s.set_initial_condition(FalknerSkanStagCondition(*told))
    elif how == "manual":
        s.set_initial_condition(ManualCondition(h*dm, dm, 1.7*dm))
    elif how == "user":
        s.set_initial_condition(User(*told))
    elif how in ("set", "reset"):
        if how == "reset":
            s.set_initial_condition(User(99.0, .7))
        s.initial_delta_m = dm
        if m == "head":
            s.initial_shape_d = h
        for name, v in (("initial_delta_m", 0.0), ("initial_delta_m", -1e-3),
                        ("nu", 0), ("nu", -1e-5)) + (
                            (("initial_shape_d", 0), ("initial_shape_d", -1.4))
                            if m == "head" else ()):
            before = getattr(s, name)
            try:
                setattr(s, name, v)
                return f"{name} = {v} was accepted"
            except ValueError:
                pass
            if getattr(s, name) != before:
                return f"rejected {name} = {v} changed it"
        if not close(s.initial_delta_m, dm, 1e-12):
            return f"initial_delta_m {s.initial_delta_m}, set to {dm}"
        if m == "head" and not close(s.initial_shape_d, h, 1e-12):
            return f"initial_shape_d {s.initial_shape_d}, set to {h}"
    if how == "stag":
        w = want_stag({"nu": nu, "du_e": dux})
        dm, h = w["delta_m"], w["shape_d"]
    elif how == "user":
        c = User(dux, nu)
        dm, h = c.delta_m(), c.shape_d()
    if m == "head":
        # the laminar shape factor is close to the separation criterion
        s.set_shape_d_critical(2.9)
    for again in range(3):
        # again from elsewhere and back: the condition follows the start
        xs = x0 if again != 1 else x0 + .02
        if how == "stag" and du(xs) <= 0:
            continue
        want, hs = dm, h
        if again == 1 and how == "stag":
            want = want_stag({"nu": nu, "du_e": float(du(xs))})["delta_m"]
        elif again == 1 and how == "user":
            c = User(float(du(xs)), nu)
            want, hs = c.delta_m(), c.shape_d()
        r = s.solve(xs, xs + .05)
        res.count(transitions=1)
        if not r.success:
            return f"integration failed: {r}"
        where = f"solve {again + 1} from {xs}: "
        if not close(s.delta_m(xs), want, 1e-7):
            return where + f"delta_m {s.delta_m(xs)}, condition {want}"
        if m == "head":
            if not close(s.shape_d(xs), hs, 1e-7):
                return where + f"shape_d {s.shape_d(xs)}, condition {hs}"
        if not close(s.initial_delta_m, want, 1e-7):
            return where + (f"initial_delta_m {s.initial_delta_m}, "
                            f"condition {want}")
    for fac in (3.0, 1.01, .95):
        s.nu = s.nu*fac
        s.solve(x0, x1)
        if how in ("stag", "user"):
            dm *= np.sqrt(fac)
        res.count(transitions=1)
        if not close(s.delta_m(x0), dm, 1e-7):
            return (f"after a change of viscosity delta_m starts at "
                    f"{s.delta_m(x0)}, condition {dm}")
    res.state((m, how, case["flow"], x0, nu))
    return None


def run_case(case):
    res = Result()
    if "method" in case:
        res.count(evaluations=1, traces=1)
        bad = solver(case, res)
        if bad:
            res.fail(bad, case)
        res.outcome(*case.values())
        return res
    if case["object"] == "exact":
        bad = exact(res)
        if bad:
            res.fail(bad, case)
        return res
    ops = STAG_OPS if case["object"] == "stag" else MAN_OPS
    pre = [tuple(p) for p in case["prefix"]]
    if "seq" in case:
        todo = [[tuple(p) for p in case["seq"]]]
    else:
        todo = [pre + list(t) for n in range(case["depth"] - len(pre) + 1)
                for t in itertools.product(ops, repeat=n)]
    for seq in todo:
        res.count(evaluations=1, traces=1)
        bad = follow(case["object"], seq, res)
        if bad:
            res.fail(f"after {seq}: {bad}", {**case, "seq": seq})
            break
    res.sample({"object": case["object"], "sequence": todo[-1]})
    return res
