"""C13: a similarity solution depends only on its current settings."""
import itertools

import numpy as np

from ibl.analytic import Blasius, FalknerSkan

from mc.core import Result
from mc.util import close, same

LEVEL = "model_checking"
RULE = ("every sequence of operations up to the bound over accepted and "
        "rejected changes of beta, m, solution parameters, reference velocity "
        "and viscosity, with full searches in the shorter sequences; after "
        "every operation the object has to answer every query like an object "
        "newly made with the settings of the model, a rejected operation has "
        "to raise ValueError and change nothing, and a second object made "
        "before has to stay as it was. Non-trivial: more than one operation.")
ASSUMPTIONS = ["finite settings", "agreement to 1e-7"]
CHUNK = 2
STATES_SHARED = True

GOOD = [["beta", .5, 5.0, .93], ["beta", 0.0, 7.14513, .4696],
        ["m", .25, 5.0, .86], ["m", "inf", 4.5, 1.69], ["m", 300.0, 4.5, 1.69], ["params", 1.2, 2.5],
        ["u", 3.0], ["nu", 2e-3]]
BAD = [["beta", 2.1, None, None], ["beta", -.2, None, None],
       ["m", -1.0, None, None], ["m", -.1, None, None],
       ["m", -3.0, None, None], ["beta", .3, -1.0, None],
       ["beta", .3, None, 0.0], ["beta", .3, 1.0, .01],
       ["m", .1, 1.0, .01], ["params", 1.0, .01], ["params", 0.0, .5],
       ["params", None, -.5], ["u", 0.0], ["u", -2.0], ["nu", 0.0],
       ["nu", -1.0]]
SEARCH = [["beta", .3, None, None], ["m", 1.0, None, None],
          ["params", None, None], ["beta", .3, 6.0, None],
          ["params", 5.2, None], ["params", None, "wall"]]
BGOOD = [["params", 6.5, .5], ["params", 5.0, .47], ["u", 3.0],
         ["nu", 2e-3]]
BBAD = [["params", 1.0, .01], ["params", -1.0, .5], ["params", 5.0, 0.0],
        ["u", 0.0], ["nu", 0.0], ["u", -1.0]]
BSEARCH = [["params", None, None], ["params", 6.0, None],
           ["params", None, "wall"]]
START = {"fs": (.9, 2.0, 1e-5, 5.0, 1.2), "blasius": (0.0, 2.0, 1e-5, None,
                                                      None)}


def cases(tier):
    out = []
    for kind, good, bad, search in (("fs", GOOD, BAD, SEARCH),
                                    ("blasius", BGOOD, BBAD, BSEARCH)):
        few = good + (bad[::3] if kind == "fs" else bad)
        for op in good + bad:
            out.append({"kind": kind, "prefix": [op], "depth": 2, "ops":
                        few if tier == "quick" else good + bad,
                        "light": True})
        if tier != "quick":
            for seq in itertools.product(few, few[::2]):
                out.append({"kind": kind, "prefix": list(seq), "depth": 2,
                            "ops": few, "light": True})
        for op in search:
            for other in few + search:
                for seq in ([op, other], [other, op]):
                    out.append({"kind": kind, "prefix": seq, "depth":
                                0 if tier == "quick" else 1,
                                "ops": good + bad, "light": False})
    return out


def value(v):
    return np.inf if v == "inf" else v


_WALL = {}


def wall(b):
    """Wall value of the solution for beta: the one a user would choose."""
    if b not in _WALL:
        _WALL[b] = round(FalknerSkan(b, 1.0, 1.0).fw_pp, 9)
    return _WALL[b]


def concrete(op, st):
    """Operation with the value for the settings in force."""
    return [wall(st[0]) if v == "wall" else v for v in op]


def apply(s, op):
    name = op[0]
    if name == "beta":
        s.reset_beta(op[1], eta_inf=op[2], fw_pp=op[3])
    elif name == "m":
        s.reset_m(value(op[1]), eta_inf=op[2], fw_pp=op[3])
    elif name == "params":
        s.set_solution_parameters(eta_inf=op[1], fw_pp=op[2])
    elif name == "u":
        s.u_ref = op[1]
    else:
        s.nu_ref = op[1]


def advance(st, op):
    """Settings (beta, u_ref, nu_ref, eta_inf, fw_pp) after a valid op."""
    b, u, nu, e, f = st
    name = op[0]
    if name == "beta":
        return (op[1], u, nu, op[2], op[3])
    if name == "m":
        m = value(op[1])
        return (2.0 if np.isinf(m) else 2*m/(1 + m), u, nu, op[2], op[3])
    if name == "params":
        return (b, u, nu, op[1], op[2])
    if name == "u":
        return (b, op[1], nu, e, f)
    return (b, u, op[1], e, f)


def make(kind, st, plain=False):
    b, u, nu, e, f = st
    if kind == "fs":
        return FalknerSkan(b, u, nu, eta_inf=e, fw_pp=f)
    s = Blasius(u, nu, eta_inf=e, fw_pp=f)
    if (e is None and f is None) and not plain:
        s.set_solution_parameters()
    return s


ETA = np.linspace(0, 1, 9)
X = np.array([.1, 1.0, 3.0])


def observe(kind, s):
    out = [s.u_ref, s.nu_ref, s.eta_inf, s.fw_pp, s.eta_d, s.eta_m, s.eta_k,
           s.eta_s]
    eta = ETA*s.eta_inf
    inf = False
    if kind == "fs":
        inf = np.isinf(s.m)
        out += [s.beta, -1.0 if inf else s.m]
    out = [np.array(out), s.f(eta), s.f_p(eta), s.f_pp(eta)]
    if not inf:
        y = .1/np.sqrt(s.u_e(X)/(s.nu_ref*X))
        out += [s.u_e(X), s.v_e(X), s.delta_d(X), s.delta_m(X), s.delta_k(X),
                s.delta_s(X), s.shape_d(X), s.shape_k(X), s.tau_w(X, 1.2),
                s.dissipation(X, 1.2), s.eta(X, y), s.u(X, y), s.v(X, y)]
        one = []
        for x, yy in ((1.0, y[1]), (3, y[2])):
            one += [s.u_e(x), s.v_e(x), s.delta_d(x), s.delta_m(x),
                    s.delta_s(x), s.tau_w(x, 1.2), s.dissipation(x, 1.2),
                    s.u(x, yy), s.v(x, yy)]
        out.append(np.array([float(v) for v in one]))
    return out


def equal(a, b, cmp):
    return len(a) == len(b) and all(cmp(p, q) for p, q in zip(a, b))


_FRESH = {}


def want(kind, st, plain):
    key = (kind, st, plain)
    if key not in _FRESH:
        try:
            _FRESH[key] = observe(kind, make(kind, st, plain))
        except ValueError:
            _FRESH[key] = None
    return _FRESH[key]


def near(a, b):
    return close(a, b, 1e-7, 1e-12)


def follow(kind, seq, res):
    st = START[kind]
    s = make(kind, st, True)
    other = make(kind, (st[0], 5.0, .7, 6.0, .9), True)
    plain = True
    kept = observe(kind, other)
    for i, op in enumerate(seq):
        before = observe(kind, s)
        op, abstract = concrete(op, st), op
        ok = abstract in (GOOD + SEARCH if kind == "fs" else BGOOD + BSEARCH)
        if ok and "params" == op[0]:
            # a choice that does not suit beta: rejected from a new one too
            ok = want(kind, advance(st, op), False) is not None
        try:
            apply(s, op)
            done = True
        except ValueError:
            done = False
        res.count(transitions=1)
        if done != ok:
            return (f"{op} was {'accepted' if done else 'rejected'}", i)
        now = observe(kind, s)
        if not ok:
            if not equal(now, before, same):
                return (f"rejected {op} changed the solution", i)
            continue
        st = advance(st, op)
        if op[0] == "params":
            plain = False
        if kind == "fs":        # what was set is what is reported
            m = np.inf if st[0] == 2.0 else st[0]/(2 - st[0])
            if not close(s.beta, st[0], 1e-12) or not close(s.m, m, 1e-9):
                return (f"after {op} beta is {s.beta} and m is {s.m}", i)
        if not equal(now, want(kind, st, plain), near):
            ref = want(kind, st, plain)
            bad = [j for j in range(len(ref)) if j >= len(now)
                   or not near(now[j], ref[j])][0]
            return (f"after {op} value {bad} is {now[bad]}, of a new object "
                    f"{ref[bad]}", i)
        res.state((kind, st))
        res.outcome(kind, st, np.round(now[0], 9).tolist())
    if not equal(observe(kind, other), kept, same):
        return ("another object changed", len(seq) - 1)
    return None


def run_case(case):
    res = Result()
    tails = itertools.chain.from_iterable(
        itertools.product(case["ops"], repeat=n) for n in
        ([case["depth"]] if case["light"] else range(case["depth"] + 1)))
    for tail in tails:
        seq = case["prefix"] + [list(t) for t in tail]
        bad = follow(case["kind"], seq, res)
        res.count(evaluations=1, traces=1)
        if bad:
            seq = seq[:bad[1] + 1]
            res.fail(f"{case['kind']} {seq}: {bad[0]}",
                     {"kind": case["kind"], "prefix": seq, "depth": 0,
                      "ops": [], "light": True})
            return res
    res.sample({"kind": case["kind"], "sequence": seq})
    return res
