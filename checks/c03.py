"""C03: a solve depends on the current configuration only, not on history."""
import itertools

from mc import drive
from mc.core import Result

LEVEL = "model_checking"
RULE = ("every sequence of operations (change any configuration item to every "
        "value of its alphabet, solve in any variant, query) up to the depth "
        "on one real solver, with every solve in it, and a closing solve, "
        "compared with a new solver that only knows the configuration the "
        "model says is current. Non-trivial: the sequence changes the "
        "configuration or solves before a compared solve.")
ASSUMPTIONS = ["one initial condition object is not shared by two solvers",
               "comparison to 1e-8 of the scale of each quantity"]


def ops(method, tier):
    o = [["nu", 1e-5], ["nu", 4e-5]]
    vel = ["accel", "fall", "fd"] if tier == "quick" else list(drive.VELOCITY)
    o += [["vel", v] for v in vel]
    o += [["dm", 4e-4], ["dm", 2.5e-4]]
    o += [["ic", v] for v in (["fs", "man2"] if tier == "quick"
                              else ["fs", "man1", "man2"])]
    if method == "head":
        o += [["shape", 1.4], ["shape", 1.7], ["crit", 2.4], ["crit", 1.5]]
    else:
        o += [["fits", v] for v in
              (["Spline", "custom2", "Cebeci-Bradshaw"] if tier == "quick"
               else ["Spline", "White", "Cebeci-Bradshaw", "Drela",
                     "custom2", "custom3"])]
    o += [["solve", v] for v in (["all", "one", "many"] if tier == "quick"
                                 else list(drive.SOLVE))]
    o += [["ask", "all"]]
    return o


def cases(tier):
    # a thorough run goes one deeper on the quick alphabet, and as deep as
    # quick on the full one
    out = []
    plans = [("quick", 3)] if tier == "quick" else [("quick", 4),
                                                    ("thorough", 3)]
    for m in ("lin", "non", "head"):
        for alphabet, depth in plans:
            for a in ops(m, alphabet):
                if depth < 4:
                    out.append({"method": m, "alphabet": alphabet,
                                "depth": depth, "prefix": [a]})
                else:
                    out += [{"method": m, "alphabet": alphabet,
                             "depth": depth, "prefix": [a, b]}
                            for b in ops(m, alphabet)]
    return out


def play(method, seq, res, check=True):
    """Run a sequence and a closing solve on one solver."""
    cfg = drive.base(method)
    s = drive.fresh(method, cfg)
    solved = False
    for op in seq + [["solve", "all"]]:
        if op[0] == "solve":
            if not drive.ready(cfg):
                continue
            r = drive.apply(s, op)
            solved = bool(r.success)
            res.count(traces=1)
            msg = drive.check_solve(method, cfg, op[1], s, r)
            if msg:
                return f"after {seq}, {op}: {msg}"
        elif op[0] == "ask":
            if solved and drive.ready(cfg):
                drive.apply(s, op)
        else:
            drive.apply(s, op)
            cfg = drive.step(method, cfg, op)
        res.count(transitions=1)
        res.state(cfg)
    return None


def run_case(case):
    res = Result()
    m = case["method"]
    if "seq" in case:
        todo = [case["seq"]]
    else:
        alphabet = ops(m, case["alphabet"])
        pre = case["prefix"]
        todo = [pre + list(t)
                for n in range(case["depth"] - len(pre) + 1)
                for t in itertools.product(alphabet, repeat=n)]
    for seq in todo:
        res.count(evaluations=1)
        msg = play(m, seq, res)
        if msg:
            res.fail(msg, {"method": m, "seq": seq})
            break
    for r, o, _ in drive._MEMO.values():
        res.outcome(o["delta_m"].tolist() if o else r["message"])
    res.sample({"method": m, "sequence": todo[-1]})
    return res
