"""C15: an XFOIL reader reports exactly the last successful load."""
import itertools
import os
import tempfile

import numpy as np

from ibl.reference import XFoilReader

from mc import dump
from mc.core import Result
from mc.util import same

LEVEL = "fault_enumeration"
RULE = ("(a) every sequence up to the bound of loading good dumps and dumps "
        "with every kind of defect, replacing a dump on disk, unloading, and "
        "setting accepted and rejected values; after every operation the "
        "reader has to report what a new reader would, or nothing after a "
        "failed load; other readers and arrays handed out before stay as they "
        "were. (b) A dump cut off at every byte is loaded into a reader "
        "holding another dump. Non-trivial: the sequence contains a failed "
        "load, respectively the cut dump cannot be loaded.")
ASSUMPTIONS = ["a failed load raises ValueError or OSError"]
CHUNK = 2
GOOD = ("a", "b", "z")
BADF = ("missing", "folder", "empty", "header", "positive", "negative",
        "columns", "word", "cf", "lastcf", "wake", "binary")
SETS = {"name": "foil", "alpha": .1, "u_ref": 3.0, "c": 2.0, "reynolds": 5e5,
        "n_trans": 9.0, "x_trans_upper": .3, "x_trans_lower": .4}
REJECT = {"u_ref": 0.0, "c": -1.0, "reynolds": -2.0, "n_trans": 0.0}
TS = [1.0, .5, .2, -.2, -.5, -1.0]


def files(d):
    """Every file of the alphabet; returns name -> path."""
    a = dump.rows(TS, .05, 2)
    b = dump.rows([1.0, .3, -.3, -.6, -1.0], -.1, 0, 1)
    z = dump.rows(TS, .2, 1, 2)
    lines = dump.text(*a).splitlines(True)

    def bad(i, fun):
        out = list(lines)
        out[i] = fun(out[i])
        return "".join(out)
    neg = [dict(r, u_e_rel=-1 - r["x"]) for r in a[0]]
    n = len(a[0])
    cont = {
        "a": dump.text(*a), "b": dump.text(*b, header=False),
        "z": dump.text(*z), "empty": "", "header": dump.HEADER,
        "positive": dump.text([r for r in a[0] if r["u_e_rel"] > 0], a[1]),
        "negative": dump.text(neg, a[1]),
        "columns": bad(3, lambda s: s.rstrip("\n") + "  1.00000\n"),
        "word": bad(4, lambda s: s.replace(".", "x", 1)),
        "cf": bad(2, lambda s: dump.line(dict(a[0][1], c_f=-.1))),
        "lastcf": bad(n, lambda s: dump.line(dict(a[0][-1], c_f=-.1))),
        "wake": bad(len(lines) - 1, lambda s: s.rsplit(None, 1)[0] + "\n"),
    }
    path = {}
    for k, v in cont.items():
        path[k] = os.path.join(d, k + ".txt")
        with open(path[k], "w", encoding="utf8") as f:
            f.write(v)
    path["binary"] = os.path.join(d, "binary.txt")
    with open(path["binary"], "wb") as f:
        f.write(cont["a"][:300].encode() + b"\xff\xfe\x80" + b"\n")
    path["missing"] = os.path.join(d, "missing.txt")
    path["folder"] = os.path.join(d, "folder")
    os.mkdir(path["folder"])
    path["swap"] = os.path.join(d, "swap.txt")
    return path, cont


def alphabet():
    return [["load", k] for k in GOOD + BADF] + [["unload"], ["swap", "a"],
                                                 ["swap", "b"],
                                                 ["swap", "cf"], ["set"],
                                                 ["reject"]]


def cases(tier):
    ops = alphabet()
    depth = 3 if tier == "quick" else 4
    out = [{"prefix": [a, b], "depth": depth - 2} for a in ops for b in ops]
    for name in ("a", "z"):
        for before in ("none", "b"):
            out.append({"cut": name, "before": before})
    return out


def equal(a, b):
    if a.keys() != b.keys():
        return [*(a.keys() ^ b.keys())][0]
    for k in a:
        if isinstance(a[k], np.ndarray):
            if not same(a[k], b[k]):
                return k
        elif a[k] != b[k]:
            return k
    return None


class Run:
    def __init__(self, path, cont):
        self.path, self.cont = path, cont
        self.r = XFoilReader()
        self.other = XFoilReader(path["z"])
        self.kept = dump.read_all(self.other)
        self.arrays = []
        self.want = dump.read_all(XFoilReader())

    def fresh(self, p):
        return dump.read_all(XFoilReader(p))

    def load(self, p, ok):
        try:
            self.r.filename = p
            done = True
        except (ValueError, OSError):
            done = False
        if done != ok:
            return f"load of {os.path.basename(p)} " + (
                "succeeded" if done else "failed")
        self.want = self.fresh(p) if ok else dump.read_all(XFoilReader())
        return None

    def op(self, op):
        kind = op[0]
        if kind == "load":
            return self.load(self.path[op[1]], op[1] in GOOD)
        if kind == "swap":
            with open(self.path["swap"], "w", encoding="utf8") as f:
                f.write(self.cont[op[1]])
            return self.load(self.path["swap"], op[1] in GOOD)
        if kind == "unload":
            self.r.filename = ""
            self.want = dump.read_all(XFoilReader())
            return None
        if kind == "set":
            for k, v in SETS.items():
                setattr(self.r, k, v)
                if getattr(self.r, k) != v:
                    return f"{k} set to {v} is {getattr(self.r, k)}"
            f = SETS["u_ref"]/self.want["u_ref"]
            for k in ("u_e_upper", "u_e_lower", "u_e_wake"):
                self.want[k] = self.want[k]*f
            for k in ("name", "alpha", "u_ref", "c", "n_trans"):
                self.want[k] = SETS[k]
            self.want.update(re=SETS["reynolds"], xu=.3, xl=.4)
            return None
        for k, v in REJECT.items():
            try:
                setattr(self.r, k, v)
                return f"{k}={v} was accepted"
            except ValueError:
                pass
        return None

    def check(self):
        now = dump.read_all(self.r)
        bad = equal(now, self.want)
        if bad:
            return f"{bad} is {now[bad]}, should be {self.want[bad]}"
        for arr, copy in self.arrays:
            if not same(arr, copy):
                return "an array handed out before changed"
        arr = self.r.u_e_upper()
        self.arrays.append((arr, arr.copy()))
        if len(arr) > 1:
            mine = self.r.delta_d_upper()
            mine[:] = -7.0   # caller's own array
            if equal(dump.read_all(self.r), self.want):
                return "changing a returned array changes the reader"
        return None


def follow(seq, path, cont):
    run = Run(path, cont)
    for i, op in enumerate(seq):
        msg = run.op(op) or run.check()
        if msg:
            return msg, i
    bad = equal(dump.read_all(run.other), run.kept)
    if bad:
        return f"{bad} of another reader changed", len(seq) - 1
    return None


def cut(case, path, cont, res):
    full = cont[case["cut"]].encode()
    ends = {n: i for i, n in enumerate(
        itertools.accumulate(len(x) for x in full.splitlines(True)))}
    # rows that have to be there for a stagnation point
    for n in range(len(full) + 1):
        if "at" in case and n != case["at"]:
            continue
        p = os.path.join(os.path.dirname(path["a"]), "cut.txt")
        with open(p, "wb") as f:
            f.write(full[:n])
        run = Run(path, cont)
        if case["before"] != "none":
            run.r.filename = path[case["before"]]
        try:
            run.r.filename = p
            done = True
        except (ValueError, OSError):
            done = False
        try:
            want = run.fresh(p)
            ok = True
        except (ValueError, OSError):
            want = dump.read_all(XFoilReader())
            ok = False
        res.count(evaluations=1, traces=1, nontrivial=int(not done))
        now = dump.read_all(run.r)
        bad = equal(now, want)
        msg = None
        if done != ok:
            msg = "a used reader accepts it and a new one does not" if done \
                else "a new reader accepts it and a used one does not"
        elif bad:
            msg = f"{bad} is {now[bad]}, should be {want[bad]}"
        elif n in ends:
            # cut between rows: the rows that are there decide
            air, wake = dump.rows(TS, .05 if case["cut"] == "a" else .2,
                                  2 if case["cut"] == "a" else 1,
                                  0 if case["cut"] == "a" else 2)
            have = ends[n]   # rows after the header
            exp = dump.expect(air[:have], wake[:max(0, have - len(air))])
            if (exp is not None) != done:
                msg = f"loading is {done}, stagnation point is {exp}"
            elif exp and [now["upper"] == [], len(now["upper"]),
                          len(now["lower"]), len(now["wake"])] != [
                              False, *[len(e) for e in exp[:3]]]:
                msg = "stations are missing"
        if msg:
            res.fail(f"dump {case['cut']} cut after {n} bytes: {msg}",
                     {**case, "at": n})
            return
        res.outcome(case["cut"], done, len(now["upper"]), len(now["lower"]),
                    len(now["wake"]))


def run_case(case):
    res = Result()
    with tempfile.TemporaryDirectory(prefix="verif-xf-") as d:
        path, cont = files(d)
        if "cut" in case:
            cut(case, path, cont, res)
            res.sample(case)
            return res
        for tail in itertools.product(alphabet(), repeat=case["depth"]):
            seq = case["prefix"] + list(tail)
            bad = follow(seq, path, cont)
            res.count(evaluations=1, traces=1, nontrivial=int(any(
                o[0] == "load" and o[1] in BADF for o in seq)))
            if bad:
                seq = seq[:bad[1] + 1]
                res.fail(f"{seq}: {bad[0]}", {"prefix": seq, "depth": 0})
                return res
            res.outcome(seq)
        res.sample({"sequence": seq})
    return res
