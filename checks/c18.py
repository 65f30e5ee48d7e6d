"""C18: a Stanford data set reports exactly the last case selected."""
import itertools
import os

import numpy as np

from mc import olympics
from mc.core import Result
from mc.util import same

from checks.c16 import made_module

LEVEL = "fault_enumeration"
RULE = ("(a) every sequence up to the bound of selecting supplied and made "
        "cases, cases whose file has each kind of defect, cases without a "
        "file, replacing a case file, and unloading; after every operation "
        "the object has to report what a new object would, or nothing after a "
        "failed selection; other objects and arrays handed out before stay as "
        "they were. (b) A case file cut off at every byte, and with every "
        "line left out, is selected by an object holding another case. "
        "Non-trivial: the sequence contains a failed selection, respectively "
        "the damaged file cannot be used.")
ASSUMPTIONS = ["a failed selection raises ValueError (any exception for "
               "files cut off inside the heading)"]
GOOD = ("1100", "2200", "1901", "2901")
BADC = ("1999", "", "abcd", "1902", "1903", "1904", "1905", "1906", "1907",
        "2908", "2909")
UNLOAD = ""


def content():
    """Made cases, good and bad."""
    st = [olympics.station(i, 0.0, 2 + i) for i in range(3)]
    sm = olympics.smooth(3)

    def t(c, stations=None, level=2):
        return olympics.text(c, stations or st, sm, level, 1.5e-5)
    out = {"1901": t("1901"),
           "2901": t("2901", [olympics.station(i, 1.0, 2 + i, 1)
                              for i in range(3)])}
    out["1902"] = t("1901")                               # other case's file
    out["1903"] = t("1903").replace("V = ", "W = ")       # no viscosity
    lines = t("1904").splitlines(True)
    k = [i for i, x in enumerate(lines) if x.startswith("# X UI DUI")][-1]
    lines[k + 2] = "1.0 2.0\n"                            # smoothed samples
    out["1904"] = "".join(lines)
    bad = olympics.station(1)
    bad["summary"]["u_e"] = -1.0
    out["1905"] = t("1905", [st[0], bad], 0)              # second station
    bad = olympics.station(2, 0.0, 3)
    bad["station"]["shape_d"] += .5
    out["1906"] = t("1906", [st[0], st[1], bad])          # last summary
    bad = olympics.station(2, 0.0, 3)
    bad["profile"][2]["y_plus"] += 50.0
    out["1907"] = t("1907", [st[0], st[1], bad])          # last sample
    out["2908"] = t("2908").replace("IDENT", "NAME")
    out["2909"] = t("2909").replace("V = ", "V = x")
    return out


def alphabet():
    return [["case", c] for c in GOOD + BADC if c] + [
        ["unload"], ["swap", "1901"], ["swap", "2901"], ["swap", "1907"]]


def cases(tier):
    ops = alphabet()
    depth = 3 if tier == "quick" else 4
    out = [{"prefix": [a, b], "depth": depth - 2} for a in ops for b in ops]
    for c in ("1901", "2901"):
        for before in ("", "1100"):
            out.append({"cut": c, "before": before, "by": "line"})
            for part in range(8):
                out.append({"cut": c, "before": before, "by": "byte",
                            "part": part})
    return out


def equal(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return False
        return all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return same(a, b)
    return a == b or (a != a and b != b)


def nothing(s):
    """An object without data reports none."""
    got = olympics.read_all(s)
    if got["case"] != "" or got["count"] != 0 or got["nu_ref"] != np.inf:
        return False
    return all(v.size == 0 for v in got.values()
               if isinstance(v, np.ndarray))


def write(folder, c, text):
    with open(os.path.join(folder, f"case {c}.txt"), "w",
              encoding="utf8") as f:
        f.write(text)


class Run:
    def __init__(self, ref, folder, texts):
        self.cls, self.folder, self.texts = (ref.StanfordOlympics1968,
                                             folder, texts)
        self.s = self.cls()
        self.other = self.cls("1200")
        self.kept = olympics.read_all(self.other)
        self.want = None
        self.arrays = []

    def select(self, c, ok):
        try:
            self.s.case = c
            done = True
        except ValueError:
            done = False
        if done != ok:
            return f"selecting {c} " + ("succeeded" if done else "failed")
        self.want = olympics.read_all(self.cls(c)) if ok else None
        return None

    def op(self, op):
        if op[0] == "case":
            return self.select(op[1], op[1] in GOOD)
        if op[0] == "swap":
            c = "1910" if op[1][0] == "1" else "2910"
            write(self.folder, c, self.texts[op[1]].replace(op[1], c, 1))
            return self.select(c, op[1] in GOOD)
        self.s.case = ""
        self.want = None
        return None

    def check(self):
        if self.want is None:
            if not nothing(self.s):
                return "data are reported although nothing is loaded"
        elif not equal(olympics.read_all(self.s), self.want):
            return "the data differ from those of a new object"
        for arr, copy in self.arrays:
            if not same(arr, copy):
                return "an array handed out before changed"
        for q in ("delta_m", "x_smooth"):
            arr = getattr(self.s, q)()
            self.arrays.append((arr, arr.copy()))
        return None


def follow(seq, run):
    for i, op in enumerate(seq):
        msg = run.op(op) or run.check()
        if msg:
            return msg, i
    if not equal(olympics.read_all(run.other), run.kept):
        return "another object changed", len(seq) - 1
    return None


def damaged(case, ref, folder, texts, res):
    c = case["cut"]
    full = texts[c].encode()
    lines = full.splitlines(True)
    if case["by"] == "byte":
        n = len(full) + 1
        spots = range(case["part"]*n//8, (case["part"] + 1)*n//8)
    else:
        spots = range(len(lines))
    for at in ([case["at"]] if "at" in case else spots):
        data = full[:at] if case["by"] == "byte" else \
            b"".join(lines[:at] + lines[at + 1:])
        path = os.path.join(folder, f"case {c}.txt")
        with open(path, "wb") as f:
            f.write(data)
        run = Run(ref, folder, texts)
        if case["before"]:
            run.s.case = case["before"]
        out = []
        for how in ("used", "new"):
            try:
                if how == "used":
                    run.s.case = c
                    out.append(olympics.read_all(run.s))
                else:
                    out.append(olympics.read_all(run.cls(c)))
            except Exception as ex:
                out.append(type(ex).__name__)
        write(folder, c, texts[c])
        res.count(evaluations=1, traces=1,
                  nontrivial=int(isinstance(out[0], str)))
        if not equal(out[0], out[1]):
            msg = "a used object and a new one differ"
        elif isinstance(out[0], str) and not nothing(run.s):
            msg = f"{out[0]} was raised and data are left"
        elif not isinstance(out[0], str) and not consistent(out[0]):
            msg = "arrays and stations differ in number"
        else:
            res.outcome(c, case["by"], out[0] if isinstance(out[0], str)
                        else out[0]["count"])
            continue
        res.fail(f"case {c}, {case['by']} {at} cut: {msg}",
                 {**case, "at": at})
        return


def consistent(got):
    return all(got[q].size == got["count"] for q in olympics.ARRAYS) \
        and len(got["stations"]) == got["count"]


def run_case(case):
    res = Result()
    ref, folder = made_module()
    texts = content()
    for c, t in texts.items():
        write(folder, c, t)
    try:
        if "cut" in case:
            damaged(case, ref, folder, texts, res)
            res.sample(case)
            return res
        for tail in itertools.product(alphabet(), repeat=case["depth"]):
            seq = case["prefix"] + list(tail)
            bad = follow(seq, Run(ref, folder, texts))
            res.count(evaluations=1, traces=1, nontrivial=int(any(
                o[0] == "case" and o[1] in BADC for o in seq)))
            if bad:
                seq = seq[:bad[1] + 1]
                res.fail(f"{seq}: {bad[0]}", {"prefix": seq, "depth": 0})
                return res
            res.outcome(seq)
        res.sample({"sequence": seq})
        return res
    finally:
        for c in [*texts, "1910", "2910"]:
            path = os.path.join(folder, f"case {c}.txt")
            if os.path.exists(path):
                os.remove(path)
