"""
Runner shared by all checks.

A check module provides

    LEVEL        "model_checking" | "exploration" | "fault_enumeration"
    RULE         how cases are made, what makes one non-trivial
    ASSUMPTIONS  list of strings
    cases(tier)  list of JSON-able cases, the complete bounded space
    run_case(c)  explores one case against the real code, returns Result

    STATES_SHARED  optional: states of different cases may be the same

Every case is executed (no sampling).  Cases are spread over processes;
nothing is shared between them.  A violation carries the (sub)case that
reproduces it, which is written to replays/ and can be run on its own with
`run.sh <ID> --replay FILE`.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 300
GIVE_UP_S = 600     # with violations at hand, the rest is left out after this


class Hang(BaseException):
    """A case did not finish."""


class MachineryError(Exception):
    """The check itself is broken (never a verdict about the code)."""


class Result:
    """What exploring one case covered and what it found."""

    def __init__(self):
        self.n = {}          # counters, summed over cases
        self.outcomes = set()   # digests of distinct observed outcomes
        self.samples = []
        self.bad = []        # (message, case)
        self.hung = False
        self.states = set()  # digests of distinct model/implementation states

    def count(self, **kw):
        for k, v in kw.items():
            self.n[k] = self.n.get(k, 0) + v

    def outcome(self, *what):
        self.outcomes.add(digest(what))

    def state(self, what):
        """Record a state; True if it is new for this case."""
        d = digest(what)
        new = d not in self.states
        self.states.add(d)
        return new

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, msg, case):
        self.bad.append((str(msg)[:2000], case))


def digest(what):
    return hashlib.sha1(repr(what).encode()).hexdigest()[:16]


def _alarm(_sig, _frm):
    raise Hang()


_MOD = None
_HUNG = False


def _init(modname):
    global _MOD
    import importlib
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import warnings
    warnings.simplefilter("ignore")
    _MOD = importlib.import_module(modname)


def _guarded(mod, case):
    """Run a case; anything escaping from the code under test is a finding."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_LIMIT_S", CASE_LIMIT_S))
    try:
        res = mod.run_case(case)
    except Hang:
        res = Result()
        res.fail("did not finish", case)
        res.hung = True
    except MachineryError:
        raise
    except Exception as ex:
        # whatever the code under test returned or raised, the case did not
        # run as it does on a tree where the property holds
        tb = traceback.extract_tb(ex.__traceback__)
        res = Result()
        res.fail("unexpected %s: %s at %s" % (
            type(ex).__name__, ex,
            "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                      for f in tb[-3:])), case)
    finally:
        signal.alarm(0)
    return res


def _work(item):
    """Run a case; after one that hung a process leaves out its others."""
    global _HUNG
    idx, case = item
    if _HUNG:
        return idx, None, None
    try:
        res = _guarded(_MOD, case)
        _HUNG = res.hung
        return idx, res, None
    except BaseException:
        return idx, None, "case %r\n%s" % (case, traceback.format_exc())


def _known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def _matches(known, case):
    """A finding names exact values of fields of the failing case."""
    return all(k in case and case[k] == v for k, v in known["case"].items())


def replay(mod, prop, path):
    with open(path, encoding="utf8") as f:
        data = json.load(f)
    res = _guarded(mod, data["case"])
    for msg, _ in res.bad:
        print("  " + msg)
    if res.bad:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"replay of {path}: property={prop} held")
    return 0


def run(mod, prop, tier, jobs):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases = list(mod.cases(tier))
    total = Result()
    errors = []
    jobs = jobs or getattr(mod, "JOBS", 0) or min(8, os.cpu_count() or 1)
    findings = _known(prop)
    ordered, failed = {}, False
    if jobs == 1 or len(cases) == 1:
        _init(mod.__name__)
        for item in enumerate(cases):
            idx, res, err = _work(item)
            ordered[idx] = res
            if err:
                errors.append(err)
    else:
        with mp.get_context("fork").Pool(jobs, _init, (mod.__name__,)) as pool:
            chunk = getattr(mod, "CHUNK", 1)
            for idx, res, err in pool.imap_unordered(
                    _work, list(enumerate(cases)), chunksize=chunk):
                ordered[idx] = res
                if err:
                    errors.append(err)
                failed = failed or bool(res) and any(
                    not any(_matches(k, c) for k in findings)
                    for _, c in res.bad)
                if res and res.hung or failed \
                        and time.time() - t0 > GIVE_UP_S:
                    break   # leaving the pool ends its processes
    if errors:
        sys.stderr.write(errors[0] + "\n")
        raise RuntimeError(f"{len(errors)} case(s) could not be run")
    left = [i for i in range(len(cases)) if ordered.get(i) is None]
    if left and not any(r and r.bad for r in ordered.values()):
        raise RuntimeError(f"{len(left)} case(s) were left out")
    for idx in range(len(cases)):
        r = ordered.get(idx) or Result()
        for k, v in r.n.items():
            total.n[k] = total.n.get(k, 0) + v
        total.outcomes |= r.outcomes
        total.states |= r.states if getattr(mod, "STATES_SHARED", False) \
            else {d + str(idx) for d in r.states}
        if len(total.samples) < 4:
            total.samples += r.samples[:1]
        total.bad += r.bad
    if hasattr(mod, "finish"):
        mod.finish(total, cases, [ordered.get(i) or Result()
                                   for i in range(len(cases))])

    known, new = [], []
    for msg, case in total.bad:
        hit = next((k for k in findings if _matches(k, case)), None)
        (known if hit else new).append((msg, case, hit))
    for what in sorted({k["what"] for _, _, k in known}):
        print(f"KNOWN-FINDING: property={prop} {what}")

    cov = {"cases": len(cases), "exhaustive": not left,
           "samples": total.samples or [repr(c)[:300] for c in cases[:2]]}
    n = dict(total.n)
    evals = n.pop("evaluations", len(cases))
    if mod.LEVEL == "model_checking":
        cov["states"] = len(total.states) or n.get("states", 0)
        n.pop("states", None)
        cov["transitions"] = n.pop("transitions", evals)
        cov["traces_validated_against_impl"] = n.pop("traces", evals)
        cov["distinct_outcomes"] = len(total.outcomes)
    else:
        cov["evaluations"] = evals
        cov["distinct_nontrivial"] = n.pop("nontrivial", len(total.outcomes))
        cov["distinct_outcomes"] = len(total.outcomes)
    cov["rule"] = mod.RULE
    cov.update(n)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w",
              encoding="utf8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    if new:
        new.sort(key=lambda t: len(json.dumps(t[1], default=str)))
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        msg, case, _ = new[0]
        name = f"{prop}-{digest(case)}.json"
        path = os.path.join(rdir, name)
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": prop, "message": msg, "case": case}, f,
                      indent=1, default=str)
            f.write("\n")
        for m, c, _ in new[:5]:
            print("  " + m[:600])
            print("    case: " + json.dumps(c, default=str)[:600])
        print(f"{len(new)} violation(s) in {len(cases)} cases")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    summary = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{prop} {tier}: held; {summary} in {ev['wall_s']} s")
    return 0
