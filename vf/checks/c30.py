"""C30 an ensemble run given a seed is reproducible; without one each run has its own randomness."""
import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from .. import files
from ..core import VERIF, Violation, digest, require
from . import c22
from .c11 import APART, SEED_VALUES, pollute

EXAMPLES = {"quick": 2250, "thorough": 9000}
RULE = ("entry point (entropy-order v2, shortest path), class, L, ensemble size, seed (0, small, large, text), what ran before, distance "
        "to another seed. The run is made twice in this process and once in another one with another hash seed; realizations and file rows "
        "must agree, those of another seed or of unseeded runs must not. Non-trivial: at least two realizations.")
ASSUMPTIONS = ["two seeds which random.Random puts into one state are one seed",
               "orders that agree in 12 or more leading sites are taken for repeated (coincidence below 1e-12 for L >= 6)"]


@st.composite
def strategy_(draw, hi):
    return {"cls": draw(st.sampled_from(("L0", "base", "L1", "L2", "SP"))), "L": draw(st.integers(3, hi)), "E": draw(st.integers(1, 6)),
            "seed": draw(SEED_VALUES), "before": draw(st.integers(0, 4)), "apart": draw(st.sampled_from(APART)),
            "thread": draw(st.integers(0, 12)), "other": draw(st.booleans())}


def strategy(tier):
    return strategy_(8 if tier == "quick" else 12)


def corpus(tier):
    out = [{"cls": c, "L": 6, "E": 3, "seed": s, "before": b, "apart": 1, "thread": 0, "other": True}
           for c in ("L0", "base", "L1", "L2", "SP") for s, b in ((0, 1), (1, 3), (20, 2))]
    return out + [{"cls": c, "L": 20, "E": 2, "seed": 4, "before": 1, "apart": 256, "thread": 1, "other": True} for c in ("L0", "L1", "SP")] + [
        {"cls": c, "L": L, "E": E, "seed": s, "before": 2, "apart": 1, "thread": th, "other": True}
        for c, L, E, s, th in (("L0", 5, 70, 9, 40), ("L1", 4, 40, "long", 77), ("L2", 4, 40, 0, 13), ("SP", 5, 70, 1, 100), ("base", 3, 300, 5, 31))] + [
        {"driver": d, "L": 8, "n": n, "E": 11 * n + n // 2, "interaction": i} for d, i, n in (
            ("v3", 0, 1), ("v4", 0, 2), ("v4", 1, 5), ("v4", 2, 3), ("sp", 0, 1), ("sp", 0, 4), ("v4", 0, 5), ("v4", 1, 1), ("v3", 0, 6), ("v4", 2, 6), ("sp", 0, 7))]


def go(case, seed):
    """-> realizations, rows of every file by kind"""
    from run_py import ensemble, shortest_path_run
    cls, done = files.recording(case["cls"])
    entry = shortest_path_run.ensemble_shortest_path_v2_thread if case["cls"] == "SP" else ensemble.run_ensemble_entropy_order_threads_v2
    with files.scratch():
        if seed is None:
            entry(cls, case["L"], case["E"], case["thread"])
        else:
            entry(cls, case["L"], case["E"], case["thread"], seed)
        rows = {files.kind_of(t): t.rows for t in files.tables()}
    return done(), rows


def summary(case):
    return json.loads(json.dumps(go(case, case["seed"])))


def repeats(a, b, long=12):
    k = min(len(a), len(b))
    return k >= long and a[:k] == b[:k]


def separate(case, rec):
    """two parallel runs, both unseeded"""
    cols = []
    for turn in range(2):
        with files.scratch():
            tabs, _ = c22.call(case)
            cols += [("run %d: %s" % (turn, t.name), t.rows) for t in tabs if t.rows]
            c22.independent(cols, "two parallel runs of %d workers" % case["n"])
    rec.nontriv(True)
    rec.label("parallel run made twice")


def check(case, rec):
    if "driver" in case:
        return separate(case, rec)
    random.seed(digest([case["before"], case["L"]]))
    a = summary(case)
    pollute(case["before"], case["L"])
    b = summary(case)
    require(len(a[0]) == case["E"], "%d realizations were run, %d requested", len(a[0]), case["E"])
    require(a[0] == b[0], "seed %r: the second run made other realizations", case["seed"])
    require(a[1] == b[1], "seed %r: the second run wrote other numbers", case["seed"])
    rec.state.setdefault("sent", []).append((case, digest(a)))
    for i, x in enumerate(a[0]):
        for y in a[0][:i]:
            require(not repeats(x, y, 16), "seed %r: two realizations of one ensemble are the same", case["seed"])
    if case["other"]:
        big = dict(case, L=max(6, case["L"]), E=2)
        s = case["seed"]
        other = s + "'" if isinstance(s, str) else abs(s) + case["apart"]
        x = go(big, s)[0]
        if random.Random(s).getstate() != random.Random(other).getstate():
            y = go(big, other)[0]
            require(not any(repeats(u, v) for u in x for v in y), "seeds %r and %r give the same realization", s, other)
        if isinstance(s, int):  # seed and worker number are two things
            t = case["thread"]
            for u, s2 in ((t + 1, s - 1), (t + 1, s + 1), (t + 3, s - 3), (2 * t + 1, 2 * s), (0, s + t), (0, s * (t + 1)), (0, s * t), (s % 7, t), (0, s - t)):
                if s2 != s and u != t and random.Random(s).getstate() != random.Random(s2).getstate():
                    y = go(dict(big, thread=u, E=1), s2)[0]
                    require(not any(repeats(u, v) for u in x for v in y), "seed %r with worker number %d and seed %r with worker number %d give the same realization", s, t, s2, u)
        x, y = go(big, None)[0], go(big, None)[0]
        require(not any(repeats(u, v) for u in x for v in y), "two unseeded ensembles made the same realization")
        z = go(big, s)[0]
        require(not any(repeats(u, v) for u in x + y for v in z), "an unseeded ensemble made a realization of seed %r", s)
    rec.nontriv(case["E"] >= 2)
    rec.label("cls " + case["cls"])
    rec.label("seed 0" if case["seed"] == 0 else "text seed" if isinstance(case["seed"], str) else "other seed")


def finish(rec):
    sent = rec.state.get("sent", [])[:60]
    if not sent:
        return
    env = dict(os.environ, PYTHONHASHSEED=str(7 + len(sent)), PYTHONPATH=VERIF)
    code = ("import sys,json;from vf import core;core.setup_import_path();from vf.checks import c30;real=sys.stdout;"
            "sys.stdout=open('/dev/null','w');cs=json.load(sys.stdin);r=[core.digest(c30.summary(c)) for c in cs];"
            "real.write(json.dumps(r))")
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps([c for c, _ in sent[::-1]]), env=env, capture_output=True,
                       text=True, timeout=600)
    if p.returncode:
        raise RuntimeError("child: " + p.stderr[-2000:])
    for (case, d), e in zip(sent[::-1], json.loads(p.stdout)):
        rec.label("repeated in another process")
        if d != e:
            v = Violation("class %s, L=%d, seed %r: another process makes another ensemble" % (case["cls"], case["L"], case["seed"]))
            v.case = case
            raise v
