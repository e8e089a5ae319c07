"""C11 equal seeds give identical simulations, different seeds different ones."""
import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from ..core import VERIF, digest, fail, require
from ..drive import build, trace

EXAMPLES = {"quick": 5250, "thorough": 21000}
RULE = ("class, L, a seed (0, small, powers of two, 64-bit and larger, negative, fractional, text), an operation history (attempts, runs, resets, shuffled "
        "custom lists) and what ran before it; the full trace of two builds is compared in this process, and again in a "
        "child process with another hash seed that replays the cases in reverse order; seeds differing by a stated amount must give "
        "another order. Non-trivial: history of at least two operations.")
ASSUMPTIONS = ["seeds of equal absolute value are one seed: random.seed() takes the absolute value of an integer",
               "two seeds which random.Random puts into one state (2 and 2 + 2**32) are one seed"]

SEED_VALUES = st.one_of(st.just(0), st.integers(0, 400), st.integers(0, 2 ** 64), st.integers(0, 2 ** 130),
                        st.sampled_from([2 ** k for k in (8, 16, 31, 32, 33, 63, 64)]), st.text("abcz09", min_size=1, max_size=5), st.integers(-2 ** 40, -1),
                        st.floats(0, 100).filter(lambda x: x != int(x)))
APART = [1, 2, 7, 10, 64, 100, 128, 256, 1000, 1024, 4096, 10 ** 4, 65536, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 64]


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(("L0", "base", "SP", "L1", "L2")))
    L = draw(st.integers(3, hi))
    ops = [st.tuples(st.just("step"), st.integers(1, L * L + 3)), st.just(("run",)), st.just(("reset",))]
    ops.append(st.just(("shuffled",)))
    hist = [list(o) for o in draw(st.lists(st.one_of(*ops), min_size=1, max_size=4))]
    return {"cls": cls, "L": L, "seed": draw(SEED_VALUES), "ops": hist, "before": draw(st.integers(0, 4)),
            "apart": draw(st.sampled_from(APART))}


def strategy(tier):
    return strategy_(8 if tier == "quick" else 11)


def corpus(tier):
    out = [{"cls": c, "L": 6, "seed": s, "ops": [["run"], ["reset"], ["run"]], "before": b, "apart": 1}
           for c in ("L0", "base", "SP", "L1", "L2") for s, b in ((0, 1), (1, 4), (-3, 2), (0.25, 3))]
    out += [{"cls": c, "L": 18, "seed": 12, "ops": [["run"]], "before": 3, "apart": 256} for c in ("L0", "L1", "L2", "SP")]
    out += [{"cls": c, "L": 4, "seed": s, "ops": [["run"], ["reset"], ["step", 7], ["shuffled"]] * 6, "before": 3, "apart": 1} for c in ("L0", "base", "SP", "L1", "L2") for s in (6, "six")]
    out += [{"cls": c, "L": L, "seed": s, "ops": [["step", 60], ["reset"], ["step", 60]], "before": 3, "apart": a} for c in ("L0", "L1", "L2", "SP") for L, s, a in ((70, 13, 1), (103, 31, 10), (130, 7, 2))]
    out += [{"cls": c, "L": 40, "seed": 12, "ops": [["step", 60]], "before": 3, "apart": 1} for c in ("L0", "L1", "L2", "SP")]
    return out


def real_ops(case):
    L = case["L"]
    out = []
    for op in case["ops"]:
        if op[0] == "shuffled":
            out += [["reset"], ["custom", list(range(0, L * L, 2)), True]]
        else:
            out.append(op)
    return out


def pollute(how, L):
    if how == 0:
        return
    if how == 1:
        [random.random() for _ in range(17)]
    elif how == 2:
        random.seed(987654321)
        random.shuffle(list(range(50)))
    elif how == 3:
        for c in ("L1", "L0"):
            q = build(c, 4, seed=5)
            q.run_once()
            q.reset()
    else:
        q = build("L0", L)
        q.set_custome_site_id_list(list(range(L)), True)
        q.run_once()
        build("L2", L, seed="x").place_one_site()


def run(case):
    return json.loads(json.dumps(trace(case["cls"], case["L"], case["seed"], real_ops(case))))


def check(case, rec):
    random.seed(digest([case["before"], case["L"]]))
    a = run(case)
    pollute(case["before"], case["L"])
    b = run(case)
    if a != b:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                fail("same class, length, seed %r and operations: the two runs differ at record %d: %s / %s" % (
                    case["seed"], i, str(x)[:150], str(y)[:150]))
    rec.state.setdefault("sent", []).append((case, digest(a)))
    s = case["seed"]
    L = max(6, case["L"])
    other = s + "'" if isinstance(s, str) else s + case["apart"] / 2 ** 18 if isinstance(s, float) else abs(s) + case["apart"]
    if isinstance(s, str):
        x, y = build(case["cls"], L, seed=s), build(case["cls"], L, seed=other)
    else:
        x, y = build(case["cls"], L, seed=s), None
    # orders actually followed
    def order(p):
        from ..drive import watched_run
        return watched_run(p)
    x = order(x)
    y = order(build(case["cls"], L, seed=other))
    k = min(len(x), len(y))
    # the standard generator itself takes a few pairs of integers for one seed (2 and 2 + 2**32, for example)
    if random.Random(s).getstate() == random.Random(other).getstate():
        rec.label("one seed to the standard generator")
        return
    require(k < 12 or x[:k] != y[:k], "seeds %r and %r give the same order of sites", s, other)
    rec.nontriv(len(case["ops"]) >= 2)
    rec.label("cls " + case["cls"])
    rec.label("seed 0" if s == 0 else "text seed" if isinstance(s, str) else "fractional seed" if isinstance(s, float) else "large seed" if abs(s) >= 2 ** 32 else "small seed")


def finish(rec):
    """the same cases, in reverse order, in a process with another hash seed"""
    sent = rec.state.get("sent", [])[:120]
    if not sent:
        return
    env = dict(os.environ, PYTHONHASHSEED=str(1 + len(sent)), PYTHONPATH=VERIF)
    code = ("import sys,json;from vf import core;core.setup_import_path();from vf.checks import c11;real=sys.stdout;"
            "sys.stdout=open('/dev/null','w');cs=json.load(sys.stdin);r=[core.digest(c11.run(c)) for c in cs];"
            "real.write(json.dumps(r))")
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps([c for c, _ in sent[::-1]]), env=env,
                       capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise RuntimeError("child: " + p.stderr[-2000:])
    for (case, d), e in zip(sent[::-1], json.loads(p.stdout)):
        rec.label("repeated in another process")
        if d != e:
            from ..core import Violation
            v = Violation("class %s, L=%d, seed %r: another process gives another simulation" % (
                case["cls"], case["L"], case["seed"]))
            v.case = case
            raise v
