"""C22 parallel runs deliver every worker's independent share."""
import inspect
import json
import math
import multiprocessing
import os
import subprocess
import sys
import threading
import time

from hypothesis import strategies as st

from .. import files
from ..core import VERIF, fail, require
from ..gen import get_class
from ..model import run_model

EXAMPLES = {"quick": 220, "thorough": 1600}
RULE = ("driver (v3, v4 with interaction 0/1/2, shortest path; threaded drivers with a stand-in for the ensemble function and once for "
        "real), length, number of workers 1..6, realizations (also not divisible); file set, headers, class, completeness at return, "
        "validity of every row and independence of the workers' results. Non-trivial: at least two workers.")
ASSUMPTIONS = ["independence is judged by non-repetition of whole result columns (probability of coincidence below 1e-12)"]
SHRINK_SECONDS = 25
CASE_WALL_SECONDS = 400


@st.composite
def strategy_(draw):
    drv = draw(st.sampled_from(("v3", "v4", "v4", "v4", "sp")))
    n = draw(st.integers(1, 6))
    per = draw(st.one_of(st.integers(1, 10), st.integers(11, 15), st.integers(11, 15), st.integers(11, 15), st.integers(11, 15)))
    return {"driver": drv, "L": draw(st.integers(7, 10)), "n": n, "E": n * per + draw(st.integers(0, n - 1)),
            "interaction": draw(st.integers(0, 2)) if drv == "v4" else 0, "twice": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def corpus(tier):
    out = [{"driver": "v4", "L": 8, "n": n, "E": 10 * n + 1, "interaction": i, "twice": True} for i in range(3) for n in (2, 3)]
    out += [{"driver": d, "L": 9, "n": 3, "E": 41, "interaction": 0, "twice": True} for d in ("v3", "sp")]
    out += [{"driver": "v4", "L": 4, "n": 12, "E": 170, "interaction": 0, "twice": False}]
    out += [{"driver": d, "L": L, "n": n, "E": e, "interaction": i, "twice": False}
            for d, i in (("v3", 0), ("v4", 1), ("v4", 2), ("sp", 0)) for L, n, e in ((4, 12, 30), (7, 9, 100))]
    out += [{"driver": "v4", "L": 24, "n": 2, "E": 20, "interaction": 1, "twice": False},
            {"driver": "v3", "L": 24, "n": 2, "E": 20, "interaction": 0, "twice": False},
            {"driver": "sp", "L": 24, "n": 2, "E": 24, "interaction": 0, "twice": False}]
    out += [{"driver": d, "L": L, "n": 2, "E": 5, "interaction": i, "twice": False} for d, i, L in (("v4", 0, 41), ("v4", 1, 42), ("v4", 2, 43), ("v3", 0, 72), ("sp", 0, 101), ("v4", 0, 102))]
    out += [{"driver": d, "L": 5, "n": n, "E": e, "interaction": i, "twice": False}
            for d, i in (("v3", 0), ("v4", 0), ("v4", 1), ("v4", 2), ("sp", 0)) for n, e in ((1, 1), (3, 3), (4, 7), (2, 5))]
    out += [{"driver": d, "L": L, "n": 2, "E": 6, "interaction": i, "twice": False}
            for L in (3, 4, 6, 12) for d, i in (("v4", 0), ("v4", 1), ("v4", 2), ("v3", 0), ("sp", 0)) if (d, i) != ("v4", 0) or L != 4]
    out += [{"driver": d, "L": 4, "n": n, "E": n, "interaction": i, "twice": False, "slow": 62 if tier == "quick" else 190}
            for d, i, n in (("v3", 0, 1), ("v4", 0, 1), ("v4", 1, 2), ("sp", 0, 1))]
    # one worker of many takes long: the first, one in the middle or the last to begin
    out += [{"driver": d, "L": 4, "n": n, "E": n, "interaction": i, "twice": False, "slow": 5, "only": k}
            for d, i, n in (("v3", 0, 9), ("v4", 0, 9), ("v4", 1, 5), ("v4", 2, 10), ("sp", 0, 9)) for k in (0, n // 2, n - 1)]
    return out + [{"threads": "v1 stand-in"}, {"threads": "v2 stand-in"}, {"threads": "v2 real"}]


def signature(kind):
    return get_class(kind)(length=3).get_signature()


def call(case):
    if not case.get("slow"):
        return call_(case)
    # every realization takes its time: the driver has to wait for it (the workers inherit the slowed class)
    cls = get_class("SP" if case["driver"] == "sp" else "L%d" % case["interaction"])
    own = cls.__dict__.get("run_once")
    real = cls.run_once
    begun = multiprocessing.Value("i", 0)

    def slow(self):
        with begun.get_lock():
            k = begun.value
            begun.value += 1
        if case.get("only", k) == k:
            time.sleep(case["slow"])
        return real(self)

    cls.run_once = slow
    try:
        return call_(case)
    finally:
        if own is None:
            del cls.run_once
        else:
            cls.run_once = own


def call_(case):
    from run_py import rsbd_percolatioin_run as drv
    from run_py import shortest_path_run as sp
    L, E, n = case["L"], case["E"], case["n"]
    if case["driver"] == "v3":
        drv.run_simulation_threads_v3(L, E, n)
    elif case["driver"] == "v4":
        drv.run_simulation_threads_v4(L, E, n, case["interaction"])
    else:
        sp.run_simulation_shortest_path_threads(L, E, n)
    left = multiprocessing.active_children()
    tabs = files.tables()
    for p in left:
        p.join(200)
    return tabs, len(left)


def valid_critical(t, L):
    N = L * L
    for row in t.rows:
        require(len(row) == 3, "%s: row %s", t.name, row)
        k = round(row[0] * N)
        require(abs(row[0] * N - k) < 1e-6 and L <= k <= N, "%s: pc %r is not a filling at which wrapping is possible", t.name, row[0])
        s, b = row[1], row[2]
        require(s == int(s) and b == int(b) and L <= s <= k, "%s: %r sites in the wrapping cluster, %d occupied", t.name, s, k)
        require(2 * s <= b <= min(2 * N, 3 * s + 1), "%s: %r bonds for %r sites", t.name, b, s)


def valid_entropy(t, L):
    N = L * L
    require(len(t.rows) == N, "%s has %d rows, expected %d", t.name, len(t.rows), N)
    cols = [files.column_value(m, i) for i, m in enumerate(t.meaning())]
    require(sorted(cols) == [0, 1, 2, 3], "the header describes the columns as %s", t.meaning())
    rows = [[r[cols.index(c)] for c in range(4)] for r in t.rows]
    one = run_model(L, [0])[0][0]
    full = (1.0, 0.0, 1.0, 1.0)
    for got, want, where in ((rows[0], one, "first"), (rows[-1], full, "last")):
        require(all(abs(a - b) < 1e-8 for a, b in zip(got, want)), "%s: %s row %s, expected %s", t.name, where, got, want)
    for k, r in enumerate(rows):
        require(abs(r[0] - (k + 1) / N) < 1e-9, "%s: row %d has occupation probability %r", t.name, k, r[0])
        require(-1e-8 <= r[1] <= math.log(2 * N) + 1e-8, "%s row %d: entropy %r", t.name, k, r[1])
        require(-1e-9 <= r[3] <= r[2] + 1e-9 <= 1 + 2e-9, "%s row %d: order parameters %r and %r", t.name, k, r[2], r[3])


def check_output(case, tabs, left):
    L, E, n = case["L"], case["E"], case["n"]
    kind = "SP" if case["driver"] == "sp" else "L%d" % case["interaction"]
    expected = {"shortest": n} if case["driver"] == "sp" else {"entropy": n, "critical": n}
    byk = {}
    for t in tabs:
        byk.setdefault(files.kind_of(t), []).append(t)
    got = {k: len(v) for k, v in byk.items()}
    require(got == expected, "%d workers left the files %s when the driver returned%s", n, got, " (%d still running)" % left if left else "")
    require(left == 0, "%d workers were still running when the driver returned", left)
    sig = signature(kind)
    for t in tabs:
        t.check_head(L, E // n)
        require(t.complete, "%s is incomplete", t.name)
        require(t.name.startswith(sig + "_"), "%s was written for a run of %s", t.name, sig)
    cols = []
    for t in byk.get("critical", []):
        require(len(t.rows) == E // n, "%s has %d rows for %d realizations", t.name, len(t.rows), E // n)
        valid_critical(t, L)
        cols.append((t.name, t.rows))
    for t in byk.get("shortest", []):
        require(len(t.rows) == E // n, "%s has %d rows for %d realizations", t.name, len(t.rows), E // n)
        for r in t.rows:
            require(len(r) == 2 and 0 < r[0] <= r[1] <= 1, "%s: row %s", t.name, r)
        cols.append((t.name, t.rows))
    for t in byk.get("entropy", []):
        valid_entropy(t, L)
        cols.append((t.name, t.rows))
    return cols


def independent(cols, what):
    for i in range(len(cols)):
        for j in range(i):
            a, b = cols[i], cols[j]
            if len(a[1][0]) == len(b[1][0]):
                require(a[1] != b[1], "%s: %s and %s hold the same results", what, a[0], b[0])
                if len(a[1][0]) == 3:
                    # overlap of streams: the same realization in both, at whatever place
                    for d in range(-3, 4):
                        x, y = a[1][max(0, d):], b[1][max(0, -d):]
                        k = min(len(x), len(y))
                        require(k < 10 or x[:k] != y[:k], "%s: %s repeats %s shifted by %d", what, a[0], b[0], d)


def check(case, rec):
    if "threads" in case:
        return threads(case, rec)
    cols = []
    for turn in range(2 if case["twice"] else 1):
        with files.scratch():
            tabs, left = call(case)
            got = check_output(case, tabs, left)
        if case["L"] >= 7 and case["E"] // case["n"] >= 10:
            cols += [("run %d: %s" % (turn, n), rows) for n, rows in got]
            independent(cols, "%d workers" % case["n"])
    rec.nontriv(case["n"] >= 2)
    rec.label("driver %s" % case["driver"] + (" interaction %d" % case["interaction"] if case["driver"] == "v4" else ""))
    rec.label("workers %d" % case["n"])


# threaded drivers: fixed parameters, so the ensemble function is replaced by one that only notes its arguments
def threads_child(which):
    import importlib
    from run_py import ensemble
    from run_py import rsbd_percolatioin_run as drv
    real = ensemble.run_ensemble_entropy_order_threads
    calls, errors = [], []
    lock = threading.Lock()

    def noted(*a, **k):
        try:
            b = inspect.signature(real).bind(*a, **k)
            b.apply_defaults()
            b = b.arguments
        except TypeError as e:
            with lock:
                errors.append("%s (called with %s)" % (e, (a, k)))
            return
        time.sleep(0.3)
        with lock:
            calls.append([getattr(b["percolationClass"], "__name__", str(b["percolationClass"])), b["length"], b["ensembleSize"],
                          b["thread_count"]])

    if which.endswith("stand-in"):
        ensemble.run_ensemble_entropy_order_threads = noted
    threading.excepthook = lambda a: errors.append("%s: %s" % (a.exc_type.__name__, a.exc_value))
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    (drv.run_simulation_threads if which.startswith("v1") else drv.run_simulation_threads_v2)()
    sys.stdout = out
    alive = threading.active_count() - 1
    print(json.dumps({"calls": calls, "errors": errors, "alive": alive}))
    sys.stdout.flush()
    os._exit(0)


def threads(case, rec):
    which = case["threads"]
    code = "from vf import core;core.setup_import_path();from vf.checks import c22;c22.threads_child(%r)" % which
    with files.scratch():
        try:
            p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=150,
                               env=dict(os.environ, PYTHONPATH=VERIF))
        except subprocess.TimeoutExpired:
            rec.label("threaded driver %s: no answer in time, not judged" % which)
            return
        tabs = files.tables() if which.endswith("real") else []
    if p.returncode:
        fail("threaded driver %s failed: %s" % (which, p.stderr.strip().split("\n")[-1][:300]))
    d = json.loads(p.stdout)
    require(not d["errors"], "threaded driver %s: a worker failed: %s", which, d["errors"][:1])
    require(d["alive"] == 0, "threaded driver %s returned with %d workers running", which, d["alive"])
    if which == "v2 real":
        require(len(tabs) == 2, "threaded driver v2 left %d files for 2 workers", len(tabs))
        for t in tabs:
            t.check_head(10, 500)
            require(t.complete and t.name.startswith(signature("L0") + "_"), "unexpected file %s", t.name)
            valid_entropy(t, 10)
        require(tabs[0].rows != tabs[1].rows, "both workers wrote the same results")
    elif d["calls"]:
        calls = d["calls"]
        want = sorted([[200, 500], [300, 500], [400, 500]] if which.startswith("v1") else [[10, 500], [10, 500]])
        require(sorted([c[1], c[2]] for c in calls) == want, "workers were asked for (length, realizations) %s, expected %s",
                sorted([c[1], c[2]] for c in calls), want)
        require(all(c[0] == "SitePercolationL0" for c in calls), "workers were given the class %s", calls[0][0])
        require(len({(c[1], c[3]) for c in calls}) == len(calls), "two workers share length and worker number: %s", calls)
    rec.nontriv(True)
    rec.label("threaded driver " + which)
