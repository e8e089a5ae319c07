"""C20 shortest-path ensemble files hold one true (pc, p*) row per realization."""
import random

from hypothesis import strategies as st

from .. import files
from ..ensembles import custom_
from ..core import require
from ..gen import SEEDS, expand
from ..model import run_model

EXAMPLES = {"quick": 3150, "thorough": 12600}
RULE = ("L, ensemble size, worker number, seed or none, possibly restricted to a custom list (which may not reach a straight line, or not wrap at all); every row compared, in order, with the reference model of the sites that "
        "realization really occupied. Non-trivial: at least two realizations.")


@st.composite
def strategy_(draw, hi):
    L = draw(st.integers(3, hi))
    return {"L": L, "custom": draw(custom_(L)), "E": draw(st.one_of(st.integers(1, 4), st.integers(1, 12))),
            "seed": draw(st.one_of(st.none(), st.just(0), SEEDS)), "rng": draw(SEEDS), "thread": draw(st.integers(0, 25)),
            "defaults": draw(st.booleans())}


def strategy(tier):
    return strategy_(9 if tier == "quick" else 13)


def corpus(tier):
    return [{"L": 3, "E": 700, "seed": 8, "rng": 1, "thread": 31, "defaults": False}, {"L": 5, "E": 130, "seed": 2, "rng": 1, "thread": 0, "defaults": False},
            {"L": 20, "E": 5, "seed": None, "rng": 1, "thread": 7, "defaults": False},
            {"L": 31, "E": 2, "seed": None, "rng": 1, "thread": 1, "defaults": True},
            {"L": 40, "E": 1, "seed": 4, "rng": 1, "thread": 0, "defaults": False}] + [
            {"L": L, "E": 2, "seed": s, "rng": 1, "thread": 0, "defaults": d} for L, s, d in ((66, 4, False), (71, None, True), (104, 5, False), (130, None, False))]


def check(case, rec):
    from run_py import shortest_path_run
    custom = None
    if case.get("custom"):
        custom = (expand(case["custom"][0]), case["custom"][1])
    cls, done = files.recording("SP", custom)
    random.seed(case["rng"])
    L, E = case["L"], case["E"]
    with files.scratch():
        if case["defaults"]:
            shortest_path_run.ensemble_shortest_path_v2_thread(cls, L, E)
        else:
            shortest_path_run.ensemble_shortest_path_v2_thread(cls, L, E, case["thread"], case["seed"])
        tabs = files.tables()
    runs = done()
    require(len(runs) == E, "%d realizations were run, %d requested", len(runs), E)
    require(len(tabs) == 1, "%d files were written", len(tabs))
    t = tabs[0]
    t.check_head(L, E)
    require([str(c) for c in t.columns] == ["pc", "p*"], "the header names the columns %s", t.columns)
    require(len(t.rows) == E, "%d rows for %d realizations", len(t.rows), E)
    for i, (row, picks) in enumerate(zip(t.rows, runs)):
        m = run_model(L, picks, stop_straight=True)[1]
        require(m.n == len(picks) and (m.straight() or custom and m.n == len(custom[0])), "realization %d stopped after %d sites, its line was complete after %d", i,
                len(picks), m.n)
        want = [m.pc(), m.p() if m.straight() else 0]
        if custom:
            rec.label("wraps, but no straight line" if m.wrapped and not m.straight() else "never wraps" if not m.wrapped else "custom list")
        require(len(row) == 2 and all(files.near(a, b) for a, b in zip(row, want)), "row %d is %s, realization %d had %s", i, row,
                i, want)
    rec.nontriv(E >= 2)
    rec.label("realizations", E)
