"""C04 critical values."""
from hypothesis import strategies as st

from ..core import require
from ..drive import build, check_critical, start, warm, watched_run
from ..gen import big_corpus, expand, sim_cases
from ..model import Model, run_model

EXAMPLES = {"quick": 9000, "thorough": 36000}
RULE = ("class x lattice x order (complete or partial), advanced stepwise or by run_once, then reset (and re-run for custom "
        "orders); critical values compared with the model at every step. Non-trivial: the history wraps.")


def strategy(tier):
    return st.tuples(sim_cases(3, 11, big=24 if tier == "quick" else 60), st.booleans()).map(
        lambda t: dict(t[0], run=t[1]))


def corpus(tier):
    return [{"seq": [dict(d, run=True) for d in c["seq"]]} if "seq" in c else dict(c, run=True) for c in big_corpus(("L0",))]


def check(case, rec):
    rec.label("cls " + case["cls"])
    if case["run"] and case["cls"] not in ("L1", "L2"):
        order = expand(case["spec"])
        L = case["spec"]["L"]
        p = build(case["cls"], L)
        warm(p, case)
        p.set_custome_site_id_list(list(order))
        rows, m = run_model(L, order, stop_straight=case["cls"] == "SP")
        for again in range(2):
            check_critical(p, Model(L))
            p.run_once()
            check_critical(p, m)
            p.reset()
        check_critical(p, Model(L))
        rec.label("run_once")
    elif case["run"] and not case.get("cand"):
        L = case["spec"]["L"]
        p = build(case["cls"], L, seed=case["spec"].get("seed", 7))
        warm(p, case)
        for again in range(2):
            check_critical(p, Model(L))
            m = run_model(L, watched_run(p))[1]
            check_critical(p, m)
            require(m.wrapped, "the run ended without wrapping")
            p.reset()
        check_critical(p, Model(L))
        rec.label("run_once")
    else:
        p, steps, L = start(case)
        m = Model(L)
        check_critical(p, m)
        for s in steps:
            m.place(s)
            require(bool(p.detect_wrapping()) == m.wrapped, "wrapping misreported after %d placements", m.n)
            check_critical(p, m)
        p.reset()
        check_critical(p, Model(L))
        rec.label("stepwise")
    rec.nontriv(m.wrapped)
    rec.label("wraps" if m.wrapped else "never wraps")
