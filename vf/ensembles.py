"""Shared by C18 and C19: running one ensemble entry point on a recording class."""
import random

from hypothesis import strategies as st

from . import files
from .core import require
from .drive import attempt_cap
from .gen import SEEDS, expand, orders
from .model import run_model


CUSTOM = st.one_of(st.none(), st.none(), st.none(), st.booleans())


@st.composite
def custom_(draw, L):
    """nothing, or the list every realization of the ensemble is restricted to, and whether it is shuffled"""
    shuffle = draw(CUSTOM)
    return None if shuffle is None else [draw(orders(L, L, big=0)), shuffle]


@st.composite
def case_(draw, hi, entries):
    cls, L = draw(st.sampled_from(("L0", "base", "L1", "L2"))), draw(st.integers(3, hi))
    return {"cls": cls, "L": L, "custom": draw(custom_(L)) if cls in ("L0", "base") else None,
            "E": draw(st.one_of(st.integers(1, 4), st.integers(1, 12))), "entry": draw(st.sampled_from(entries)),
            "seed": draw(st.one_of(st.none(), st.just(0), SEEDS)), "rng": draw(SEEDS), "thread": draw(st.integers(0, 25))}


def run(case):
    """-> tables written, realizations"""
    from run_py import ensemble
    sites = list(range(case["L"] ** 2))
    custom = None
    if case.get("custom"):
        sites = expand(case["custom"][0])
        custom = (sites, case["custom"][1])
    cls, done = files.recording(case["cls"], custom)
    random.seed(case["rng"])
    L, E = case["L"], case["E"]
    with files.scratch():
        if case["entry"] == "serial":
            ensemble.run_ensemble_entropy_order(cls, L, E)
        elif case["entry"] == "threads":
            ensemble.run_ensemble_entropy_order_threads(cls, L, E, case["thread"])
        elif case["entry"] == "v2":
            ensemble.run_ensemble_entropy_order_threads_v2(cls, L, E, case["thread"], case["seed"])
        elif case["entry"] == "v2 defaults":
            ensemble.run_ensemble_entropy_order_threads_v2(cls, L, E)
        tabs = files.tables()
    runs = done()
    require(len(runs) == E, "%d realizations were run, %d requested", len(runs), E)
    for r in runs:
        require(sorted(r) == sorted(sites), "a realization did not occupy each of its sites once")
    return tabs, [run_model(L, r) for r in runs]
