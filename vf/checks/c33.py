"""C33 runs that differ in class, length or worker never touch each other's files."""
import contextlib
import datetime
import hashlib
import os
import random

from hypothesis import strategies as st

from .. import files
from ..core import require
from ..gen import get_class

EXAMPLES = {"quick": 420, "thorough": 3600}
RULE = ("a history of 2 to 8 runs (serial, threads, threads v2, shortest path, stored realization) that pairwise differ in class, length, "
        "worker number or kind, made one after another in one directory while the clock stands still; after each run the "
        "earlier files must be unchanged and the new ones complete, with a header of their own. Non-trivial: at least three runs.")

CLASSES = ("L0", "base", "L1", "L2")


def item():
    L = st.one_of(st.integers(3, 6), st.sampled_from((10, 11, 12)))
    E = st.integers(1, 3)
    worker = st.one_of(st.integers(0, 2), st.sampled_from((1, 10, 11, 12, 21, 100, 110)))
    return st.one_of(
        st.tuples(st.just("serial"), st.sampled_from(CLASSES), L, E, st.none()),
        st.tuples(st.sampled_from(("threads", "v2", "v2")), st.sampled_from(CLASSES), L, E, worker),
        st.tuples(st.just("sp"), st.just("SP"), L, E, worker),
        st.tuples(st.just("single"), st.sampled_from(CLASSES), L, st.just(1), st.none())).map(list)


def key(it):
    entry, cls, L, _, worker = it
    return (entry == "single", cls, L, worker)


def strategy(tier):
    return st.fixed_dictionaries({"runs": st.lists(item(), min_size=2, max_size=8, unique_by=key), "rng": st.integers(0, 2 ** 32)})


def corpus(tier):
    out = [[["v2", c, L, 2, w] for w in (0, 1, 10)] for c in CLASSES for L in (4, 11)]
    out.append([["serial", c, 5, 2, None] for c in CLASSES])
    out.append([["v2", c, L, 1, 0] for c in CLASSES for L in (3, 13, 31)])
    out.append([["sp", "SP", L, 2, w] for L in (3, 13) for w in (0, 1, 11)])
    out.append([["single", c, L, 1, None] for c in CLASSES for L in (3, 33)])
    out.append([["serial", "L0", 5, 2, None], ["v2", "L0", 5, 3, 0], ["threads", "L0", 5, 1, 1], ["single", "L0", 5, 1, None], ["sp", "SP", 5, 2, 0],
                ["serial", "L1", 5, 2, None], ["v2", "L0", 15, 3, 0]])
    # every length up to 36 and every worker up to 130, at one moment of the clock
    out += [[["v2", "L0", L, 1, 0] for L in range(3, 37)], [["serial", "L1", L, 1, None] for L in range(3, 25)],
            [["sp", "SP", L, 1, 0] for L in range(3, 37)], [["single", "L0", L, 1, None] for L in range(3, 37)],
            [["threads", "L0", L, 1, 2] for L in range(3, 37)]]
    # lengths of three digits
    out += [[[e, c, L, 1, w] for L in (50, 100, 101, 104, 110)] for e, c, w in (("serial", "L0", None), ("v2", "L0", 0), ("sp", "SP", 0), ("single", "L0", None), ("threads", "L0", 1))]
    out += [[[e, c, 3, 1, w] for w in range(131)] + [[e, c, 3, 1, w] for w in (200, 256, 300, 1000, 1001)]
            for e, c in (("v2", "L0"), ("threads", "L0"), ("sp", "SP"))]
    return [{"runs": r, "rng": 1, "L": max(i[2] for i in r)} for r in out]


class Stopped(datetime.datetime):
    """a clock that stands still, so that names cannot be kept apart by the second they were made in"""

    @classmethod
    def now(cls, tz=None):
        return datetime.datetime(2020, 2, 3, 4, 5, 6)


@contextlib.contextmanager
def stopped_clock():
    from run_py import ensemble, rsbd_percolatioin_run, shortest_path_run
    mods = [m for m in (ensemble, rsbd_percolatioin_run, shortest_path_run) if getattr(m, "datetime", None) is datetime.datetime]
    for m in mods:
        m.datetime = Stopped
    try:
        yield
    finally:
        for m in mods:
            m.datetime = datetime.datetime


def perform(it):
    from run_py import ensemble, rsbd_percolatioin_run, shortest_path_run
    entry, kind, L, E, worker = it
    cls = get_class(kind)
    if entry == "serial":
        ensemble.run_ensemble_entropy_order(cls, L, E)
    elif entry == "threads":
        ensemble.run_ensemble_entropy_order_threads(cls, L, E, worker)
    elif entry == "v2":
        ensemble.run_ensemble_entropy_order_threads_v2(cls, L, E, worker)
    elif entry == "sp":
        shortest_path_run.ensemble_shortest_path_v2_thread(cls, L, E, worker)
    else:
        rsbd_percolatioin_run.single_realization(cls, L)


def contents():
    out = {}
    for folder, _, names in os.walk("."):
        for n in names:
            path = os.path.join(folder, n)
            with open(path, "rb") as f:
                out[path] = hashlib.sha1(f.read()).hexdigest()
    return out


NEW = {"serial": 2, "threads": 1, "v2": 2, "sp": 1, "single": 1}


def check(case, rec):
    random.seed(case["rng"])
    with files.scratch(), stopped_clock():
        have = {}
        for it in case["runs"]:
            entry, kind, L, E, worker = it
            perform(it)
            now = contents()
            for path, d in have.items():
                require(path in now, "run %s removed %s of an earlier run", it, path)
                require(now[path] == d, "run %s changed %s of an earlier run", it, path)
            new = sorted(set(now) - set(have))
            require(len(new) == NEW[entry], "run %s left %d new files, expected %d: %s", it, len(new), NEW[entry], new)
            for path in new:
                if entry != "single":
                    files.Table(path).check_head(L, E)
            have = now
            rec.label(entry)
    rec.nontriv(len(case["runs"]) >= 3)
