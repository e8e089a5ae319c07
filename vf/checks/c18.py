"""C18 entropy/order files hold the exact ensemble average, correctly labelled."""
from .. import ensembles, files
from ..core import require

TOL = 1e-8  # the files hold ten decimals

EXAMPLES = {"quick": 3150, "thorough": 12600}
RULE = ("class, L, ensemble size 1..12, entry point (serial, threads, threads v2 with and without seed), worker number, every class also restricted to a custom list (shuffled or not); the file is "
        "compared with the average over the reference model of the sites each realization really occupied, each column with what its "
        "header description names. Non-trivial: at least two realizations.")

ENTRIES = ("serial", "threads", "v2", "v2 defaults")


def strategy(tier):
    return ensembles.case_(7 if tier == "quick" else 10, ENTRIES)


def corpus(tier):
    out = [{"cls": c, "L": 17, "E": 3, "entry": e, "seed": None, "rng": 5, "thread": 3} for c in ("L0", "L1", "L2")
           for e in ("serial", "threads", "v2")]
    return out + [{"cls": "L0", "L": 4, "E": 60, "entry": e, "seed": 3, "rng": 8, "thread": 0} for e in ("serial", "threads", "v2")] + [
        {"cls": "L0", "L": 5, "E": 130, "entry": "v2", "seed": None, "rng": 8, "thread": 0}] + [
        {"cls": c, "L": 3, "E": 700, "entry": e, "seed": 4, "rng": 9, "thread": 31} for c, e in (("L0", "serial"), ("base", "threads"), ("L1", "v2"), ("L2", "v2"))] + large()


def large():
    """few realizations on larger lattices: counts beyond 255, 511 and 1023"""
    return [{"cls": c, "L": L, "E": E, "entry": e, "seed": 6, "rng": L, "thread": 2}
            for c, L, E in (("L0", 24, 3), ("L1", 25, 2), ("L2", 24, 2), ("base", 33, 2), ("L0", 40, 1), ("L0", 71, 1), ("base", 104, 2), ("L1", 72, 1), ("L2", 68, 1)) for e in ENTRIES]


def check(case, rec):
    tabs, models = ensembles.run(case)
    tabs = [t for t in tabs if files.kind_of(t) == "entropy"]
    require(len(tabs) == 1, "%d entropy-order files were written", len(tabs))
    t = tabs[0]
    L, E = case["L"], case["E"]
    t.check_head(L, E)
    want = files.average([rows for rows, _ in models])
    require(len(t.rows) == len(want), "%d rows, expected %d", len(t.rows), len(want))
    cols = [files.column_value(m, i) for i, m in enumerate(t.meaning())]
    require(sorted(cols) == [0, 1, 2, 3], "the header describes the columns as %s", t.meaning())
    for k, row in enumerate(t.rows):
        require(len(row) == len(cols), "row %d has %d columns, the header names %d", k, len(row), len(cols))
        for j, c in enumerate(cols):
            require(abs(row[j] - want[k][c]) <= TOL, "row %d: column %d (%s) is %r, the ensemble average is %r", k, j,
                    t.meaning()[j], row[j], want[k][c])
    rec.nontriv(E >= 2)
    rec.label("entry " + case["entry"])
    rec.label("cls " + case["cls"])
    if case.get("custom"):
        rec.label("custom list")
    rec.label("realizations", E)
