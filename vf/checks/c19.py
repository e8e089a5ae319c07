"""C19 critical-value files hold one true row per realization."""
from .. import ensembles, files
from ..core import require

EXAMPLES = {"quick": 3150, "thorough": 12600}
RULE = ("class, L, ensemble size, entry point (serial, threads v2 with and without seed), plain classes also restricted to a custom list (which may never wrap); every row compared, in order, with the reference "
        "model of the sites that realization really occupied. Non-trivial: at least two realizations.")

ENTRIES = ("serial", "v2", "v2 defaults")


def strategy(tier):
    return ensembles.case_(8 if tier == "quick" else 11, ENTRIES)


def corpus(tier):
    out = [{"cls": c, "L": 17, "E": 4, "entry": e, "seed": None, "rng": 5, "thread": 3} for c in ("L0", "L1", "L2")
           for e in ("serial", "v2")]
    return out + [{"cls": "L0", "L": 5, "E": 130, "entry": e, "seed": 3, "rng": 8, "thread": 0} for e in ("serial", "v2")] + [
        {"cls": c, "L": 3, "E": 700, "entry": e, "seed": 4, "rng": 9, "thread": 31} for c, e in (("L0", "serial"), ("base", "v2"), ("L1", "v2"), ("L2", "serial"))] + large()


def large():
    """few realizations on larger lattices: counts beyond 255, 511 and 1023"""
    return [{"cls": c, "L": L, "E": E, "entry": e, "seed": 6, "rng": L, "thread": 2}
            for c, L, E in (("L0", 24, 3), ("L1", 25, 2), ("L2", 24, 2), ("base", 33, 2), ("L0", 40, 1), ("L0", 71, 1), ("base", 104, 2), ("L1", 72, 1), ("L2", 68, 1)) for e in ENTRIES]


def check(case, rec):
    tabs, models = ensembles.run(case)
    tabs = [t for t in tabs if files.kind_of(t) == "critical"]
    require(len(tabs) == 1, "%d critical-value files were written", len(tabs))
    t = tabs[0]
    L, E = case["L"], case["E"]
    t.check_head(L, E)
    names = [str(c).lower() for c in t.columns]
    require(len(names) == 3 and "pc" in names[0] and "site" in names[1] and "bond" in names[2],
            "the header names the columns %s", t.columns)
    require(len(t.rows) == E, "%d rows for %d realizations", len(t.rows), E)
    for i, (row, (_, m)) in enumerate(zip(t.rows, models)):
        want = [m.pc(), m.pc_sites, m.pc_bonds]
        require(len(row) == 3 and all(files.near(a, b) for a, b in zip(row, want)),
                "row %d is %s, realization %d had %s", i, row, i, want)
    rec.nontriv(E >= 2)
    rec.label("entry " + case["entry"])
    rec.label("cls " + case["cls"])
    if case.get("custom"):
        rec.label("custom list")
        if any(not m.wrapped for _, m in models):
            rec.label("realizations that never wrap")
    rec.label("realizations", E)
