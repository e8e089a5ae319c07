"""C06 entropy."""
import math

from ..core import require
from ..drive import TOL, build, close, start
from ..gen import big_corpus, expand, sim_cases
from ..model import Model, run_model

EXAMPLES = {"quick": 10500, "thorough": 42000}
RULE = ("class x lattice x order as in C02; entropy(), entropy_v2() and entropy_v1() against the Shannon entropy of the "
        "model's size histogram at every step, then the recorded series after reset and run_once. Non-trivial: at least "
        "three distinct cluster sizes coexisted.")


def strategy(tier):
    return sim_cases(2, 11, big=24 if tier == "quick" else 60)


def corpus(tier):
    return big_corpus(("L0",))


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    sizes = 0
    every = 1 if L <= 16 else max(1, L * L // 40)
    require(close(p.entropy(), math.log(m.B)) and close(p.entropy_v1(), math.log(m.B)),
            "entropy of the empty lattice is %r / %r, expected ln(%d)", p.entropy(), p.entropy_v1(), m.B)
    for s in steps:
        m.place(s)
        p.detect_wrapping()
        H = m.entropy()
        require(close(p.entropy(), H), "entropy %r after %d placements, expected %r", p.entropy(), m.n, H)
        require(close(p.entropy_v2(), H), "entropy_v2 %r after %d placements, expected %r", p.entropy_v2(), m.n, H)
        if m.n % every == 0:
            require(close(p.entropy_v1(), H), "recomputed entropy %r after %d placements, expected %r",
                    p.entropy_v1(), m.n, H)
        sizes = max(sizes, len(m.hist))
    if m.n == m.N:
        require(close(p.entropy(), 0.0), "entropy of the full lattice is %r", p.entropy())
        rec.label("full")
    if case["cls"] in ("L0", "base"):
        p.reset()
        require(close(p.entropy(), math.log(m.B)), "entropy after reset is %r", p.entropy())
        p.run_once()
        rows, _ = run_model(L, expand(case["spec"]))
        got = p.get_entropy_array()
        require(len(got) == len(rows), "entropy series has %d entries, expected %d", len(got), len(rows))
        for i, (a, b) in enumerate(zip(got, rows)):
            require(close(a, b[1]), "entropy series entry %d is %r, expected %r", i, a, b[1])
    rec.nontriv(sizes >= 3)
    rec.label("cls " + case["cls"])
