"""C02 clusters = connected components."""
from ..drive import check_partition, start
from ..gen import big_corpus, sim_cases
from ..model import Model

EXAMPLES = {"quick": 4500, "thorough": 24000}
RULE = ("class x lattice x placement order (explicit permutations, structured patterns, shuffles, competing bands; L1/L2 "
        "by seed); labels and cluster lists compared with the reference partition after every placement (L <= 8) or "
        "about 24 times per run (larger). Non-trivial: some placement joined two or more existing clusters of sites.")


def strategy(tier):
    return sim_cases(2, 10, big=24 if tier == "quick" else 48)


def corpus(tier):
    return big_corpus(("L0", "SP"))


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    joined = 0
    every = 1 if L <= 8 else max(1, L * L // (24 if L < 120 else 8))
    check_partition(p, m)
    for s in steps:
        m.place(s)
        p.detect_wrapping()
        joined = max(joined, m.max_merge)
        if m.n % every == 0 or (m.max_merge > 2 and L <= 16):
            check_partition(p, m)
    check_partition(p, m)
    rec.nontriv(joined >= 2)
    rec.label("cls " + case["cls"])
    rec.label("merged %d at once" % joined)
    if m.n == L * L:
        rec.label("full")
