"""C05 relative coordinates."""
from ..core import require
from ..drive import start
from ..gen import big_corpus, sim_cases
from ..model import Model

EXAMPLES = {"quick": 6750, "thorough": 27000}
RULE = ("class x lattice x order as in C02; after every placement (L <= 9) or about 24 times (larger) the relative coordinates of "
        "all sites are compared with the model's displacement potentials. Non-trivial: a merge of two existing clusters "
        "happened and a seam was crossed by a non-winding cluster.")


def strategy(tier):
    return sim_cases(3, 10, big=24 if tier == "quick" else 48)


def corpus(tier):
    return big_corpus(("L0", "base"))


def compare(p, m):
    L = m.L
    anchor = {}
    crossed = False
    for s in range(m.N):
        if not m.occupied(s):
            continue
        g = p.lattice_ref.get_site_by_id(s).get_relative_index()
        root = m.find(s)
        pot = m.pot(s)
        off = (g.x_coord() - pot[0], g.y_coord() - pot[1])
        if m.winds[root]:
            r, c = divmod(s, L)
            off = ((g.x_coord() - r) % L, (g.y_coord() - c) % L)
        a = anchor.setdefault(root, (off, s))
        if a[0] != off:
            fail_msg = "differences of relative coordinates of sites %d and %d in one %s cluster are wrong after %d placements"
            require(False, fail_msg, a[1], s, "winding" if m.winds[root] else "non-winding", m.n)
        if not m.winds[root]:
            r0, c0 = divmod(a[1], L)
            p0 = m.pot(a[1])
            if (pot[0] - p0[0], pot[1] - p0[1]) != (s // L - r0, s % L - c0):
                crossed = True
    return crossed


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    joined = crossed = False
    every = 1 if L <= 9 else max(1, L * L // 24)
    for s in steps:
        m.place(s)
        p.detect_wrapping()
        joined = joined or m.max_merge >= 2
        if m.n % every == 0 or (m.max_merge >= 2 and L <= 14):
            crossed = compare(p, m) or crossed
    compare(p, m)
    rec.nontriv(joined and crossed)
    rec.label("cls " + case["cls"])
    if crossed:
        rec.label("non-winding cluster across the seam")
    if joined:
        rec.label("merge of clusters")
