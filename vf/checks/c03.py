"""C03 wrapping is reported exactly when a cluster first winds round."""
from ..core import require
from ..drive import bonds_of_fraction, start
from ..gen import big_corpus, sim_cases
from ..model import Model

EXAMPLES = {"quick": 12000, "thorough": 48000}
RULE = ("class x lattice x order as in C02; detect_wrapping() compared with displacement-mismatch winding after every "
        "placement (and repeatedly), and the followed cluster's size with the first-wrapped cluster's at every later step. "
        "Non-trivial: the history wraps and goes on at least one placement.")


def strategy(tier):
    return sim_cases(3, 11, big=28 if tier == "quick" else 60)


def corpus(tier):
    return big_corpus(("L0", "base"))


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    require(not p.detect_wrapping(), "wrapping reported on an empty lattice")
    other = several = False
    for s in steps:
        m.place(s)
        got = p.detect_wrapping()
        require(bool(got) == m.wrapped, "after %d placements (last: site %d) wrapping reported %s, expected %s",
                m.n, s, got, m.wrapped)
        if m.n % 3 == 0:
            require(bool(p.detect_wrapping()) == m.wrapped, "asking again for wrapping gave another answer")
        b = bonds_of_fraction(p.order_param_wrapping(), m.B)
        require(b == m.wrap_bonds, "followed cluster has %d bonds after %d placements, first-wrapped has %d",
                b, m.n, m.wrap_bonds)
        if m.wrapped and m.largest > m.wrap_bonds:
            other = True
        r = m.find(s)
        several = several or (m.winds[r] and r != m.find(m.wrap_site))
    if case["cls"] not in ("L1", "L2") and not p.place_one_site():  # the list is used up: still the same answers
        for _ in range(2):
            require(bool(p.detect_wrapping()) == m.wrapped, "asking once more after the last site gave another answer")
            b = bonds_of_fraction(p.order_param_wrapping(), m.B)
            require(b == m.wrap_bonds, "after the end the followed cluster has %d bonds, first-wrapped has %d", b, m.wrap_bonds)
    rec.nontriv(m.wrapped and m.n > m.pc_n)
    rec.label("cls " + case["cls"])
    rec.label("wraps" if m.wrapped else "never wraps")
    if other:
        rec.label("larger cluster than the wrapping one")
    if several:
        rec.label("several winding clusters at once")
    if m.wrapped:
        p.reset()
        require(not p.detect_wrapping(), "wrapping still reported on the empty lattice after reset")
        p.place_one_site()
        require(not p.detect_wrapping(), "wrapping still reported after reset with one site occupied")
