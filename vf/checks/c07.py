"""C07 order parameters."""
from ..core import require
from ..drive import bonds_of_fraction, start
from ..gen import big_corpus, expand, sim_cases
from ..model import Model, run_model

EXAMPLES = {"quick": 10500, "thorough": 42000}
RULE = ("class x lattice x order as in C02, with competing-cluster patterns; both order parameters compared as exact bond "
        "counts at every step and in the recorded series. Non-trivial: wraps before the end.")


def strategy(tier):
    return sim_cases(3, 12, big=24 if tier == "quick" else 60)


def corpus(tier):
    return big_corpus(("L0",))


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    require(p.order_param_largest_clstr() == 0 and p.order_param_wrapping() == 0 and p.largest_cluster() == 0,
            "order parameters of the empty lattice are not 0")
    last = (0, 0)
    small = False
    for s in steps:
        m.place(s)
        p.detect_wrapping()
        a = bonds_of_fraction(p.order_param_largest_clstr(), m.B)
        b = bonds_of_fraction(p.order_param_wrapping(), m.B)
        require(a == m.largest == p.largest_cluster(), "largest cluster reported %d (%s) after %d placements, is %d",
                a, p.largest_cluster(), m.n, m.largest)
        require(b == m.wrap_bonds, "wrapping cluster reported with %d bonds after %d placements, has %d", b, m.n,
                m.wrap_bonds)
        require(a >= last[0] and b >= last[1], "an order parameter decreased at placement %d", m.n)
        last = (a, b)
        small = small or (m.wrapped and m.largest > m.wrap_bonds)
    if m.n == m.N:
        require(last == (m.B, m.B), "order parameters of the full lattice are %s of %d", last, m.B)
        rec.label("full")
    p.reset()
    for _ in range(2):
        got = (p.order_param_largest_clstr(), p.order_param_wrapping(), p.largest_cluster())
        require(got == (0, 0, 0), "order parameters and largest cluster of the emptied lattice are %s", got)
    if case["cls"] in ("L0", "base"):
        p.run_once()
        rows, _ = run_model(L, expand(case["spec"]))
        P1, P2 = p.get_order_param_largest_array(), p.get_order_param_wrapping_array()
        require(len(P1) == len(P2) == len(rows), "series lengths %d, %d, expected %d", len(P1), len(P2), len(rows))
        for i, r in enumerate(rows):
            require(abs(P1[i] - r[2]) < 1e-10, "largest-cluster series entry %d is %r, expected %r", i, P1[i], r[2])
            require(abs(P2[i] - r[3]) < 1e-10, "wrapping series entry %d is %r, expected %r", i, P2[i], r[3])
    rec.nontriv(m.wrapped and m.n > m.pc_n)
    rec.label("cls " + case["cls"])
    if small:
        rec.label("wrapping cluster not the largest")
