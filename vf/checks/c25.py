"""C25 measurements do not depend on where or how the lattice is drawn."""
from hypothesis import strategies as st

from ..core import require
from ..drive import TOL, build, close, data_rows
from ..gen import BIG, expand, orders

EXAMPLES = {"quick": 4500, "thorough": 20000}
RULE = ("order (permutation / structured / partial) and one or two compositions of translation, reflections and transposition (drawn, not the identity); plain "
        "runs compared in series and critical values after every site, shortest-path runs in p* and critical values. Non-trivial: the order makes a cluster wrap.")


@st.composite
def strategy_(draw, hi, big):
    spec = draw(orders(3, hi, big=big))
    L = spec["L"]
    syms = draw(st.lists(st.tuples(st.integers(0, L - 1), st.integers(0, L - 1), st.integers(0, 7)), min_size=1, max_size=2)
                .filter(lambda v: any(t != (0, 0, 0) for t in v)))
    return {"cls": draw(st.sampled_from(("L0", "base", "SP", "SP"))), "spec": spec, "syms": [list(t) for t in syms], "step": draw(st.booleans())}


def strategy(tier):
    return strategy_(10 if tier == "quick" else 14, 22 if tier == "quick" else 50)


def corpus(tier):
    return [{"cls": c, "spec": s, "syms": [[1, 0, 0], [s["L"] // 2, s["L"] - 1, f], [2, s["L"] // 3, 4 | f & 3]], "step": False} for f, s in enumerate(BIG) for c in ("L0", "SP")
            if s["L"] < (110 if tier == "quick" else 160)]


def image(order, L, sym):
    a, b, f = sym
    out = []
    for s in order:
        r, c = divmod(s, L)
        if f & 1:
            r = -r
        if f & 2:
            c = -c
        if f & 4:
            r, c = c, r
        out.append(((r + a) % L) * L + (c + b) % L)
    return out


def measure(case, order):
    L = case["spec"]["L"]
    p = build(case["cls"], L)
    p.set_custome_site_id_list(list(order))
    if case["cls"] == "SP":
        p.run_once()
        rows = [[p.get_shortest_path_p(), p.occupation_prob(), p.order_param_wrapping(), p.order_param_largest_clstr(), p.entropy()]]
    elif case["step"]:
        rows = []
        while p.place_one_site():
            w = p.detect_wrapping()
            rows.append([float(bool(w)), p.occupation_prob(), p.entropy(), p.entropy_v1(), p.order_param_largest_clstr(), p.order_param_wrapping()])
    else:
        p.run_once()
        rows = data_rows(p)
    return rows, [p.get_pc(), p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc()]


def check(case, rec):
    L = case["spec"]["L"]
    order = expand(case["spec"])
    rows, crit = measure(case, order)
    for sym in case["syms"]:
        rows2, crit2 = measure(case, image(order, L, sym))
        require(crit == crit2, "critical values %s, after the symmetry %s they are %s", crit, sym, crit2)
        require(len(rows) == len(rows2), "%d measurements, after the symmetry %s %d", len(rows), sym, len(rows2))
        for i, (a, b) in enumerate(zip(rows, rows2)):
            require(all(close(x, y, TOL) for x, y in zip(a, b)), "step %d: measured %s, after the symmetry %s it is %s", i, a, sym, b)
        rec.label("transposed" if sym[2] & 4 else "reflected" if sym[2] else "translated")
    rec.nontriv(crit[0] > 0)
    rec.label("cls " + case["cls"])
