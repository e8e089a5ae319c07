"""C32 measurements depend only on the order in which sites are occupied, not on how the realization is driven."""
from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, TOL, build, close, data_rows, watched_run
from ..gen import BIG, ENDINGS, SEEDS, expand, orders

EXAMPLES = {"quick": 4500, "thorough": 18000}
RULE = ("an order (random, structured, competing, partial; or the one an L1/L2 run followed) is driven in several ways: one run, one by one "
        "with wrapping checked after each, manual steps and then a run, several runs extending the list, a list replaced by a longer one before it is used up, as ids or positions, on a new object or "
        "after a reset, in different classes; the complete final state and the series rows are compared. Non-trivial: a cluster wraps.")


@st.composite
def strategy_(draw, hi):
    ways = st.fixed_dictionaries({
        "cls": st.sampled_from(("L0", "base", "SP")), "form": st.sampled_from(("id", "index")), "reset": st.booleans(),
        "how": st.sampled_from(("run", "steps", "steps, run", "runs", "lists")), "at": st.lists(st.integers(1, 999), min_size=1, max_size=2)})
    src = draw(st.sampled_from(("order", "order", "L1", "L2")))
    if src == "order":
        case = {"spec": draw(orders(3, hi, big=16))}
    else:
        case = {"from": src, "L": draw(st.integers(3, min(hi, 9))), "seed": draw(SEEDS)}
    case["ways"] = draw(st.lists(ways, min_size=2, max_size=3))
    return case


def strategy(tier):
    return strategy_(9 if tier == "quick" else 13)


def corpus(tier):
    ways = [{"cls": "L0", "form": "id", "reset": False, "how": "run", "at": [500]},
            {"cls": "base", "form": "index", "reset": True, "how": "steps, run", "at": [590]},
            {"cls": "L0", "form": "index", "reset": False, "how": "runs", "at": [300, 610]},
            {"cls": "SP", "form": "id", "reset": True, "how": "steps", "at": [1]},
            {"cls": "L0", "form": "index", "reset": False, "how": "lists", "at": [400, 650]},
            {"cls": "SP", "form": "id", "reset": True, "how": "lists", "at": [660]}]
    far = [{"spec": {"L": L, "segs": [], "seed": L, "cut": None}, "ways": [ways[i] for i in w]} for L in (70, 103) for w in ((0, 1), (0, 2), (3, 0), (4, 0))]
    return far + [{"spec": s, "ways": ways} for s in BIG + ENDINGS if s["L"] < 45] + [{"from": c, "L": 18, "seed": 3, "ways": ways} for c in ("L1", "L2")]


def state(p, order):
    """everything measured at the end, labels renamed to the first bond or site that carries them"""
    lat = p.lattice_ref
    N = lat.length ** 2
    first = {}
    part = []
    for b in range(2 * N):
        part.append(first.setdefault(lat.get_bond_gid_by_id(b), b))
    for s in range(N):
        g = lat.get_site_gid_by_id(s)
        part.append(-1 if g < 0 else first.get(g, "none"))
    exact = {"partition": part, "pc": p.get_pc(), "sites at pc": p.get_site_count_wrapping_cluster_pc(),
             "bonds at pc": p.get_bond_count_wrapping_cluster_pc(), "p": p.occupation_prob(), "wraps": bool(p.detect_wrapping())}
    rough = {"entropy": p.entropy(), "entropy recomputed": p.entropy_v1(), "largest": p.order_param_largest_clstr(),
             "wrapping": p.order_param_wrapping()}
    return exact, rough


def drive(way, L, order):
    """-> state, series rows with the number of sites placed before the first of them, or None"""
    p = build(way["cls"], L, seed=5)
    if way["reset"]:
        p.run_once()
        p.reset()

    def give(seq):
        if way["form"] == "id":
            p.set_custome_site_id_list(list(seq))
        else:
            p.set_custome_site_index_list([divmod(s, L) for s in seq])
        p.__dict__["_vf_calls"] = 0

    def steps(n):
        st_ = Stepper(p)
        while len(st_.picks) < n:
            require(st_.next() is not None, "only %d of %d sites could be placed", len(st_.picks), n)
            p.detect_wrapping()
        return st_.picks

    how = way["how"] if way["cls"] != "SP" or way["how"] == "lists" else "steps"
    n = len(order)
    cuts = sorted({max(1, min(n, a * n // 1000)) for a in way["at"]} | {n})
    before, picks = 0, []
    if how == "runs":
        for c in cuts:
            give(order[:c])
            picks += watched_run(p)
    elif how == "lists":  # a list is replaced by a longer one before it is used up
        before = None
        for i, c in enumerate(cuts):
            give(order[:c] if i % 2 else order[:cuts[min(i + 1, len(cuts) - 1)]])
            picks += steps(c - len(picks))
    else:
        give(order)
        if how == "run":
            picks = watched_run(p)
        elif how == "steps":
            picks = steps(n)
            before = None
        else:
            before = cuts[0]
            picks = steps(before)
            if before < n:
                p.__dict__["_vf_calls"] = 0
                picks += watched_run(p)
    require(picks == order, "%s: occupied %s..., the list was %s...", how, picks[:12], order[:12])
    rows = None
    if before is not None and before < n:
        rows = data_rows(p)
    return state(p, order), before, rows, "%s (%s, %s%s)" % (how, way["cls"], way["form"], ", after reset" if way["reset"] else "")


def check(case, rec):
    if "from" in case:
        L = case["L"]
        order = watched_run(build(case["from"], L, seed=case["seed"]))
        rec.label("order of an %s run" % case["from"])
    else:
        L = case["spec"]["L"]
        order = expand(case["spec"])
    ref = None
    series = None
    for way in case["ways"]:
        (exact, rough), before, rows, name = drive(way, L, order)
        rec.label(way["how"] if way["cls"] != "SP" or way["how"] == "lists" else "steps")
        if rows is not None:
            require(len(rows) == len(order) - before, "%s: %d series rows for %d sites placed by the run", name, len(rows), len(order) - before)
            if series is None:
                series = (before, rows, name)
            else:
                b = max(before, series[0])
                for i, (x, y) in enumerate(zip(series[1][b - series[0]:], rows[b - before:])):
                    require(all(close(u, v, TOL) for u, v in zip(x, y)), "after %d sites %s measured %s, %s measured %s", b + i + 1,
                            series[2], x, name, y)
        if ref is None:
            ref = (exact, rough, name)
            continue
        for k in exact:
            require(exact[k] == ref[0][k], "%s: %s gives %s, %s gives %s", k, ref[2], str(ref[0][k])[:200], name, str(exact[k])[:200])
        for k in rough:
            require(close(rough[k], ref[1][k], TOL), "%s: %s gives %r, %s gives %r", k, ref[2], ref[1][k], name, rough[k])
    rec.nontriv(ref[0]["pc"] > 0)
