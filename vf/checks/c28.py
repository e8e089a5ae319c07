"""C28 looking never changes anything."""
from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, Watch, build, observe
from ..gen import ENDINGS, SEEDS, competing, expand, orders

EXAMPLES = {"quick": 3500, "thorough": 16000}
RULE = ("class, L, seed, history (attempts, runs, resets, custom lists), and readers drawn from all of measurement getters, sequence and data getters, views, cluster and neighbour "
        "queries, repeated wrapping checks and built-in consistency checks, called before and between the operations, between the attempts and inside runs after every placement; everything "
        "measured, the clusters, the relative coordinates and the order of sites must equal those of a twin that was never looked at, and asking twice gives one answer. Non-trivial: at least two different readers were "
        "called while the lattice was partly filled.")


def nb(p, s):
    return p.lattice_ref.get_site_neighbor_of_site(s)


def site(p, s):
    return p.lattice_ref.get_site_by_id(s)


READERS = {
    "measures": lambda p, s: [p.occupation_prob(), p.entropy(), p.entropy_v1(), p.entropy_v2(), p.largest_cluster(), p.order_param_largest_clstr(), p.order_param_wrapping()],
    "entropy_v1": lambda p, s: p.entropy_v1(),
    "critical": lambda p, s: [p.get_pc(), p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc()],
    "series": lambda p, s: [p.get_occupation_prob_array(), p.get_entropy_array(), p.get_order_param_largest_array(), p.get_order_param_wrapping_array()],
    "data": lambda p, s: [list(map(float, r)) for r in p.get_data_array()],
    "sequence": lambda p, s: [p.get_site_id_sequence(), p.get_index_sequence()],
    "signature": lambda p, s: p.get_signature(),
    "view0": lambda p, s: p.viewLattice(0), "view1": lambda p, s: p.viewLattice(1), "view2": lambda p, s: p.viewLattice(2),
    "view3": lambda p, s: p.viewLattice(3), "view4": lambda p, s: p.viewLattice(4), "view-": lambda p, s: p.viewLattice(-1),
    "clusters": lambda p, s: p.viewCluster(),
    "wrapping": lambda p, s: [bool(p.detect_wrapping()), bool(p.detect_wrapping())],
    "bond gids": lambda p, s: sorted(p.get_bond_gids(p.lattice_ref.get_neighbor_bonds(s))),
    "site gids": lambda p, s: sorted(p.get_site_gids(nb(p, s))),
    "neighbours": lambda p, s: [nb(p, s), p.lattice_ref.get_all_neighbor_sites(s), p.lattice_ref.find_neighbor_bonds(s), list(p.lattice_ref.get_neighbor_bonds(s)),
                                [list(p.lattice_ref.get_neighbor_sites(b)) for b in p.lattice_ref.get_neighbor_bonds(s)]],
    "neighbour site": lambda p, s: [p.get_neighbor_site(s, b) for b in p.lattice_ref.get_neighbor_bonds(s)],
    "connected": lambda p, s: p.get_connected_sites(site(p, s), p.lattice_ref.get_neighbor_bonds(s)),
    "unique": lambda p, s: p.uniqe_gid_bond_neighbors(p.lattice_ref.get_neighbor_bonds(s)),
    "wrap test sites": lambda p, s: p.lattice_ref.get_sites_for_wrapping_test(s),
    "relative": lambda p, s: [str(p.get_relative_index(s, t)) for t in nb(p, s)],
    "change": lambda p, s: [str(p.get_change_in_relative_index(site(p, s).get_relative_index(), site(p, t).get_relative_index())) for t in nb(p, s)],
    "correction": lambda p, s: [str(p.wrapping_correction_relative_index(site(p, t).get_relative_index())) for t in nb(p, s)],
    "distance": lambda p, s: [p.lattice_ref.distance_btn_sites(site(p, s), site(p, t)) for t in nb(p, s)],
    "lookups": lambda p, s: [p.lattice_ref.get_site_gid_by_id(s), p.lattice_ref.get_bond_gid_by_id(s), p.lattice_ref.get_site_gid_by_index(site(p, s).get_index()),
                             p.lattice_ref.get_site_by_index(site(p, s).get_index()).get_id(), p.lattice_ref.get_bond_by_index(s // p.lattice_ref.length, s % p.lattice_ref.length, 1).get_id(),
                             p.lattice_ref.calculate_id_from_index(site(p, s).get_index()), list(p.lattice_ref.get_site_id_list())[:3], list(p.lattice_ref.get_bond_id_list())[:3]],
    "pool": lambda p, s: [sorted(p.cluster_pool_ref.get_bonds(s)), sorted(p.cluster_pool_ref.get_sites(s)), p.cluster_pool_ref.get_cluster_bond_count(s),
                          p.cluster_pool_ref.get_cluster_site_count(s), str(p.cluster_pool_ref.get_cluster(s)), p.cluster_pool_ref.get_cluster(s).is_empty()],
    "site": lambda p, s: [str(site(p, s)), site(p, s).is_occupied(), site(p, s).is_root(), site(p, s).is_removable(1), site(p, s).get_nn_count(), site(p, s).test_site(),
                          str(p.lattice_ref.get_bond_by_id(s)), p.lattice_ref.get_bond_by_id(s).test_bond(), p.lattice_ref.get_bond_by_id(s).get_index()],
    "scans": lambda p, s: [p.lattice_ref.scan_sites(), p.lattice_ref.scan_bonds(), p.lattice_ref.test_neighbor_count()],
    "listings": lambda p, s: [p.lattice_ref.list_all_sites(), p.lattice_ref.list_all_bonds(), p.lattice_ref.print_sites(), p.lattice_ref.print_bonds()],
    "self tests": lambda p, s: [tried(p.test_clusters), tried(p.test_lattice), tried(p.lattice_ref.test_relative_index), tried(p.lattice_ref.test_rwo_col_scan)],
    "scan lines": lambda p, s: [p.scan_all_rows(), p.scan_all_cols(), p.get_shortest_path_p()] if hasattr(p, "scan_all_rows") else None,
    "scan line": lambda p, s: p.scan_row_col_of_selected_site(site(p, s).get_index()) if hasattr(p, "scan_row_col_of_selected_site") else None,
    "summary": lambda p, s: p.occupied_summary() if hasattr(p, "occupied_summary") else None,
    "four neighbours": lambda p, s: tried(lambda: sorted(p.get_four_neighbor_sites(s))) if hasattr(p, "get_four_neighbor_sites") else None,
    "direction": lambda p, s: [p.get_next_site_in_direction(s, t) for t in nb(p, s)] if hasattr(p, "get_next_site_in_direction") else None,
}
NAMES = sorted(READERS)


def tried(f):
    try:
        return f()
    except AssertionError:  # a built-in consistency check that does not apply at this point
        return "asserted"


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(("L0", "base", "SP", "L1", "L2")))
    L = draw(st.integers(3, hi))
    N = L * L
    ops = [st.tuples(st.just("step"), st.integers(1, N + 2)), st.tuples(st.just("step"), st.integers(1, 2 * L)), st.just(("run",)), st.just(("reset",))]
    if cls in ("L0", "base", "SP"):
        ops.append(st.tuples(st.just("fresh"), orders(L, L, big=0), st.booleans()))
        if L >= 5:
            ops.append(st.tuples(st.just("fresh"), competing(L, L), st.just(False)))
    else:
        ops.append(st.tuples(st.just("fresh"), st.builds(lambda o: {"L": L, "order": o}, st.lists(st.integers(0, N - 1), min_size=1, max_size=N // 2, unique=True)), st.booleans()))
    reads = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, N - 1)).map(list), max_size=5)
    hist = draw(st.lists(st.tuples(reads, st.one_of(*ops)), min_size=1, max_size=5))
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "hist": [[r, list(o)] for r, o in hist], "during": draw(reads), "every": draw(st.integers(1, 5))}


def strategy(tier):
    return strategy_(6 if tier == "quick" else 9)


def corpus(tier):
    out = []
    for cls in ("L0", "SP", "L1", "L2", "base"):
        for name in NAMES:
            out.append({"cls": cls, "L": 5, "seed": 4, "hist": [[[[name, 7]], ["step", 9]], [[], ["run"]], [[[name, 3]], ["reset"]], [[[name, 11]], ["run"]]],
                        "during": [[name, 2], [name, 12]], "every": 1})
        if cls in ("L0", "SP", "base"):  # the last site lies outside the cluster that wrapped
            out.append({"cls": cls, "L": 6, "seed": 4, "hist": [[[], ["fresh", {"L": 6, "order": [6, 7, 8, 9, 10, 11, 30, 20]}, False]], [[], ["run"]]], "during": [], "every": 1})
            for i, name in enumerate(NAMES):  # the cluster that wrapped is not the largest one
                spec = ENDINGS[(3 * i) % len(ENDINGS)]
                out.append({"cls": cls, "L": spec["L"], "seed": 4, "hist": [[[], ["fresh", spec, False]], [[], ["run"] if i % 2 else ["step", 64]],
                            [[[name, 8]], ["step", 1]], [[], ["fresh", dict(spec, end=None), False]], [[], ["step", 30]]], "during": [[name, 2]], "every": 1})
        out.append({"cls": cls, "L": 18, "seed": 5, "hist": [[[[n, 70 + i] for i, n in enumerate(NAMES)], ["step", 150]], [[], ["run"]], [[], ["reset"]], [[], ["run"]]],
                    "during": [[n, 17 * i % 324] for i, n in enumerate(NAMES)], "every": 40})
        out.append({"cls": cls, "L": 4, "seed": 5, "hist": [[[[n, 7 + i] for n in NAMES], o] for i in range(6) for o in (["run"], ["reset"], ["step", 5], ["reset"])],
                    "during": [[n, i % 16] for i, n in enumerate(NAMES)], "every": 3})
    for cls, L in (("L0", 41), ("SP", 43), ("L1", 42), ("L2", 41), ("L0", 70), ("base", 101), ("L1", 71)):
        out.append({"cls": cls, "L": L, "seed": 5, "hist": [[[[n, 70 + i] for i, n in enumerate(NAMES) if n != "self tests"], ["step", L]], [[["data", 0], ["sequence", 1]], ["run"]]],
                    "during": [["measures", 5], ["data", 6], ["series", 1], ["critical", 1], ["wrapping", 3]], "every": L * L // 7})
    return out


def ask(p, reads, moved=0):
    N = p.lattice_ref.length ** 2
    for name, s in reads:
        s = (s + 7 * moved) % N
        try:
            a, b = READERS[name](p, s), READERS[name](p, s)
        except AttributeError as e:
            if e.obj in (p, p.lattice_ref, p.cluster_pool_ref) and not hasattr(e.obj, e.name):
                continue  # no such reader
            raise
        require(a == b, "asking for %s twice in a row gave %s and then %s", name, str(a)[:200], str(b)[:200])


class Looking(Watch):
    def __init__(self, p, reads, every):
        super().__init__(p)
        self.p, self.reads, self.every = p, reads, every

    def look(self):
        super().look()
        if self.attempts % self.every == 0:
            ask(self.p, self.reads, self.attempts)


def unrolled(p):
    """clusters and the relative coordinates within each, named by their first sites"""
    first, out = {}, []
    for s in range(p.lattice_ref.length ** 2):
        g = p.lattice_ref.get_site_gid_by_id(s)
        if g < 0:
            continue
        i = site(p, s).get_relative_index()
        f = first.setdefault(g, (s, i.x_coord(), i.y_coord()))
        out.append([s, f[0], i.x_coord() - f[1], i.y_coord() - f[2]])
    return out


def play(case, looking):
    p = build(case["cls"], case["L"], seed=case["seed"])
    out = []
    during = case["during"] if looking else []
    for reads, op in case["hist"]:
        if looking:
            ask(p, reads)
        p.__dict__["_vf_calls"] = 0
        if op[0] == "step":
            stp = Stepper(p)
            log = []
            for k in range(op[1]):
                what, s = stp.attempt()
                log.append([what, s])
                if during and k % case["every"] == 0:
                    ask(p, during, k)
                if what == "end":
                    break
                log.append(bool(p.detect_wrapping()))
            out.append(log)
        elif op[0] == "run":
            w = p.__dict__["_vf_watch"] = Looking(p, during, case["every"])
            p.run_once()
            p.__dict__["_vf_watch"] = None
            out.append(w.picks)
        else:
            p.reset()
            if op[0] == "fresh":
                p.set_custome_site_id_list(expand(op[1]), op[2])
        out += [observe(p), unrolled(p)]
    for k in range(2):  # in the end everything is asked, also once more after a last attempt
        if looking:
            ask(p, [[n, 1 + 3 * i] for i, n in enumerate(NAMES)])
        out += [observe(p), unrolled(p)]
        if not k:
            out.append([Stepper(p).attempt(), bool(p.detect_wrapping())])
    return out


def check(case, rec):
    a, b = play(case, False), play(case, True)
    for i, (x, y) in enumerate(zip(a, b)):
        require(x == y, "with readers called in between, part %d of the history is %s, without them %s", i, str(y)[:300], str(x)[:300])
    require(len(a) == len(b), "histories differ in length")
    used = {r[0] for r in case["during"]} | {r[0] for reads, _ in case["hist"] for r in reads}
    rec.nontriv(len(used) >= 2)
    rec.label("cls " + case["cls"])
    for u in used:
        rec.label("reader " + u)
