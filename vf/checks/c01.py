"""C01 geometry of the periodic lattice."""
from hypothesis import strategies as st

from ..core import require
from ..drive import build
from ..gen import SEEDS
from ..model import STEPS, bond_of, neighbour

EXAMPLES = {"quick": 800, "thorough": 3200}
RULE = ("a case is a side length L and a few sites/bonds to convert; every site and bond of the lattice is compared "
        "with torus arithmetic. Non-trivial: L >= 3 (L = 2 has doubled adjacencies).")


def strategy(tier):
    hi = 40 if tier == "quick" else 90
    L = st.one_of(st.integers(2, 12), st.integers(2, hi))
    return st.fixed_dictionaries({"L": L, "probe": st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6),
                                  "life": st.one_of(st.none(), st.tuples(st.sampled_from(("L0", "base", "SP", "L1", "L2")), st.integers(0, 100), SEEDS).map(list))})


def corpus(tier):
    return [{"L": n, "probe": [1], "life": [c, 70, n]} for n in (3, 4, 7, 33) for c in ("L0", "L1", "L2", "SP")] + [{"L": n, "probe": [n * n - 1, 2 * n * n - 1]} for n in list(range(2, 66)) + [98, 100, 101, 103, 128, 129, 187, 256, 301, 512] + ([] if tier == "quick" else list(range(66, 260)) + [1024])]


def geometry(lat, L, used):
    from source_py.simulation.index import Index
    N = L * L
    require(lat.length == L and lat.site_count == N and lat.bond_count == 2 * N, "wrong counts for L=%d", L)
    require(list(lat.get_site_id_list()) == list(range(N)), "site id list is not 0..L^2-1")
    require(list(lat.get_bond_id_list()) == list(range(2 * N)), "bond id list is not 0..2L^2-1")

    def ask(name, *args, otherwise):
        """small helpers may go; while they exist they have to be right"""
        return getattr(lat, name)(*args) if hasattr(lat, name) else otherwise

    for s in range(N):
        site = lat.get_site_by_id(s)
        r, c = divmod(s, L)
        require(site.get_id() == s, "site %d has id %s", s, site.get_id())
        idx = site.get_index()
        require((idx.row(), idx.column()) == (r, c), "site %d has index %s", s, idx)
        require(lat.calculate_id_from_index(idx) == s, "index->id of site %d gives %s", s, lat.calculate_id_from_index(idx))
        want_b = [bond_of(L, s, d) for d in range(4)]
        want_s = [neighbour(L, s, d) for d in range(4)]
        got = list(site.connecting_bonds())
        require(sorted(got) == sorted(want_b), "L=%d: site %d has bonds %s, expected %s", L, s, got, want_b)
        require(len(set(got)) == 4, "site %d has repeated bonds %s", s, got)
        require(sorted(lat.get_neighbor_bonds(s)) == sorted(want_b), "get_neighbor_bonds(%d) wrong", s)
        require(sorted(ask("find_neighbor_bonds", s, otherwise=want_b)) == sorted(want_b), "find_neighbor_bonds(%d) wrong", s)
        dirs = [ask(n + "_bond_of_site", s, otherwise=w) for n, w in zip(("right", "bottom", "left", "top"), want_b)]
        require(dirs == want_b, "L=%d: right/bottom/left/top bonds of site %d are %s, expected %s", L, s, dirs, want_b)
        for q in (lat.get_all_neighbor_sites(s), ask("get_site_neighbor_of_site", s, otherwise=want_s)):
            require(sorted(q) == sorted(want_s), "L=%d: neighbours of site %d are %s, expected %s", L, s, q, want_s)
        require(used or not site.is_occupied() and site.get_gid() == -1, "new site %d is occupied", s)
        require(ask("get_id_from_index", r, c, otherwise=s) == s, "get_id_from_index(%d,%d) wrong", r, c)
        require(tuple(ask("get_row_col_from_id", s, otherwise=(r, c))) in ((c, r), (r, c)), "get_row_col_from_id(%d) wrong", s)
        require(lat.get_site_by_index(Index(r, c)).get_id() == s, "get_site_by_index(%d,%d) returns another site", r, c)
        for d, t in enumerate(want_s):
            dr, dc = STEPS[d]
            dist = tuple(ask("distance_btn_sites", site, lat.get_site_by_id(t), otherwise=(abs(dr), abs(dc))))
            require(dist == (abs(dr), abs(dc)), "distance between neighbours %d and %d is %s", s, t, dist)
    for b in range(2 * N):
        bond = lat.get_bond_by_id(b)
        t, k = divmod(b, N)
        r, c = divmod(k, L)
        require(bond.get_id() == b, "bond %d has id %s", b, bond.get_id())
        require(tuple(bond.get_index()) == (t, r, c), "bond %d has index %s", b, bond.get_index())
        require(lat.calculate_id_from_index(bond.get_index()) == b, "index->id of bond %d wrong", b)
        want = sorted([k, neighbour(L, k, t)])
        require(sorted(bond.connected_sites()) == want, "L=%d: bond %d joins %s, expected %s", L, b,
                bond.connected_sites(), want)
        require(sorted(lat.get_neighbor_sites(b)) == want, "get_neighbor_sites(%d) wrong", b)
        require(lat.get_bond_by_index(r, c, t).get_id() == b, "get_bond_by_index(%d,%d,%d) returns another bond", r, c, t)
        require(used or bond.get_gid() == -1, "new bond %d carries a label", b)


def check(case, rec):
    from source_py.simulation.index import Index
    from source_py.simulation.lattice import Lattice
    L = case["L"]
    N = L * L
    lat = Lattice(L)
    geometry(lat, L, False)
    life = case.get("life")
    if life and L >= 3:  # nothing a simulation does to its lattice changes the geometry
        cls, part, seed = life
        p = build(cls, L, seed=seed)
        geometry(p.lattice_ref, L, True)
        for k in range(1 + part * N // 100):
            if not p.place_one_site():
                break
            p.detect_wrapping()
        geometry(p.lattice_ref, L, True)
        p.reset()
        geometry(p.lattice_ref, L, True)
        p.run_once()
        geometry(p.lattice_ref, L, True)
        rec.label("in a simulation")
    # labels set through the lattice are read back from exactly that element; wrapping-test neighbours follow labels
    marked = {}
    for i, x in enumerate(case["probe"]):
        s = x % N
        lat.set_site_gid_by_id(s, 5 + i % 2)
        marked[s] = 5 + i % 2
        for t in (neighbour(L, s, x % 4),):
            lat.set_site_gid_by_id(t, 5)
            marked[t] = 5
        b = x % (2 * N)
        lat.set_bond_gid_by_id(b, i + 3)
        require(lat.get_bond_gid_by_id(b) == i + 3 == lat.get_bond_by_id(b).get_gid(), "bond label not read back")
    for s in range(N):
        require(lat.get_site_gid_by_id(s) == marked.get(s, -1), "site %d label is %s", s, lat.get_site_gid_by_id(s))
        require(lat.get_site_gid_by_index(Index(*divmod(s, L))) == marked.get(s, -1), "label by index of %d wrong", s)
    for s in marked:
        want = sorted(neighbour(L, s, d) for d in range(4) if marked.get(neighbour(L, s, d), -1) == marked[s])
        require(sorted(lat.get_sites_for_wrapping_test(s)) == want, "same-cluster neighbours of %d wrong", s)
    lat.reset()
    require(all(lat.get_site_gid_by_id(s) == -1 for s in range(N)), "reset lattice still has labelled sites")
    require(all(lat.get_bond_gid_by_id(b) == -1 for b in range(2 * N)), "reset lattice still has labelled bonds")
    for s in list(marked)[:4]:
        require(sorted(lat.get_neighbor_bonds(s)) == sorted(bond_of(L, s, d) for d in range(4)),
                "reset changed the geometry at site %d", s)
    rec.nontriv(L >= 3)
    rec.label("L=2" if L == 2 else "L odd" if L % 2 else "L even")
