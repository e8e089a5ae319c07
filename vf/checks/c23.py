"""C23 printed views show the true state."""
import contextlib
import io
import re

from hypothesis import strategies as st

from ..core import require
from ..drive import start
from ..gen import sim_cases
from ..model import Model

EXAMPLES = {"quick": 5250, "thorough": 21000}
RULE = ("class x lattice x order, stopped at a generated point (and after a reset); every printed view, listing and the cluster list are "
        "parsed (ignoring spacing) and compared with the getters, and the clusters with the model. Non-trivial: some but not all sites occupied, "
        "with a cluster of at least two sites.")


@st.composite
def strategy_(draw, hi, big):
    case = draw(sim_cases(3, hi, big=big))
    if case["spec"].get("cut", 0) is None and draw(st.integers(0, 9)) < 8:
        case["spec"]["cut"] = draw(st.integers(50, 990))
    case["reset"] = draw(st.integers(0, 9)) == 0
    return case


def strategy(tier):
    return strategy_(8 if tier == "quick" else 12, 14 if tier == "quick" else 40)


def corpus(tier):
    return [{"cls": "L0", "spec": {"L": L, "segs": [], "seed": 3, "cut": cut}, "reset": r}
            for L, cut, r in ((33, 500, False), (12, 1000, False), (25, 800, True), (3, 1, False), (34, None, False))] + [
        {"cls": c, "spec": {"L": L, "segs": [], "seed": 3, "cut": cut}, "reset": True}
        for c, L, cut in (("L0", 73, 600), ("L1", 20, 700), ("L2", 21, 700), ("SP", 22, 900), ("base", 35, 620))]


def text(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a)
    return out.getvalue()


def block(t, name):
    a, b = t.find("BEGIN"), t.rfind("END")
    require(0 <= a < b, "%s: no begin and end marks in the text", name)
    lines = t[a:].split("\n")[1:]
    keep = []
    for l in lines:
        if "END" in l:
            break
        if l.strip() and set(l.strip()) - set("-"):
            keep.append(l)
    return keep


PAT = {
    0: re.compile(r"\(\s*(-?\d+)\s*,\s*(-?\d+)\s*(?:,\s*([hv])\s*)?\)"),
    1: re.compile(r"\(\s*(-?\d+)\s*,\s*(-?\d+)\s*\)"),
    2: re.compile(r"(-?\d+)\s*\(\s*(-?\d+)\s*,\s*(-?\d+)\s*\)"),
}


def ints(line):
    return [int(v) for v in re.findall(r"-?\d+", line)]


def lattice_views(p, L):
    lat = p.lattice_ref
    N = L * L
    sg = [lat.get_site_gid_by_id(s) for s in range(N)]
    bg = [lat.get_bond_gid_by_id(b) for b in range(2 * N)]
    rel = [(r.x_coord(), r.y_coord()) for r in (lat.get_site_by_id(s).get_relative_index() for s in range(N))]
    require(text(p.viewLattice) == text(p.viewLattice, 0), "the view without a format is not the first one")
    for fmt in (0, 1, 2):
        lines = block(text(p.viewLattice, fmt), "view %d" % fmt)
        tok = [t for l in lines for t in PAT[fmt].findall(l)]
        want = []
        for r in range(L):
            for v in (0, 1):
                for c in range(L):
                    s = r * L + c
                    items = [("s", s), ("b", s)] if v == 0 else [("b", N + s)]
                    for what, i in items:
                        if fmt == 0:
                            want.append((str(r), str(c), "" if what == "s" else "hv"[v]))
                        elif fmt == 1:
                            want.append((str(sg[i] if what == "s" else bg[i]), str(i)))
                        else:
                            want.append((str(i), str(r), str(c)))
        require(len(tok) == len(want), "view %d shows %d items, the lattice has %d", fmt, len(tok), len(want))
        for k, (a, b) in enumerate(zip(tok, want)):
            require(a == b, "view %d: item %d shows %s, it is %s", fmt, k, a, b)
    rows = [l for l in block(text(p.viewLattice, 3), "view 3") if "<" in l]
    require(len(rows) == L, "view 3 shows %d rows", len(rows))
    for r, l in enumerate(rows):
        head, rest = l.split("|", 1)
        require(ints(head) == [r], "view 3: row %d is headed %r", r, head)
        cells = [tuple(int(v) for v in t) for t in re.findall(r"(-?\d+)\s*<\s*(-?\d+)\s*,\s*(-?\d+)\s*>", rest)]
        want = [(sg[r * L + c],) + rel[r * L + c] for c in range(L)]
        require(cells == want, "view 3, row %d shows %s, it is %s", r, cells, want)
    rows = [l.split("|") for l in block(text(p.viewLattice, 4), "view 4")]
    rows = [l for l in rows if l[0].strip()]
    require(len(rows) == L, "view 4 shows %d rows", len(rows))
    for r, l in enumerate(rows):
        got = [int(v) for v in l if v.strip()]
        want = [r] + sg[r * L:(r + 1) * L]
        require(got == want, "view 4, row %d shows %s, it is %s", r, got, want)
    require("undefined" in text(p.viewLattice, -1), "a negative format is not called undefined")
    # listings
    got = [v for v in map(ints, text(lat.list_all_sites).split("\n")) if v]
    want = [[s, sg[s], *divmod(s, L), *rel[s], *lat.get_neighbor_bonds(s)] for s in range(N)]
    require(got == want, "list_all_sites differs from the lattice: %s", next((z for z in zip(got, want) if z[0] != z[1]), "length"))
    got = [v for v in map(ints, text(lat.list_all_bonds).split("\n")) if v]
    want = [[b, bg[b], b // N, *divmod(b % N, L), *lat.get_neighbor_sites(b)] for b in range(2 * N)]
    require(got == want, "list_all_bonds differs from the lattice: %s", next((z for z in zip(got, want) if z[0] != z[1]), "length"))
    got = [v for v in map(ints, text(lat.print_sites).split("\n")) if v]
    want = [[s, sg[s], s, *lat.get_neighbor_bonds(s)] for s in range(N)]
    require(got == want, "print_sites differs from the lattice: %s", next((z for z in zip(got, want) if z[0] != z[1]), "length"))
    got = [v for v in map(ints, text(lat.print_bonds).split("\n")) if v]
    want = [[b, bg[b], b, *lat.get_neighbor_sites(b)] for b in range(2 * N)]
    require(got == want, "print_bonds differs from the lattice: %s", next((z for z in zip(got, want) if z[0] != z[1]), "length"))


CLUSTER = re.compile(r"cluster\s*\[\s*(-?\d+)\s*\]\s*\(\s*gid\s*(-?\d+)\s*\)\s*:?\s*\{\s*"
                     r"sites\s*\(\s*(\d+)\s*\)\s*\[([^\]]*)\]\s*bonds\s*\(\s*(\d+)\s*\)\s*\[([^\]]*)\]\s*\}")


def cluster_view(p, m):
    t = text(p.viewCluster)
    n = re.findall(r"[Nn]umber of clusters\s*:?\s*(\d+)", t)
    sites, bonds = {}, {}
    for b in range(m.B):
        bonds.setdefault(m.bond_label(b), []).append(b)
    for s in m.order:
        sites.setdefault(m.site_label(s), []).append(s)
    require(n == [str(len(bonds))], "the cluster list counts %s clusters, there are %d", n, len(bonds))
    shown = CLUSTER.findall(t)
    require(len(shown) == len(bonds), "the cluster list shows %d clusters, there are %d", len(shown), len(bonds))
    seen = set()
    for cid, gid, ns, ss, nb, bs in shown:
        ss, bs = ints(ss), ints(bs)
        require(bs, "the cluster list shows cluster %s without bonds", cid)
        lab = m.bond_label(bs[0])
        require(lab not in seen, "the cluster list shows the cluster of bond %d twice", bs[0])
        seen.add(lab)
        require(sorted(bs) == sorted(bonds[lab]) and int(nb) == len(bs), "cluster %s is shown with bonds (%s) %s, it has %s", cid, nb,
                sorted(bs), sorted(bonds[lab]))
        require(sorted(ss) == sorted(sites.get(lab, [])) and int(ns) == len(ss), "cluster %s is shown with sites (%s) %s, it has %s", cid, ns,
                sorted(ss), sorted(sites.get(lab, [])))
        g = p.lattice_ref.get_bond_gid_by_id(bs[0])
        require(int(gid) == g == int(cid), "cluster shown as [%s] (gid %s) carries label %s", cid, gid, g)
        c = p.cluster_pool_ref.get_cluster(g)
        require(ints(str(c)) == [g, g, len(ss), len(bs)], "cluster %d describes itself as %s", g, c)


def check(case, rec):
    p, steps, L = start(case)
    m = Model(L)
    for s in steps:
        m.place(s)
        if m.n % 5 == 1:
            p.detect_wrapping()
    lattice_views(p, L)
    cluster_view(p, m)
    rec.nontriv(m.n < m.N and (m.max_merge > 0 or m.largest > 4))
    rec.label("cls " + case["cls"])
    rec.label("full" if m.n == m.N else "partial")
    if case["reset"]:
        p.reset()
        lattice_views(p, L)
        cluster_view(p, Model(L))
        rec.label("after reset")
