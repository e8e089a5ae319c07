"""C31 line scans of the shortest-path class report exactly the complete lines of the wrapping cluster."""
from itertools import chain

from hypothesis import strategies as st

from ..core import require
from ..drive import build, known_order_steps, watched_run
from ..gen import BIG, competing, expand, orders
from ..model import Model

EXAMPLES = {"quick": 6750, "thorough": 27000}
RULE = ("placement orders (competing bands, lines, structured, random), stepped by hand beyond the first line, resets in between; after "
        "every placement all scans are compared with the model. Non-trivial: a line is complete in the wrapping cluster and one was complete "
        "outside of it, or lines of both directions occur.")


@st.composite
def strategy_(draw, hi):
    L = draw(st.integers(3, hi))
    fam = orders(L, L, big=0)
    if L >= 6:
        fam = st.one_of(fam, competing(L, L), competing(L, L))
    return {"specs": draw(st.lists(fam, min_size=1, max_size=2)), "ask": draw(st.integers(0, 3)), "run": draw(st.integers(0, 2)) == 0}


def strategy(tier):
    return strategy_(9 if tier == "quick" else 13)


def corpus(tier):
    out = [{"specs": [s], "ask": 1} for s in BIG if s["L"] < 35]
    out += [{"specs": [{"L": L, "segs": [["band", i, 0, i, 4 + i % 2]], "seed": i, "cut": None} for i in range(8)], "ask": 1} for L in (5, 8)]
    out.append({"specs": [{"L": 50, "segs": [["band", 5, 0, 20, 4]], "seed": 4, "cut": None}], "ask": 1})
    for L in (16, 17, 20):
        for a in (0, 1, L - 1):
            for t in (0, 1):
                out.append({"specs": [{"L": L, "segs": [["band", a + L // 2, 0, 3, t], ["row", a, 0, 0, x | 4]], "seed": L + a, "cut": None}
                                      for x in (0, 1)], "ask": 1})
    for L, every in ((40, 30), (70, 90), (103, 250), (130, 500)):
        out += [{"specs": [{"L": L, "segs": [["band", 5, 0, 20, t], ["row", L - 1 - 3 * t, 0, 0, x | 4], ["row", 9, 0, 0, 5 - x]], "seed": L, "cut": 700}], "ask": 1, "every": every, "L": L}
                for t in (0, 1) for x in (0, 1)]
    for L in (7, 20, 33, 65, 80, 129):  # a line that lacks one site
        for gap in (0, 1, L // 2 + 1, L - 2, L - 1):
            for t in (0, 1):
                across = [(r, 3) for r in range(L)]
                along = [(L - 1 - gap // 2, c) for c in range(L) if c not in (3, gap)] + [(L - 1 - gap // 2, gap)]
                out.append({"specs": [{"L": L, "order": [(c * L + r if t else r * L + c) for r, c in across + along]}], "ask": 1, "every": 1 if L < 21 else L - 1})
                if L > 60:
                    out[-1]["L"] = L
    out += [dict(c, run=True) for c in out if c["specs"][0]["L"] < 20]
    return out


def lines(m):
    """complete rows and columns of the followed cluster, and whether some other cluster holds a complete line"""
    L = m.L
    full_r = [r for r in range(L) if m.rows[r] == L]
    full_c = [c for c in range(L) if m.cols[c] == L]
    if not m.wrapped:
        return [], [], bool(full_r or full_c)
    w = m.find(m.wrap_site)
    rows = [r for r in full_r if m.find(r * L) == w]
    cols = [c for c in full_c if m.find(c) == w]
    return rows, cols, len(rows) + len(cols) < len(full_r) + len(full_c)


def check(case, rec):
    L = case["specs"][0]["L"]
    p = build("SP", L)
    selected = getattr(p, "scan_row_col_of_selected_site", None)
    apart = both = False
    for i, spec in enumerate(case["specs"]):
        order = expand(spec)
        if i:
            p.reset()
        require(not p.scan_all_rows() and not p.scan_all_cols(), "a line is reported on an empty lattice")
        p.set_custome_site_id_list(list(order))
        m = Model(L)
        placed = []
        if case.get("run"):  # up to the first line in one run, onwards by hand
            p.__dict__["_vf_calls"] = 0
            placed = watched_run(p)
            require(placed == order[:len(placed)], "the run placed %s, listed are %s", placed[:12], order[:12])
            for s in placed[:-1]:
                m.place(s)
        for s in chain(placed[-1:], known_order_steps(p, order[len(placed):])):
            m.place(s)
            require(bool(p.detect_wrapping()) == m.wrapped, "wrapping misreported after %d placements", m.n)
            every = case.get("every", 1)
            if m.n % every and m.n < len(order):
                continue
            rows, cols, outside = lines(m)
            apart |= outside
            both |= bool(rows) and bool(cols)
            require(bool(p.scan_all_cols()) == bool(rows), "after %d placements the scan over rows says %s, complete are %s", m.n,
                    p.scan_all_cols(), rows)
            require(bool(p.scan_all_rows()) == bool(cols), "after %d placements the scan over columns says %s, complete are %s", m.n,
                    p.scan_all_rows(), cols)
            if m.wrapped and selected is not None and (L * L <= 700 or every > 1):
                for t in {s, order[case["ask"] % m.n], (case["ask"] * 7 + m.n) % (L * L), (3 * m.n + case["ask"]) % (L * L)} | {r * L for r in rows} | set(cols):
                    r, c = divmod(t, L)
                    got = selected(p.lattice_ref.get_site_by_id(t).get_index())
                    want = (r in rows, c in cols)
                    require((bool(got[0]), bool(got[1])) == want, "after %d placements: row and column of site %d complete: %s, reported %s",
                            m.n, t, want, got)
    rec.nontriv(both or (apart and p.scan_all_cols() + p.scan_all_rows() > 0))
    if apart:
        rec.label("complete line outside the wrapping cluster")
    if both:
        rec.label("lines in both directions")
