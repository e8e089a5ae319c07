"""C17 p* is the first filling at which the wrapping cluster holds a straight line."""
from hypothesis import strategies as st

from ..core import require
from ..drive import build, check_critical, close, realization, watched_run
from ..gen import BIG, SEEDS, competing, expand, orders, plain
from ..model import run_model

EXAMPLES = {"quick": 11250, "thorough": 45000}
RULE = ("placement orders (competing bands and rows, structured patterns, permutations, random; partial or complete) or default random "
        "runs, several realizations per object, lists made longer when used up; stopping step, p* and critical values compared with the model. "
        "Non-trivial: a line is completed after wrapping, or the sites run out first after wrapping.")


@st.composite
def strategy_(draw, hi):
    if draw(st.integers(0, 4)) == 0:
        return {"L": draw(st.integers(3, draw(st.sampled_from((hi + 4, hi + 4, hi + 4, 26))))), "seed": draw(SEEDS), "lives": draw(st.integers(1, 3)), "specs": []}
    L = draw(st.integers(3, hi))
    fam = orders(L, L, big=0)
    if L >= 6:
        fam = st.one_of(fam, competing(L, L), competing(L, L), competing(L, L))
    return {"L": L, "seed": draw(SEEDS), "lives": 0, "specs": draw(st.lists(fam, min_size=1, max_size=2)),
            "cuts": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(300, 990), min_size=1, max_size=3, unique=True)))}


def strategy(tier):
    return strategy_(10 if tier == "quick" else 13)


def corpus(tier):
    out = [{"L": s["L"], "seed": 1, "lives": 0, "specs": [s]} for s in BIG if s["L"] < 60]
    out += [{"L": L, "seed": s, "lives": 2, "specs": []} for L, s in ((18, 1), (25, 2), (33, 3), (70, 4), (104, 5))]
    out += [{"L": L, "seed": 3, "lives": 1, "specs": [{"L": L, "segs": [["band", 5, 0, 20, t], ["row", L - 2, 0, 0, x | 4]], "seed": 4, "cut": None}]} for L in (70, 104) for t in (0, 1) for x in (0, 1)]
    out += [{"L": L, "seed": 3, "lives": 20, "specs": []} for L in (3, 5, 9)]
    out += [{"L": L, "seed": 3, "lives": 1, "specs": [{"L": L, "segs": [["band", 5, 0, 20, 4]], "seed": 4, "cut": None}]} for L in (66, 101, 130)]
    out += [{"L": L, "seed": 3, "lives": 0, "specs": [{"L": L, "segs": [["band", i, 0, i, 4 + i % 2]], "seed": i, "cut": None} for i in range(9)]} for L in (5, 8)]
    out += [{"L": s["L"], "seed": 1, "lives": 0, "specs": [s], "cuts": [400, 580, 600, 620, 640, 660, 700]} for s in BIG if s["L"] < 60]
    # larger lattices, the line at either border, next to it or inside; apart from the first band or across it
    for L in (16, 17, 23, 24, 32, 33):
        for a in (0, 1, L // 2, L - 2, L - 1):
            for t in (0, 1):
                band = ["band", a + L // 2, 0, 3, t]
                out.append({"L": L, "seed": 1, "lives": 0, "specs": [
                    {"L": L, "segs": [band, ["row", a, 0, 0, t ^ across | 4]], "seed": L + a, "cut": None} for across in (0, 1)]})
    return out


def one(p, L, rec, expect):
    picks = realization(p, "SP", False, expect=expect)
    m = run_model(L, picks)[1]
    require(p.get_shortest_path_p() == 0 or p.get_shortest_path_p() >= p.get_pc(), "p* below pc")
    rec.nontriv(m.wrapped and m.n > m.pc_n)
    if not m.wrapped:
        rec.label("never wraps")
    elif not m.straight():
        rec.label("sites run out before a line")
    else:
        r, c = divmod(picks[-1], L)
        w = m.find(m.wrap_site)
        own = (m.rows[r] == L and m.find(r * L) == w) or (m.cols[c] == L and m.find(c) == w)
        rec.label("line through the last site" if own else "line joined by a merge elsewhere")


def pieces(p, L, rec, order, cuts):
    """the list is made longer each time it is used up before a line is there, and the run goes on"""
    m = run_model(L, order, stop_straight=True)[1]
    done = 0
    for c in sorted({max(1, len(order) * c // 1000) for c in cuts} | {len(order)}):
        p.set_custome_site_id_list(list(order[:c]))
        picks = watched_run(p)
        stop = min(c, m.n)
        require(picks == order[done:stop], "the run with %d of %d sites listed went on to %d sites, the line is complete after %s", c, len(order), done + len(picks),
                m.n if m.straight() else "none")
        done = stop
        there = m.straight() and stop == m.n
        want = m.p() if there else 0
        require(close(p.get_shortest_path_p(), want, 1e-12), "p* is %r with %d sites listed, expected %r", p.get_shortest_path_p(), c, want)
        check_critical(p, run_model(L, order[:stop])[1])
        if there:
            break
    rec.nontriv(m.wrapped)
    rec.label("list made longer")


def check(case, rec):
    L = case["L"]
    p = build("SP", L, seed=case["seed"])
    for i in range(case["lives"]):
        if i:
            p.reset()
        one(p, L, rec, None)
    for i, spec in enumerate(case["specs"]):
        order = expand(spec)
        if i or case["lives"]:
            p.reset()
        if case.get("cuts"):
            pieces(p, L, rec, order, case["cuts"])
            continue
        p.set_custome_site_id_list(list(order))
        one(p, L, rec, order)
    require(close(p.occupation_prob(), len([1 for s in range(L * L) if p.lattice_ref.get_site_gid_by_id(s) >= 0]) / L ** 2), "p")
