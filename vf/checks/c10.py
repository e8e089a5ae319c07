"""C10 custom orders are followed exactly."""
from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, build, occupied_set, watched_run
from ..gen import SEEDS, expand, orders

EXAMPLES = {"quick": 9000, "thorough": 36000}
RULE = ("class (plain, shortest-path), distinct site list, form (ids, tuples, lists, Index objects), shuffle flag, a number of "
        "replays after reset, an optional extension; order observed on the lattice. Non-trivial: list of >= 4 sites that is "
        "not sorted.")


def regular(L, k, part):
    """complete (or, with part, half) lists in a regular order"""
    N = L * L
    ids = list(range(N))
    rows = [ids[i * L:i * L + L] for i in range(L)]
    out = [ids, ids[::-1], [r[j] for j in range(L) for r in rows], [r[j] for j in range(L) for r in rows][::-1],
           [s for i, r in enumerate(rows) for s in (r[::-1] if i % 2 else r)], [s for r in rows for s in r[::-1]], [s for r in rows[::-1] for s in r],
           ids[::2] + ids[1::2], ids[N // 2:] + ids[:N // 2], [s for p in zip(ids, ids[::-1]) for s in p][:N] if N % 2 == 0 else
           [s for p in zip(ids, ids[::-1]) for s in p][:N - 1] + [N // 2]][k]
    return {"L": L, "order": out[:max(1, N // 2)] if part else out}


@st.composite
def strategy_(draw, hi):
    spec = draw(orders(3, hi, big=16))
    if draw(st.integers(0, 5)) == 3:
        spec = regular(draw(st.integers(3, hi)), draw(st.integers(0, 9)), draw(st.booleans()))
    return {"cls": draw(st.sampled_from(("L0", "base", "SP"))), "spec": spec,
            "form": draw(st.sampled_from(("id", "tuple", "list", "Index"))), "shuffle": draw(st.booleans()),
            "replays": draw(st.integers(0, 2)), "extend": draw(st.integers(0, 6)), "seed": draw(SEEDS),
            "before": draw(st.integers(0, 3)), "run": draw(st.booleans()),
            "other": draw(st.sampled_from((None, None, "id", "tuple", "Index"))), "partial": draw(st.one_of(st.none(), st.integers(0, 1000))),
            "broken": draw(st.one_of(st.none(), st.integers(0, 999)))}


def strategy(tier):
    return strategy_(8 if tier == "quick" else 12)


def corpus(tier):
    big = {"L": 30, "segs": [], "seed": 77, "cut": 900}
    return [{"cls": "L0", "spec": big, "form": f, "shuffle": s, "replays": 1, "extend": 3, "seed": 1, "before": 0,
             "run": False} for f in ("id", "tuple", "Index") for s in (False, True)] + \
        [{"cls": c, "spec": {"L": 5, "segs": [], "seed": 3, "cut": 800}, "form": f, "shuffle": s, "replays": 12, "extend": 2, "seed": 1, "before": 2, "run": r}
         for c in ("L0", "SP") for f in ("id", "tuple") for s in (False, True) for r in (False, True)] + \
        [{"cls": "base", "spec": {"L": 60, "segs": [], "seed": 9, "cut": 950}, "form": f, "shuffle": False, "replays": 1, "extend": 3, "seed": 1, "before": 0, "run": True}
         for f in ("id", "Index")] + \
        [{"cls": c, "spec": {"L": L, "segs": [], "seed": 9, "cut": 950}, "form": f, "shuffle": s, "replays": 1, "extend": 3, "seed": 1, "before": 0, "run": True}
         for f in ("id", "tuple") for c, L, s in (("L0", 71, False), ("L0", 102, True), ("SP", 103, False), ("base", 130, False))] + \
        [{"cls": "L0", "spec": regular(L, k, part), "form": f, "shuffle": False, "replays": 1, "extend": 3, "seed": 1, "before": k % 2, "run": True, "broken": (None, 500, 900)[(k + part) % 3],
          "other": (None, "id", "tuple")[k % 3], "partial": (None, 0, 300, 999)[k % 4]}
         for f in ("id", "tuple") for L in (3, 4, 9) for k in range(10) for part in (False, True)]


def check(case, rec):
    L = case["spec"]["L"]
    order = expand(case["spec"])
    p = build(case["cls"], L, seed=case["seed"])
    for _ in range(case["before"]):  # an earlier life of the object
        p.run_once()
        p.reset()

    def set_list(seq, shuffle, form=case["form"]):
        flag = (shuffle,) if shuffle or len(seq) % 2 else ()  # in the given order is also what happens by default
        if form == "id":
            p.set_custome_site_id_list(list(seq), *flag)
            return
        from source_py.simulation.index import Index
        conv = {"tuple": tuple, "list": list, "Index": lambda t: Index(t[0], t[1])}[form]
        p.set_custome_site_index_list([conv(divmod(s, L)) for s in seq], *flag)

    def play(expected, shuffled):
        p.__dict__["_vf_calls"] = 0
        if case["run"] and case["cls"] != "SP":
            picks = watched_run(p)
        else:
            stp = Stepper(p)
            while True:
                what, _ = stp.attempt()
                if what == "end":
                    break
                require(what == "placed", "an attempt with sites left placed nothing")
                p.detect_wrapping()
            picks = stp.picks
        if shuffled:
            require(sorted(picks) == sorted(expected), "shuffled list: occupied %s, listed %s", sorted(picks), sorted(expected))
        else:
            require(picks == expected, "occupied %s..., listed %s...", picks[:15], expected[:15])
        require(not p.place_one_site(), "a site was placed after the list was used up")
        return picks

    have = set(order)
    extra = [s for s in range(L * L) if s not in have][::-1][:case["extend"]]
    if case.get("other"):  # another list, given in whatever form and then replaced before anything is placed
        set_list(order[::-1][:1 + len(order) // 2] + extra, not case["shuffle"], case["other"])
        rec.label("replaced list")
    if case.get("partial") is not None:  # replaced by a longer (or the same) list while part of it is placed
        k = case["partial"] * len(order) // 1000
        set_list(order, False)
        stp = Stepper(p)
        for s in order[:k]:
            require(stp.attempt() == ("placed", s), "site %d was not placed in its turn", s)
        set_list(order + extra, False, case.get("other") or case["form"])
        play(order[k:] + extra, False)
        p.reset()
        rec.label("extended half-way")
    set_list(order, case["shuffle"])
    announced = list(p.get_site_id_sequence())
    require(sorted(announced) == sorted(order), "announced sequence is not the list given")
    require([tuple(t) for t in p.get_index_sequence()] == [divmod(s, L) for s in announced],
            "index sequence and id sequence differ")
    picks = play(order, case["shuffle"])
    require(picks == announced, "occupied %s..., announced %s...", picks[:15], announced[:15])
    if case["extend"]:
        if extra:
            set_list(order + extra, False)
            play(extra, False)
            require(occupied_set(p) == have | set(extra), "extension changed other sites")
            rec.label("extended")
            p.reset()
            set_list(order, case["shuffle"])
            announced = list(p.get_site_id_sequence())
            require(play(order, case["shuffle"]) == announced, "order differs from the announced one")
    for _ in range(case["replays"]):
        p.reset()
        if case.get("broken") is not None:  # broken off after some sites
            announced = list(p.get_site_id_sequence())
            stp = Stepper(p)
            for s in announced[:case["broken"] * len(order) // 1000]:
                require(stp.attempt() == ("placed", s), "site %d was not placed in its turn", s)
                if case["run"]:
                    p.detect_wrapping()
            p.reset()
            rec.label("replay after one broken off")
        announced = list(p.get_site_id_sequence())
        picks = play(order, case["shuffle"])
        require(picks == announced, "replay: occupied %s..., announced %s...", picks[:15], announced[:15])
        rec.label("replay")
    rec.nontriv(len(order) >= 4 and order != sorted(order))
    rec.label("form " + case["form"])
    rec.label("shuffled" if case["shuffle"] else "in order")
