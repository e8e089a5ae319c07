"""C16 reported sequences replay to the same measurements."""
from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, build, close, data_rows, watched_run
from ..gen import SEEDS, expand, orders
from ..model import run_model

EXAMPLES = {"quick": 5250, "thorough": 21000}
RULE = ("class (plain, L1, L2), L, seed, number of realizations, stepped or run, default / custom / shuffled / candidate list; both "
        "sequences of every realization are compared with the observed order, replayed in a plain simulation (series and critical values "
        "must be equal), and checked again after all later realizations. Non-trivial: at least two realizations or L1/L2.")


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(("L0", "base", "L1", "L1", "L2", "L2")))
    L = draw(st.integers(3, hi))
    how = draw(st.sampled_from(("default", "default", "list", "shuffled")))
    spec = draw(orders(L, L, big=0)) if how != "default" else None
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "lives": draw(st.integers(1, 4)), "run": draw(st.booleans()),
            "how": how, "spec": spec, "form": draw(st.sampled_from(("id", "index"))), "share": draw(st.sampled_from((3, 3, 2, 1))), "replay": draw(st.sampled_from(("L0", "base")))}


def strategy(tier):
    return strategy_(7 if tier == "quick" else 10)


def corpus(tier):
    return [{"cls": c, "L": L, "seed": 31, "lives": 2, "run": r, "how": "default", "spec": None, "form": f, "replay": "L0"}
            for c in ("L0", "L1", "L2") for L, r, f in ((18, True, "id"), (21, True, "index"), (5, False, "id"), (37, True, "index"), (71, True, "id"), (104, True, "index"))] + [
        {"cls": c, "L": 4, "seed": 8, "lives": 14, "run": r, "how": h, "spec": {"L": 4, "segs": [], "seed": 1, "cut": 900} if h != "default" else None, "form": "index",
         "share": 3 if r else 1, "replay": "base"} for c, h in (("L0", "default"), ("L0", "list"), ("base", "shuffled"), ("L1", "default"), ("L2", "default"), ("L1", "list"), ("L2", "shuffled")) for r in (False, True)]


def pc_values(p):
    return [p.get_pc(), p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc()]


def check(case, rec):
    L, cls = case["L"], case["cls"]
    p = build(cls, L, seed=case["seed"])
    held = []
    for life in range(case["lives"]):
        if life:
            p.reset()
        p.__dict__["_vf_calls"] = 0
        if case["how"] != "default":
            lst = expand(case["spec"])
            if cls in ("L1", "L2"):
                lst = lst[:max(1, len(lst) // case.get("share", 3))]
            if life % 2 and case["form"] == "index":
                p.set_custome_site_index_list([divmod(s, L) for s in lst], case["how"] == "shuffled")
            else:
                p.set_custome_site_id_list(lst, case["how"] == "shuffled")
        if case["run"]:
            picks = watched_run(p)
        else:
            stp = Stepper(p)
            while stp.next() is not None:
                p.detect_wrapping()
            picks = stp.picks
        ids, idx = p.get_site_id_sequence(), p.get_index_sequence()
        require([int(s) for s in ids] == picks, "reported id sequence starts %s, sites were occupied in the order %s",
                list(ids)[:12], picks[:12])
        require([tuple(t) for t in idx] == [divmod(s, L) for s in picks], "reported index sequence starts %s, sites were occupied in the "
                "order %s", list(idx)[:8], [divmod(s, L) for s in picks][:8])
        held.append((ids, idx, picks))
        q = build(case["replay"], L)
        if case["form"] == "id":
            q.set_custome_site_id_list(ids)
        else:
            q.set_custome_site_index_list(idx)
        q.run_once()
        require(pc_values(p) == pc_values(q), "critical values %s, replay gives %s", pc_values(p), pc_values(q))
        rows, m = run_model(L, picks)
        require([m.pc(), m.pc_sites, m.pc_bonds] == pc_values(p), "critical values %s, the sequence gives %s", pc_values(p),
                [m.pc(), m.pc_sites, m.pc_bonds])
        if case["run"]:
            a, b = data_rows(p), data_rows(q)
            require(len(a) == len(b) == len(picks), "series have %d entries, replay %d, sequence %d", len(a), len(b), len(picks))
            for i, (x, y, z) in enumerate(zip(a, b, rows)):
                require(all(close(u, v) for u, v in zip(x, y)), "step %d: measured %s, replay %s", i, x, y)
                require(all(close(u, v) for u, v in zip(x, z)), "step %d: measured %s, the sequence gives %s", i, x, z)
    p.reset()
    for n, (ids, idx, picks) in enumerate(held):
        require(list(ids) == picks and [tuple(t) for t in idx] == [divmod(s, L) for s in picks],
                "the sequence handed out for realization %d changed afterwards", n)
    rec.nontriv(case["lives"] > 1 or cls in ("L1", "L2"))
    rec.label("cls " + cls)
    rec.label(case["how"])
