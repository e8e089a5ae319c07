"""C21 a stored single realization is self-consistent and replayable."""
import json
import os
import random

from hypothesis import strategies as st

from .. import files
from ..core import fail, require
from ..drive import build, close
from ..gen import SEEDS
from ..model import run_model

EXAMPLES = {"quick": 3750, "thorough": 15000}
RULE = ("class, L, random state; the stored file is compared with the sites really occupied, the reference model, and a replay of either "
        "stored sequence in a plain simulation. Every case is non-trivial except L = 3.")

KEYS = ("length", "L", "site_id_sequence", "site_index_sequence", "pc", "site_count_wrapping_cluster_pc",
        "bond_count_wrapping_cluster_pc", "entropy_list", "order_largest_list", "order_wrapping_list")


@st.composite
def strategy_(draw, hi):
    return {"cls": draw(st.sampled_from(("L0", "base", "L1", "L2"))), "L": draw(st.integers(3, hi)), "rng": draw(SEEDS)}


def strategy(tier):
    return strategy_(9 if tier == "quick" else 13)


def corpus(tier):
    return [{"cls": c, "L": 20, "rng": 4} for c in ("L0", "L1", "L2")] + [
        {"cls": c, "L": L, "rng": L} for c, L in (("L0", 24), ("base", 33), ("L1", 27), ("L2", 26), ("L0", 40), ("L0", 71), ("base", 103), ("L1", 70), ("L2", 69), ("L1", 101))]


def check(case, rec):
    from run_py import rsbd_percolatioin_run as drv
    L = case["L"]
    cls, done = files.recording(case["cls"])
    random.seed(case["rng"])
    with files.scratch():
        drv.single_realization(cls, L)
        names = os.listdir("data")
        require(len(names) == 1, "%d files were written", len(names))
        with open(os.path.join("data", names[0])) as f:
            text = f.read()
        try:
            d = json.loads(text.lstrip("# "))
        except ValueError as e:
            fail("the stored file is not JSON: %s" % e)
    for key in KEYS:
        require(key in d, "the stored file has no %s", key)
    runs = done()
    require(len(runs) == 1, "%d realizations were run", len(runs))
    picks = runs[0]
    require(d["length"] == L and d["L"] == L, "length %r / %r stored for L=%d", d["length"], d["L"], L)
    require(d["site_id_sequence"] == picks, "stored id sequence starts %s, sites were occupied in the order %s", d["site_id_sequence"][:10],
            picks[:10])
    require([tuple(t) for t in d["site_index_sequence"]] == [divmod(s, L) for s in picks], "stored index sequence starts %s, sites were "
            "occupied in the order %s", d["site_index_sequence"][:6], [divmod(s, L) for s in picks][:6])
    rows, m = run_model(L, picks)

    def same(what, got, want):
        require(len(got) == len(want), "stored %s has %d entries, expected %d", what, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            require(close(a, b), "stored %s entry %d is %r, expected %r", what, i, a, b)

    def compare(pc, sites, bonds, H, big, wrap, who):
        require(close(d["pc"], pc, 1e-12), "stored pc %r, %s gives %r", d["pc"], who, pc)
        require(d["site_count_wrapping_cluster_pc"] == sites, "stored site count %r, %s gives %r", d["site_count_wrapping_cluster_pc"], who,
                sites)
        require(d["bond_count_wrapping_cluster_pc"] == bonds, "stored bond count %r, %s gives %r", d["bond_count_wrapping_cluster_pc"], who,
                bonds)
        same("entropy_list against " + who, d["entropy_list"], H)
        same("order_largest_list against " + who, d["order_largest_list"], big)
        same("order_wrapping_list against " + who, d["order_wrapping_list"], wrap)

    compare(m.pc(), m.pc_sites, m.pc_bonds, [r[1] for r in rows], [r[2] for r in rows], [r[3] for r in rows], "the model")
    for form in ("id", "index"):
        q = build("L0", L)
        if form == "id":
            q.set_custome_site_id_list(d["site_id_sequence"])
        else:
            q.set_custome_site_index_list(d["site_index_sequence"])
        q.run_once()
        compare(q.get_pc(), q.get_site_count_wrapping_cluster_pc(), q.get_bond_count_wrapping_cluster_pc(), list(q.get_entropy_array()),
                list(q.get_order_param_largest_array()), list(q.get_order_param_wrapping_array()), "replay by " + form)
    rec.nontriv(L > 3)
    rec.label("cls " + case["cls"])
