"""C08 reset = new simulation."""
import contextlib
import io

from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, build, fresh_state, realization
from ..gen import SEEDS, expand, orders
from ..model import closure

EXAMPLES = {"quick": 6750, "thorough": 27000}
RULE = ("class, L, and a history of place(k)/run/reset/set-custom-order operations ending in reset; the state is compared with an "
        "empty lattice in every observable, then a further realization with the model. Non-trivial: the history occupied sites and has at least two operations.")

KINDS = ("L0", "base", "SP", "L1", "L2")


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(KINDS))
    L = draw(st.integers(3, hi))
    ops = [st.tuples(st.just("place"), st.integers(1, L * L + 2)), st.just(("run",)), st.just(("reset",))]
    if cls in ("L0", "base", "SP"):
        ops.append(st.tuples(st.just("custom"), orders(L, L, big=0)))
    else:
        ops.append(st.tuples(st.just("cand"), st.lists(st.integers(0, L * L - 1), min_size=1, max_size=4, unique=True)))
    hist = draw(st.lists(st.one_of(*ops), min_size=1, max_size=6))
    final = draw(st.sampled_from(["step", "run"]))
    order = draw(orders(L, L, big=0)) if cls in ("L0", "base", "SP") and draw(st.booleans()) else None
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "hist": [list(h) for h in hist], "final": final, "order": order}


def strategy(tier):
    return strategy_(7 if tier == "quick" else 10)


def corpus(tier):
    out = []
    for cls in KINDS:
        out.append({"cls": cls, "L": 20, "seed": 3, "hist": [["run"]], "final": "run", "order": None})
        out.append({"cls": cls, "L": 42, "seed": 3, "hist": [["place", 1200], ["reset"], ["place", 30]], "final": "run", "order": None})
        out.append({"cls": cls, "L": 5, "seed": 4, "hist": [["run"], ["reset"]] * 12 + [["place", 9]], "final": "step",
                    "order": None})
    out += [{"cls": c, "L": L, "seed": 3, "hist": [["place", L * L * 2 // 3], ["reset"], ["place", 30]], "final": "run", "order": None} for c, L in (("L0", 70), ("L0", 103), ("SP", 104), ("L1", 70), ("L2", 71))]
    for cls in ("L0", "L1", "L2"):  # many realizations of one simulation
        out.append({"cls": cls, "L": 3, "seed": 4, "hist": [["place", 9], ["reset"]] * 150, "final": "step", "order": None})
        out.append({"cls": cls, "L": 3, "seed": 5, "hist": [["reset"]] * 300 + [["run"]] * 2, "final": "run", "order": None})
    return out


def summary(p):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if hasattr(p, "occupied_summary"):
            p.occupied_summary()
    return out.getvalue()


def check(case, rec):
    L, cls = case["L"], case["cls"]
    p = build(cls, L, seed=case["seed"])
    new = summary(p)
    custom = total = None
    occupied = False
    for op in case["hist"]:
        p.__dict__["_vf_calls"] = 0
        if op[0] == "place":
            st_ = Stepper(p)
            for _ in range(op[1]):
                what, _s = st_.attempt()
                if what == "end":
                    break
                if what == "placed":
                    p.detect_wrapping()
            occupied = occupied or bool(st_.picks)
        elif op[0] == "run":
            p.run_once()
            occupied = True
        elif op[0] == "reset":
            p.reset()
        elif op[0] == "custom":
            p.reset()
            custom = expand(op[1])
            p.set_custome_site_id_list(list(custom))
        elif op[0] == "cand":
            p.reset()
            p.set_custome_site_id_list(list(op[1]))
            # whether the restriction of an L1/L2 simulation outlives the reset is not specified
            total = (L * L, len(closure(cls, L, op[1])))
    p.reset()
    fresh_state(p)
    require(summary(p) == new, "the summary after reset says %r, a new simulation says %r", summary(p), new)
    step = case["final"] == "step"
    if case["order"] is not None:
        custom = expand(case["order"])
        p.set_custome_site_id_list(list(custom))
    if custom is not None:
        realization(p, cls, step, expect=list(custom))
        rec.label("custom order kept")
    else:
        realization(p, cls, step, total=total)
    p.reset()
    fresh_state(p)
    rec.nontriv(occupied and len(case["hist"]) >= 2)
    rec.label("cls " + cls)
    rec.label("history length %d" % len(case["hist"]))
