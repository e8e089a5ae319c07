"""C09 one aligned row per placed site."""
from hypothesis import strategies as st

from ..core import require
from ..drive import TOL, Stepper, build, check_rows, close, data_rows, watched_run
from ..gen import SEEDS, expand, orders
from ..model import Model

EXAMPLES = {"quick": 6750, "thorough": 27000}
RULE = ("class, L and a history of run / reset / place(k) / set-custom-order (replacing or extending) operations; after every "
        "operation the four series and the data table are compared with a ledger kept by the harness and the model. "
        "Non-trivial: at least two runs or a run after manual placements.")


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(("L0", "base", "L0", "L1", "L2")))
    L = draw(st.integers(3, hi))
    ops = [st.tuples(st.just("place"), st.integers(1, L * L)), st.just(("run",)), st.just(("run",)), st.just(("reset",))]
    if cls in ("L0", "base"):
        o = orders(L, L, big=0)
        ops += [st.tuples(st.just("custom"), o), st.tuples(st.just("extend"), st.integers(1, L * L))]
    else:
        ops.append(st.tuples(st.just("custom"), st.lists(st.integers(0, L * L - 1), min_size=1, max_size=L * L // 2, unique=True)))
    hist = draw(st.lists(st.one_of(*ops), min_size=1, max_size=8))
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "hist": [list(h) for h in hist]}


def strategy(tier):
    return strategy_(6 if tier == "quick" else 9)


def corpus(tier):
    out = [{"cls": c, "L": 18, "seed": 5, "hist": [["run"], ["reset"], ["run"]]} for c in ("L0", "base", "L1", "L2")]
    out += [{"cls": c, "L": 4, "seed": 5, "hist": [["run"], ["reset"], ["place", 3], ["run"], ["reset"]] * 6 + [["run"]]} for c in ("L0", "base", "L1", "L2")]
    out += [{"cls": c, "L": 44, "seed": 5, "hist": [["run"]]} for c in ("L0", "L1")]
    out += [{"cls": c, "L": L, "seed": 5, "hist": [["run"], ["reset"], ["place", 50], ["run"]]} for c, L in (("L0", 71), ("base", 102), ("L0", 131), ("L1", 72), ("L2", 73))]
    part = {"L": 5, "segs": [["row", 1, 0, 0, 0]], "seed": 1, "cut": 300}
    out.append({"cls": "L0", "L": 5, "seed": 1, "hist": [["run"], ["custom", part], ["run"], ["extend", 9], ["run"]]})
    out.append({"cls": "L0", "L": 4, "seed": 1, "hist": [["run"], ["reset"], ["place", 5], ["run"]]})
    return out


def check(case, rec):
    L, cls = case["L"], case["cls"]
    p = build(cls, L, seed=case["seed"])
    m = Model(L)
    ledger = []
    current = None
    runs = 0
    manual_then_run = False

    def verify():
        for name, i, tol in (("get_occupation_prob_array", 0, 1e-12), ("get_entropy_array", 1, TOL),
                             ("get_order_param_largest_array", 2, 1e-10), ("get_order_param_wrapping_array", 3, 1e-10)):
            got = list(getattr(p, name)())
            require(len(got) == len(ledger), "%s() has %d entries, %d sites were placed while running since the last reset",
                    name, len(got), len(ledger))
            for k, (a, b) in enumerate(zip(got, ledger)):
                require(close(a, b[i], tol), "%s() entry %d is %r, expected %r", name, k, a, b[i])
        if ledger:
            check_rows(data_rows(p), ledger)

    for op in case["hist"]:
        p.__dict__["_vf_calls"] = 0
        if op[0] == "place":
            stp = Stepper(p)
            for _ in range(op[1]):
                what, s = stp.attempt()
                if what == "end":
                    break
                if what == "placed":
                    m.place(s)
                    p.detect_wrapping()
        elif op[0] == "run":
            if m.n:
                manual_then_run = True
            for s in watched_run(p):
                m.place(s)
                ledger.append(m.row())
            runs += 1
        elif op[0] == "reset":
            p.reset()
            m, ledger = Model(L), []
        elif op[0] == "custom":
            p.reset()
            m, ledger = Model(L), []
            current = expand(op[1]) if isinstance(op[1], dict) else list(op[1])
            p.set_custome_site_id_list(list(current))
        elif op[0] == "extend" and current is not None:
            have = set(current)
            current = current + [s for s in range(L * L) if s not in have][:op[1]]
            p.set_custome_site_id_list(list(current))
        verify()
    rec.nontriv(runs >= 2 or manual_then_run)
    rec.label("cls " + cls)
    if manual_then_run:
        rec.label("run continues an earlier state")
    if current is not None:
        rec.label("custom order")
    if runs >= 2:
        rec.label("several runs")
