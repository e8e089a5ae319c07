"""C15 truthful placement steps; every run ends and fills exactly what it should."""
from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, build, observe, occupied_set, watched_run
from ..gen import SEEDS
from ..model import closure

EXAMPLES = {"quick": 8250, "thorough": 33000}
RULE = ("class, L, seed, an optional custom list (candidates for L1/L2), shuffle flag, resets; every attempt is compared with the "
        "difference of the lattice before and after it and with the selection flag, every observable must be unchanged by a spent "
        "or final attempt; the final filling is compared with the closure of the list; in a third of the cases lists are also replaced in the middle of a run. Non-trivial: L1/L2, or a custom list.")
CASE_CPU_SECONDS = 60
FLAGS = {"placed": "SUCESS", "spent": "CURRENT_SITE_NOT_EMPTY", "end": "EMPTY_SITE_LIST"}


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(("L0", "base", "SP", "L1", "L1", "L2", "L2")))
    L = draw(st.integers(3, hi))
    cand = None
    if draw(st.integers(0, 2)):
        n = draw(st.one_of(st.integers(1, 3), st.integers(1, L * L)))
        cand = draw(st.permutations(range(L * L)))[:n]
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "cand": cand, "form": draw(st.sampled_from(("id", "index"))),
            "shuffle": draw(st.booleans()), "lives": draw(st.integers(1, 3)), "run": draw(st.integers(0, 3)) == 0,
            "after": draw(st.integers(1, 4)), "set_at": draw(st.sampled_from((0, 0, 0, 1))),
            "once": draw(st.integers(0, 2)) == 0,
            "switch": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, L * L), min_size=2, max_size=4)))}


def strategy(tier):
    return strategy_(5 if tier == "quick" else 8)


def corpus(tier):
    base = {"seed": 9, "cand": None, "form": "id", "shuffle": False, "lives": 2, "run": True, "after": 2, "set_at": 0}
    out = [dict(base, cls=c, L=L) for c in ("L0", "SP", "L1", "L2") for L in (3, 19, 28)]
    out += [dict(base, cls=c, L=20, cand=[399, 0, 210, 20]) for c in ("L1", "L2", "L0")]
    out += [dict(base, cls=c, L=L, lives=12, run=r, cand=k) for c in ("L0", "base", "SP", "L1", "L2") for L, r in ((4, False), (5, True)) for k in (None, [3, 0, 9])]
    out += [dict(base, cls=c, L=L, lives=3, run=r, once=True, cand=k) for c in ("L1", "L2") for r in (True, False)
            for L, k in ((3, [4]), (5, [1, 2, 3]), (15, list(range(100, 130))))]
    out += [dict(base, cls=c, L=5, run=r, lives=1, switch=v) for c in ("L0", "base", "SP", "L1", "L2") for r in (True, False)
            for v in ([5, 2], [5, 5], [5, 6], [9, 1, 1], [25, 4], [3, 25, 2])]
    out += [dict(base, cls=c, L=L, lives=1) for c, L in (("L0", 71), ("SP", 104), ("L0", 104), ("L1", 70), ("L2", 69))]
    out += [dict(base, cls=c, L=45, lives=1) for c in ("L1", "L2", "L0")]
    out += [dict(base, cls=c, L=5, seed=s, run=False) for c in ("L1", "L2") for s in range(20, 26)]
    return out


def switched(case):
    """lists given one after another in the middle of a run, longer or shorter than what has been placed: every attempt is
    still truthful and the run still ends"""
    cls, L = case["cls"], case["L"]
    p = build(cls, L, seed=case["seed"])
    for n in case["switch"]:
        stp = Stepper(p)
        for _ in range(n):
            if stp.attempt()[0] == "end":
                break
        empty = sorted(set(range(L * L)) - occupied_set(p))
        rest = empty[case["seed"] % 2::2][:n] or empty[:1]
        if not rest:
            break
        p.set_custome_site_id_list(rest, case["shuffle"])
    was = occupied_set(p)
    stp = Stepper(p)
    before = observe(p)
    for _ in range(40 * L ** 4 + 1000):
        what, s = stp.attempt()
        now = observe(p)
        if what == "placed":
            require(cls in ("L1", "L2") or s in rest, "site %s occupied, which the list given last does not name", s)
            require(sum(now[1]) == sum(before[1]) + 1 and all(b or not a for a, b in zip(before[1], now[1])),
                    "an attempt that placed site %s changed the occupied sites otherwise", s)
        else:
            require(what == "end" or cls in ("L1", "L2"), "a plain placement attempt occupied nothing although sites are left")
            require(now == before, "an attempt that occupied nothing changed an observable")
        before = now
        if what == "end":
            break
    else:
        require(False, "a run whose list was replaced never ends")
    require(len(occupied_set(p) - was) <= len(rest) or cls in ("L1", "L2"), "more sites occupied than the list names")


def check(case, rec):
    cls, L, cand = case["cls"], case["L"], case["cand"]
    N = L * L
    if case.get("switch"):
        switched(case)
        rec.label("list replaced in the middle of a run")
    p = build(cls, L, seed=case["seed"])
    spent = 0
    for life in range(case["lives"]):
        if life:
            p.reset()
        p.__dict__["_vf_calls"] = 0
        custom = cand is not None and (life >= case["set_at"])
        if custom and life > case["set_at"] and cls in ("L1", "L2") and case.get("once"):
            custom = False  # L1 and L2 forget their candidates on reset: an ordinary run follows
        if custom and not (life > case["set_at"] and cls not in ("L1", "L2")):
            if case["form"] == "id":
                p.set_custome_site_id_list(list(cand), case["shuffle"])
            else:
                p.set_custome_site_index_list([divmod(s, L) for s in cand], case["shuffle"])
        want = closure(cls, L, cand) if custom else set(range(N))
        if case["run"] and cls != "SP":
            watched_run(p)
        else:
            stp = Stepper(p)
            before = observe(p) if L <= 6 else None
            while True:
                what, s = stp.attempt()
                flag = getattr(p, "selection_flag", None)
                if flag is not None:
                    require(getattr(flag, "name", flag) == FLAGS[what], "an attempt that %s reported %s",
                            {"placed": "occupied site %s" % s, "spent": "occupied nothing", "end": "was the last"}[what], flag)
                if what == "spent":
                    require(cls in ("L1", "L2"), "a plain placement attempt occupied nothing although sites are left")
                    spent += 1
                now = observe(p) if L <= 6 else None
                if what == "placed":
                    if now:
                        require(sum(now[1]) == sum(before[1]) + 1, "occupied sites went from %d to %d in one attempt",
                                sum(before[1]), sum(now[1]))
                        require(all(b or not a for a, b in zip(before[1], now[1])), "an occupied site became empty")
                elif now:
                    require(now == before, "an attempt that occupied nothing changed an observable")
                p.detect_wrapping()
                before = observe(p) if L <= 6 else None
                if what == "end":
                    break
        got = occupied_set(p)
        require(got == want, "the run ended with %d sites occupied; missing %s, extra %s", len(got), sorted(want - got)[:8],
                sorted(got - want)[:8])
        before = observe(p)
        for _ in range(case["after"]):
            require(not p.place_one_site(), "a finished run went on")
            require(observe(p) == before, "an attempt after the end changed an observable")
    rec.nontriv(cls in ("L1", "L2") or cand is not None)
    rec.label("cls " + cls)
    rec.label("custom" if cand is not None else "default")
    if spent:
        rec.label("spent trials", spent)
