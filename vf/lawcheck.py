"""Shared by C12, C13, C14: plan of simulations, and the merged test."""
import hashlib
import random

import numpy as np

from . import core, stat
from .core import fail, require
from .drive import Stepper, build, watched_run


def plan(kind, tier, share=1.0):
    """Cases with pairwise independent seeds."""
    rnd = random.Random("%s/%s/%d" % (kind, tier, core.SEED))
    mult = (6 if tier == "quick" else 100) * share
    out = []

    def add(L, cases, R, kinds):
        for i in range(max(1, int(cases * mult))):
            out.append({"kind": kind, "cls": rnd.choice(kinds), "L": L, "R": R, "mode": rnd.choice(MODES[kind]),
                        "seed": rnd.getrandbits(63), "early": rnd.random()})
    kinds = ("L0", "L0", "base", "SP") if kind == "L0" else (kind,)
    add(3, 400, 12, kinds)
    add(4, 400, 8, kinds)
    add(5, 160, 6, kinds)
    add(6, 80, 4, kinds)
    add(7, 40, 4, kinds)
    add(8, 24, 4, kinds)
    add(11, 8, 4, kinds)
    add(17, 8, 3, kinds)
    add(23, 6, 4, kinds)
    for L, R, cut in ((33, 1, None), (40, 1, None), (47, 3, 60), (71, 3, 60), (101, 2, 50)):  # large ones, mostly cut short
        for i in range(max(4, int(mult))):
            out.append({"kind": kind, "cls": rnd.choice(kinds), "L": L, "R": R, "mode": ("unseeded", "seeded")[i % 2], "cut": cut, "seed": rnd.getrandbits(63), "early": 1})
    for L in (3, 4, 5, 6, 7, 8):  # broken off near the end, then only a start, and so on
        for i in range(int((30, 60, 50, 30, 20, 12)[L - 3] * mult)):
            out.append({"kind": kind, "cls": rnd.choice(kinds), "L": L, "R": 20, "mode": ("unseeded", "seeded")[i % 2], "broken": True, "seed": rnd.getrandbits(63), "early": 1})
    if kind != "L0":  # few starting points: every situation near them is met over and over
        for L in (3, 4, 5):
            for i in range(int(60 * mult)):
                out.append({"kind": kind, "cls": kind, "L": L, "R": 8, "mode": "custom", "few": 1 + i % 3, "seed": rnd.getrandbits(63), "early": rnd.random()})
    else:
        for i in range(int(50 * mult)):  # lists of two to four sites, in any order
            out.append({"kind": kind, "cls": rnd.choice(kinds), "L": 3 + i % 6, "R": 10, "mode": "custom", "few": 2 + i // 6 % 3, "seed": rnd.getrandbits(63), "early": 1})
    for L in (4, 5, 6, 7, 8):  # one complete run, then only short starts
        for i in range(int(8 * mult)):
            out.append({"kind": kind, "cls": rnd.choice(kinds), "L": L, "R": 16, "mode": ("unseeded", "seeded")[i % 2], "short": True, "seed": rnd.getrandbits(63), "early": 1})
    for i in range(int(40 * mult)):  # only the first few sites of many realizations in a row
        out.append({"kind": kind, "cls": rnd.choice(kinds), "L": (5, 6, 4, 7, 5, 9, 3, 12)[i % 8], "R": 80, "mode": ("unseeded", "seeded")[i % 2], "starts": 1 + i % 3, "seed": rnd.getrandbits(63), "early": 1})
    rnd.shuffle(out)
    return out


MODES = {"L0": ("seeded", "unseeded", "several", "custom"), "L1": ("seeded", "unseeded", "several", "custom"),
         "L2": ("seeded", "unseeded", "several", "custom")}


def one_run(p, cls, limit, run):
    if run and limit is None and cls != "SP":
        return watched_run(p, full=True)
    st = Stepper(p)
    while limit is None or len(st.picks) < limit:
        if st.next() is None:
            break
    return st


def simulate(case, ledger, rec):
    kind, cls, L, R = case["kind"], case["cls"], case["L"], case["R"]
    N = L * L
    mode = case["mode"]
    rnd = random.Random(case["seed"])
    random.seed(case["seed"])
    allowed = None
    p = None
    prev = prev2 = broken = None
    orders, moves = [], []
    if mode == "custom":
        n = rnd.randint(max(2, N // 2), N - 1)
        if kind != "L0" and rnd.random() < 0.7:
            n = rnd.randint(1, min(6, N // 2))  # few starting points: each is drawn often
        n = case.get("few", n)
        lst = sorted(rnd.sample(range(N), n))
        if rnd.random() < 0.5:
            rnd.shuffle(lst)
        allowed = np.zeros(N, dtype=bool)
        allowed[lst] = True
    total = N
    if allowed is not None:
        total = int((allowed if kind == "L0" else ledger.law(L)[0].reach(kind, allowed)).sum())
    for r in range(R):
        fresh = False
        if p is None or mode == "several":
            p = build(cls, L, seed=rnd.getrandbits(60) if mode == "seeded" else None)
            fresh = True
            broken = None
            if allowed is not None and kind == "L0":
                if rnd.random() < 0.5:
                    p.set_custome_site_id_list(list(lst), True)
                else:
                    p.set_custome_site_index_list([divmod(s, L) for s in lst], True)
        else:
            p.reset()
        if fresh and rnd.random() < 0.3:
            p.reset()
        if allowed is not None and kind != "L0":
            p.set_custome_site_id_list(list(lst), rnd.random() < 0.3)
        p.__dict__["_vf_calls"] = 0
        limit = None
        if case["early"] < 0.4 and rnd.random() < 0.5:
            limit = rnd.randint(1, N - 1)
            if case["early"] < 0.25:
                limit = rnd.randint(N * 2 // 3, N - 1)
        if case.get("broken"):
            limit = N // 2 if r % 2 else N - rnd.randint(1, 3)
        if case.get("short") and r:
            limit = rnd.randint(N // 6, N // 4 if r % 4 else N // 2)
        if case.get("starts"):
            limit = case["starts"]
        if case.get("cut"):
            limit = rnd.randint(30, case["cut"])
        seen = one_run(p, cls, limit, rnd.random() < 0.5 or "short" in case)
        picks = seen.picks
        want = total if limit is None else min(limit, total)
        if limit is None and cls == "SP" and len(picks) < total:
            want = len(picks)
        require(len(picks) == want, "%d of %d sites were selected", len(picks), want)
        if kind == "L0" and len(picks) >= 25:
            for old in orders:
                k = min(len(old), len(picks))
                require(k < 25 or picks[:k] != old[:k], "two realizations use the same order of sites")
            orders.append(picks)
            if prev is not None and len(prev) == total:
                # the order must not be a fixed rearrangement of the previous one either
                pos = {s: i for i, s in enumerate(prev)}
                moved = [pos[s] for s in picks]
                for old in moves:
                    k = min(len(old), len(moved))
                    require(k < 25 or moved[:k] != old[:k], "two realizations rearrange the order before them in the same way")
                moves.append(moved)
        ledger.realization(kind, L, picks, seen.when, prev, prev2, ("first realization" if r == 0 else "after reset", mode), allowed, broken)
        broken = picks if len(picks) < total else None
        prev, prev2 = picks, prev
        if mode == "several" and r > 0:
            rec.label("fresh object")
    rec.label("L=%d" % L, R)
    rec.label("mode " + mode, R)
    rec.nontriv(True)


def run_check(case, rec):
    if "aggregate" in case:
        core.SEED = case["seed"]
        led = stat.Ledger()
        for c in plan(case["kind"], case["aggregate"]):
            simulate(c, led, rec)
        acc, _ = stat.merge([led.dump()])
        v = stat.verdict(acc)
        if v:
            fail(v)
        return
    led = rec.state.setdefault("ledger", stat.Ledger())
    simulate(case, led, rec)


def finish(rec):
    led = rec.state.get("ledger")
    if led is not None:
        rec.label("selection steps tested", led.steps)
        rec.state["aggregate"] = led.dump()


def aggregate(dumps):
    acc, _ = stat.merge(dumps)
    v = stat.verdict(acc)
    if v:
        fail(v)
