"""C26 simulations in one process do not disturb each other; lists stay independent."""
import random
import sys
import threading

from hypothesis import strategies as st

from ..core import require
from ..drive import Stepper, build, check_critical, check_measures, check_partition, check_rows, data_rows, occupied_set, watched_run
from ..gen import SEEDS, expand, orders
from ..model import Model, run_model

EXAMPLES = {"quick": 7500, "thorough": 30000}
RULE = ("2-4 simulations (any classes, equal or different sizes) and an interleaving of: place k sites, run, reset, custom list (fresh, shared with another simulation, or a "
        "sequence another one handed out; id or index form; shuffled or not), keep the handed-out sequences and series, scribble over a list passed in or handed out; "
        "after every operation every simulation is compared with its own model; also one thread per simulation, switched as often as possible. Non-trivial: at least two simulations occupied sites and four operations.")

KINDS = ("L0", "base", "SP", "L1", "L2", "L0")


@st.composite
def strategy_(draw, hi):
    n = draw(st.integers(2, 4))
    L0 = draw(st.integers(3, hi))
    sims = [[draw(st.sampled_from(KINDS)), L0 if draw(st.integers(0, 3)) else draw(st.integers(3, hi))] for _ in range(n)]
    who = st.integers(0, n - 1)
    lists = [draw(orders(L0, L0, big=0)) for _ in range(2)]
    op = st.one_of(
        st.tuples(st.just("place"), who, st.integers(1, 2 * L0)), st.tuples(st.just("place"), who, st.integers(1, 2 * L0)),
        st.tuples(st.just("run"), who), st.tuples(st.just("reset"), who),
        st.tuples(st.just("custom"), who, st.integers(0, 1), st.booleans(), st.booleans()),
        st.tuples(st.just("custom"), who, st.integers(0, 1), st.booleans(), st.booleans()),
        st.tuples(st.just("borrow"), who, who), st.tuples(st.just("hold"), who),
        st.tuples(st.just("scribble"), st.integers(0, 20)), st.tuples(st.just("rebuild"), who))
    ops = draw(st.lists(op, min_size=4, max_size=18))
    return {"sims": sims, "lists": lists, "ops": [list(o) for o in ops], "seed": draw(SEEDS), "explicit": draw(st.booleans())}


def strategy(tier):
    return strategy_(6 if tier == "quick" else 9)


def corpus(tier):
    a = {"L": 18, "segs": [], "seed": 5, "cut": None}
    b = {"L": 18, "segs": [["row", 3, 0, 0, 0]], "seed": 6, "cut": 900}
    ops = [["custom", 0, 0, False, False], ["place", 0, 40], ["custom", 1, 0, True, False], ["place", 1, 170], ["custom", 2, 1, False, False], ["hold", 0], ["run", 2],
           ["hold", 2], ["run", 0], ["hold", 1], ["reset", 1], ["run", 1], ["scribble", 0], ["reset", 0], ["borrow", 2, 0], ["run", 0], ["hold", 0]]
    out = [{"sims": [[k, 18], [k, 18], [k2, 18]], "lists": [a, b], "ops": ops, "seed": 2, "explicit": e}
           for k, k2, e in (("L0", "base", True), ("base", "L0", False), ("SP", "SP", True), ("L1", "L0", True), ("L2", "L1", False))]
    for L, kinds in ((41, ("L0", "base", "L1")), (70, ("SP", "L0", "L2")), (102, ("L0", "base", "SP"))):
        out.append({"sims": [[k, L] for k in kinds], "lists": [dict(a, L=L), dict(b, L=L)], "ops": ops, "seed": 2, "explicit": True, "L": L})
    rnd = random.Random(3)
    for L, n, k in ((3, 14, 60), (4, 20, 60), (9, 12, 40)):  # many simulations at once
        sims = [[KINDS[i % len(KINDS)], L] for i in range(n)]
        ops = [["place", i, 1 + i % 4] for i in range(n)]
        for _ in range(k):
            i = rnd.randrange(n)
            ops.append(rnd.choice([["place", i, rnd.randrange(1, 2 * L)], ["run", i], ["reset", i], ["hold", i], ["custom", i, 0, False, False], ["rebuild", i],
                                   ["borrow", i, rnd.randrange(n)]]))
        out.append({"sims": sims, "lists": [{"L": L, "segs": [], "seed": 4, "cut": 800}] * 2, "ops": ops, "seed": 7, "explicit": bool(L % 2)})
    spec = {"L": 24, "segs": [], "seed": 5, "cut": None}
    out += [{"threads": [[k, dict(spec, L=L, seed=i)] for i, (k, L) in enumerate(zip(kinds, (24, 24, 19, 24)))], "step": step}
            for kinds in (("L0", "L0", "L0", "base"), ("SP", "L0", "L1", "L2"), ("L1", "L1", "L2", "L2")) for step in (False, True)]
    return out


def threaded(case, rec):
    """each simulation is advanced by a thread of its own, the threads being switched as often as possible"""
    jobs = []
    for kind, spec in case["threads"]:
        p = build(kind, spec["L"])
        order = None
        if kind not in ("L1", "L2"):
            order = expand(spec)
            p.set_custome_site_id_list(list(order))
        jobs.append([p, kind, order, None])

    def work(job):
        try:
            p = job[0]
            if case["step"] or job[1] == "SP":
                while p.place_one_site():
                    p.detect_wrapping()
            else:
                p.run_once()
        except BaseException as e:
            job[3] = e

    usual = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(j,)) for j in jobs]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(usual)
    for p, kind, order, error in jobs:
        if error is not None:
            raise error
        L = p.lattice_ref.length
        seq = list(p.get_site_id_sequence())
        require(order is None or seq == order, "a %s simulation advanced by its own thread reports the order %s, its list was %s", kind, seq[:12], (order or [])[:12])
        require(sorted(seq) == sorted(occupied_set(p)), "a %s simulation advanced by its own thread occupied other sites than it reports", kind)
        rows, m = run_model(L, seq)
        check_measures(p, m)
        check_critical(p, m)
        check_partition(p, m)
        if not case["step"] and kind != "SP":
            check_rows(data_rows(p), rows)
    rec.nontriv(True)
    rec.label("threads")


class Sim:
    def __init__(self, kind, L, seed):
        self.kind, self.L = kind, L
        self.p = build(kind, L, seed=seed)
        self.fresh()
        self.sticky = None  # (list, shuffled): custom order kept over resets

    def fresh(self):
        self.m = Model(self.L)
        self.rows = []
        self.custom = None  # remaining custom order, when known
        self.p.__dict__["_vf_calls"] = 0

    def plain(self):
        return self.kind not in ("L1", "L2")

    def expect(self, picks):
        if self.custom is not None:
            require(picks == self.custom[:len(picks)], "%s simulation occupied %s, its list goes on %s", self.kind, picks[:12], self.custom[:12])
            self.custom = self.custom[len(picks):]

    def verify(self):
        p, m = self.p, self.m
        require(occupied_set(p) == set(m.order), "occupied sites %s, its own operations occupied %s", sorted(occupied_set(p))[:15], sorted(m.order)[:15])
        check_measures(p, m)
        check_critical(p, m)
        if self.kind != "SP":
            check_rows(data_rows(p), self.rows)
        if not self.plain():
            require(list(p.get_site_id_sequence()) == m.order, "sequence %s, its own operations occupied %s", p.get_site_id_sequence()[:12], m.order[:12])


def check(case, rec):
    if "threads" in case:
        return threaded(case, rec)
    sims = [Sim(k, L, case["seed"] + i if case["explicit"] else None) for i, (k, L) in enumerate(case["sims"])]
    lists = [expand(s) for s in case["lists"]]  # passed to simulations by reference
    truth = [list(v) for v in lists]
    Ls = [s["L"] for s in case["lists"]]
    advanced = set()
    held = []  # (what, object handed out, copy)
    for op in case["ops"]:
        if op[0] == "scribble":
            if held:
                what, obj, copy = held.pop(op[1] % len(held))
                obj.reverse()
                obj.append(10 ** 6)
                obj[0] = -5
            if op[1] % 2:
                i = op[1] // 2 % 2
                lists[i].reverse()
                lists[i].append(0)
                lists[i] = list(truth[i])
        else:
            x = sims[op[1]]
            p = x.p
            if op[0] == "place":
                p.__dict__["_vf_calls"] = 0
                stp = Stepper(p)
                placed = []
                while len(placed) < op[2]:
                    s = stp.next()
                    if s is None:
                        break
                    x.m.place(s)
                    placed.append(s)
                    require(bool(p.detect_wrapping()) == x.m.wrapped, "wrapping misreported in one of several simulations")
                x.expect(placed)
            elif op[0] == "run":
                p.__dict__["_vf_calls"] = 0
                if x.kind == "SP" and x.m.straight():
                    continue
                picks = watched_run(p)
                for s in picks:
                    x.m.place(s)
                    x.rows.append(x.m.row())
                x.expect(picks)
            elif op[0] == "reset":
                p.reset()
                x.fresh()
                if x.sticky and x.plain():
                    seq, shuffled = x.sticky
                    got = list(p.get_site_id_sequence())
                    require(sorted(got) == sorted(seq) and (shuffled or got == seq), "after reset the announced order %s is not the custom one %s", got[:12], seq[:12])
                    x.custom = got
            elif op[0] == "rebuild":
                sims[op[1]] = Sim(x.kind, x.L, case["seed"] if case["explicit"] else None)
            elif op[0] in ("custom", "borrow"):
                if op[0] == "custom":
                    k, index_form, shuffled = op[2:]
                    if Ls[k] != x.L:
                        continue
                    given = lists[k]
                    want = truth[k]
                else:
                    y = sims[op[2]]
                    if y.L != x.L:
                        continue
                    given = y.p.get_site_id_sequence()
                    if not given:
                        continue
                    index_form = shuffled = False
                    want = list(given)
                    held.append(("sequence", given, list(given)))
                if x.m.n:  # start over, so that no listed site is occupied already
                    p.reset()
                    x.fresh()
                if index_form:
                    arg = [divmod(s, x.L) for s in given]
                    copy = list(arg)
                    p.set_custome_site_index_list(arg, shuffled)
                    require(arg == copy, "the index list passed in was changed")
                    held.append(("index list", arg, copy))
                else:
                    p.set_custome_site_id_list(given, shuffled)
                    require(given == want, "the site list passed in was changed to %s", given[:12])
                x.sticky = (list(want), shuffled)
                if x.plain():
                    got = list(p.get_site_id_sequence())
                    require(sorted(got) == sorted(want) and (shuffled or got == want), "announced order %s is not the list passed in %s", got[:12], want[:12])
                    x.custom = got
                rec.label("custom list" if op[0] == "custom" else "sequence of another simulation")
            elif op[0] == "hold":
                for what in ("get_site_id_sequence", "get_index_sequence", "get_entropy_array", "get_occupation_prob_array", "get_order_param_largest_array",
                             "get_order_param_wrapping_array"):
                    v = getattr(p, what)()
                    if isinstance(v, list):
                        held.append((what, v, list(v)))
        for i, s in enumerate(sims):
            s.verify()
            if s.m.n:
                advanced.add(i)
        for i, (v, t) in enumerate(zip(lists, truth)):
            require(v == t, "the list the caller passed in was changed after %s: %s, it was %s", op, v[:12], t[:12])
        for what, v, copy in held:
            require(v == copy, "what %s handed out earlier changed after %s: %s, it was %s", what, op, v[:8], copy[:8])
    for s in sims:
        check_partition(s.p, s.m)
    rec.nontriv(len(advanced) >= 2 and len(case["ops"]) >= 4)
    for s in sims:
        rec.label("cls " + s.kind)
