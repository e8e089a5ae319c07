"""C34 results and tallies that runs print are true."""
import contextlib
import io
import random
import re

from hypothesis import strategies as st

from .. import files
from ..core import fail, require
from ..drive import Stepper, Watch, attempt_cap, build, close
from ..gen import SEEDS, get_class
from ..model import run_model

EXAMPLES = {"quick": 4500, "thorough": 18000}
RULE = ("(a) the printing shortest-path ensemble for a drawn L, ensemble size and random state: every announced number and p* against the model of the sites that realization "
        "really occupied; (b) the two ready-made runs, under a drawn random state, made twice: what they print and store against the realizations they really made; (c) L1 and L2 "
        "simulations, free or restricted to a drawn candidate list (far apart, so that every attempt's course can be told from outside, or not), advanced in pieces with resets: "
        "the printed tallies against the attempts seen. Non-trivial: two realizations, or an attempt that found its first choice occupied.")


def far(L, sites, gap):
    """the sites that keep at least `gap` steps between each other"""
    out = []
    for s in sites:
        r, c = divmod(s, L)
        for t in out:
            a, b = divmod(t, L)
            dr, dc = abs(r - a), abs(c - b)
            if min(dr, L - dr) + min(dc, L - dc) < gap:
                break
        else:
            out.append(s)
    return out


@st.composite
def strategy_(draw, hi):
    if draw(st.integers(0, 2)) == 0:
        return {"v1": [draw(st.integers(3, hi)), draw(st.integers(0, 6))], "rng": draw(SEEDS)}
    L = draw(st.integers(3, hi))
    how = draw(st.sampled_from(("far", "far", "near", "none")))
    sites = draw(st.lists(st.integers(0, L * L - 1), min_size=1, max_size=8, unique=True)) if how != "none" else []
    op = st.one_of(st.tuples(st.just("step"), st.integers(1, 2 * L * L)), st.tuples(st.just("step"), st.integers(1, 12)), st.just(("run",)), st.just(("reset",)),
                   st.just(("listed",)))
    return {"cls": draw(st.sampled_from(("L1", "L2"))), "L": L, "seed": draw(SEEDS), "how": how, "sites": sites,
            "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=6))]}


def strategy(tier):
    return strategy_(9 if tier == "quick" else 13)


def corpus(tier):
    out = [{"v1": v, "rng": 5} for v in ([20, 3], [3, 130], [5, 40], [31, 1], [10, 12], [4, 0])]
    out += [{"made": which, "rng": r} for which in ("run_shortest_path", "run_simulations") for r in (1, 2)]
    for c in ("L1", "L2"):
        for L in (3, 8, 12, 20):
            ops = [["step", 5], ["step", 1], ["reset"], ["listed"], ["step", 40], ["run"], ["reset"], ["run"]]
            out += [{"cls": c, "L": L, "seed": L, "how": h, "sites": [0, L // 2, L * (L // 2), L * L // 2 + L // 2], "ops": ops} for h in ("far", "near", "none")]
    return out


@contextlib.contextmanager
def observed(kind):
    """every realization made with the class itself while this is open -> list of its sites"""
    cls = get_class(kind)
    log, live = [], []
    mine = {n: cls.__dict__[n] for n in ("place_one_site", "run_once", "reset") if n in cls.__dict__}
    base = {n: getattr(cls, n) for n in ("place_one_site", "run_once", "reset")}

    def shut(self):
        w = self.__dict__.get("_vf_o")
        if w is not None:
            w.settle(self)
            log.append(w.picks)
        self.__dict__["_vf_o"] = None

    def opened(self):
        if self.__dict__.get("_vf_o") is None:
            self.__dict__["_vf_o"] = Watch(self)
            live.append(self)
        return self.__dict__["_vf_o"]

    def run_once(self, *a, **k):
        opened(self)
        return base["run_once"](self, *a, **k)

    def place_one_site(self, *a, **k):
        w = opened(self)
        if w.attempts > attempt_cap(self.lattice_ref.length ** 2):
            fail("a realization does not end")
        out = base["place_one_site"](self, *a, **k)
        w.look()
        return out

    def reset(self, *a, **k):
        shut(self)
        return base["reset"](self, *a, **k)

    for n, f in (("place_one_site", place_one_site), ("run_once", run_once), ("reset", reset)):
        setattr(cls, n, f)
    try:
        yield log
        for p in live:
            shut(p)
    finally:
        for n in base:
            if n in mine:
                setattr(cls, n, mine[n])
            else:
                delattr(cls, n)


def said(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a)
    return out.getvalue()


def p_star(L, picks):
    m = run_model(L, picks, stop_straight=True)[1]
    require(m.n == len(picks) and m.straight(), "a realization stopped after %d sites, its line is complete after %d", len(picks), m.n)
    return m.p()


LINE = re.compile(r"iteration\s+(\d+)\s+p\*\s*=\s*(\S+)")


def printing(case, rec):
    from run_py import shortest_path_run
    L, E = case["v1"]
    random.seed(case["rng"])
    with files.scratch(), observed("SP") as runs:
        t = said(shortest_path_run.ensemble_shortest_path_v1, L, E)
    require(len(runs) == E, "%d realizations were made, %d requested", len(runs), E)
    got = LINE.findall(t)
    require([int(n) for n, _ in got] == list(range(1, E + 1)), "the realizations announced are %s, there were %d", [n for n, _ in got][:12], E)
    for (n, v), picks in zip(got, runs):
        want = p_star(L, picks)
        require(close(float(v), want, 1e-9), "realization %s is announced with p* = %s, it was %r", n, v, want)
    for i, x in enumerate(runs):
        require(L < 6 or all(x[:16] != y[:16] for y in runs[:i]), "two realizations of one ensemble are the same")
    rec.nontriv(E >= 2)
    rec.label("printing ensemble")


def ready_made(case, rec):
    seen = []
    for again in range(2):
        random.seed(case["rng"] + again)
        if case["made"] == "run_shortest_path":
            from run_py import shortest_path_run
            with files.scratch(), observed("SP") as runs:
                t = said(shortest_path_run.run_shortest_path)
            require(len(runs) == 1, "%d realizations were made", len(runs))
            last = t.strip().split("\n")[-1].split()
            want = p_star(6, runs[0])
            require(last and close(float(last[-1]), want, 1e-9), "the run prints %s, its p* was %r", last, want)
            seen.append((runs, t))
        else:
            from run_py import rsbd_percolatioin_run
            with files.scratch(), observed("L0") as runs:
                said(rsbd_percolatioin_run.run_simulations)
                tabs = files.tables()
            require(len(runs) == 100, "%d realizations were made, 100 are stated", len(runs))
            require(sorted(map(files.kind_of, tabs)) == ["critical", "entropy"], "the run left %s", [t.name for t in tabs])
            models = [run_model(5, r) for r in runs]
            for t in tabs:
                t.check_head(5, 100)
                if files.kind_of(t) == "entropy":
                    want = files.average([rows for rows, _ in models])
                    cols = [files.column_value(m, 0) for m in t.meaning()]
                    want = [[row[c] for c in cols] for row in want]
                else:
                    want = [[m.pc(), m.pc_sites, m.pc_bonds] for _, m in models]
                require(len(t.rows) == len(want), "%s has %d rows, expected %d", t.name, len(t.rows), len(want))
                for i, (a, b) in enumerate(zip(t.rows, want)):
                    require(len(a) == len(b) and all(files.near(x, y) or abs(x - y) < 1e-8 for x, y in zip(a, b)), "%s: row %d is %s, expected %s", t.name, i, a, b)
            seen.append((runs, sorted((files.kind_of(t), t.rows) for t in tabs)))
    require(seen[0] == seen[1], "the ready-made run %s is not the same the second time", case["made"])
    rec.nontriv(True)
    rec.label(case["made"])


def tally(p, kind):
    t = said(p.occupied_summary)
    n = [int(v) for v in re.findall(r"selected\s*:?\s*(\d+)", t)]
    require(len(n) == (1 if kind == "L1" else 2), "the summary of an %s simulation reads %r", kind, t)
    return n + [0] * (2 - len(n))


def check(case, rec):
    if "v1" in case:
        return printing(case, rec)
    if "made" in case:
        return ready_made(case, rec)
    kind, L = case["cls"], case["L"]
    N = L * L
    p = build(kind, L, seed=case["seed"])
    sites = [s % N for s in case["sites"]]
    if case["how"] == "far":
        sites = far(L, sites, 3 if kind == "L1" else 5)
    exact = case["how"] == "far"
    cand = None
    lo = hi = spent = tries = 0
    met = False

    def compare(when):
        x, y = tally(p, kind)
        require(lo <= x <= hi, "%s: %d attempts, at least %d and at most %d of which found their first choice occupied, are tallied as %d", when, tries, lo, hi, x)
        if kind == "L2":
            require(y == spent, "%s: %d attempts found nothing empty, %d are tallied", when, spent, y)

    compare("at the start")
    ops = case["ops"]
    if sites:
        ops = [["listed"]] + ops
    for op in ops:
        if op[0] == "reset":
            p.reset()
            cand = None
            lo = hi = spent = tries = 0
        elif op[0] == "listed":
            if tries or not sites:
                continue
            p.set_custome_site_id_list(list(sites))
            cand = set(sites)
        else:
            stp = Stepper(p)
            todo = op[1] if op[0] == "step" else attempt_cap(N)
            for i in range(todo):
                what, s = stp.attempt()
                if what == "end":
                    break
                tries += 1
                if what == "spent":
                    spent += 1
                    lo, hi = lo + 1, hi + 1
                elif cand is not None and s not in cand:
                    lo, hi = lo + 1, hi + 1
                elif exact and cand is not None:
                    pass  # no listed site can be reached from another one
                elif tries > 1:
                    hi += 1
                met = met or lo > 0
                if op[0] == "step" and i < 12:
                    compare("after attempt %d" % tries)
            else:
                require(op[0] == "step", "a run does not end")
        compare("after %s" % op)
        compare("asked again")
    rec.nontriv(met)
    rec.label("cls " + kind)
    rec.label("candidates " + case["how"])
