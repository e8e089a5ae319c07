"""C27 invalid custom site lists are refused without side effects."""
from hypothesis import strategies as st

from ..core import is_sut_exception, require
from ..drive import build, follow, observe
from ..gen import SEEDS, expand, orders

EXAMPLES = {"quick": 6750, "thorough": 27000}
RULE = ("class, L, seed, a history before and after, and a list that is empty or has 1..3 entries outside the lattice (ids -1, -N, N, big; rows or columns L, -1, big, "
        "also when row*L+column names an existing site) at drawn places in an otherwise good list; id or index form (tuple, list, Index), shuffled or not. The simulation must "
        "go on exactly like a twin with the same seed that never got the call; an exception counts as refusal. Non-trivial: the list has good entries as well, or the call comes in mid-run.")

KINDS = ("L0", "base", "SP", "L1", "L2", "L0")


def hist(L, cls, n):
    ops = [st.tuples(st.just("step"), st.integers(1, L * L)), st.just(("run",)), st.just(("reset",))]
    if cls in ("L0", "base", "SP"):
        ops.append(st.tuples(st.just("fresh"), orders(L, L, big=0), st.booleans()))
    return st.lists(st.one_of(*ops), max_size=n)


@st.composite
def strategy_(draw, hi):
    cls = draw(st.sampled_from(KINDS))
    L = draw(st.integers(3, hi))
    N = L * L
    form = draw(st.sampled_from(("id", "id", "tuple", "list", "Index")))
    good = draw(st.lists(st.integers(0, N - 1), max_size=6, unique=True))
    if draw(st.integers(0, 3)) == 0:
        good = list(draw(st.permutations(range(N))))
    if form == "id":
        bad = st.sampled_from([-1, -2, -N, N, N + 1, N + L, 2 * N, 2 * N - 1, 10 ** 9, -10 ** 9, -L])
        entries = [[g] for g in good]
        ill = [[v] for v in draw(st.lists(bad, min_size=1, max_size=3))]
    else:
        inside = st.integers(0, L - 1)
        outside = st.sampled_from([L, -1, L + 1, -L, 2 * L, 10 ** 6, -2])
        bad = st.one_of(st.tuples(outside, inside), st.tuples(inside, outside), st.tuples(inside, outside), st.tuples(outside, outside), st.just((0, L)), st.just((1, -1)),
                        st.just((L - 1, L)), st.just((L, 0)), st.just((0, N - 1)), st.just((-1, L)), st.just((L, -L)))
        entries = [list(divmod(g, L)) for g in good]
        ill = [list(v) for v in draw(st.lists(bad, min_size=1, max_size=3))]
    if draw(st.integers(0, 11)) == 0:
        entries, ill = [], []
    for v in ill:
        entries.insert(draw(st.integers(0, len(entries))), v)
    return {"cls": cls, "L": L, "seed": draw(SEEDS), "form": form, "entries": entries, "shuffle": draw(st.booleans()),
            "before": [list(o) for o in draw(hist(L, cls, 3))], "after": [list(o) for o in draw(hist(L, cls, 3))], "calls": draw(st.integers(1, 2))}


def strategy(tier):
    return strategy_(6 if tier == "quick" else 9)


def corpus(tier):
    out = []
    for L in (4, 5, 18):
        N = L * L
        for form, bads in (("id", [[-1], [N], [N + 3], [-N]]), ("tuple", [[0, L], [1, -1], [L, 0], [-1, 0], [L - 1, L], [-1, L], [L, -1]]),
                           ("Index", [[0, L], [L, -1], [2, -2]]), ("list", [[1, L]])):
            for i, b in enumerate(bads):
                cls = KINDS[i % 5]
                for where in (0, 1, 2):
                    good = [[1], [5]] if form == "id" else [[0, 1], [1, 1]]
                    good.insert(where, b)
                    out.append({"cls": cls, "L": L, "seed": 9, "form": form, "entries": good, "shuffle": where == 1, "before": [["step", 3 * where]] if where else [],
                                "after": [["run"], ["reset"], ["run"]], "calls": 1})
        for form in ("id", "tuple"):
            for cls in KINDS[:5]:
                out.append({"cls": cls, "L": L, "seed": 9, "form": form, "entries": [], "shuffle": cls == "SP", "before": [["step", 2]], "after": [["run"], ["reset"], ["run"]], "calls": 1})
    for L, cls in ((40, "L0"), (41, "SP"), (70, "base")):  # long lists with one bad entry near their end
        N = L * L
        for i, (form, b) in enumerate((("id", [-1]), ("id", [N]), ("tuple", [3, L]), ("Index", [4, -1]), ("list", [L, 0]))):
            good = [[s] if form == "id" else list(divmod(s, L)) for s in range(0, N - i)]
            good.insert(len(good) - 7 * i, b)
            out.append({"cls": cls, "L": L, "seed": 9, "form": form, "entries": good, "shuffle": i == 1, "before": [["step", 3]], "after": [["step", 20], ["reset"], ["step", 20]], "calls": 1})
    return out


def real(ops):
    out = []
    for op in ops:
        if op[0] == "fresh":
            out += [["reset"], ["custom", expand(op[1]), op[2]]]
        else:
            out.append(op)
    return out


def refuse(p, case):
    e = case["entries"]
    try:
        if case["form"] == "id":
            p.set_custome_site_id_list([v[0] for v in e], case["shuffle"])
        else:
            from source_py.simulation.index import Index
            conv = {"tuple": tuple, "list": list, "Index": lambda t: Index(t[0], t[1])}[case["form"]]
            p.set_custome_site_index_list([conv(v) for v in e], case["shuffle"])
    except Exception as ex:
        if not is_sut_exception(ex):
            raise
        return "raised"
    return "ignored"


def check(case, rec):
    before, after = real(case["before"]), real(case["after"])

    def play(invalid):
        p = build(case["cls"], case["L"], seed=case["seed"])
        out = follow(p, before)
        how = None
        if invalid:
            for _ in range(case["calls"]):
                how = refuse(p, case)
        out.append(observe(p))
        out += follow(p, after)
        p.__dict__["_vf_calls"] = 0
        out += follow(p, [["step", 3], ["run"]])
        p.reset()
        return out + [observe(p)] + follow(p, [["run"]]), how

    a, _ = play(False)
    b, how = play(True)
    require(len(a) == len(b), "the refused list %s changed what happens afterwards", case["entries"][:8])
    for i, (x, y) in enumerate(zip(a, b)):
        require(x == y, "after the list %s was to be refused (it was %s), step %d of the history gives %s, without the call %s", case["entries"][:8], how, i,
                str(y)[:300], str(x)[:300])
    rec.nontriv(len(case["entries"]) > 3 or bool(case["before"]))
    rec.label("%s, %s" % ("empty" if not case["entries"] else case["form"], how))
    rec.label("cls " + case["cls"])
