"""C24 curve intersection and guide lines."""
import numpy as np
from hypothesis import strategies as st

from ..core import require

EXAMPLES = {"quick": 22500, "thorough": 90000}
RULE = ("two curves sampled at 2..400 equal points whose difference changes sign exactly once (between two samples, possibly coinciding over stretches at the ends, or at one "
        "sample), scale, offset, order of the curves, 1-D or a column of a table, with or without plotting (recording axes); "
        "guide lines with generated coordinate, range (default, increasing, decreasing, constant) and size. Non-trivial: crossing away from both ends, or a "
        "guide line with at least 2 points and a range of its own.")
ASSUMPTIONS = ["curves that coincide over a stretch do so at an end, and cross between two samples; or they meet at exactly one sample"]

FL = st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: round(v, 6))


@st.composite
def crossing(draw, n_max):
    n = draw(st.integers(2, n_max))
    if draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(2, 12))
    k = draw(st.integers(0, n - 2))
    ends = draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [1, 0], [0, 1], [2, 5], [30, 30], "at"]))  # samples at either end at which the curves coincide
    return {"what": "cross", "n": n, "k": k, "seed": draw(st.integers(0, 2 ** 32 - 1)), "scale": draw(st.sampled_from([1e-9, 1e-3, 1, 3.7, 1e5, 1e-170, 1e-290, 1e160, 1e290])),
            "shape": draw(st.sampled_from(["random", "linear", "steep", "flat-then-jump", "int"])),
            "swap": draw(st.booleans()), "col": draw(st.one_of(st.none(), st.integers(-4, 3))), "cols": draw(st.integers(4, 5)),
            "plot": draw(st.booleans()), "ends": ends}


@st.composite
def guide(draw):
    d = {"what": "guide", "which": draw(st.sampled_from(["v", "h"])), "at": draw(FL), "size": draw(st.one_of(st.none(), st.integers(1, 300)))}
    d["range"] = draw(st.one_of(st.none(), st.tuples(FL, FL).map(list)))
    d["form"] = draw(st.sampled_from(["tuple", "list", "array"]))
    d["keyword"] = draw(st.booleans())
    return d


def strategy(tier):
    return st.one_of(crossing(60), crossing(400), guide())


def corpus(tier):
    out = [{"what": "guide", "which": w, "at": 0.5, "size": s, "range": r, "form": "tuple", "keyword": True}
           for w in "vh" for s in (None, 1, 2, 7) for r in (None, [0.2, 0.9], [3, -1])]
    for n in (2, 3, 1000, 6000):
        for k in (0, n - 2, (n - 2) // 2):
            for plot in (False, True):
                out.append({"what": "cross", "n": n, "k": k, "seed": 5, "scale": 1, "shape": "random", "swap": k % 2 == 0, "col": None, "cols": 4,
                            "plot": plot})
    out += [{"what": "cross", "n": 30, "k": 17, "seed": 8, "scale": sc, "shape": "random", "swap": False, "col": c, "cols": 4, "plot": plot}
            for c in range(-4, 4) for sc in (1, 1e-170, 1e-290, 1e290) for plot in (False, True)]
    return out


class Axes:
    def __init__(self):
        self.calls = 0

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls += 1
            return []
        return f


def curves(case):
    rng = np.random.RandomState(case["seed"])
    n, k = case["n"], case["k"]
    sign = np.where(np.arange(n) <= k, -1.0, 1.0)
    shape = case["shape"]
    if shape == "random":
        mag = rng.uniform(0.01, 1, n)
        base = rng.uniform(-3, 3, n)
    elif shape == "linear":
        mag = np.abs(np.arange(n) - k - 0.4)
        base = np.linspace(0, 1, n)
    elif shape == "steep":
        mag = 10.0 ** rng.uniform(-6, 3, n)
        base = np.zeros(n)
    elif shape == "flat-then-jump":
        mag = np.full(n, 0.25)
        mag[-1] = 80.0
        base = np.full(n, 2.0)
    else:
        mag = rng.randint(1, 9, n).astype(float)
        base = rng.randint(-50, 50, n).astype(float)
    a = base * case["scale"]
    b = a - sign * mag * case["scale"]
    ends = case.get("ends", [0, 0])
    if ends == "at":  # exactly equal at the sample after k
        if k < n - 2:
            b[k + 1] = a[k + 1]
    else:
        lead, trail = min(ends[0], k), min(ends[1], n - 2 - k)
        b[:lead] = a[:lead]
        b[n - trail:] = a[n - trail:]
    if shape == "int" and case["scale"] == 1:
        a, b = a.astype(int), b.astype(int)
    return a, b


def check(case, rec):
    from source_py.analyze import lines
    if case["what"] == "cross":
        a, b = curves(case)
        want = case["k"]
        s = np.sign(a - b)
        require(len(np.flatnonzero(np.diff(s[s != 0]))) == 1, "harness: not a single crossing")
        met = case.get("ends") == "at" and want < case["n"] - 2
        if case["swap"]:
            a, b = b, a
        args = (a, b)
        kw = {}
        if case["col"] is not None:
            rng = np.random.RandomState(case["seed"] ^ 77)
            ta, tb = rng.uniform(-1, 1, (case["n"], case["cols"])), rng.uniform(-1, 1, (case["n"], case["cols"]))
            ta[:, case["col"]], tb[:, case["col"]] = a, b
            args, kw = (ta, tb), {"col": case["col"]}
        copies = [x.copy() for x in args]
        if case["plot"]:
            ax = Axes()
            got = lines.find_intersection_and_plot(*args, ax=ax, **kw)
            require(ax.calls > 0, "nothing was plotted")
        else:
            got = lines.find_intersection(*args, **kw)
        if met:
            require(int(got) in (want, want + 1), "the curves meet at sample %d, the helper says %s", want + 1, got)
        require(met or int(got) == want, "the curves cross between samples %d and %d, the helper says %s", want, want + 1, got)
        require(all((x == y).all() for x, y in zip(copies, args)), "the helper changed the curves")
        rec.nontriv(0 < want < case["n"] - 2)
        rec.label("plot" if case["plot"] else "no plot")
        rec.label("column" if kw else "whole")
        return
    kw = {}
    if case["range"] is not None:
        r = case["range"]
        kw["range"] = {"tuple": tuple, "list": list, "array": np.array}[case["form"]](r)
    if case["size"] is not None:
        kw["size"] = case["size"]
    f = lines.draw_vertical_line_at if case["which"] == "v" else lines.draw_horizontal_line_at
    if "range" in kw:
        r = kw.pop("range")
        out = f(case["at"], r, **kw) if not case["keyword"] else f(case["at"], **{"yrange" if case["which"] == "v" else "xrange": r}, **kw)
    else:
        out = f(case["at"], **kw)
    xx, yy = out
    fixed, along = (xx, yy) if case["which"] == "v" else (yy, xx)
    size = case["size"] or 100
    lo, hi = case["range"] or (0, 1)
    require(len(fixed) == size and len(along) == size, "asked for %d points, got %d and %d", size, len(xx), len(yy))
    require(all(float(v) == case["at"] for v in fixed), "the line is not at %r: %s", case["at"], list(fixed)[:4])
    want = np.linspace(lo, hi, size) if size > 1 else np.array([lo])
    tol = 1e-9 * (1 + abs(lo) + abs(hi))
    require(np.all(np.abs(np.asarray(along, dtype=float) - want) <= tol), "points along the line are %s..., evenly spaced over %s..%s is %s...",
            list(along)[:4], lo, hi, list(want)[:4])
    rec.nontriv(size >= 2 and case["range"] is not None)
    rec.label("guide " + case["which"] + (" default range" if case["range"] is None else ""))
