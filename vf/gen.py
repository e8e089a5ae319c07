"""Strategies for placement orders. A spec is a small JSON dict; expand() turns it into a list of site ids.

  {"L": L, "order": [..]}                                   explicit (possibly partial) order
  {"L": L, "segs": [[kind,a,b,c,flags],..], "seed": k, "cut": n|None}  structured prefix, then shuffled rest
  "end": k (either form)                                     ends k sites after the one at which wrapping appears
"""
import random

from hypothesis import strategies as st

KINDS = ("row", "rowgap", "band", "stair", "comb", "checker", "ring", "block", "spiral", "helix", "snake", "seam",
         "pair", "uturn", "corkscrew", "corkscrew")


def seg_cells(L, kind, a, b, c):
    r, q = a % L, b % L
    k = 1 + c % max(1, L - 1)
    if kind == "row":
        return [(r, j) for j in range(L)]
    if kind == "rowgap":
        return [(r, (q + 1 + j) % L) for j in range(L - 1)]
    if kind == "band":  # crooked horizontal band over rows r, r+1
        return [(r, j) for j in range(0, k + 1)] + [(r + 1, j) for j in range(k, L)] + \
               [(r + 1, 0)]
    if kind == "stair":
        out = []
        for j in range(L):
            out += [(r + j, q + j), (r + j, q + j + 1)]
        return out
    if kind == "comb":
        return [(r, j) for j in range(L)] + [(r + i, j) for j in range(0, L, 2) for i in range(1, k)]
    if kind == "checker":
        return [(i, j) for i in range(L) for j in range(L) if (i + j + c) % 2 == 0]
    if kind == "ring":
        return [(r, q + 1), (r + 1, q), (r, q - 1), (r - 1, q), (r, q)]
    if kind == "block":
        return [(r + i, q + j) for i in range(k) for j in range(1 + b % L)]
    if kind == "spiral":
        out, x, y, n, d, seen = [], r, q, L - 1, 0, set()
        dirs = [(0, 1), (1, 0), (0, -1), (-1, 0)]
        while n > 0:
            for _ in range(2):
                for _ in range(n):
                    out.append((x, y))
                    x, y = x + dirs[d][0], y + dirs[d][1]
                d = (d + 1) % 4
            n -= 2
        return out
    if kind == "helix":  # goes once round horizontally while descending k rows
        out, x = [], r
        for j in range(L):
            out.append((x, q + j))
            if j % max(1, L // k) == max(1, L // k) - 1 and x - r < k:
                x += 1
                out.append((x, q + j))
        for i in range(x, r + L):
            out.append((i, q + L - 1))
        return out
    if kind == "snake":
        out = []
        for i in range(0, L - 1, 2):
            rng = list(range(L - 1)) if (i // 2) % 2 == 0 else list(range(L - 2, -1, -1))
            out += [(r + i, q + j) for j in rng]
            out.append((r + i + 1, q + rng[-1]))
        return out
    if kind == "seam":
        return [(0, j) for j in range(k)] + [(L - 1, j) for j in range(k)] + [(i, 0) for i in range(k)] + \
               [(i, L - 1) for i in range(k)]
    if kind == "pair":
        return [(r, q), (r, q + 1)]
    if kind == "corkscrew":  # winds round several times on an oblique path, three rows per turn, without touching itself
        turns = max(1, (L - 2) // 3)
        if turns > 1 and c % 3:
            turns = 1 + b % turns
        out, x = [], 0
        for t in range(L * turns):
            if t and (3 * t) // L != (3 * (t - 1)) // L:
                x += 1
                out.append((r + x, q + t - 1))
            out.append((r + x, q + t))
        if c % 2:  # every other cell first: the rest joins pieces
            out = out[::2] + out[1::2]
        return out
    if kind == "uturn":  # two arms from the same spine meeting across the seam
        return [(r, j) for j in range(L // 2)] + [(r + 2, j) for j in range(L // 2)] + \
               [(r + 1, 0)] + [(r, -1 - j) for j in range(L // 2)] + [(r + 2, -1 - j) for j in range(L // 2)]
    raise ValueError(kind)


def expand(spec):
    out = expand_whole(spec)
    if spec.get("end") is not None:
        from .model import Model
        m = Model(spec["L"])
        for s in out:
            m.place(s)
            if m.wrapped:
                return out[:max(1, m.n + spec["end"])]
    return out


def expand_whole(spec):
    L = spec["L"]
    N = L * L
    if "order" in spec:
        return list(spec["order"])
    rnd = random.Random(spec["seed"])
    out, seen = [], set()

    def add(s):
        if s not in seen:
            seen.add(s)
            out.append(s)

    for kind, a, b, c, flags in spec.get("segs", ()):
        cells = seg_cells(L, kind, a, b, c)
        if flags & 1:
            cells = [(y, x) for x, y in cells]
        if flags & 2:
            cells = cells[::-1]
        if flags & 4:
            cells = list(cells)
            rnd.shuffle(cells)
        for x, y in cells:
            add((x % L) * L + y % L)
    rest = [s for s in range(N) if s not in seen]
    rnd.shuffle(rest)
    for s in rest:
        add(s)
    cut = spec.get("cut")
    if cut is not None:
        out = out[:max(1, cut * len(out) // 1000)]
    return out


SEEDS = st.integers(0, 2 ** 32 - 1)


@st.composite
def explicit(draw, lo=3, hi=6, full=False):
    L = draw(st.integers(lo, hi))
    perm = draw(st.permutations(range(L * L)))
    if not full:
        n = draw(st.one_of(st.just(L * L), st.integers(1, L * L)))
        perm = perm[:n]
    return {"L": L, "order": list(perm)}


@st.composite
def competing(draw, lo=5, hi=12, full=False):
    """A crooked band wraps first, other rows/blocks fill up separately, then the rest joins them."""
    L = draw(st.integers(max(5, lo), max(5, hi)))
    r = draw(st.integers(0, L - 1))
    t = draw(st.integers(0, 1))
    k = draw(st.integers(0, L))
    order = draw(st.sampled_from([0, 2, 4]))
    gap = draw(st.integers(3, max(3, L - 2)))
    second = draw(st.sampled_from(["row", "row", "band", "block", "rowgap"]))
    segs = [["band", r, 0, k, t | order], [second, r + gap, k, draw(st.integers(0, 3)), t | draw(st.sampled_from([0, 2, 4]))]]
    extra = draw(st.lists(st.tuples(st.sampled_from(["pair", "row", "ring", "rowgap"]), st.integers(0, L - 1),
                                    st.integers(0, L - 1), st.integers(0, L), st.integers(0, 7)), max_size=2))
    segs += [list(e) for e in extra]
    return {"L": L, "segs": segs, "seed": draw(SEEDS), "cut": None if full else draw(st.one_of(st.none(), st.integers(1, 1000)))}


@st.composite
def structured(draw, lo=3, hi=12, full=False):
    L = draw(st.integers(lo, hi))
    segs = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, L - 1), st.integers(0, L - 1),
                                   st.integers(0, L), st.integers(0, 7)), max_size=5))
    cut = None if full else draw(st.one_of(st.none(), st.none(), st.integers(1, 1000)))
    return {"L": L, "segs": [list(s) for s in segs], "seed": draw(SEEDS), "cut": cut}


@st.composite
def plain(draw, lo=3, hi=16, full=False):
    L = draw(st.integers(lo, hi))
    cut = None if full else draw(st.one_of(st.none(), st.none(), st.integers(1, 1000)))
    return {"L": L, "segs": [], "seed": draw(SEEDS), "cut": cut}


def orders(lo=3, hi=12, full=False, big=24):
    """Mixture over all families; `big` adds an occasional larger lattice."""
    fams = [structured(lo, hi, full), structured(lo, hi, full), plain(lo, hi, full)]
    if lo <= 6:
        fams.append(explicit(lo, min(6, hi), full))
    if hi >= 5:
        fams.append(competing(max(5, lo), hi, full))

    @st.composite
    def mixed(draw):
        if big and big > hi and draw(st.integers(0, 39)) == 17:
            return draw(st.one_of(structured(hi + 1, big, full), plain(hi + 1, big, full)))
        spec = draw(st.one_of(*fams))
        if not full and draw(st.integers(0, 7)) == 5:
            spec["end"] = draw(st.integers(-1, 3))
        return spec
    return mixed()


WARM = st.lists(st.tuples(st.sampled_from(("run", "steps", "default", "listed", "twice")), st.integers(0, 2 ** 20), st.integers(1, 1000)).map(list),
                min_size=1, max_size=3)
EARLIER = [["run", 3, 1000], ["steps", 4, 620], ["default", 5, 900], ["twice", 6, 300]]

CLASSES = {
    "base": ("source_py.simulation.percolation_sq_lattice", "SitePercolation"),
    "L0": ("source_py.simulation.percolation_sq_lattice_L0", "SitePercolationL0"),
    "L1": ("source_py.simulation.percolation_sq_lattice_L1L2", "SitePercolationL1"),
    "L2": ("source_py.simulation.percolation_sq_lattice_L1L2", "SitePercolationL2"),
    "SP": ("source_py.simulation.percolation_sq_lattice_shortest_path", "ShortestPathAfter_pc"),
}


def get_class(name):
    import importlib
    mod, cls = CLASSES[name]
    return getattr(importlib.import_module(mod), cls)


def sim_cases(lo=3, hi=10, full=False, big=24, classes=("L0", "L0", "base", "SP", "L1", "L2")):
    """{"cls", "spec"}: for L1/L2 the spec only supplies L, seed and how far to go."""
    @st.composite
    def one(draw):
        case = draw(plain_one())
        if draw(st.integers(0, 2)) == 1:
            case["warm"] = draw(WARM)
        return case

    @st.composite
    def plain_one(draw):
        cls = draw(st.sampled_from(classes))
        if cls in ("L1", "L2"):
            spec = draw(plain(lo, min(hi, 9), full))
            if not full and draw(st.integers(0, 3)) == 0:  # restricted to a few starting points
                n = spec["L"] ** 2
                return {"cls": cls, "spec": dict(spec, cut=None), "cand": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n // 2, unique=True))}
            return {"cls": cls, "spec": spec}
        return {"cls": cls, "spec": draw(orders(lo, hi, full, big))}
    return one()


BIG = [  # a few larger lattices, run on every invocation
    {"L": 33, "segs": [], "seed": 5, "cut": None},
    {"L": 40, "segs": [["band", 3, 0, 17, 4], ["row", 20, 0, 0, 4], ["comb", 30, 0, 6, 1]], "seed": 11, "cut": None},
    {"L": 65, "segs": [], "seed": 3, "cut": None},
    {"L": 27, "segs": [["spiral", 2, 3, 0, 0], ["checker", 0, 0, 1, 4]], "seed": 8, "cut": None},
    {"L": 31, "segs": [["helix", 4, 9, 3, 2], ["snake", 11, 0, 0, 1]], "seed": 9, "cut": None},
    {"L": 101, "segs": [], "seed": 21, "cut": None},
    {"L": 22, "segs": [["snake", 5, 7, 0, 0]], "seed": 2, "cut": None},
    {"L": 23, "segs": [["corkscrew", 3, 0, 3, 0], ["row", 1, 0, 0, 0]], "seed": 6, "cut": None},
    {"L": 26, "segs": [["corkscrew", 3, 9, 6, 5]], "seed": 7, "cut": 700},
    {"L": 20, "segs": [["uturn", 6, 0, 0, 4], ["seam", 0, 0, 19, 4]], "seed": 4, "cut": None},
]


# a block larger than the straight or crooked line that wraps, the order ending around wrapping
ENDINGS = [{"L": L, "segs": [["block", 3, L - 3, 2, t], [line, 0, 0, L // 2, t | 4]] + ([["pair", 3, 1, 0, 0]] if e > 2 else []), "seed": L + e, "cut": None, "end": e}
           for L in (7, 8) for t in (0, 1) for line in ("row", "band") for e in (-1, 0, 1, 2, 5)]

HUGE = {"L": 185, "segs": [], "seed": 12, "cut": 900}  # more than 65536 bonds


OTHERS = [("L1", 19, None), ("L1", 33, 750), ("L2", 20, None), ("L2", 34, 750), ("base", 35, None), ("SP", 36, None)]


def big_corpus(classes=("L0",), huge=True):
    out = [{"cls": c, "spec": s} for s in BIG for c in classes]
    out += [{"cls": c, "spec": s} for i, s in enumerate(ENDINGS) for c in (classes[i % len(classes)],)]
    # lattices of neighbouring lengths in one process, one after the other
    for run in ((24, 25, 26, 25, 24), (31, 32, 33, 32), (12, 13, 11, 22, 13)):
        out.append({"seq": [{"cls": classes[0], "spec": {"L": L, "segs": [], "seed": 40 + i, "cut": None}} for i, L in enumerate(run)]})
    out += [{"cls": c, "spec": {"L": L, "segs": [], "seed": L + i, "cut": None}, "warm": EARLIER * 3} for i, L in enumerate((3, 5, 8, 14)) for c in CLASSES]
    out += [{"cls": c, "spec": {"L": L, "segs": [], "seed": L, "cut": cut}} for c, L, cut in OTHERS if c not in classes]
    return ([{"cls": classes[0], "spec": HUGE}] if huge else []) + out
