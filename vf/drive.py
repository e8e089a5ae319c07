"""Driving the code under test through its public methods."""
import math
import random

from .core import fail, require
from .gen import expand, get_class
from .model import Model, run_model

TOL = 2e-10  # rounding adds up to less than this in 40000 steps, whatever the order of the operations


def attempt_cap(N):
    # With at least one empty site left, a trial succeeds with probability >= 1/N; this is far beyond what any
    # correct run needs (probability of exceeding it < exp(-60)).
    return int(80 * N * (math.log(N + 1) + 4)) + 2000


_guarded = {}


def guarded(cls):
    """Subclass that refuses to make absurdly many placement attempts in one run (turns endless runs into failures)."""
    if cls not in _guarded:
        def place_one_site(self, *a, **k):
            n = self.__dict__.get("_vf_calls", 0) + 1
            self.__dict__["_vf_calls"] = n
            if n > self.__dict__.setdefault("_vf_cap", attempt_cap(self.lattice_ref.length ** 2)):
                fail("the run does not end: %d placement attempts on a lattice of %d sites" % (
                    n, self.lattice_ref.length ** 2))
            out = cls.place_one_site(self, *a, **k)
            w = self.__dict__.get("_vf_watch")
            if w is not None:
                w.look()
            return out

        def reset(self, *a, **k):
            self.__dict__["_vf_calls"] = 0
            self.__dict__["_vf_watch"] = None
            return cls.reset(self, *a, **k)

        _guarded[cls] = type(cls.__name__, (cls,), {"place_one_site": place_one_site, "reset": reset})
    return _guarded[cls]


def build(kind, L, seed=None, guard=True):
    cls = get_class(kind)
    if guard:
        cls = guarded(cls)
    return cls(length=L) if seed is None else cls(length=L, seed=seed)


def occupied_set(p):
    lat = p.lattice_ref
    n = lat.length ** 2
    return {s for s in range(n) if lat.get_site_gid_by_id(s) >= 0}


class Watch:
    """Records the order in which sites become occupied, by looking at the lattice after every attempt."""

    def __init__(self, p):
        self.gid = p.lattice_ref.get_site_gid_by_id
        self.empty = [s for s in range(p.lattice_ref.length ** 2) if self.gid(s) < 0]
        self.picks = []
        self.attempts = 0
        self.when = []  # number of the attempt that occupied each site

    def look(self):
        self.attempts += 1
        new = [s for s in self.empty if self.gid(s) >= 0]
        if len(new) > 1:
            fail("one placement attempt occupied %d sites: %s" % (len(new), new[:5]))
        if new:
            self.empty.remove(new[0])
            self.picks.append(new[0])
            self.when.append(self.attempts)


    def settle(self, p):
        """After a run. When the run did not go through place_one_site() step by step, the order cannot be seen on
        the lattice; then the sequence the simulation reports is taken, provided it names the sites occupied now."""
        now = [s for s in self.empty if self.gid(s) >= 0]
        if not now:
            return self
        known = set(self.picks) | set(now)
        seq = [s for s in p.get_site_id_sequence() if s in known]
        require(sorted(seq) == sorted(known), "the run occupied %d sites, the reported sequence names %d of them", len(known), len(set(seq)))
        require(seq[:len(self.picks)] == self.picks, "the reported sequence does not start with the sites seen to be occupied first")
        self.picks = seq
        self.when = list(range(1, len(seq) + 1))
        self.empty = [s for s in self.empty if s not in known]
        return self


def watched_run(p, full=False):
    """run_once() on a guarded simulation -> sites occupied by it, in order"""
    w = p.__dict__["_vf_watch"] = Watch(p)
    p.run_once()
    p.__dict__["_vf_watch"] = None
    w.settle(p)
    return w if full else w.picks


class Stepper:
    """Advances one simulation and finds out which sites were occupied by looking at the lattice."""

    def __init__(self, p):
        self.p = p
        self.lat = p.lattice_ref
        N = self.lat.length ** 2
        self.empty = [s for s in range(N) if self.lat.get_site_gid_by_id(s) < 0]
        self.picks = []
        self.when = []
        self.attempts = 0
        self.spent = 0

    def attempt(self):
        """-> ("placed", site) | ("spent", None) | ("end", None)"""
        self.attempts += 1
        more = self.p.place_one_site()
        gid = self.lat.get_site_gid_by_id
        new = [s for s in self.empty if gid(s) >= 0]
        if len(new) > 1:
            fail("one placement attempt occupied %d sites: %s" % (len(new), new[:5]))
        if not more:
            if new:
                fail("site %d was occupied by an attempt that reported nothing was left" % new[0])
            return "end", None
        if not new:
            self.spent += 1
            return "spent", None
        self.empty.remove(new[0])
        self.picks.append(new[0])
        self.when.append(self.attempts)
        return "placed", new[0]

    def next(self):
        """next occupied site, or None at the end"""
        cap = attempt_cap(self.lat.length ** 2)
        for _ in range(cap):
            what, s = self.attempt()
            if what == "placed":
                return s
            if what == "end":
                return None
        fail("no site placed in %d attempts on a lattice of %d sites" % (cap, self.lat.length ** 2))


def known_order_steps(p, order):
    """For a custom order: place one by one, checking that the announced site is the one occupied."""
    gid = p.lattice_ref.get_site_gid_by_id
    for s in order:
        require(gid(s) < 0, "site %d is occupied before its turn", s)
        require(p.place_one_site(), "placement reported nothing left before site %d", s)
        require(gid(s) >= 0, "site %d was not occupied at its turn", s)
        yield s


def warm(p, case):
    """earlier realizations of the same simulation: case["warm"] is a list of [what, seed, filling in thousandths]"""
    L = case["spec"]["L"]
    free = case["cls"] in ("L1", "L2")
    for what, seed, part in case.get("warm", ()):
        if not free:
            order = list(range(L * L))
            random.Random(seed).shuffle(order)
            if what != "default":
                p.set_custome_site_id_list(order[:max(1, L * L * part // 1000)])
        elif what == "listed":
            p.set_custome_site_id_list([seed % (L * L)])
        p.__dict__["_vf_calls"] = 0
        if what == "run" or what == "default" and part > 500:
            p.run_once()
        else:
            n = max(1, L * L * part // 1000)
            while n and p.place_one_site():
                n -= 1
                p.detect_wrapping()
        p.reset()
        if what == "twice":
            p.reset()
    p.__dict__["_vf_calls"] = 0


def start(case, ids=True):
    """Builds the simulation of a case {"cls","spec"| "seed"} -> (p, iterator of placed sites, L)

    Classes base/L0/SP follow the expanded spec as a custom order; L1/L2 run from the seed."""
    kind = case["cls"]
    L = case["spec"]["L"]
    if kind in ("L1", "L2"):
        p = build(kind, L, seed=case["spec"].get("seed", 7))
        warm(p, case)
        cand = case.get("cand")
        if cand:
            p.set_custome_site_id_list([s % (L * L) for s in dict.fromkeys(cand)])
        stepper = Stepper(p)

        def it():
            limit = case["spec"].get("cut")
            limit = L * L if limit is None else max(1, limit * L * L // 1000)
            if "order" in case["spec"]:
                limit = len(case["spec"]["order"])
            while len(stepper.picks) < limit:
                s = stepper.next()
                if s is None:
                    if cand:
                        return
                    fail("run ended with %d of %d sites occupied" % (len(stepper.picks), L * L))
                yield s
        return p, it(), L
    order = expand(case["spec"])
    p = build(kind, L)
    warm(p, case)
    p.set_custome_site_id_list(list(order))
    return p, known_order_steps(p, order), L


def close(a, b, tol=TOL):
    return abs(a - b) <= tol


def bonds_of_fraction(x, B):
    """order parameter -> bond count, exact"""
    k = round(x * B)
    require(abs(x * B - k) < 1e-6, "order parameter %r is not a multiple of 1/%d", x, B)
    return k


def check_partition(p, m):
    """labels of sites and bonds form exactly the model's partition; cluster lists agree with the labels"""
    lat, pool = p.lattice_ref, p.cluster_pool_ref
    N, B = m.N, m.B
    to_label, to_gid = {}, {}
    members_b, members_s = {}, {}
    for b in range(B):
        g = lat.get_bond_gid_by_id(b)
        l = m.bond_label(b)
        require(g >= 0, "bond %d carries no cluster label", b)
        if to_label.setdefault(g, l) != l:
            fail("bond %d shares label %d with a bond it is not connected to" % (b, g))
        if to_gid.setdefault(l, g) != g:
            fail("bond %d has label %d but is connected to bonds labelled %d" % (b, g, to_gid[l]))
        members_b.setdefault(g, []).append(b)
    for s in range(N):
        g = lat.get_site_gid_by_id(s)
        l = m.site_label(s)
        if l is None:
            require(g == -1, "empty site %d carries label %s", s, g)
            require(not lat.get_site_by_id(s).is_occupied(), "empty site %d counts as occupied", s)
            continue
        require(to_gid.get(l) == g, "site %d has label %s, its bonds have %s", s, g, to_gid.get(l))
        require(lat.get_site_by_id(s).is_occupied(), "occupied site %d counts as empty", s)
        members_s.setdefault(g, []).append(s)
    tb = ts = 0
    for g, bonds in members_b.items():
        lb, ls = pool.get_bonds(g), pool.get_sites(g)
        require(sorted(lb) == bonds, "cluster %d lists bonds %s, labelled are %s", g, sorted(lb)[:12], bonds[:12])
        require(sorted(ls) == members_s.get(g, []), "cluster %d lists sites %s, labelled are %s", g,
                sorted(ls)[:12], members_s.get(g, [])[:12])
        require(pool.get_cluster_bond_count(g) == len(bonds), "cluster %d reports %d bonds, has %d", g,
                pool.get_cluster_bond_count(g), len(bonds))
        require(pool.get_cluster_site_count(g) == len(members_s.get(g, [])), "cluster %d site count wrong", g)
        require(pool.get_cluster(g).get_gid() == g, "cluster %d states label %s", g, pool.get_cluster(g).get_gid())
        tb += len(lb)
        ts += len(ls)
    # nothing in any other cluster
    for i in range(B):
        if i not in members_b:
            require(pool.get_cluster_bond_count(i) == 0 and pool.get_cluster_site_count(i) == 0,
                    "cluster %d is not in use but lists %d bonds and %d sites", i,
                    pool.get_cluster_bond_count(i), pool.get_cluster_site_count(i))
    require(tb == B and ts == m.n, "clusters list %d bonds and %d sites in all", tb, ts)


def check_measures(p, m, entropy=True, wrap=True):
    """current getters against the model"""
    require(close(p.occupation_prob(), m.p(), 1e-12), "occupation probability %r, expected %r", p.occupation_prob(), m.p())
    if entropy:
        H = m.entropy()
        require(close(p.entropy(), H), "entropy %r after %d sites, expected %r", p.entropy(), m.n, H)
    require(bonds_of_fraction(p.order_param_largest_clstr(), m.B) == m.largest,
            "largest-cluster order parameter %r after %d sites, expected %d/%d", p.order_param_largest_clstr(), m.n,
            m.largest, m.B)
    if wrap:
        require(bonds_of_fraction(p.order_param_wrapping(), m.B) == m.wrap_bonds,
                "wrapping order parameter %r after %d sites, expected %d/%d", p.order_param_wrapping(), m.n,
                m.wrap_bonds, m.B)


def check_critical(p, m):
    require(close(p.get_pc(), m.pc(), 1e-12), "pc %r, expected %r", p.get_pc(), m.pc())
    require(p.get_site_count_wrapping_cluster_pc() == m.pc_sites, "wrapping-cluster sites at pc %r, expected %r",
            p.get_site_count_wrapping_cluster_pc(), m.pc_sites)
    require(p.get_bond_count_wrapping_cluster_pc() == m.pc_bonds, "wrapping-cluster bonds at pc %r, expected %r",
            p.get_bond_count_wrapping_cluster_pc(), m.pc_bonds)


def check_rows(got, rows, what="data table"):
    """got: sequence of (p,H,Plargest,Pwrap); rows: model rows"""
    require(len(got) == len(rows), "%s has %d rows, expected %d", what, len(got), len(rows))
    for i, (a, b) in enumerate(zip(got, rows)):
        require(len(a) == 4, "%s row %d has %d columns", what, i, len(a))
        for name, x, y, tol in zip(("occupation probability", "entropy", "largest order parameter",
                                    "wrapping order parameter"), a, b, (1e-12, TOL, 1e-10, 1e-10)):
            require(close(float(x), y, tol), "%s row %d: %s is %r, expected %r", what, i, name, float(x), y)


def data_rows(p):
    return [tuple(float(v) for v in r) for r in p.get_data_array()]


def fresh_state(p):
    """Every observable of a simulation on an empty lattice."""
    L = p.lattice_ref.length
    m = Model(L)
    check_partition(p, m)
    check_measures(p, m)
    require(close(p.entropy_v1(), math.log(m.B)), "recomputed entropy of the empty lattice is %r", p.entropy_v1())
    check_critical(p, m)
    require(not p.detect_wrapping(), "wrapping is reported on an empty lattice")
    for name in ("get_occupation_prob_array", "get_entropy_array", "get_order_param_wrapping_array", "get_order_param_largest_array"):
        require(len(getattr(p, name)()) == 0, "%s() is not empty on an empty lattice", name)
    for s in range(m.N):
        r = p.lattice_ref.get_site_by_id(s).get_relative_index()
        require((r.x_coord(), r.y_coord()) == (0, 0), "empty site %d has relative index %s", s, r)
    if hasattr(p, "get_shortest_path_p"):
        require(p.get_shortest_path_p() == 0, "p* is %r on an empty lattice", p.get_shortest_path_p())


def seed_rng(k):
    random.seed(k)


def realization(p, kind, step, expect=None, limit=None, total=None):
    """Runs one realization from the empty lattice and compares every measurement with the model -> picks.

    step: advance by hand (comparing at every step) or by run_once(). expect: the order that must be followed.
    limit: stop after that many sites (stepwise only). total: acceptable numbers of sites, if not all."""
    L = p.lattice_ref.length
    if step:
        m = Model(L)
        st_ = Stepper(p)
        while limit is None or m.n < limit:
            s = st_.next()
            if s is None:
                break
            m.place(s)
            require(bool(p.detect_wrapping()) == m.wrapped, "wrapping misreported after %d placements", m.n)
            check_measures(p, m)
            check_critical(p, m)
        picks = st_.picks
        if L <= 8:
            check_partition(p, m)
    else:
        picks = watched_run(p)
        rows, m = run_model(L, picks, stop_straight=kind == "SP")
        if kind == "SP":
            require(m.n == len(picks), "shortest-path run went on to %d sites, the line was complete after %d",
                    len(picks), m.n)
            want = m.p() if m.straight() else 0
            require(close(p.get_shortest_path_p(), want, 1e-12), "p* is %r, expected %r", p.get_shortest_path_p(), want)
        else:
            check_rows(data_rows(p), rows)
        check_critical(p, m)
        check_measures(p, m)
        if L <= 8:
            check_partition(p, m)
    if expect is not None:
        want = expect[:len(picks)] if (limit is not None and step) or kind == "SP" else expect
        require(picks == want, "sites were occupied in the order %s..., expected %s...", picks[:12], want[:12])
    elif limit is None and total is not None:
        require(len(picks) in total, "the realization occupied %d of %d sites", len(picks), L * L)
    elif limit is None and not (kind == "SP" and not step):
        require(len(picks) == L * L, "a default run occupied %d of %d sites", len(picks), L * L)
    return picks


def trace(kind, L, seed, ops):
    """Everything a caller can see of a simulation driven through ops ("step" k | "run" | "reset") as plain data."""
    p = build(kind, L, seed=seed)
    return follow(p, ops)


def observe(p):
    N = p.lattice_ref.length ** 2
    out = [list(p.get_site_id_sequence()), [p.lattice_ref.get_site_gid_by_id(s) >= 0 for s in range(N)],
           p.occupation_prob(), p.entropy(), p.order_param_largest_clstr(), p.order_param_wrapping(),
           p.get_pc(), p.get_site_count_wrapping_cluster_pc(), p.get_bond_count_wrapping_cluster_pc(),
           list(p.get_occupation_prob_array()), list(p.get_entropy_array()), list(p.get_order_param_largest_array()),
           list(p.get_order_param_wrapping_array())]
    if hasattr(p, "get_shortest_path_p"):
        out.append(p.get_shortest_path_p())
    return out


def follow(p, ops):
    out = []
    for op in ops:
        p.__dict__["_vf_calls"] = 0
        if op[0] == "step":
            stp = Stepper(p)
            log = []
            for _ in range(op[1]):
                what, s = stp.attempt()
                log.append([what, s, bool(p.detect_wrapping())])
                if what == "end":
                    break
            out.append(log)
        elif op[0] == "run":
            out.append(watched_run(p))
        elif op[0] == "reset":
            p.reset()
        elif op[0] == "custom":
            p.set_custome_site_id_list(list(op[1]), op[2])
        out.append(observe(p))
    return out
