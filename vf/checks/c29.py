"""C29 the cluster pool is a faithful ledger of members and labels."""
import contextlib
import io
import re

from hypothesis import strategies as st

from ..core import require

EXAMPLES = {"quick": 9000, "thorough": 36000}
RULE = ("histories over one or two pools, each with its own lattice: create a cluster from free sites and bonds (lists, possibly empty or left out), merge one cluster into another and clear the "
        "absorbed one (at once or a few operations later), clear, add single members or lists, reset; after every operation members, counts, labels and numbering are compared with a dict. "
        "Non-trivial: at least two merges of non-empty clusters.")


@st.composite
def strategy_(draw, hi, n_ops):
    L = draw(st.integers(2, hi))
    big = st.integers(0, 10 ** 6)
    pool = st.integers(0, 1)
    few = st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.integers(0, 2 * L * L))
    op = st.one_of(
        st.tuples(st.just("create"), pool, big, few, few, st.integers(0, 2)), st.tuples(st.just("create"), pool, big, few, few, st.integers(0, 2)),
        st.tuples(st.just("merge"), pool, big, big, st.booleans()), st.tuples(st.just("merge"), pool, big, big, st.just(True)),
        st.tuples(st.just("merge"), pool, big, big, st.just(True)),
        st.tuples(st.just("clear"), pool, big), st.tuples(st.just("add"), pool, big, big, st.integers(0, 3), st.booleans()),
        st.tuples(st.just("reset"), st.integers(0, 6)))
    ops = draw(st.lists(op, min_size=4, max_size=n_ops))
    return {"L": L, "init": draw(st.booleans()), "pools": draw(st.integers(1, 2)), "ops": [list(o) for o in ops]}


def strategy(tier):
    return strategy_(6 if tier == "quick" else 10, 30 if tier == "quick" else 80)


def corpus(tier):
    out = []
    for L in (5, 12, 20):
        ops = [["merge", 0, 7 * i, 13 * i + 1, i % 2 == 0] for i in range(60)] + [["reset", 0], ["create", 0, 3, 4, 4, 0], ["create", 0, 9, 2, 0, 1], ["merge", 0, 0, 1, True]]
        out.append({"L": L, "init": True, "pools": 1, "ops": ops})
    for L in (30, 72, 100) + (() if tier == "quick" else (150, 200)):  # clusters of up to ten thousand members and more
        n = L * L
        out.append({"L": L, "init": False, "pools": 1, "ops": [["create", 0, 3, n // 2, n - 7, 0], ["create", 0, 9, n // 3, n // 2, 0], ["merge", 0, 1, 0, True], ["create", 0, 1, 2, 5, 0],
                                                               ["merge", 0, 1, 0, False], ["add", 0, 0, 5, 3, True], ["create", 0, 5, 1, 1, 0], ["merge", 0, 0, 1, True]]})
    for n in (8, 16, 20, 40, 64, 70):  # only sites, only bonds, or many of one kind
        for how in (0, 1, 2):
            ops = [["create", 0, 3, n, 0, how], ["create", 0, 50, 0, n, how], ["create", 0, 90, n, 1, how], ["create", 0, 7, 1, n, how], ["create", 0, 200, n, n, how],
                   ["merge", 0, 0, 1, True], ["merge", 0, 1, 2, False], ["add", 0, 0, 11, n, True], ["add", 0, 0, 12, n, False], ["merge", 0, 1, 0, True], ["reset", 0]]
            out.append({"L": 30, "init": False, "pools": 1, "ops": ops + ops[:6]})
    return out


class Ledger:
    def __init__(self, L):
        from source_py.simulation.cluster import ClusterPool
        from source_py.simulation.lattice import Lattice
        self.lat, self.pool, self.L = Lattice(L), ClusterPool(), L
        self.N = L * L
        self.sg = [-1] * self.N
        self.bg = [-1] * (2 * self.N)
        self.c = []  # [sites, bonds] or None once cleared
        self.passed = []
        self.due = None  # absorbed, to be cleared
        self.merges = 0

    def free(self, n, start, sites):
        used = {x for c in self.c if c is not None for x in c[0 if sites else 1]}
        m = self.N if sites else 2 * self.N
        out = [x % m for x in range(start, start + m) if x % m not in used]
        return out[:n]

    def live(self):
        return [i for i, c in enumerate(self.c) if c is not None and i != self.due]

    def create(self, start, ns, nb, how):
        ss, bb = self.free(ns, start, True), self.free(nb, start // 7, False)
        for v in (ss, bb):
            self.passed.append((v, list(v)))
        if how == 0 or (ss and bb):
            self.pool.create_new_cluster(ss, bb, self.lat)
        elif not ss:
            self.pool.create_new_cluster(bond_ids=bb, lattice_ref=self.lat)
        else:
            self.pool.create_new_cluster(site_ids=ss, lattice_ref=self.lat)
        g = len(self.c)
        for s in ss:
            self.sg[s] = g
        for b in bb:
            self.bg[b] = g
        self.c.append([list(ss), list(bb)])

    def settle(self):
        if self.due is not None:
            self.pool.clear_cluster(self.due)
            self.c[self.due] = None
            self.due = None

    def merge(self, a, b, now):
        self.settle()
        live = self.live()
        if len(live) < 2:
            return
        a, b = live[a % len(live)], live[b % len(live)]
        if a == b:
            return
        self.pool.merge_cluster_with(a, b, self.lat)
        A, B = self.c[a], self.c[b]
        self.merges += bool(B[0] or B[1]) and bool(A[0] or A[1])
        for s in B[0]:
            self.sg[s] = a
        for x in B[1]:
            self.bg[x] = a
        A[0] += B[0]
        A[1] += B[1]
        self.due = b
        if now:
            self.settle()

    def clear(self, k):
        live = self.live()
        if live:
            self.pool.clear_cluster(live[k % len(live)])
            self.c[live[k % len(live)]] = None

    def add(self, k, start, n, sites):
        live = self.live()
        if not live:
            return
        k = live[k % len(live)]
        v = self.free(max(1, n), start, sites)
        if not v:
            return
        f = self.pool.add_sites if sites else self.pool.add_bonds
        if n == 0:
            f(k, v[0])
            v = v[:1]
        else:
            f(k, v)
            self.passed.append((v, list(v)))
        self.c[k][0 if sites else 1] += v
        for x in v:  # the caller labels them
            if sites:
                self.lat.set_site_gid_by_id(x, k)
                self.sg[x] = k
            else:
                self.lat.set_bond_gid_by_id(x, k)
                self.bg[x] = k

    def reset(self):
        self.due = None
        self.pool.reset()
        self.c = []

    def verify(self, op):
        pool = self.pool
        for i, c in enumerate(self.c):
            want = c if c is not None else [[], []]
            if i == self.due and not pool.get_sites(i) and not pool.get_bonds(i):
                want = [[], []]  # absorbed: whether it lets go of its members now or when it is cleared is its own affair
            require(sorted(pool.get_sites(i)) == sorted(want[0]), "after %s cluster %d holds sites %s, it should be %s", op, i, pool.get_sites(i), want[0])
            require(sorted(pool.get_bonds(i)) == sorted(want[1]), "after %s cluster %d holds bonds %s, it should be %s", op, i, pool.get_bonds(i), want[1])
            require(pool.get_cluster_site_count(i) == len(want[0]) and pool.get_cluster_bond_count(i) == len(want[1]), "after %s the counts of cluster %d do not match its members", op, i)
            q = pool.get_cluster(i)
            require(q.is_empty() == (not want[0] and not want[1]), "after %s cluster %d says is_empty() = %s", op, i, q.is_empty())
            if c is not None and i != self.due:
                require(q.get_gid() == i and q.get_id() == i, "after %s cluster %d says it is id %s with label %s", op, i, q.get_id(), q.get_gid())
        require(pool.get_cluster(len(self.c)) is None, "after %s there are more than %d clusters", op, len(self.c))
        for s in range(self.N):
            require(self.lat.get_site_gid_by_id(s) == self.sg[s], "after %s site %d has label %s, it should be %s", op, s, self.lat.get_site_gid_by_id(s), self.sg[s])
            require(self.lat.get_site_by_id(s).is_occupied() == (self.sg[s] >= 0), "after %s site %d with label %d says is_occupied() = %s", op, s, self.sg[s],
                    self.lat.get_site_by_id(s).is_occupied())
        for b in range(2 * self.N):
            require(self.lat.get_bond_gid_by_id(b) == self.bg[b], "after %s bond %d has label %s, it should be %s", op, b, self.lat.get_bond_gid_by_id(b), self.bg[b])
        for v, copy in self.passed:
            require(v == copy, "after %s a list passed in earlier is %s, it was %s", op, v, copy)


def check(case, rec):
    pools = [Ledger(case["L"]) for _ in range(case["pools"])]
    if case["init"]:
        for b in range(2 * case["L"] ** 2):
            pools[0].pool.create_new_cluster([], [b], pools[0].lat)
            pools[0].c.append([[], [b]])
            pools[0].bg[b] = b
    for op in case["ops"]:
        if op[0] == "reset":
            if op[1] >= 2:
                continue
        q = pools[op[1] % len(pools)]
        if op[0] == "create":
            q.create(*op[2:])
        elif op[0] == "merge":
            q.merge(*op[2:])
        elif op[0] == "clear":
            q.clear(op[2])
        elif op[0] == "add":
            q.add(*op[2:])
        else:
            q.reset()
            rec.label("reset")
        for r in pools:
            r.verify(op)
    for r in pools:
        r.settle()
        r.verify("the last clear")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r.pool.view()
        n = re.findall(r"[Nn]umber of clusters\s*:?\s*(\d+)", out.getvalue())
        want = sum(1 for c in r.c if c is not None and (c[0] or c[1]))
        require(n == [str(want)], "the pool counts %s clusters, %d are not empty", n, want)
    rec.nontriv(sum(r.merges for r in pools) >= 2)
    rec.label("%d pools" % len(pools))
    if any(r.merges > 3 for r in pools):
        rec.label("more than 3 merges")
