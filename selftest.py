"""Checks the reference model against brute force, so that later verdicts do not rest on an untested oracle."""
import math
import random
import sys

from vf.model import Model, STEPS, neighbour, bond_ends, bond_of


def brute(L, occ):
    """components by BFS; winding by BFS in the universal cover (a site reached at two different lifted positions)"""
    N = L * L
    label, comps = {}, []
    for s in range(N):
        if not occ[s] or s in label:
            continue
        k = len(comps)
        lifted = {s: (0, 0)}
        label[s] = k
        queue, winds = [s], False
        while queue:
            q = queue.pop()
            x, y = lifted[q]
            for d, (dr, dc) in enumerate(STEPS):
                t = neighbour(L, q, d)
                if not occ[t]:
                    continue
                if t not in lifted:
                    lifted[t] = (x + dr, y + dc)
                    label[t] = k
                    queue.append(t)
                elif lifted[t] != (x + dr, y + dc):
                    winds = True
        bonds = {bond_of(L, q, d) for q in lifted for d in range(4)}
        comps.append((frozenset(lifted), frozenset(bonds), winds))
    return label, comps


def laws():
    """the selection laws against a literal enumeration of the draws, and the sampled statistics on a literal simulation"""
    import numpy as np
    from vf.model import law
    from vf.stat import Law
    rnd = random.Random(99)

    def shift(L, s, d):
        r, c = divmod(s, L)
        return [r * L + (c + 1) % L, (r + 1) % L * L + c, r * L + (c - 1) % L, (r - 1) % L * L + c][d]

    for trial in range(300):
        L = rnd.choice([3, 4, 5])
        N = L * L
        occ = [rnd.random() < rnd.choice([.1, .5, .9]) for _ in range(N)]
        cand = None if trial % 2 else rnd.sample(range(N), rnd.randint(1, N))
        for kind in ("L1", "L2", "L0"):
            w = [0] * N
            for x in range(N) if cand is None else cand:
                for d in range(4):  # every (start, direction) is equally likely
                    z = x
                    for _ in range({"L0": 0, "L1": 1, "L2": 2}[kind]):
                        if occ[z]:
                            z = shift(L, z, d)
                    if not occ[z]:
                        w[z] += 1
            t = sum(w)
            want = [v / t if t else 0 for v in w]
            allowed = None
            if cand is not None:
                allowed = np.zeros(N, dtype=bool)
                allowed[cand] = True
            if kind == "L0" and not t:
                continue
            got = Law(L).pi(kind, np.array(occ), allowed)
            assert max(abs(a - b) for a, b in zip(got, want)) < 1e-12, (kind, L, occ, cand)
            if cand is None:
                assert max(abs(a - b) for a, b in zip(law(kind, L, occ), want)) < 1e-12


def main():
    rnd = random.Random(12345)
    n = 0
    for trial in range(400):
        L = rnd.choice([2, 3, 3, 4, 4, 5, 6, 7])
        order = list(range(L * L))
        rnd.shuffle(order)
        if trial % 3 == 0:  # bands and competing windings
            rows = rnd.sample(range(L), L)
            order.sort(key=lambda s: (rows.index(s // L), rnd.random()))
        m = Model(L)
        occ = [False] * (L * L)
        first = None
        for s in order:
            m.place(s)
            occ[s] = True
            label, comps = brute(L, occ)
            for t in range(L * L):
                assert (m.site_label(t) is None) == (not occ[t])
            for sites, bonds, winds in comps:
                assert len({m.site_label(t) for t in sites}) == 1
                r = m.site_label(next(iter(sites)))
                assert m.sites[r] == len(sites) and m.bonds[r] == len(bonds), (L, order, s)
                assert m.winds[r] == winds
                assert {m.bond_label(b) for b in bonds} == {r}
            assert len({m.site_label(t) for c in comps for t in c[0]}) == len(comps)
            B = 2 * L * L
            sizes = [len(c[1]) for c in comps]
            sizes += [1] * (B - sum(sizes))
            assert sum(sizes) == B
            H = -sum(b / B * math.log(b / B) for b in sizes)
            assert abs(H - m.entropy()) < 1e-11
            assert m.largest == max(sizes) or m.n == 0
            if first is None and any(c[2] for c in comps):
                first = s
                w = [c for c in comps if c[2]]
                assert len(w) == 1 and s in w[0][0]
                assert (m.pc_n, m.pc_sites, m.pc_bonds) == (m.n, len(w[0][0]), len(w[0][1]))
            assert m.wrapped == (first is not None)
            if first is not None:
                c = comps[label[first]]
                assert m.wrap_bonds == len(c[1])
                st = any(all(r * L + k in c[0] for k in range(L)) for r in range(L)) or \
                    any(all(k * L + q in c[0] for k in range(L)) for q in range(L))
                assert st == m.straight()
            n += 1
    for L in range(1, 6):
        for b in range(2 * L * L):
            u, v = bond_ends(L, b)
            assert any(bond_of(L, u, d) == b and neighbour(L, u, d) == v for d in range(4))
    laws()
    print("selftest: reference model agrees with brute force on %d states" % n)


if __name__ == "__main__":
    sys.exit(main())
