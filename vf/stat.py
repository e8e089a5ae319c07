"""Martingale tests of a selection law.

At every step the exact conditional distribution pi of the next site is known from the occupied set. For a feature
f(state, site) in {0,1}, the sum over steps of f(picked) - E_pi[f] is a martingale with increments in [-1,1] and
predictable variance sum(E f (1 - E f)). Freedman: P(|S| >= t and V <= v for some n) <= 2 exp(-t^2/(2v + 2t/3)), so for
V rounded up to a power of 1.1 a deviation with bound below ALPHA (after a union over features, strata and the
powers of 1.1) refutes the law with false-alarm probability below 1e-10, whatever the implementation does with the
random numbers.
"""
import numpy as np

from .model import STEPS, neighbour

FALSE_ALARM = 1e-10
LEVELS = 300  # powers of 1.1 a variance can reach (up to 2**41)
AGES = (0.5, 1, 2, 4)
SMALL = 8  # up to this L every site is a feature of its own


class Law:
    """vectorised law(kind, occ), with the neighbour tables"""

    def __init__(self, L):
        self.L, self.N = L, L * L
        self.nb = np.array([[neighbour(L, s, d) for s in range(self.N)] for d in range(4)])
        self.nb2 = np.array([self.nb[d][self.nb[d]] for d in range(4)])
        r, c = np.divmod(np.arange(self.N), L)
        # the step from s in direction d goes across the seam
        self.cross = np.array([(r + dr < 0) | (r + dr >= L) | (c + dc < 0) | (c + dc >= L) for dr, dc in STEPS])
        self.row, self.col = r, c

    def pi(self, kind, occ, allowed):
        if kind == "L0":
            w = np.where(occ, 0.0, 1.0) if allowed is None else np.where(occ | ~allowed, 0.0, 1.0)
            return w / w.sum()
        cand = np.ones(self.N, dtype=bool) if allowed is None else allowed  # sites the draw starts from
        w = np.where(cand & ~occ, 4.0, 0.0)
        for d in range(4):
            # x = the site whose neighbour in direction d is z: opposite direction
            x = self.nb[(d + 2) % 4]
            w += np.where(~occ & (cand & occ)[x], 1.0, 0.0)
            if kind == "L2":
                x2 = self.nb2[(d + 2) % 4]
                w += np.where(~occ & occ[x] & (cand & occ)[x2], 1.0, 0.0)
        t = w.sum()
        return w / t if t else w

    def reach(self, kind, cand):
        """everything a run that draws from cand fills"""
        r = cand.copy()
        r[self.nb[:, cand].ravel()] = True
        if kind == "L2":
            r[self.nb2[:, cand].ravel()] = True
        return r


GENERIC = ["row<column", "lower half", "id odd", "on the border row/column", "first row", "last row", "first column", "last column", "first site", "last site"]


def names_of(L):
    out = []
    if L <= SMALL:
        out += ["site %d" % s for s in range(L * L)]
    out += ["row %d" % r for r in range(L)] + ["column %d" % c for c in range(L)]
    out += GENERIC
    out += ["%d occupied neighbours" % k for k in range(5)]
    for d in ("right", "bottom", "left", "top"):
        out += ["%s neighbour occupied" % d, "%s neighbour occupied, across the seam" % d,
                "two occupied sites to the %s" % d, "two occupied sites to the %s, seam at the first" % d,
                "two occupied sites to the %s, seam at the second" % d, "isolated except to the %s" % d]
    out += ["adjacent to the previous site", "same row as the previous", "same column as the previous", "id above the previous",
            "follows the previous id", "same as at this step in the previous realization",
            "same successor as in the previous realization", "same as this step two realizations ago",
            "reverse of the previous realization",
            "first empty id", "last empty id", "adjacent to the very first site", "across from the first site",
            "early in the previous realization", "second neighbour occupied (any direction)",
            "all second neighbours occupied"]
    out += ["some neighbour occupied for over %s N trials" % k for k in AGES]
    out += ["surrounded for over %s N trials" % k for k in AGES]
    out += ["longest surrounded", "shortest surrounded", "neighbours occupied longest", "neighbours occupied most recently",
            "share of old neighbours", "straight pairs occupied for over 2 N trials"]
    out += ["empty when the previous realization was broken off", "surrounded when the previous realization was broken off",
            "exhausted when the previous realization was broken off", "id below the number of sites then empty", "id below the number of sites then occupied"]
    return out


class Features:
    def __init__(self, law):
        self.law = law
        L, N = law.L, law.N
        ids = np.arange(N)
        static = []
        if L <= SMALL:
            static += list(np.eye(N, dtype=bool))
        static += [law.row == r for r in range(L)] + [law.col == c for c in range(L)]
        static += [law.row < law.col, ids >= N // 2, ids % 2 == 1,
                   (law.row == 0) | (law.row == L - 1) | (law.col == 0) | (law.col == L - 1),
                   law.row == 0, law.row == L - 1, law.col == 0, law.col == L - 1, ids == 0, ids == N - 1]
        self.static = np.array(static, dtype=bool)
        self.nstatic = len(static)
        self.names = names_of(L)
        self.F = np.zeros((len(self.names), N))
        self.F[:self.nstatic] = self.static
        self.ids = ids
        self.generic = self.names.index(GENERIC[0])  # from here on the features mean the same on every lattice

    def matrix(self, occ, picks, prev, prev2, prevpos, succ, age, broken):
        law, F, ids = self.law, self.F, self.ids
        k = self.nstatic
        on = occ[law.nb]
        on2 = occ[law.nb2]
        cnt = on.sum(axis=0)
        for j in range(5):
            F[k] = cnt == j
            k += 1
        for d in range(4):
            F[k] = on[d]
            F[k + 1] = on[d] & law.cross[d]
            both = on[d] & on2[d]
            F[k + 2] = both
            F[k + 3] = both & law.cross[d]
            F[k + 4] = both & law.cross[d][law.nb[d]]
            F[k + 5] = on[d] & (cnt == 1)
            k += 6
        t = len(picks)
        last = picks[-1] if picks else None
        F[k:] = False
        if last is not None:
            F[k, law.nb[:, last]] = True
            F[k + 1] = law.row == law.row[last]
            F[k + 2] = law.col == law.col[last]
            F[k + 3] = ids > last
            F[k + 4, (last + 1) % law.N] = True
        if prev is not None:
            if t < len(prev):
                F[k + 5, prev[t]] = True
                F[k + 8, prev[len(prev) - 1 - t]] = True
            if last is not None and succ is not None and succ[last] >= 0:
                F[k + 6, succ[last]] = True
            F[k + 13] = prevpos < law.N // 2
        if prev2 is not None and t < len(prev2):
            F[k + 7, prev2[t]] = True
        empty = np.flatnonzero(~occ)
        F[k + 9, empty[0]] = True
        F[k + 10, empty[-1]] = True
        if picks:
            F[k + 11, law.nb[:, picks[0]]] = True
            F[k + 12] = (law.row == law.row[picks[0]]) | (law.col == law.col[picks[0]])
        F[k + 14] = on2.any(axis=0)
        F[k + 15] = on2.all(axis=0)
        # age: trials made since a site was occupied, in units of N (-1: empty)
        k += 16
        an = age[law.nb]
        oldest, youngest = an.max(axis=0), an.min(axis=0)
        for a in AGES:
            F[k] = oldest > a
            F[k + len(AGES)] = youngest > a
            k += 1
        k += len(AGES)
        F[k, empty[np.argmax(youngest[empty])]] = True
        F[k + 1, empty[np.argmin(youngest[empty])]] = True
        total = np.maximum(an, 0).sum(axis=0)
        F[k + 2, empty[np.argmax(total[empty])]] = True
        F[k + 3, empty[np.argmin(total[empty])]] = True
        F[k + 4] = np.minimum(total / 16.0, 1.0)
        F[k + 5] = np.minimum(an, age[law.nb2]).max(axis=0) > 2
        k += 6
        if broken is not None:
            F[k:k + len(broken)] = broken
        return F

    def broken_off(self, picks):
        """static features of the realization after one that was broken off"""
        law = self.law
        occ = np.zeros(law.N, dtype=bool)
        occ[picks] = True
        inner = occ & occ[law.nb].all(axis=0)
        return np.array([~occ, inner, inner & occ[law.nb2].all(axis=0), self.ids < law.N - len(picks), self.ids < len(picks)], dtype=bool)


class Ledger:
    """sums per (L, stratum)"""

    def __init__(self):
        self.acc = {}
        self.laws = {}
        self.steps = 0

    def law(self, L):
        if L not in self.laws:
            law = Law(L)
            self.laws[L] = (law, Features(law))
        return self.laws[L]

    def add(self, key, diff, var):
        a = self.acc.get(key)
        if a is None:
            self.acc[key] = [diff.copy(), var.copy()]
        else:
            a[0] += diff
            a[1] += var

    def realization(self, kind, L, picks, when, prev, prev2, strata, allowed=None, broken=None):
        """picks: the order observed; prev, prev2: the realizations before it (or None)"""
        law, feats = self.law(L)
        N = law.N
        occ = np.zeros(N, dtype=bool)
        prevpos = succ = None
        if prev is not None:
            prevpos = np.full(N, N)
            prevpos[prev] = np.arange(len(prev))
            succ = np.full(N, -1)
            succ[prev[:-1]] = prev[1:]
        if broken is not None:
            broken = feats.broken_off(broken)
            strata = tuple(strata) + ("after a realization broken off",)
        done = []
        born = np.full(N, -1.0)
        total = N
        if allowed is not None:
            total = int((allowed if kind == "L0" else law.reach(kind, allowed)).sum())
        joint = L <= 4 and allowed is None
        for s in picks:
            if len(done) == total - 1:
                break  # nothing random is left
            pi = law.pi(kind, occ, allowed)
            if not pi[s] > 0:
                from .core import fail
                fail("site %d was selected although the rule gives it probability 0 (occupied: %s)" % (s, list(np.flatnonzero(occ))))
            # `when` of the previous site only: the present trial count is not known before the draw
            now = when[len(done) - 1] if done else 0
            age = np.where(occ, (now - born) / N, -1.0)
            F = feats.matrix(occ, done, prev, prev2, prevpos, succ, age, broken)
            E = F @ pi
            np.clip(E, 0.0, 1.0, out=E)
            diff = F[:, s] - E
            var = np.maximum((F * F) @ pi - E * E, 0.0)
            q = 4 * len(done) // total
            self.add("L%d|all" % L, diff, var)
            self.add("L%d|filling quarter %d" % (L, q), diff, var)
            for name in strata:
                self.add("L%d|%s" % (L, name), diff, var)
            wide = tuple("sides above %d" % n for n in (8, 16, 30, 60) if L > n)
            for name in ("all", "filling quarter %d" % q) + tuple(strata) + wide:
                self.add("pooled|" + name, diff[feats.generic:], var[feats.generic:])
            if total - len(done) <= 5:
                self.add("L%d|last five sites" % L, diff, var)
            if len(done) < 4:
                self.add("L%d|step %d" % (L, len(done)), diff, var)
                self.add("pooled|step %d" % len(done), diff[feats.generic:], var[feats.generic:])
            elif total - len(done) <= 4:
                self.add("pooled|%d left" % (total - len(done)), diff[feats.generic:], var[feats.generic:])
            if allowed is not None and L <= 5:
                self.add("L%d|%d listed, step %d" % (L, min(3, int(allowed.sum())), min(len(done), 9)), diff, var)
            if joint:
                one = np.zeros(N)
                one[s] = 1.0
                for name in ("all",) + tuple(strata):
                    self.add("joint L%d step %d|%s" % (L, len(done), name), one - pi, pi * (1 - pi))
            occ[s] = True
            born[s] = when[len(done)]
            done.append(s)
            self.steps += 1

    def dump(self):
        return {"steps": self.steps, "acc": {k: [v[0].tolist(), v[1].tolist()] for k, v in self.acc.items()}}


def merge(dumps):
    acc, steps = {}, 0
    for d in dumps:
        if not d:
            continue
        steps += d["steps"]
        for k, (a, b) in d["acc"].items():
            if k in acc:
                acc[k][0] += np.array(a)
                acc[k][1] += np.array(b)
            else:
                acc[k] = [np.array(a), np.array(b)]
    return acc, steps


def verdict(acc):
    """-> None, or a sentence about the strongest deviation"""
    tests = sum(len(v[0]) for v in acc.values()) * LEVELS
    log_alpha = np.log(FALSE_ALARM / max(1, tests))
    worst = None
    for key, (S, V) in acc.items():
        v = 1.1 ** np.ceil(np.log(np.maximum(V, 1.0)) / np.log(1.1))
        t = np.abs(S)
        logp = np.log(2.0) - t * t / (2 * v + 2 * t / 3)
        j = int(np.argmin(logp))
        if logp[j] < log_alpha and (worst is None or logp[j] < worst[0]):
            worst = (float(logp[j]), key, j, float(S[j]), float(V[j]))
    if worst is None:
        return None
    lp, key, j, S, V = worst
    if key.startswith("joint"):
        name = "site %d" % j
    elif key.startswith("pooled"):
        name = names_of(9)[18 + j]
    else:
        name = names_of(int(key.split("|")[0][1:]))[j]
    return ("feature '%s' of the selected site [%s] happened %+.0f times against the expectation of the stated rule "
            "(standard deviation %.0f); a correct rule does this with probability below e^%.0f" % (name, key, S, V ** 0.5, lp))
