"""Independent reference model of site percolation on the L x L torus.

Weighted union-find over sites; every site carries a displacement in Z^2 to its root. A cluster winds round
the torus iff joining two sites already in one tree meets a displacement different from the unit step.
Cluster size is counted in bonds: the bonds incident to at least one occupied site belong to the cluster of
that site, all other bonds are clusters of one bond.
"""
import math

STEPS = ((0, 1), (1, 0), (0, -1), (-1, 0))  # right, bottom, left, top


def neighbour(L, s, d):
    r, c = divmod(s, L)
    dr, dc = STEPS[d]
    return ((r + dr) % L) * L + (c + dc) % L


def bond_of(L, s, d):
    """id of the bond leaving site s in direction d"""
    if d == 0:
        return s
    if d == 1:
        return L * L + s
    if d == 2:
        return neighbour(L, s, 2)
    return L * L + neighbour(L, s, 3)


def bond_ends(L, b):
    N = L * L
    if b < N:
        return b, neighbour(L, b, 0)
    return b - N, neighbour(L, b - N, 1)


class Model:
    def __init__(self, L):
        self.L = L
        self.N = L * L
        self.B = 2 * self.N
        self.parent = [-1] * self.N  # -1: empty
        self.off = [(0, 0)] * self.N  # displacement of the site relative to its parent
        self.sites = [0] * self.N
        self.bonds = [0] * self.N
        self.winds = [False] * self.N  # at the root: cluster contains a winding loop
        self.hist = {1: self.B}
        self.n = 0
        self.order = []
        self.largest = 0
        self.wrap_site = None  # a site of the first cluster that wrapped
        self.pc_n = self.pc_sites = self.pc_bonds = 0
        self.rows = [0] * L
        self.cols = [0] * L
        self.full_lines = []  # a representative site of every complete row/column
        self.max_merge = 0  # how many pre-existing site clusters the last placement joined

    # -- union-find -----------------------------------------------------------------------------------------
    def occupied(self, s):
        return self.parent[s] >= 0

    def find(self, s):
        """root of s and displacement of s relative to the root"""
        path = []
        while self.parent[s] != s:
            path.append(s)
            s = self.parent[s]
        root = s
        x = y = 0
        for q in reversed(path):
            x += self.off[q][0]
            y += self.off[q][1]
            self.parent[q] = root
            self.off[q] = (x, y)
        return root

    def pot(self, s):
        self.find(s)
        return self.off[s] if self.parent[s] != s else (0, 0)

    def _hist(self, size, k):
        if size == 0:
            return
        v = self.hist.get(size, 0) + k
        if v:
            self.hist[size] = v
        else:
            self.hist.pop(size, None)

    def place(self, s):
        assert self.parent[s] < 0, "model: site placed twice"
        L = self.L
        self.parent[s] = s
        self.off[s] = (0, 0)
        self.sites[s] = 1
        self.bonds[s] = 0
        new = set()
        for d in range(4):
            t = neighbour(L, s, d)
            if self.parent[t] < 0 or t == s:
                new.add(bond_of(L, s, d))
        self.bonds[s] = len(new)
        self._hist(1, -len(new))
        self._hist(len(new), 1)
        merged = set()
        for d in range(4):
            t = neighbour(L, s, d)
            if self.parent[t] < 0 or t == s:
                continue
            dr, dc = STEPS[d]
            a, b = self.find(s), self.find(t)
            ps, pt = self.pot(s), self.pot(t)
            if a == b:
                if (pt[0] - ps[0], pt[1] - ps[1]) != (dr, dc):
                    self.winds[a] = True
                continue
            merged.add(b)
            # t should sit at pot(s)+step in a's frame
            shift = (ps[0] + dr - pt[0], ps[1] + dc - pt[1])
            if self.sites[a] < self.sites[b]:
                a, b = b, a
                shift = (-shift[0], -shift[1])
            self.parent[b] = a
            self.off[b] = shift
            self._hist(self.bonds[a], -1)
            self._hist(self.bonds[b], -1)
            self.bonds[a] += self.bonds[b]
            self._hist(self.bonds[a], 1)
            self.sites[a] += self.sites[b]
            self.winds[a] = self.winds[a] or self.winds[b]
        self.max_merge = len(merged)
        self.n += 1
        self.order.append(s)
        root = self.find(s)
        self.largest = max(self.largest, self.bonds[root])
        if self.wrap_site is None and self.winds[root]:
            self.wrap_site = s
            self.pc_n, self.pc_sites, self.pc_bonds = self.n, self.sites[root], self.bonds[root]
        r, c = divmod(s, L)
        self.rows[r] += 1
        self.cols[c] += 1
        if self.rows[r] == L:
            self.full_lines.append(r * L)
        if self.cols[c] == L:
            self.full_lines.append(c)

    # -- measurements ---------------------------------------------------------------------------------------
    @property
    def wrapped(self):
        return self.wrap_site is not None

    @property
    def wrap_bonds(self):
        return self.bonds[self.find(self.wrap_site)] if self.wrapped else 0

    @property
    def wrap_sites(self):
        return self.sites[self.find(self.wrap_site)] if self.wrapped else 0

    def straight(self):
        """the tracked wrapping cluster contains a complete row or column"""
        if not self.wrapped:
            return False
        w = self.find(self.wrap_site)
        return any(self.find(s) == w for s in self.full_lines)

    def entropy(self):
        B = self.B
        return -math.fsum(k * (b / B) * math.log(b / B) for b, k in self.hist.items())

    def p(self):
        return self.n / self.N

    def p_largest(self):
        return self.largest / self.B

    def p_wrap(self):
        return self.wrap_bonds / self.B

    def row(self):
        return (self.p(), self.entropy(), self.p_largest(), self.p_wrap())

    def pc(self):
        return self.pc_n / self.N

    # -- labels ---------------------------------------------------------------------------------------------
    def site_label(self, s):
        return None if self.parent[s] < 0 else self.find(s)

    def bond_label(self, b):
        u, v = bond_ends(self.L, b)
        if self.parent[u] >= 0:
            return self.find(u)
        if self.parent[v] >= 0:
            return self.find(v)
        return ("b", b)


def run_model(L, order, stop_straight=False):
    """rows (p,H,P_largest,P_wrap) for every step, and the final model"""
    m = Model(L)
    rows = []
    for s in order:
        m.place(s)
        rows.append(m.row())
        if stop_straight and m.straight():
            break
    return rows, m


def closure(cls, L, cand):
    """the candidates and everything the rule can reach from them"""
    out = set(cand)
    if cls in ("L1", "L2"):
        for s in cand:
            for d in range(4):
                t = neighbour(L, s, d)
                out.add(t)
                if cls == "L2":
                    out.add(neighbour(L, t, d))
    return out


# -- exact conditional selection laws ---------------------------------------------------------------------------

def law(kind, L, occ, targets=None):
    """Probability of each empty site being the next one, given the occupied flags (list of bool)."""
    N = L * L
    w = [0.0] * N
    if kind == "L0":
        for s in range(N):
            if not occ[s]:
                w[s] = 1.0
    else:
        for x in range(N):
            if not occ[x]:
                w[x] += 4.0
                continue
            for d in range(4):
                y = neighbour(L, x, d)
                if not occ[y]:
                    w[y] += 1.0
                elif kind == "L2":
                    z = neighbour(L, y, d)
                    if not occ[z]:
                        w[z] += 1.0
    t = sum(w)
    return [v / t for v in w] if t else w
