"""Ensemble runs in a scratch directory: recording the true realizations, reading back the files."""
import contextlib
import json
import os
import shutil
import tempfile

import numpy as np

from .core import fail, require
from .drive import Watch, attempt_cap
from .gen import get_class


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf_data_")
    old = os.getcwd()
    try:
        for sub in ("data", "logs"):
            os.mkdir(os.path.join(d, sub))
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def recording(kind, custom=None):
    """-> (class, log). log gets one list of picked sites per realization, over all instances, in time order.

    custom: (site ids, shuffle) that every simulation of the class is restricted to"""
    base = get_class(kind)
    log = []

    def close_segment(self):
        w = self.__dict__.get("_vf_w")
        if w is not None:
            w.settle(self)
        if w is not None and w.picks:
            log.append(w.picks)
        self.__dict__["_vf_w"] = None

    def open_segment(self):
        w = self.__dict__.get("_vf_w")
        if w is None:
            w = self.__dict__["_vf_w"] = Watch(self)
            live.append(self)
        return w

    def run_once(self, *a, **k):
        open_segment(self)
        return base.run_once(self, *a, **k)

    def place_one_site(self, *a, **k):
        w = open_segment(self)
        if w.attempts > attempt_cap(self.lattice_ref.length ** 2):
            fail("a realization does not end")
        out = base.place_one_site(self, *a, **k)
        w.look()
        return out

    def reset(self, *a, **k):
        close_segment(self)
        return base.reset(self, *a, **k)

    def __init__(self, *a, **k):
        base.__init__(self, *a, **k)
        if custom is not None:
            self.set_custome_site_id_list(list(custom[0]), custom[1])

    live = []

    def done():
        for p in live:
            close_segment(p)
        return log

    cls = type(base.__name__, (base,), {"__init__": __init__, "place_one_site": place_one_site, "run_once": run_once, "reset": reset})
    return cls, done


class Table:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        with open(path) as f:
            text = f.read()
        first = text.split("\n", 1)[0]
        require(first.startswith("#"), "%s does not start with a header", self.name)
        try:
            self.head = json.loads(first.lstrip("# "))
        except ValueError:
            fail("the header of %s is not JSON: %s" % (self.name, first[:200]))
        try:
            rows = [[float(v) for v in line.split()] for line in text.split("\n")[1:] if line.strip()]
        except ValueError as e:
            fail("%s holds something that is not a number: %s" % (self.name, e))
        self.rows = rows
        self.complete = text.endswith("\n")
        self.columns = self.head.get("columns")

    def check_head(self, L, E):
        h = self.head
        for key, want in (("length", L), ("L", L), ("ensemble_size", E), ("En", E)):
            require(h.get(key) == want, "%s: header states %s=%r, it was %r", self.name, key, h.get(key), want)

    def meaning(self):
        """what the header says each column holds"""
        desc = {}
        for d in self.head.get("desc", []):
            if "=" in d:
                k, v = d.split("=", 1)
                desc[k.strip()] = v.strip()
        return [desc.get(c, c) for c in self.columns]


def tables(folder="data"):
    out = []
    for n in sorted(os.listdir(folder)):
        t = Table(os.path.join(folder, n))
        out.append(t)
    return out


def kind_of(t):
    cols = t.columns or []
    if "H" in cols:
        return "entropy"
    if "p*" in cols:
        return "shortest"
    return "critical"


def column_value(meaning, i):
    """row of the model (p, H, P_largest, P_wrap) -> the quantity a description names"""
    m = meaning.lower()
    if "largest" in m:
        return 2
    if "wrapping" in m:
        return 3
    if "entropy" in m:
        return 1
    if "occupation" in m or "ocupation" in m:
        return 0
    fail("column %d is described as %r" % (i, meaning))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b)) + 2e-9


def average(rows_per_realization):
    return np.mean(np.array(rows_per_realization, dtype=float), axis=0)
