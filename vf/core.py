"""Shared plumbing: locating the code under test, violations, per-run recording."""
import hashlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Violation(Exception):
    """The property does not hold on the case being checked."""


class Hang(Violation):
    """The code under test does not come to an end."""


class TooSlow(BaseException):
    """A large case takes longer than the check can give it."""


class Discard(Exception):
    """The case lies outside the domain of the property (counted)."""


def size(case):
    """the largest lattice length named anywhere in a case"""
    if isinstance(case, dict):
        own = case.get("L")
        return max([own if isinstance(own, int) else 0] + [size(v) for v in case.values() if isinstance(v, (dict, list))])
    return max([size(v) for v in case if isinstance(v, (dict, list))] + [0])


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg % args if args else msg)


def setup_import_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def is_sut_exception(exc):
    """True when the exception was raised by the code under test (or by a library it called), and not by
    the harness: the innermost frame that belongs to either is a frame of the code under test."""
    owner = None
    for fr, _ in traceback.walk_tb(exc.__traceback__):
        fn = os.path.abspath(fr.f_code.co_filename)
        if fn.startswith(os.path.join(REPO, "")):
            owner = "sut"
        elif fn.startswith(os.path.join(VERIF, "")):
            owner = "harness"
    return owner == "sut"


def is_wrong_answer(exc):
    """True when the harness stumbled over an answer of the code under test which is of the wrong kind (None
    instead of a list, a list too short, ...). A method that is missing or wants other arguments does not count."""
    import re
    if isinstance(exc, AttributeError):
        return type(getattr(exc, "obj", exc)).__module__ in ("builtins", "numpy")
    if isinstance(exc, TypeError):
        return not re.search(r"argument|abstract", str(exc))
    return isinstance(exc, (ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


class Recorder:
    """Counts what a run covered."""

    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._case = None
        self.state = {}
        self.deadline = float("inf")

    def begin(self, case):
        self.evaluations += 1
        self._case = case

    def nontriv(self, cond=True):
        if not cond:
            return
        d = digest(self._case)
        if d not in self.nontrivial:
            self.nontrivial.add(d)
            k = len(self.nontrivial)
            # a spread of samples: the 1st, 3rd, 10th, 30th ... non-trivial case, if short enough to read
            if k in (2, 7, 25, 90) or (not self.samples and k < 20):
                txt = canon(self._case)
                if len(txt) < 1500:
                    self.samples.append(self._case)

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def dump(self):
        return {"evaluations": self.evaluations, "discarded": self.discarded,
                "nontrivial": sorted(self.nontrivial), "labels": self.labels,
                "samples": self.samples[:4]}
