"""Entry point of every check:  python3-vt run.py C02 [--tier quick|thorough] [--replay FILE]

Runs several shards (separate processes, seeds derived from VERIF_SEED), merges what they covered into
evidence/<id>.json.  Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: the check itself could not decide (harness error, time out).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vf import core  # noqa: E402


SOFT = {"quick": 420, "thorough": 4 * 3600}  # seconds after which a run generates nothing more

SCALE = float(os.environ.get("VF_SCALE", "1"))  # only for trying things out


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


# ---------------------------------------------------------------------------------------------- one shard
class Stop(KeyboardInterrupt):
    """Ends the search at once (Hypothesis lets it through)."""


def evaluate(mod, case, rec):
    """Runs one case. Raises Violation, or a harness error."""
    if time.time() > rec.deadline:
        rec.label("left out: no time")
        return
    large = core.size(case) > (60 if hasattr(mod, "CASE_CPU_SECONDS") else 26)
    if large and rec.state.get("slow", 0) >= 3:
        rec.label("left out: large lattice")
        return
    rec.begin(case)
    limit = 40 if large else getattr(mod, "CASE_CPU_SECONDS", 120)

    def too_long(*_):
        if large:  # slow code is not wrong code
            raise core.TooSlow()
        raise core.Hang("no answer after %d s of processor time (a case normally takes about a second)" % limit)

    signal.signal(signal.SIGPROF, too_long)
    signal.setitimer(signal.ITIMER_PROF, limit)
    wall = getattr(mod, "CASE_WALL_SECONDS", 0)
    if wall:  # cases that start other processes
        def overdue(*_):
            raise core.Hang("no answer after %d s (a case normally takes about a second)" % wall)
        signal.signal(signal.SIGALRM, overdue)
        signal.alarm(wall)
    try:
        for one in case["seq"] if "seq" in case else [case]:
            mod.check(one, rec)
    except core.Discard:
        rec.discarded += 1
    except core.TooSlow:
        rec.state["slow"] = rec.state.get("slow", 0) + 1
        rec.label("not judged: large lattice, more than %d s" % limit)
    except core.Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if core.is_sut_exception(e):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise core.Violation("unexpected %s: %s (at %s:%d)" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)) from None
        if core.is_wrong_answer(e):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise core.Violation("an answer of the wrong kind: %s: %s (met in %s: %s)" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.line)) from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def shard(prop, tier, index, count, outfile):
    core.setup_import_path()
    sys.stdout = open(os.devnull, "w")
    mod = load(prop)
    rec = core.Recorder()
    rec.deadline = time.time() + SOFT[tier]
    res = {"violation": None, "error": None}
    seed = core.SEED * 1009 + index
    if hasattr(mod, "setup"):
        mod.setup()
    try:
        bad = None
        try:
            for i, case in enumerate(mod.corpus(tier) if hasattr(mod, "corpus") else []):
                if i % count == index:
                    bad = case
                    evaluate(mod, case, rec)
                    rec.label("corpus")
        except core.Violation as v:
            res["violation"] = {"case": bad, "message": str(v)}
        if res["violation"] is None and hasattr(mod, "strategy"):
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings
            from hypothesis.internal.conjecture import engine
            engine.MAX_SHRINKING_SECONDS = getattr(mod, "SHRINK_SECONDS", 40)
            last = {}

            def body(case):
                try:
                    evaluate(mod, case, rec)
                except core.Hang as v:  # no shrinking: every further run would take as long
                    last["case"], last["message"] = case, str(v)
                    raise Stop() from None
                except core.Violation as v:
                    last["case"], last["message"] = case, str(v)
                    raise

            n = max(1, int(mod.EXAMPLES[tier] * SCALE) // count)
            phases = [Phase.generate] + ([Phase.shrink] if getattr(mod, "SHRINK", True) else [])
            test = hypothesis.given(mod.strategy(tier))(body)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, phases=phases, print_blob=False,
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example])(test)
            test = hypothesis.seed(seed)(test)
            try:
                test()
            except (core.Violation, Stop):
                res["violation"] = last
            except Exception:
                if last:  # e.g. Hypothesis found the failure not to repeat: still a failure of the code
                    res["violation"] = last
                else:
                    raise
        if res["violation"] is None and hasattr(mod, "finish"):
            try:
                mod.finish(rec)
            except core.Violation as v:
                res["violation"] = {"case": getattr(v, "case", {"aggregate": True}), "message": str(v)}
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    res.update(rec.dump())
    res["aggregate"] = rec.state.get("aggregate")
    with open(outfile + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(outfile + ".tmp", outfile)


# ---------------------------------------------------------------------------------------------- parent
def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return env


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.shard is not None:
        return shard(a.prop, tier, a.shard, a.shards, a.out)
    if a.replay:
        return replay(a.prop, a.replay)
    t0 = time.time()
    mod = load(a.prop)
    count = getattr(mod, "SHARDS", {"quick": 8, "thorough": 8})[tier]
    limit = {"quick": 780, "thorough": 6 * 3600}[tier]
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % a.prop)
    procs = []
    try:
        for i in range(count):
            out = os.path.join(tmp, "s%d.json" % i)
            err = open(os.path.join(tmp, "s%d.err" % i), "w")
            procs.append((subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), a.prop, "--tier", tier, "--shard", str(i),
                 "--shards", str(count), "--out", out],
                cwd=tmp, env=child_env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                start_new_session=True), out, err))
        results, error, violation = [None] * count, None, None
        while True:
            pending = False
            for i, (p, out, err) in enumerate(procs):
                if results[i] is not None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                    if results[i]["violation"] and violation is None:
                        violation = results[i]["violation"]
                    if results[i]["error"] and error is None:
                        error = results[i]["error"]
                elif p.poll() is not None and not os.path.exists(out):
                    results[i] = {"violation": None, "error": "shard ended with %s" % p.returncode}
                    err.flush()
                    with open(err.name) as f:
                        error = error or results[i]["error"] + "\n" + f.read()[-3000:]
                else:
                    pending = True
            if violation or not pending:
                break
            if time.time() - t0 > limit:
                error = error or "time limit"
                break
            time.sleep(0.02)
    finally:
        for p, _, err in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
            p.wait()
            err.close()
        shutil.rmtree(tmp, ignore_errors=True)
    done = [r for r in results if r and "evaluations" in r]
    if hasattr(mod, "aggregate") and not violation and not error:
        try:
            mod.aggregate([r["aggregate"] for r in done])
        except core.Violation as v:
            violation = {"case": {"aggregate": tier, "seed": core.SEED}, "message": str(v)}
    labels = {}
    for r in done:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for r in done:
        samples += r["samples"]
    ev = {
        "property": a.prop, "tier": tier, "seed": core.SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in done),
            "distinct_nontrivial": len({d for r in done for d in r["nontrivial"]}),
            "rule": mod.RULE, "samples": samples[:6], "discarded": sum(r["discarded"] for r in done),
            "classes": dict(sorted(labels.items())), "shards": count},
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "absence of violations is established only for the generated cases"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        for k in known_findings(a.prop):
            if k["case"] == violation["case"]:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                return 0
        rp = os.path.join(evdir, "replay_%s.json" % a.prop)
        with open(rp, "w") as f:
            json.dump({"property": a.prop, "case": violation["case"], "message": violation["message"]}, f, indent=1)
        print(violation["message"])
        print("replay with: python3-vt run.py %s --replay %s" % (a.prop, rp))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if error:
        print("ERROR in check %s:\n%s" % (a.prop, error))
        return 2
    c = ev["coverage"]
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
        a.prop, tier, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    return 0


def replay(prop, path):
    core.setup_import_path()
    mod = load(prop)
    with open(path) as f:
        case = json.load(f)["case"]
    real, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        if hasattr(mod, "setup"):
            mod.setup()
        rec = core.Recorder()
        evaluate(mod, case, rec)
        if hasattr(mod, "finish"):
            mod.finish(rec)
    except core.Violation as v:
        sys.stdout = real
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        sys.stdout = real
        if hasattr(mod, "teardown"):
            mod.teardown()
    print("%s: replayed case holds" % prop)
    return 0


if __name__ == "__main__":
    for k, v in child_env().items():
        if os.environ.get(k) != v and "--shard" not in sys.argv:
            os.execve(sys.executable, [sys.executable] + sys.argv, child_env())
    sys.exit(main())
