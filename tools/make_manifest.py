"""Writes MANIFEST.json and known_findings.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("property-based testing, exhaustive over sites/bonds per generated L, oracle: torus arithmetic", "Every site and bond of each lattice size explored is compared; sizes beyond the explored range are extrapolated."),
    "C02": ("property-based testing (Hypothesis) against a union-find reference model", "Partition, labels and cluster lists compared with an independent model on generated orders; trusts vf/model.py, itself checked by brute force in selftest.py."),
    "C03": ("property-based testing against a displacement (winding) union-find model", "Winding detection compared at every placement; trusts vf/model.py (brute-forced by selftest.py). L >= 3."),
    "C04": ("property-based testing against the reference model", "Critical values compared at and after the winding step, stepwise and in runs."),
    "C05": ("property-based testing, invariant over every occupied pair", "Unit steps within non-wrapping clusters and congruence mod L in all clusters after every generated placement history."),
    "C06": ("property-based testing, oracle: entropy recomputed from the model's size histogram", "Both code paths compared at every step to 1e-8."),
    "C07": ("property-based testing against the reference model", "Exact integer comparison of both order parameters at every step, monotonicity."),
    "C08": ("stateful property-based testing (generated operation histories)", "Every observable compared with an empty lattice after reset, and further realizations with the model."),
    "C09": ("stateful property-based testing against a row ledger and the model", "Every series entry compared after each operation of a generated history."),
    "C10": ("property-based testing, order observed on the lattice", "Lists in all accepted forms, shuffled or not, extended, replayed after resets."),
    "C11": ("metamorphic property-based testing (trace equality / inequality), cross-process differential", "Traces of equal seeds compared within and across processes with different hash seeds; different seeds must differ."),
    "C12": ("property-based testing with a martingale (Freedman) bound on the exact conditional law", "Any bias in the monitored features is detected up to the stated resolution; false-alarm probability <= 1e-10 per run for any correct implementation."),
    "C13": ("property-based testing with a martingale (Freedman) bound on the exact conditional law", "As C12, for the L1 rule, including custom candidate lists."),
    "C14": ("property-based testing with a martingale (Freedman) bound on the exact conditional law", "As C12, for the L2 rule, including custom candidate lists."),
    "C15": ("stateful property-based testing, lattice difference per attempt, attempt bound", "Truthfulness and completion observed on every attempt of generated runs; endless runs become failures by an attempt bound (exceeded by a correct run with probability < exp(-60))."),
    "C16": ("round-trip property-based testing (replay) plus reference model", "Each reported sequence is compared with the observed order and replayed."),
    "C17": ("property-based testing against the reference model", "Stopping step and p* compared with the model's first straight line in the first-wrapped cluster."),
    "C18": ("property-based testing: file contents against model averages of recorded realizations", "Realizations are recorded by a subclass passed as the simulation class; files parsed and compared column by column according to their headers."),
    "C19": ("property-based testing: file rows against the model of recorded realizations", "As C18 for critical-value files."),
    "C20": ("property-based testing: file rows against the model of recorded realizations", "As C18 for shortest-path files."),
    "C21": ("round-trip property-based testing of stored files", "Stored sequence replayed through the model; rows compared."),
    "C22": ("property-based testing of parallel drivers with injected file-name interference", "Drivers run with real workers; set of files and headers, per-worker validity and independence."),
    "C23": ("property-based testing: printed text parsed back and compared", "Text parsed ignoring spacing, compared with getters and model."),
    "C24": ("property-based testing with constructed answers", "Curves constructed with a known single crossing; lines compared with the requested range."),
    "C25": ("metamorphic property-based testing (lattice symmetries)", "Measurements of an order and of its images compared at every step."),
    "C26": ("stateful property-based testing of interleaved simulations, one model per simulation", "After each operation each simulation is compared with its own model; all lists passed in or handed out compared with copies."),
    "C27": ("differential property-based testing against a twin without the refused call", "Whole observable history compared with that of a twin."),
    "C28": ("metamorphic property-based testing (readers interleaved) against an undisturbed twin", "Whole observable history compared with that of a twin that was never looked at."),
    "C30": ("metamorphic property-based testing (repeated, other-seed and unseeded ensembles), cross-process differential", "Realizations observed on the lattice and file rows compared between runs of equal and different seeds, within and across processes."),
    "C31": ("property-based testing against the reference model", "All scans compared with the model's complete rows and columns of the first-wrapped cluster after every placement."),
    "C32": ("metamorphic property-based testing (one order driven in several ways)", "Final state and series rows of two or three drives of one order compared."),
    "C33": ("stateful property-based testing of histories of runs in one directory", "Contents of every earlier file compared after each run."),
    "C34": ("property-based testing of printed results against recorded realizations and the reference model", "Printed lines parsed and compared with the realizations observed on the lattice; tallies compared with the attempts seen from outside (exactly for candidate lists far apart, within bounds otherwise)."),
    "C29": ("stateful (model-based) property-based testing against a dict ledger", "Members, counts, labels and numbering compared after each operation."),
}
FIXED = [
    ("C14", "0c828db", "L2 class: a straight step whose first neighbour lies across the periodic edge went to the wrong second site"),
    ("C13", "ccc16f5", "L1/L2: a candidate was set aside after four draws of any neighbour although empty sites could still be reached from it (bias; C14, C15 too)"),
    ("C15", "abdac3e", "L1/L2: a custom candidate list shorter than the lattice raised IndexError / drew past the list instead of ending"),
    ("C16", "630c662", "L1/L2: get_site_id_sequence/get_index_sequence did not report the order in which sites were occupied (C21 too)"),
    ("C18", "23e606f", "entropy-order file header named the two order-parameter columns the wrong way round"),
    ("C09", "e7bdb47", "occupation probability was recorded in the first run only and kept over resets, so series had different lengths (C08 too)"),
    ("C26", "bb8cc76", "custom lists were shuffled in place in the caller's list and handed-out sequences were the internal list (C16 too)"),
    ("C27", "2c8318b", "index lists with a row or column outside the lattice, such as (0, L), were accepted as some other site"),
    ("C17", "b6a1f0c", "a complete row or column that joined the wrapping cluster by a merge elsewhere did not stop the run, so p* was too large"),
    ("C24", "9a014f7", "draw_horizontal_line_at without a range raised IndexError (the default range was empty)"),
    ("C22", "85d8c53", "threaded drivers called the ensemble function without the percolation class and failed"),
    ("C26", "539a6b3", "recorded series were handed out as the internal list and changed when the run continued"),
    ("C03", "d0fd21f", "detect_wrapping raised TypeError on a new simulation instead of answering False"),
]


def main():
    checks = []
    for pid, (tech, note) in sorted(TECH.items()):
        checks.append({"property": pid, "quick_cmd": "python3-vt run.py %s --tier quick" % pid,
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                       "technique": tech, "level": "exploration", "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt selftest.py", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: everything is observed through public methods. See DESIGN.md."}, f, indent=1)
        f.write("\n")
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"known": [], "fixed": ["fixed: property=%s %s %s" % t for t in FIXED]}, f, indent=1)
        f.write("\n")


main()
