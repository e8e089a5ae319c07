"""C12 selection law of the L0 class."""
from .. import lawcheck

EXAMPLES = {"quick": 0, "thorough": 0}
RULE = ("realizations of L0 simulations (new, reset, several objects, seeded or not, stepped or run, complete or cut short"
        ", shuffled custom lists), L 3..23, with independent seeds; every selection step is compared with the exact conditional law by "
        "martingale (Freedman) tests over site, row, neighbourhood, seam, order and repetition features, merged over all cases. "
        "Every case is non-trivial: it contributes selection steps.")
ASSUMPTIONS = ["the generator behind random is random", "false-alarm probability of the merged test below 1e-10"]
CASE_CPU_SECONDS = 600


def corpus(tier):
    return lawcheck.plan("L0", tier)


def check(case, rec):
    case.setdefault("kind", "L0")
    lawcheck.run_check(case, rec)


finish = lawcheck.finish
aggregate = lawcheck.aggregate
