from rt.props import tests15
from rt.props.common import run_test_case as run
TEST = "runs"
RULE = "runs on: every binary sequence up to a small length, the branch lengths of its defaults, and pseudo-random members of twelve families (biased, sticky, periodic, one-off, de Bruijn, LFSR, ..) with random valid parameters, value labels and containers; a case is the (pattern, parameters, labels, container) tuple and is counted when the whole result was compared with the oracle"


def cases(tier, seed):
    return tests15.cases(TEST, tier, seed)
