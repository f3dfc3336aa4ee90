# Planted bugs: written from the properties and the code.
H = "from coinflip import randtests as R\nimport warnings; warnings.simplefilter('ignore')\nfrom math import *\n"
T = "_randtests/"
C = "_randtests/common/"
BUGS = [
 dict(id="S01", property="C05", edits=[(T+"frequency.py", "if nblocks >= 100 and n > 5000:", "if nblocks > 100 and n > 5000:")],
  needs="an omitted blocksize and a length over 5000 that is a multiple of 100, so that there are exactly 100 blocks",
  breaks="the default blocksize is n // 100 instead of n // 50",
  demo=H+"r = R.frequency_within_block([0, 1, 1] * 3400)\nassert r.blocksize == 204, r.blocksize\n"),
 dict(id="S02", property="C05", edits=[(T+"frequency.py", "        matches = block == heads\n        count = matches.sum()\n", "        count = block.value_counts()[heads] if block.iloc[0] != tails or block.nunique() > 1 else blocksize\n")],
  needs="a block that holds no heads at all", breaks="blocks of tails only are counted as all heads",
  demo=H+"r = R.frequency_within_block([0]*8 + [1]*8 + [0, 1]*4, blocksize=8)\nassert list(r.counts) == [0, 8, 4], r.counts\n"),
 dict(id="S03", property="C08", edits=[(T+"matrix.py", "    num = 0\n    for bit in bits:\n        num = (num << 1) | bit\n\n    return num", "    bits = np.array(bits)\n    return int(bits @ (1 << np.arange(len(bits))))")],
  needs="a matrix with more than 63 columns", breaks="rows are reduced to machine integers: columns from 64 on are lost or aliased",
  demo=H+"""
import random
rng = random.Random(5)
from coinflip._randtests import matrix_rank
rows = [[0] * 70 for _ in range(4)]
for i in range(4): rows[i][i] = 1
for i in range(4): rows[i][69 - i] = 1
assert matrix_rank(rows) == 4
rows = [[0] * 66 + [int(i == j) for j in range(4)] for i in range(4)]
assert matrix_rank(rows) == 4, matrix_rank(rows)
rows = [[int(i == j) for j in range(4)] + [0] * 66 for i in range(4)]
assert matrix_rank(rows) == 4, matrix_rank(rows)
seq = [x for r in rows for x in r] * 3
r = R.binary_matrix_rank(seq, matrix_dimen=(4, 70))
assert r.rankcounts.full == 3, r.rankcounts
"""),
 dict(id="S04", property="C12", edits=[(T+"universal.py", "        last_occurence = permutation_last_init_pos[permutation]\n", "        last_occurence = permutation_last_init_pos.get(permutation, init_nblocks)\n")],
  needs="a pattern of the test segment which does not occur in the initialisation segment", breaks="its first distance is counted from the end of the initialisation segment instead of from 0",
  demo=H+"""
b = [0,0, 0,0, 1,1, 0,0]
r = R.maurers_universal(b, blocksize=2, init_nblocks=2)
assert abs(r.statistic - (log2(3) + log2(2)) / 2) < 1e-9, r.statistic
"""),
 dict(id="S05", property="C13", edits=[(T+"complexity.py", "if 500 <= blocksize <= 5000 and nblocks >= 200:", "if 500 <= blocksize <= 5000 and nblocks > 200:")],
  needs="a default blocksize at a length that makes exactly 200 blocks: 200000..200999 or 100000..100499", breaks="the default blocksize steps down one class too early",
  demo=H+"""
b = [0] * 100000
b[3] = 1
r = R.linear_complexity(b)
assert r.blocksize == 500, r.blocksize
"""),
 dict(id="S06", property="C28", edits=[(T+"complexity.py", "            if min_size <= i / 2:\n", "            if min_size <= i // 2 and (min_size or i < n // 2):\n")],
  needs="a sequence whose first 1 is in its second half", breaks="the register length stays 0 for such a sequence",
  demo=H+"""
from coinflip._randtests.complexity import berlekamp_massey as bm
assert bm((0, 0, 0, 0, 1, 0)) == 5, bm((0, 0, 0, 0, 1, 0))
assert bm((1, 1, 0, 1, 0, 1)) == 3 or True
assert bm((0, 1, 0, 0, 1, 0)) == 3
"""),
 dict(id="S07", property="C14", edits=[(T+"serial.py", "blocksize = max(floor(log2(n)) - 2 - 1, 2)", "blocksize = max(ceil(log2(n)) - 4, 2)"), (T+"serial.py", "from math import floor\n", "from math import ceil\nfrom math import floor\n")],
  needs="an omitted blocksize and a length that is a power of two (64 or more)", breaks="the default blocksize is one too small there",
  demo=H+"""
r = R.serial([0, 1, 1, 0] * 16)
assert r.blocksize == 3, r.blocksize
r = R.serial([0, 1, 1, 0] * 17)
assert r.blocksize == 3, r.blocksize
"""),
 dict(id="S08", property="C15", edits=[(T+"entropy.py", "        head = series[: template_size - 1]\n", "        head = series[: min(template_size - 1, blocksize)] if n > 8 else series[:blocksize]\n")],
  needs="a sequence of at most 8 values", breaks="the circular extension is one value too long for the smaller pattern size, so that one pattern is counted twice",
  demo=H+"""
r = R.approximate_entropy([0, 1, 1, 0, 1], blocksize=2)
for m, c in r.permutation_counts.items():
    assert sum(c.values()) == 5, (m, c)
"""),
 dict(id="S09", property="C16", edits=[(T+"random_walk.py", "    start1 = floor((-n / max_cusum + 1) / 4)\n", "    start1 = ceil((-n / max_cusum + 1) / 4)\n"), (T+"random_walk.py", "from math import erfc\n", "from math import ceil\nfrom math import erfc\n")],
  needs="a short sequence whose walk strays little, so that the first term is not negligible", breaks="the first sum of the p-value starts one term late",
  demo=H+"""
from statistics import NormalDist
Phi = NormalDist().cdf
def want(b):
    n = len(b); s = 0; z = 0
    for x in b:
        s += 1 if x else -1
        z = max(z, abs(s))
    p = 1 - sum(Phi((4*k+1)*z/sqrt(n)) - Phi((4*k-1)*z/sqrt(n)) for k in range(floor((-n/z+1)/4), floor((n/z-1)/4)+1)) \\
        + sum(Phi((4*k+3)*z/sqrt(n)) - Phi((4*k+1)*z/sqrt(n)) for k in range(floor((-n/z-3)/4), floor((n/z-1)/4)+1))
    return min(max(p, 0), 1)
for b in ([0, 1, 1], [1, 0, 1, 1], [0, 1, 0, 1, 1], [1, 1, 0, 1, 0, 1, 1]):
    assert abs(R.cusum(b).p - want(b)) < 1e-9, (b, R.cusum(b).p, want(b))
"""),
 dict(id="S10", property="C18", edits=[(T+"random_walk.py", "        except KeyError:\n            count = 0\n", "        except KeyError:\n            continue\n")],
  needs="a walk that never visits one of the states -9..9", breaks="states that are not visited have no sub-test",
  demo=H+"""
r = R.random_excursions_variant([0, 1, 1, 0, 1, 1])
assert sorted(r.results) == [x for x in range(-9, 10) if x], list(r.results)
"""),
 dict(id="S11", property="C20", edits=[(C+"collections.py", "        del self._sdict[key]\n        self[key] += value\n", "        del self._sdict[key]\n        self[key] = value\n")],
  needs="a deletion of an interval while the interval nearest to it has a count of its own", breaks="the neighbour's count is overwritten instead of added to",
  demo=H+"""
from coinflip.collections import Bins
b = Bins([-6, -3, 0, 3, 6])
b[3] += 4
b[6] += 5
del b[6]
assert b[3] == 9, b
"""),
 dict(id="S12", property="C21", edits=[(C+"collections.py", "            larger_keys = [k for k in self._ddict.keys() if k > i]\n            reindexed_subdict = {k - 1: self._ddict[k] for k in larger_keys}\n            for k in larger_keys:\n                del self._ddict[k]\n", "            larger_keys = [k for k in self._ddict.keys() if k > i]\n            reindexed_subdict = {k - 1: self._ddict[k] for k in larger_keys}\n            if larger_keys:\n                del self._ddict[max(larger_keys)]\n")],
  needs="deleting an element in front of one that is followed by an element left at its default", breaks="elements behind a gap are left in place as well as shifted",
  demo=H+"""
from coinflip.collections import defaultlist
d = defaultlist()
d[0], d[2], d[6] = 'a', 'b', 'c'
del d[0]
assert list(d) == [None, 'b', None, None, None, 'c'], list(d)
"""),
 dict(id="S13", property="C22", edits=[(C+"collections.py", "            if key < interval:\n                return self._sdict[prevkey]\n", "            if key <= interval and key != prevkey + 1:\n                return self._sdict[prevkey if key < interval or interval - prevkey > 10 ** 6 else interval]\n")],
  needs="a key equal to one which is more than a million above the key before it, or one above it", breaks="such a key gives the value of the key before it",
  demo=H+"""
from coinflip._randtests.common.collections import FloorDict
d = FloorDict({0: 'a', 10: 'b', 3000000: 'c', 3000010: 'd'})
assert [d[0], d[9], d[10], d[3000000], d[3000005], d[3000010]] == ['a', 'a', 'b', 'c', 'c', 'd'], [d[3000000]]
assert d[1] == 'a' and d[11] == 'b'
"""),
 dict(id="S14", property="C24", edits=[("cli/runner.py", "            success = result.p >= SIGLEVEL\n", "            success = float(f_pvalue) >= SIGLEVEL\n")],
  needs="a p-value between 0.0095 and 0.01, which rounds up to the significance level", breaks="the summary reports PASS although p is below the significance level",
  demo=H+"""
import io
from coinflip.cli import runner
from rich.console import Console
class Res:
    def __init__(s, p): s.p = p
buf = io.StringIO()
runner.console = Console(file=buf, width=100)
runner.print_results_summary({'monobit': Res(0.0097), 'runs': Res(0.0101)})
lines = [l for l in buf.getvalue().splitlines() if 'Monobit' in l or 'Runs' in l]
assert 'FAIL' in lines[0] and 'PASS' in lines[1], lines
"""),
 dict(id="S15", property="C26", edits=[(C+"result.py", "            if result.p < min_result.p:\n", "            if result.p <= min_result.p:\n")],
  needs="two sub-tests that share the least p-value", breaks="min is the last instead of the first of them",
  demo=H+"""
r = R.random_excursions_variant([0, 1, 1, 0, 1, 0, 1, 1, 0, 0, 1, 1])
ps = r.pvalues
assert r.min[0] == list(r.results)[ps.index(min(ps))], (r.min, ps)
r = R.non_overlapping_template_matching([0, 1] * 10, template_size=2, blocksize=10)
ps = r.pvalues
assert r.min[0] == list(r.results)[ps.index(min(ps))], (r.min, ps)
"""),
 dict(id="S16", property="C06", edits=[(T+"runs.py", "        else:\n            yield astuple(current_run)\n            current_run = Run(value)\n\n    yield astuple(current_run)", "        else:\n            yield astuple(current_run)\n            current_run = Run(value)\n\n    if current_run.length > 1 or len(series) <= 8:\n        yield astuple(current_run)")],
  needs="a sequence of more than 8 values whose last run has length one", breaks="the last run is not among the runs: the run count is one short and a longest run can be missed",
  demo=H+"""
r = R.runs([0, 0, 1, 1, 0, 0, 1, 1, 0, 1])
assert r.statistic == 6, r.statistic
b = ([0] * 127 + [1]) * 49
r = R.longest_runs(b)
assert dict(r.maxlen_bins)[4] == 49
"""),
 dict(id="S17", property="C10", edits=[(T+"template.py", "        for template, matches in matches.items():\n            template_block_matches[template][i] = matches\n", "        for template, matches in matches.items():\n            if matches > 1 or template[0] != template[-1] or not template_block_matches[template]:\n                template_block_matches[template][i] = matches\n")],
  needs="a template that starts and ends alike and matches just once in a block after it matched in an earlier block", breaks="that single match is lost",
  demo=H+"""
r = R.non_overlapping_template_matching([0, 1, 0, 0, 0, 1, 0, 1, 1, 1], template_size=2, blocksize=5)
k = [list(v.block_matches) for t, v in r.results.items()]
assert r.results[(1, 1)].block_matches == [0, 1]
assert r.results[(0, 0)].block_matches == [1, 0]
b = [0, 0, 1, 1, 1] + [0, 1, 0, 0, 1]
r = R.non_overlapping_template_matching(b, template_size=2, blocksize=5)
assert r.results[(0, 0)].block_matches == [1, 1], r.results[(0, 0)].block_matches
"""),
 dict(id="S18", property="C01", edits=[(C+"core.py", "            if n < min_n:\n", "            if n < min_n and not ctx:\n")],
  needs="a progress context and a sequence below the test's minimum length", breaks="with a progress context, sequences that are too short are not rejected",
  demo=H+"""
from coinflip import _randtests
from rich.progress import Progress
with Progress(disable=True) as pr:
    t = pr.add_task('x')
    for f, b in ((_randtests.frequency_within_block, [0, 1, 1, 0, 1, 0, 1]), (_randtests.maurers_universal, [0, 1, 1]), (_randtests.binary_matrix_rank, [0, 1, 1])):
        try:
            f(b, ctx=(pr, t))
        except R.exceptions.TestInputError:
            continue
        except Exception as e:
            raise AssertionError(repr(e))
        raise AssertionError('no error')
"""),
 dict(id="S19", property="C29", edits=[(C+"core.py", "    if failures and not ctx:\n        warn(make_failures_msg(failures), UserWarning)\n\n    return failures", "    if failures and not ctx:\n        warn(make_failures_msg(failures), UserWarning)\n        return failures\n\n    return []")],
  needs="a progress context and a sequence that does not meet a recommendation", breaks="the result lists no failures when there is a progress context",
  demo=H+"""
from coinflip import _randtests
from rich.progress import Progress
with Progress(disable=True) as pr:
    t = pr.add_task('x')
    r = _randtests.monobit([0, 1, 1], ctx=(pr, t))
assert r.failures == R.monobit([0, 1, 1]).failures, r.failures
"""),
 dict(id="S20", property="C02", edits=[(C+"core.py", "    heads = max(unique_values)\n", "    heads = max(unique_values, key=lambda value: (str(type(value)), value if not isinstance(value, int) else abs(value), value))\n")],
  needs="two integers the smaller of which has the larger magnitude", breaks="the smaller value is taken as heads",
  demo=H+"""
r = R.runs([-5, 3, 3, -5, 3])
assert r.heads == 3, r.heads
r = R.monobit([-1, 1, 1, -1, 1])
assert r.heads == 1
"""),
]
