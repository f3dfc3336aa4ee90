"""Writes /verif/properties.jsonl (run once; kept so that the texts have one source)."""
import json, os
RT = "src/coinflip/_randtests/"
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                why_tests_cant=why,
                anchors=dict(files=files, state=list(state),
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=None))
API = "src/coinflip/randtests.py"
CORE = RT + "common/core.py"
UT = RT + "common/testutils.py"
COL = RT + "common/collections.py"
EX = "The suite has one or two worked NIST examples of this test and a smoke run on random bits that asserts nothing about the numbers; other lengths, block sizes and patterns are never compared with the formula."
S = "every binary sequence of every length, and every valid parameter (or none)"
def T(id, title, st, fn, file, mech, why=EX, q=S, over=("inputs", "configurations")):
    return P(id, title, st, list(over), q, why, [file, API, CORE, UT], [(fn, file)] + mech,
             observe=["coinflip.randtests." + fn])
L = [
P("C01", "Randomness tests accept exactly the binary sequences they can handle",
  "Every randomness test rejects a sequence with a missing value, or with other than exactly two distinct values, with a NonBinarySequenceError, and otherwise rejects one shorter than the test's minimum length (8 for frequency_within_block, 4 for binary_matrix_rank and maurers_universal, 2 for the others) with a TestInputError that reports both lengths. longest_runs raises a TestNotImplementedError below 128 values, maurers_universal raises one for a blocksize over 16, and spectral raises a NonBinarySequenceError when dropping the last value of an odd-length sequence leaves only one distinct value. Apart from these, a binary sequence is never rejected: the test gets its values in order, and returns a result.",
  ["inputs"], "every sequence (any length, any number of distinct values, with or without missing values) and every one of the fifteen tests",
  "The tests only feed binary sequences of at least two values; the gate's rejections are not sampled at the boundary lengths of each test, and never with missing values.",
  [CORE, API, RT + "fourier.py", RT + "runs.py", RT + "universal.py"], [("randtest", CORE), ("MinimumInputError", CORE)], observe=["coinflip.randtests.*"]),
P("C02", "Only the pattern of a sequence matters, not its values or container",
  "A result depends only on which positions hold the larger of the two values: renaming the two values to any other two orderable scalars in the same order (integers, floats, strings, booleans, timestamps), or passing the same values as a list, tuple, NumPy array or pandas Series with any index, gives the same statistics and p-values. The larger value is reported as heads and the smaller as tails.",
  ["inputs", "configurations"], "every binary sequence, every pair of orderable scalar values, every supported container and Series index",
  "The tests run lists of 0 and 1 only; other labels, containers and indexes are unbounded and unsampled.",
  [CORE, API] + [RT + f for f in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py")],
  [("randtest", CORE), ("infer_faces", CORE)], observe=["coinflip.randtests.*"]),
P("C03", "Running a test is pure: no side effect, no memory, progress is only display",
  "Running a randomness test never changes the sequence passed to it, and the result is the same whatever tests were run on whatever sequences before it in the process. Passing a progress context changes neither the result nor the error that is raised; it only suppresses the warning.",
  ["histories", "inputs"], "every history of earlier test runs, every sequence, with and without a progress context",
  "Each test calls a randomness test once per process state; no history of calls is compared, and results with and without a progress context are never compared.",
  [CORE, COL] + [RT + f for f in ("frequency.py", "runs.py", "common/pprint.py")], [("randtest", CORE), ("progress_context", CORE), ("check_recommendations", CORE), ("find_closest_interval", COL)], observe=["coinflip.randtests.*"]),
T("C04", "Monobit: statistic and p-value follow SP800-22 for every sequence",
  "For a sequence of n values with h heads and t tails, monobit reports the counts h and t, the difference |h - t|, the statistic |h - t| / sqrt(n) and the p-value erfc(statistic / sqrt(2)).",
  "monobit", RT + "frequency.py", [("FaceCounts", RT + "frequency.py")]),
T("C05", "Frequency within block: block counts, statistic and p-value follow SP800-22",
  "With M = blocksize and N = n // M, frequency_within_block counts the heads of the N consecutive M-sized blocks from the start of the sequence (a remainder is ignored), and reports those counts, the statistic 4 * M * sum((count / M - 1/2)^2) and the p-value igamc(N / 2, statistic / 2). When omitted, blocksize is 8 for n < 100, else max(ceil(n / 100), 20), except that it is n // 50 when n > 5000 and that would make 100 blocks or more.",
  "frequency_within_block", RT + "frequency.py", [("blocks", UT)]),
T("C06", "Runs: run count and p-value follow SP800-22 for every sequence",
  "runs reports as its statistic the number of maximal runs of equal values V in the sequence, and the p-value erfc(|V - 2 n q (1 - q)| / (2 sqrt(2 n) q (1 - q))) where q is the proportion of heads; the counts and proportions of heads and tails it reports are those of the sequence.",
  "runs", RT + "runs.py", [("asruns", RT + "runs.py")]),
T("C07", "Longest runs: class counts, statistic and p-value follow SP800-22",
  "longest_runs uses 16 blocks of 8 values for 128 <= n < 6272, 49 of 128 for 6272 <= n < 750000 and 75 of 10000 from there on, taken consecutively from the start of the sequence. Each block is counted in the class of its longest run of heads (classes 1 or less..4 or more, 4 or less..9 or more and 10 or less..16 or more respectively), and the statistic and p-value are the chi-square test of those class counts against the number of blocks times the tabulated SP800-22 class probabilities, with one degree of freedom less than there are classes.",
  "longest_runs", RT + "runs.py", [("asruns", RT + "runs.py"), ("n_defaults", RT + "runs.py"), ("Bins", COL), ("blocks", UT)],
  q="every binary sequence of at least 128 values"),
T("C08", "Binary matrix rank: rank counts, statistic and p-value follow SP800-22",
  "With matrix_dimen rows r and columns c, binary_matrix_rank fills n // (r c) matrices row by row with consecutive values of the sequence (heads is 1), counts those whose rank over GF(2) is min(r, c), is min(r, c) - 1 and is lower, and the statistic and p-value are the chi-square test (2 degrees of freedom) of these against 0.2888, 0.5776 and 0.1336 of the number of matrices. When omitted, matrix_dimen is 32 by 32 if that makes more than 38 matrices, and otherwise the largest square of at most max(n // 38, 4) values.",
  "binary_matrix_rank", RT + "matrix.py", [("matrix_rank", RT + "matrix.py"), ("blocks", UT), ("rawblocks", UT)]),
T("C09", "Spectral: peaks, statistic and p-value follow SP800-22 for every sequence",
  "spectral takes the first n // 2 moduli of the discrete Fourier transform of the sequence mapped to +1 (heads) and -1 (tails), without its last value if the length n is odd, and reports them, the number N1 of those below sqrt(n ln(1 / 0.05)), and N0 = 0.95 n / 2. The statistic is (N1 - N0) / sqrt(n * 0.95 * 0.05 / 4) and the p-value erfc(|statistic| / sqrt(2)).",
  "spectral", RT + "fourier.py", []),
T("C10", "Non-overlapping template matching follows SP800-22 for every template",
  "For each of the 2^m templates of m = template_size values, non_overlapping_template_matching scans each of the n // M consecutive M-sized blocks (M = blocksize) from left to right, counting a match and resuming right after it, or else moving on by one value. Each template's statistic is the sum over the blocks of (matches - mu)^2 / variance, with mu = (M - m + 1) / 2^m and variance = M (1 / 2^m - (2 m - 1) / 2^(2 m)), and its p-value is igamc(nblocks / 2, statistic / 2); the matches per block and their differences from mu are reported.",
  "non_overlapping_template_matching", RT + "template.py", [("slider", UT), ("blocks", UT), ("defaultlist", COL)]),
T("C11", "Overlapping template matching follows SP800-22 for every sequence",
  "With m = template_size, M = blocksize and K = matches_ceil, overlapping_template_matching counts in each of the n // M consecutive blocks the positions at which m heads in a row start, and tallies the blocks with 0, 1, .., K - 1 and K or more such positions. With eta = (M - m + 1) / 2^(m + 1) the expected tallies are the number of blocks times exp(-eta), times eta exp(-2 eta) 2^-u 1F1(u + 1; 2; eta) for 0 < u < K, and times what remains to 1, and the statistic and p-value are the chi-square test of the tallies against these with K degrees of freedom.",
  "overlapping_template_matching", RT + "template.py", [("slider", UT), ("blocks", UT)]),
T("C12", "Maurer's universal: distance sum, statistic and p-value follow SP800-22",
  "With L = blocksize, Q = init_nblocks and K = n // L - Q, maurers_universal reports as its statistic the mean over the blocks i = Q + 1 .. Q + K of log2(i - j), where j is the last earlier block with the same L values as block i (0 if there is none). The p-value is erfc(|statistic - mean| / sqrt(2 variance)) with the tabulated mean and variance for L; when both parameters are omitted, L and Q are those SP800-22 recommends for n >= 387840, and below that L = max(ceil(ln n), 2) and Q = max(n // L // 100, 1).",
  "maurers_universal", RT + "universal.py", [("rawblocks", UT), ("FloorDict", COL)],
  q="every binary sequence, and every L from 1 to 16 and Q >= 1 given together that leave K >= 1 (or neither given)"),
T("C13", "Linear complexity: class counts, statistic and p-value follow SP800-22",
  "With M = blocksize and N = n // M, linear_complexity computes for each consecutive M-sized block (heads is 1) the length C of the shortest linear feedback shift register generating it, and counts the block in the class in -3..3 nearest to (-1)^M (C - mu) + 2/9, where mu = M / 2 + (9 + (-1)^(M + 1)) / 36 - (M / 3 + 2 / 9) / 2^M. The statistic and p-value are the chi-square test (6 degrees of freedom) of these counts against N times 0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625 and 0.020833; when omitted, blocksize is 1000 for n >= 200000, 500 for 100000 <= n < 200000 and max(floor(sqrt(n)), 2) below that.",
  "linear_complexity", RT + "complexity.py", [("berlekamp_massey", RT + "complexity.py"), ("Bins", COL), ("rawblocks", UT)]),
T("C14", "Serial: pattern counts, statistics and p-values follow SP800-22",
  "With m = blocksize and psi2(k) = (2^k / n) sum(count^2) - n over the counts of all k-sized patterns read at each of the n positions of the sequence extended circularly (0 for k <= 0), serial reports the two statistics psi2(m) - psi2(m - 1) and psi2(m) - 2 psi2(m - 1) + psi2(m - 2), with p-values igamc(2^(m - 2), first / 2) and igamc(2^(m - 3), second / 2). When omitted, m is max(floor(log2 n) - 3, 2).",
  "serial", RT + "serial.py", [("slider", UT)]),
T("C15", "Approximate entropy: statistic and p-value follow SP800-22",
  "With m = blocksize and phi(k) = sum((count / n) ln(count / n)) over the counts of the k-sized patterns occurring at the n positions of the sequence extended circularly, approximate_entropy reports ApEn = phi(m) - phi(m + 1), the statistic 2 n (ln 2 - ApEn) and the p-value igamc(2^(m - 1), statistic / 2). When omitted, m is max(floor(log2 n) - 6, 2).",
  "approximate_entropy", RT + "entropy.py", [("slider", UT)]),
T("C16", "Cusum: walk, maximal excursion and p-value follow SP800-22 in both directions",
  "cusum reports the walk that starts at 0 and goes up by 1 for heads and down by 1 for tails, from the first value on or, with reverse, from the last value back, and as its statistic z the largest absolute value of the walk. The p-value is 1 - sum over k from floor((1 - n/z) / 4) to floor((n/z - 1) / 4) of [Phi((4k+1)z / sqrt n) - Phi((4k-1)z / sqrt n)] + sum over k from floor((-n/z - 3) / 4) to floor((n/z - 1) / 4) of [Phi((4k+3)z / sqrt n) - Phi((4k+1)z / sqrt n)], confined to the unit interval.",
  "cusum", RT + "random_walk.py", []),
T("C17", "Random excursions: state visits per cycle and p-values follow SP800-22",
  "random_excursions cuts the walk (0, then up by 1 for heads, down by 1 for tails) into cycles at its returns to 0, the steps after the last return (if any) being a last cycle, and for each state x in -4..-1, 1..4 counts the cycles that visit x exactly 0, 1, 2, 3, 4 and 5 or more times. The statistic and p-value of x are the chi-square test (5 degrees of freedom) of these against the number of cycles times pi_0 = 1 - 1/(2|x|), pi_k = (1 - 1/(2|x|))^(k-1) / (4 x^2) for k = 1..4, and pi_5 = (1 - 1/(2|x|))^4 / (2|x|).",
  "random_excursions", RT + "random_walk.py", [("ascycles", RT + "random_walk.py"), ("Bins", COL)], q="every binary sequence", over=("inputs",)),
T("C18", "Random excursions variant: visit counts and p-values follow SP800-22",
  "random_excursions_variant reports for each state x in -9..-1, 1..9 the number of visits xi to x of the walk (0, then up by 1 for heads, down by 1 for tails) as its statistic, and the p-value erfc(|xi - J| / sqrt(2 J (4 |x| - 2))), where J is the number of cycles of the walk: its returns to 0, plus one if it does not end at 0.",
  "random_excursions_variant", RT + "random_walk.py", [], q="every binary sequence", over=("inputs",)),
P("C19", "Every p-value is a number in the unit interval",
  "Every p-value that a randomness test reports, sub-tests included, is a number between 0 and 1 and never NaN, and no test fails with a numerical error (a division by zero, a value outside the domain of a function, or observed and expected frequencies that do not agree) on a sequence that passes its input gate, with any valid parameters.",
  ["inputs", "configurations"], "every binary sequence and every valid parameter (block sizes of at most n, templates of at most a block, at least one segment block, a matches_ceil whose expected tallies are positive numbers), for all fifteen tests",
  "The tests look at the p-values of a few worked examples; degenerate, tiny and extremely regular sequences where roundings or empty classes give NaN are not among them.",
  [RT + f for f in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py")],
  [("p computations", RT + "*.py")], observe=["coinflip.randtests.*"]),
P("C20", "Bins rounds every key to its nearest interval and loses no count",
  "A Bins made from distinct real intervals maps each to 0 at first, in ascending order, and reads and writes of any real key act on the nearest interval alone (the larger of two equally near). Deleting an interval removes it and adds its value to the interval nearest to it among the rest; deleting what is not an interval is a KeyError, and duplicate intervals are a ValueError.",
  ["histories", "inputs"], "every set of intervals and every history of reads, writes, increments and deletions with any real keys",
  "A state machine samples a few histories with a re-implementation as its oracle; ties, keys beyond the ends and deletions at the ends are unbounded.",
  [COL], [("Bins", COL), ("find_closest_interval", COL)], state=[dict(name="_sdict", meaning="interval -> value", where=COL)], observe=["coinflip.collections.Bins"]),
P("C21", "defaultlist behaves as an endless list of default values",
  "After any history of assignments, deletions, insertions and appends, element i of a defaultlist is what element i of a Python list padded endlessly with the default would be: a read past the end gives the default, and insertions, deletions (of an index or of any slice) and assignments to plain slices shift the elements behind them by exactly the change in length. Reading a slice gives the elements at its positions in its order, negative indices count from the current length, and an index before the start is an IndexError.",
  ["histories", "inputs"], "every history of operations with any indices and slices",
  "The state machine in the tests leaves slices out ('we disagree about slices'), and the remaining tests are single examples.",
  [COL], [("defaultlist", COL)], state=[dict(name="_ddict", meaning="index -> element, missing is default", where=COL)], observe=["coinflip.collections.defaultlist"]),
P("C22", "FloorDict gives the value of the greatest key not above the one asked for",
  "FloorDict(d)[k] is d's value at the greatest key of d that is less than or equal to k, and a KeyError if there is none; iteration gives the keys of d in ascending order.",
  ["inputs"], "every dictionary with comparable keys and every lookup key",
  "There is no test of FloorDict but through the default parameters of two randomness tests at a handful of lengths.",
  [COL, RT + "runs.py", RT + "universal.py"], [("FloorDict", COL)], observe=["FloorDict.__getitem__"]),
P("C23", "Data files are read as exactly the sequence they contain",
  "parse_binary gives the bits of the file's bytes in file order, the most significant bit of each byte first, and parse_text gives the value of each line of the file in order. Data that does not hold exactly two distinct values (missing ones counted) is rejected with NonBinarySequenceError, and text with several columns with DataParsingError; no data file of the wrong shape crashes the run command with a traceback.",
  ["inputs"], "every data file",
  "The CLI state machine writes random 0 and 1 lines and checks the exit code only; binary files are never parsed by a test.",
  ["src/coinflip/cli/parsing.py", "src/coinflip/cli/commands.py"], [("parse_text", "src/coinflip/cli/parsing.py"), ("parse_binary", "src/coinflip/cli/parsing.py")], observe=["coinflip.cli.parsing", "coinflip run"]),
P("C24", "Running all tests runs each once, isolates failures and keeps the results",
  "run_all_tests yields each of the fifteen tests exactly once in the listed order, with the result that the public function gives for the sequence, or without a result and with the error if the test raised a TestError, which never stops the other tests. The run command stores the sequence and the results of exactly the tests that gave one, and loading them gives them back unchanged; the summary marks a test PASS exactly when its p-value is at least 0.01 and FAIL otherwise.",
  ["inputs", "histories"], "every binary sequence, whatever subset of the tests fails on it",
  "The CLI state machine replaces console printing by a no-op and only checks exit codes.",
  ["src/coinflip/cli/runner.py", "src/coinflip/cli/report.py", "src/coinflip/cli/commands.py"], [("run_all_tests", "src/coinflip/cli/runner.py"), ("print_results_summary", "src/coinflip/cli/runner.py"), ("store_results", "src/coinflip/cli/report.py")], observe=["run_all_tests", "coinflip run", "coinflip read"]),
P("C25", "Generators produce endless bits, Mersenne as its recurrence from its seed",
  "Both example generators yield only the integers 0 and 1 and never stop. Mersenne(seed) yields, for the states x <- 16807 x mod (2^31 - 1) after its seed, 0 when x / (2^31 - 1) < 1/2 and 1 otherwise, so equal seeds give equal sequences.",
  ["inputs", "histories"], "every seed and every number of steps",
  "No test looks at the values of the generators.",
  ["src/coinflip/generators.py"], [("Mersenne.__next__", "src/coinflip/generators.py")], state=[dict(name="seed", meaning="state x", where="src/coinflip/generators.py")], observe=["coinflip.generators"]),
P("C26", "Multi-results expose every sub-test in order and the least p-value",
  "A multi-test result's statistics and pvalues list those of its sub-tests in the order of its results, and its min is the feature and sub-test with the least p-value, the first one of equals. Each test that gives one has its sub-tests in the documented order: all templates in the product order of heads before tails, states ascending, and the first before the second difference.",
  ["inputs"], "every multi-test result, with any number of sub-tests and any p-values",
  "min is only exercised by rendering; no test asserts which sub-test it names.",
  [RT + "common/result.py", RT + "template.py", RT + "serial.py", RT + "random_walk.py"], [("MultiTestResult.min", RT + "common/result.py")], observe=["MultiTestResult.min"]),
P("C27", "matrix_rank is the rank over GF(2)",
  "matrix_rank gives, for every matrix of 0 and 1 with any number of rows and columns, its rank over GF(2): the greatest number of rows none of which is a sum modulo 2 of others of them.",
  ["inputs"], "every binary matrix of every size",
  "A handful of matrices from the NIST examples are tested.",
  [RT + "matrix.py", "src/coinflip/algorithms.py"], [("matrix_rank", RT + "matrix.py"), ("bits2int", RT + "matrix.py")], observe=["coinflip.algorithms.matrix_rank"]),
P("C28", "berlekamp_massey is the length of the shortest LFSR",
  "berlekamp_massey gives, for every non-empty sequence s of 0 and 1, the least L for which there are c_1..c_L in GF(2) with s_i = c_1 s_(i-1) + .. + c_L s_(i-L) modulo 2 for every i from L on.",
  ["inputs"], "every non-empty binary sequence",
  "A couple of sequences from the NIST examples are tested.",
  [RT + "complexity.py", "src/coinflip/algorithms.py"], [("berlekamp_massey", RT + "complexity.py")], observe=["coinflip.algorithms.berlekamp_massey"]),
P("C29", "Unmet recommendations are listed and warned about",
  "Without a progress context, a randomness test issues exactly one UserWarning when its result lists failed recommendations, naming each of them, and none otherwise; with one it never warns but lists the same failures. monobit, runs and cusum list 'n \u2265 100' exactly when n < 100, spectral lists 'n \u2265 1000' exactly when n < 1000, and the random excursions tests list 'n \u2265 1000000' exactly when n < 1000000.",
  ["inputs", "configurations"], "every sequence and every test, with and without a progress context",
  "No test checks for the warnings or the failures of a result.",
  [CORE], [("check_recommendations", CORE), ("make_failures_msg", CORE)], observe=["result.failures", "UserWarning"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
