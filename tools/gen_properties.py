#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it is easy to review)."""
import json, os
P = []
B = "src/coinflip/"
R = B + "_randtests/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

EX = "The suite runs at most two NIST worked examples (5% tolerance on statistics) and smoke runs that never look at the result; "

p("C01", "Frequency tests compute the SP 800-22 statistic and p-value",
  "For every two-valued sequence of length n, the frequency (monobit) test reports |#heads - #tails|/sqrt(n) and p = erfc(statistic/sqrt 2). For every block size M, the block-frequency test reports 4M * sum((share of heads in block - 1/2)^2) over the floor(n/M) complete consecutive blocks, ignoring the leftover tail, and p = igamc(N/2, statistic/2) with N the number of those blocks.",
  ["inputs", "configurations"], "every two-valued sequence of any length, every block size from 1 to n",
  EX + "one block size and two sequences are sampled, a wrong branch for other lengths or block sizes goes unseen.",
  [R + "frequency.py", R + "common/testutils.py"],
  [("monobit / frequency_within_block", R + "frequency.py"), ("blocks", R + "common/testutils.py")],
  observe=["result.statistic", "result.p"])
p("C02", "Runs tests compute the SP 800-22 statistic and p-value",
  "For every two-valued sequence, the runs test reports the number of maximal runs V and p = erfc(|V - 2n*pi*(1-pi)| / (2*sqrt(2n)*pi*(1-pi))), pi being the share of heads. The longest-run test splits the first N*M values into N blocks of M with (M, N) = (8, 16) from n = 128, (128, 49) from n = 6272 and (10000, 75) from n = 750000, classes each block by its longest run of heads (0 when it has none), and reports the chi-square of the class counts against SP 800-22's class probabilities and its p-value with one degree of freedom less than classes.",
  ["inputs"], "every two-valued sequence of any length",
  EX + "only n = 10 and n = 128 are checked, so two of three parameter regimes and blocks without heads are never compared with anything.",
  [R + "runs.py", R + "common/collections.py", R + "common/testutils.py"],
  [("runs / longest_runs / asruns", R + "runs.py"), ("Bins, FloorDict", R + "common/collections.py")],
  state=[("n_defaults, blocksize_probabilities", "parameter and class-probability tables", R + "runs.py")],
  observe=["result.statistic", "result.p"])
p("C03", "Matrix rank test computes the SP 800-22 statistic and p-value",
  "For every two-valued sequence and matrix shape R x Q, the test forms floor(n/(R*Q)) consecutive matrices row by row, finds each one's rank over GF(2), counts those of full rank min(R,Q), one less, and lower, and reports the chi-square against 0.2888, 0.5776 and 0.1336 of the matrices with the two-degree-of-freedom p-value. The GF(2) rank routine is Gaussian elimination over rows: every non-zero pivot row adds one to the rank and is eliminated from every remaining row sharing its lowest set bit.",
  ["inputs", "configurations"], "every two-valued sequence and every matrix shape, square or not",
  EX + "square 3x3 and 32x32 matrices only; a row/column mix-up or a rank slip on other shapes is invisible.",
  [R + "matrix.py"], [("binary_matrix_rank / matrix_rank / bits2int", R + "matrix.py")],
  observe=["result.statistic", "result.p", "coinflip.algorithms.matrix_rank"])
p("C04", "Spectral test computes the SP 800-22 statistic and p-value",
  "For every two-valued sequence of length n (its last value dropped from the signal when n is odd), the spectral test transforms heads as +1 and tails as -1, counts the moduli of the first floor(n/2) Fourier coefficients strictly below sqrt(n*ln(1/0.05)), and reports d = (count - 0.95n/2)/sqrt(n*0.95*0.05/4) with p = erfc(|d|/sqrt 2). A sequence that is no longer two-valued once truncated is refused with an input error.",
  ["inputs"], "every two-valued sequence of even or odd length",
  "Both NIST worked examples for this test are marked as expected failures, so no passing test looks at its numbers at all.",
  [R + "fourier.py"], [("spectral", R + "fourier.py")], observe=["result.statistic", "result.p"])
p("C05", "Template tests compute the SP 800-22 statistics and p-values",
  "For every template length m and block size M, the non-overlapping test counts, for each of the 2^m templates and each of the N = floor(n/M) blocks, the matches found scanning left to right and resuming after each match, and reports sum((W - mu)^2 / var) and igamc(N/2, chi2/2) with SP 800-22's mu and variance. The overlapping test counts every occurrence of the all-heads template in each of its N blocks, groups counts from the ceiling K upwards, and reports the chi-square of the K+1 tallies against SP 800-22's compound-Poisson probabilities and its p-value with K degrees of freedom.",
  ["inputs", "configurations"], "every two-valued sequence, template length, block size and tally ceiling",
  EX + "one 20-bit sequence with aligned matches and one million-bit sequence; an unaligned or self-overlapping match is never exercised.",
  [R + "template.py", R + "common/testutils.py", R + "common/collections.py"],
  [("non_overlapping_template_matching / overlapping_template_matching", R + "template.py"), ("slider, blocks", R + "common/testutils.py")],
  observe=["result.results[template]", "result.statistic", "result.p"])
p("C06", "Maurer's universal test computes the SP 800-22 statistic and p-value",
  "For every block size L and number Q of initial blocks, the test reports the mean, over the complete L-blocks after the first Q, of log2 of the distance back to the previous occurrence of the same block (or to position 0 when it has not occurred), with p = erfc(|mean - expected(L)| / (sqrt 2 * sigma)) expected(L) being tabulated and sigma SP 800-22's c(L, K) * sqrt(variance(L) / K) over the K such blocks.",
  ["inputs", "configurations"], "every two-valued sequence, every L from 1 to 16 and every Q",
  EX + "a single 20-bit example with L = 2, so fifteen table rows and every default regime go unchecked.",
  [R + "universal.py"], [("maurers_universal", R + "universal.py")],
  state=[("blocksize_dists, n_defaults", "expected values, variances and default parameters", R + "universal.py")],
  observe=["result.statistic", "result.p"])
p("C07", "Linear complexity test computes the SP 800-22 statistic and p-value",
  "For every two-valued sequence and block size M, the test finds the linear complexity L of each complete M-block by the Berlekamp-Massey algorithm, forms T = (-1)^M * (L - mu) + 2/9 with mu = M/2 + (9 + (-1)^(M+1))/36 - (M/3 + 2/9)/2^M, classes T to the nearest of -3..3, and reports the chi-square against SP 800-22's seven probabilities with the six-degree-of-freedom p-value.",
  ["inputs", "configurations"], "every two-valued sequence and every block size, odd or even",
  EX + "the only example uses the even block size 1000, so everything that depends on parity is untested.",
  [R + "complexity.py", R + "common/collections.py"],
  [("linear_complexity / berlekamp_massey", R + "complexity.py"), ("Bins", R + "common/collections.py")],
  observe=["result.statistic", "result.p", "coinflip.algorithms.berlekamp_massey"])
p("C08", "Serial and approximate entropy compute the SP 800-22 values",
  "For every block size m, both tests count the n overlapping patterns of the sequence wrapped around on itself. Serial reports psi2(m) - psi2(m-1) with igamc(2^(m-2), half of it) and psi2(m) - 2*psi2(m-1) + psi2(m-2) with igamc(2^(m-3), half of it), psi2 of a size below one being 0; approximate entropy reports chi2 = 2n*(ln 2 - (phi(m) - phi(m+1))) with igamc(2^(m-1), chi2/2).",
  ["inputs", "configurations"], "every two-valued sequence and every pattern size",
  EX + "serial is only compared for m = 2 and approximate entropy for m = 2 and 3.",
  [R + "serial.py", R + "entropy.py", R + "common/testutils.py"],
  [("serial", R + "serial.py"), ("approximate_entropy", R + "entropy.py"), ("slider", R + "common/testutils.py")],
  observe=["result.statistics", "result.pvalues", "result.statistic", "result.p"])
p("C09", "Random-walk tests compute the SP 800-22 statistics and p-values",
  "With the walk of partial sums of heads as +1 and tails as -1, the cumulative sums test reports the largest absolute excursion (of the reversed sequence when asked) and SP 800-22's two-series normal p-value. The excursions test reports, for each state -4..-1 and 1..4, the chi-square over cycles of the visit counts (5 and more grouped) against SP 800-22's state probabilities with five degrees of freedom, and the variant reports, for each state -9..-1 and 1..9, the number of visits and erfc(|visits - J| / sqrt(2J(4|x| - 2))) with J the number of cycles.",
  ["inputs", "configurations"], "every two-valued sequence, forward and reversed",
  "The excursions test has no passing example at all in this environment; the variant and cusum have two sequences each.",
  [R + "random_walk.py", R + "common/collections.py"],
  [("cusum / random_excursions / random_excursions_variant / ascycles", R + "random_walk.py"), ("Bins", R + "common/collections.py")],
  state=[("state_probabilities", "visit-count class probabilities per state", R + "random_walk.py")],
  observe=["result.statistic", "result.p", "result.results"])
p("C10", "Any two-valued sequence behaves as its 0/1 counterpart",
  "A test's statistic and p-value depend on the sequence only through which positions hold the larger of its two values: relabelling the values while keeping their order, passing them in another container or dtype, or giving a Series any index changes neither. No element is ever used as a number; elements are only compared with the two faces or with each other.",
  ["inputs"], "every pair of distinct orderable values, every container, every Series index",
  "All example and smoke sequences are lists of the integers 0 and 1, for which a test that added the elements up or compared with the literal 1 would give the same numbers.",
  [R + "common/core.py", R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py"],
  [("randtest decorator, infer_faces", R + "common/core.py")], observe=["result.statistic", "result.p", "result.heads", "result.tails"])
p("C11", "Unusable sequences are refused with an input error",
  "Every published test, before computing anything, raises the documented non-binary error for a sequence that does not hold exactly two distinct values (missing values included), and the minimum-length error when it is shorter than that test's minimum. A sequence too short to fill one block of the size in force is refused with an input error too, never answered with a p-value that is not a number.",
  ["inputs", "configurations"], "every sequence, including constant, ternary, empty, NaN-holding and short ones, for each of the fifteen tests",
  "No test passes an invalid sequence to any of the fifteen tests.",
  [R + "common/core.py", R + "common/exceptions.py", R + "frequency.py", R + "matrix.py", R + "template.py", R + "universal.py", R + "complexity.py"],
  [("randtest decorator", R + "common/core.py"), ("exception classes", R + "common/exceptions.py")], observe=["exception raised by the public functions"])
p("C12", "Running a test has no side effects and no memory",
  "Running or displaying any test never modifies the sequence passed in nor any state that outlives the call, and its outcome never depends on what ran before, on time, or on a random source. The same sequence and parameters therefore give the same result and the same display in every history of calls.",
  ["histories", "inputs"], "every history of calls over every sequence and parameter choice",
  "Every test calls a function once on a fresh list; no history of calls with differently typed faces is ever formed.",
  [R + "common/core.py", R + "common/pprint.py", R + "common/collections.py", R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py"],
  [("absence of writes to module state, parameters and caches in coinflip._randtests", R)], observe=["results of repeated calls", "the caller's sequence"])
p("C13", "Parameters given are honoured, parameters omitted default by length",
  "Every public test function passes each parameter it accepts, unchanged and under its own name, to the test, and a parameter the caller supplies is the one used and reported, whichever others are omitted. An omitted parameter takes a default that is a function of the sequence's length and the other parameters only, as tabulated for this version.",
  ["configurations", "inputs"], "every subset of parameters supplied and every sequence length",
  "Examples supply all parameters of a test or none; a single parameter of several is never supplied alone and no default is ever looked at.",
  [B + "randtests.py", R + "frequency.py", R + "matrix.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py"],
  [("public wrappers", B + "randtests.py"), ("default selection at the head of each test", R)], observe=["result.blocksize and the other parameter fields"])
p("C14", "Recommendation warnings state exactly the condition that failed",
  "For every test, a NIST recommendation is reported as unmet if and only if the condition its text states is false of the actual quantities. All unmet ones, and only those, are recorded on the result in order, and outside the command line a warning naming every one of them is issued.",
  ["inputs", "configurations"], "every sequence length and parameter choice",
  "No test looks at the failures recorded or at the warnings issued.",
  [R + "common/core.py", R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py"],
  [("check_recommendations, make_failures_msg", R + "common/core.py"), ("recommendation tables of the fifteen tests", R)], observe=["result.failures", "UserWarning text"])
p("C15", "Results carry the quantities the test actually used",
  "Every field of a result record holds the quantity its name says: faces, parameters, counts, per-block tallies, expected values and statistics are those the reported statistic was computed from, and sub-results are filed under the feature they belong to. Displaying a result never refers to a field the record lacks and shows the record's own statistic and p-value.",
  ["inputs", "configurations"], "every sequence and parameter choice, all fifteen result types",
  "Tests read only statistic and p-value; the other forty-odd fields and every rendering are unread.",
  [R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py", R + "common/result.py"],
  [("result dataclasses and their positional constructor calls", R), ("TestResult, MultiTestResult", R + "common/result.py")], observe=["result fields", "str(result)"])
p("C16", "Reference-distribution plots show the distribution the p-value came from",
  "For every test that offers a reference plot, the distribution drawn is the one its p-value was taken from: a half-normal at z when p = erfc(z/sqrt 2), a chi-square with k degrees of freedom at x when p = igamc(k/2, x/2).",
  ["inputs", "configurations"], "every result of every test with a reference plot",
  "No test calls a plotting method except through the HTML report of one test, and none looks at what is drawn.",
  [R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "entropy.py", R + "common/result.py"],
  [("plot_refdist methods", R), ("plot_chi2_dist, plot_halfnorm_dist", R + "common/result.py")], observe=["chart data and title"])
p("C17", "Progress reaches its announced total exactly",
  "Whenever a test completes under a progress display, the number of steps it advanced equals the total it announced, for every sequence length and parameter choice; without a display it touches none.",
  ["inputs", "configurations"], "every sequence length and parameter choice of the fifteen tests",
  "The only tests that give a progress context go through the CLI, which never checks the bar.",
  [R + "common/core.py", R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py", R + "random_walk.py"],
  [("set_task_total, advance_task", R + "common/core.py")], observe=["Progress.update calls"])
p("C18", "p-values are probabilities",
  "Every p-value computed as a complementary error function or an upper incomplete gamma function is computed at a non-negative argument with a positive shape, so that it lies in [0, 1] and falls as the deviation grows.",
  ["inputs", "configurations"], "every sequence and parameter choice of the tests other than cumulative sums",
  "Examples check a handful of p-values; a lost absolute value only shows for deviations of the other sign.",
  [R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "random_walk.py"],
  [("erfc, gammaincc and chisquare calls", R)], observe=["result.p"])
p("C19", "The published set of tests is the same everywhere",
  "The public API, the reference implementations, the test runner, the command line's test choice and the display-name tables all offer exactly the same fifteen tests, each name reaching the implementation of that test. Asking for any other name is answered with the documented not-found error or a usage error, never with something that is not a test.",
  ["configurations"], "every name in every table, and every name outside them",
  "Smoke tests iterate over one of the tables and never compare it with the others, nor ask for a name outside it.",
  [B + "randtests.py", B + "randtests_refimpl.py", R + "__init__.py", B + "cli/runner.py", B + "cli/commands.py"],
  [("__all__ lists", B + "randtests.py, " + R + "__init__.py, " + B + "randtests_refimpl.py"), ("name tables, list_tests, run_test", B + "cli/runner.py")], observe=["list_tests()", "coinflip example-run --test"])
p("C20", "The reference implementations agree with the tests",
  "For every 0/1 sequence with both values and explicit parameters, the reference implementation of a test returns the same statistic and p-value as the test itself; where a test has several, the same for every template, state or sub-statistic.",
  ["inputs", "configurations"], "every 0/1 sequence and explicit parameters, all fifteen tests",
  "The two sides are run on the same few worked examples but never against each other on anything else.",
  [B + "randtests_refimpl.py", R],
  [("reference functions", B + "randtests_refimpl.py")], observe=["return values"])
p("C21", "A run attempts every test once and saves every result obtained",
  "Running the suite attempts every test exactly once, in order, on the whole parsed sequence; a test that fails with a test error is reported and does not stop the others. Exactly the results obtained are saved, each under its test's name, together with the sequence, to the path the user gave, and viewing the saved file shows that sequence and those results.",
  ["inputs", "fault_sequences"], "every data file and every subset of tests failing with a test error",
  "The CLI test fails at the base commit, and only looks at exit codes.",
  [B + "cli/commands.py", B + "cli/runner.py", B + "cli/report.py"],
  [("run, read", B + "cli/commands.py"), ("run_all_tests", B + "cli/runner.py"), ("store_results, load_results", B + "cli/report.py")], observe=["OUT file", "printed output"])
p("C22", "Bad data ends in an error message and a failing exit, saving nothing",
  "When data given to the command line cannot be used (several columns, not two-valued, unparsable, or a binary file of identical bits), the run prints an error and exits with a non-zero status without writing OUT. Every error a test raises on purpose belongs to the documented test-error family, so that the runner can report it.",
  ["inputs", "fault_sequences"], "every data file in text or binary mode, every generated example length",
  "No test gives the CLI invalid data.",
  [B + "cli/commands.py", B + "cli/parsing.py", B + "cli/runner.py", R + "common/exceptions.py"],
  [("run, example_run", B + "cli/commands.py"), ("parse_text, parse_binary", B + "cli/parsing.py")], observe=["exit status", "OUT file"])
p("C23", "Data files are read completely and in order",
  "A text file's every non-blank line, from the first to the last, becomes one element in order, and nothing else does; a file with more than one column is refused. A binary file's every byte becomes its eight bits, most significant first, in order.",
  ["inputs"], "every text file of one value per line, every binary file",
  "The CLI test writes 0/1 text files and never looks at the parsed sequence; binary mode has no test.",
  [B + "cli/parsing.py", B + "cli/commands.py"], [("parse_text, parse_binary", B + "cli/parsing.py")], observe=["Report.series"])
p("C24", "The summary's verdicts follow from the p-values",
  "The results summary lists every single-result test with its own p-value and the verdict PASS exactly when that p-value, unrounded, is at least the significance level the caption states, FAIL when it is below, and N/A when the test gave no result. Tests with several results are named as not summarised, none is left out, and the printed form of a p-value is that number rounded to three decimals.",
  ["inputs"], "every mapping of tests to results",
  "No test reads the summary.",
  [B + "cli/runner.py"], [("print_results_summary, print_results", B + "cli/runner.py")], observe=["summary table"])
p("C25", "Every result can be saved and restored",
  "No result a test returns holds anything that cannot be pickled, such as a lambda, a function local to another, a generator, an open file or a progress display, and restoring it needs no name that is not importable. Should results not be picklable, a file previously saved at that path is left as it was, and files are closed on every path.",
  ["inputs", "configurations", "fault_sequences"], "every result of every test, every failure while saving",
  "Serialization tests draw records from types, never from a test's run, and do not pickle them.",
  [B + "cli/report.py", R], [("result constructors", R), ("store_results", B + "cli/report.py")], observe=["pickle.dump", "OUT file"])
p("C26", "HTML reports show the result's own values and never execute data",
  "The HTML report of saved results refers only to quantities the result has, and any value coming from the data is escaped, both in markup and inside scripts, whatever characters it holds. A test without a template is skipped with a warning and does not stop the report.",
  ["inputs"], "every saved result file, every face value",
  "The CLI test fails at the base commit, and only uses 0/1 data.",
  [B + "cli/report.py", B + "templates/index.html", B + "templates/randtests/monobit.html"],
  [("write_report_doc, templates_env", B + "cli/report.py"), ("templates", B + "templates")], observe=["report file"])
p("C27", "Bins and FloorDict round keys as documented",
  "Bins keeps exactly the intervals it was made with, refuses duplicates, and reads and writes every key at a closest interval (keys beyond either end at that end), removing one passing its value on to the nearest that remains. FloorDict reads every key at the greatest stored key not above it and raises KeyError below the smallest.",
  ["inputs", "histories"], "every set of intervals, every real key, every history of updates",
  "Bins is tested for agreement between reading and writing the same key, not for which interval is hit; FloorDict has no test.",
  [R + "common/collections.py"], [("Bins, FloorDict", R + "common/collections.py")], observe=["coinflip.collections.Bins", "coinflip.collections.FloorDict"])
p("C28", "Generators yield bits forever and independently",
  "Every published generator is an endless iterator of the integers 0 and 1 only. The Lehmer generator follows seed' = 16807 * seed mod (2^31 - 1), giving 0 exactly when seed'/(2^31 - 1) is below one half, and two generators never influence each other.",
  ["histories"], "every seed and every number of steps, any number of generators side by side",
  "The Lehmer generator has no test and the other is used for smoke runs only.",
  [B + "generators.py"], [("Python, Mersenne", B + "generators.py")], observe=["next(generator)"])
p("C29", "Sequences are displayed faithfully",
  "Displaying a sequence shows each element, in order, by one character per face, the two characters being different; rows left out of a long sequence are announced with their exact number, so that rows shown and announced add up to all rows.",
  ["inputs"], "every two-valued sequence of every length and every terminal width",
  "No test looks at displayed sequences.",
  [B + "cli/pprint.py", R + "common/pprint.py"],
  [("pretty_sequence", B + "cli/pprint.py"), ("determine_rep, pretty_subseq", R + "common/pprint.py")], observe=["console output"])
p("C30", "defaultlist behaves as an endless list of defaults",
  "After any history of reads, assignments, insertions and deletions, by position or by slice, a default list equals a Python list padded with its default value (up to trailing defaults): each operation gives and leaves what it would for that list, and a position before its beginning is refused with IndexError.",
  ["histories"], "every history of list operations", "Histories are sampled by a state machine that leaves slices out.",
  [R + "common/collections.py"], [("defaultlist", R + "common/collections.py")], observe=["coinflip.collections.defaultlist"])
p("C31", "p-values of good generators are uniform",
  "On ideal random input the p-values of each test are (asymptotically) uniform on [0, 1], so that a 1% significance level rejects 1% of sequences.",
  ["inputs"], "the distribution over all sequences of a length", "Examples are single points of a distribution.",
  [R], [("the fifteen tests", R)], observe=["result.p"])
p("C32", "Results are numerically accurate",
  "Statistics and p-values agree with exact arithmetic to the precision displayed, for every sequence length.",
  ["inputs"], "every sequence; floating-point rounding", "Examples allow 5% on statistics.",
  [R], [("the fifteen tests", R)], observe=["result.statistic", "result.p"])
p("C33", "A million bits are tested in minutes",
  "Each test completes on a million values within five minutes.",
  ["inputs"], "every million-value sequence", "One random sequence is timed.",
  [R], [("the fifteen tests", R)], observe=["wall time"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
