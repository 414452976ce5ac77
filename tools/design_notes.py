NOTES = {
"K01": ("a list of (due time, sequence number) kept by the harness, sorted by it", "the order depends on every comparison of due times and on when handlers schedule; the solver takes all orderings of symbolic delays, ties included"),
"K02": ("sum of the delays along the chain of handlers; the documented errors", "any delays (real and IEEE), any invalid argument at any moment"),
"K03": ("the set of pending identifiers kept by the harness", "which event is cancelled, when, and twice, is chosen in all ways"),
"K04": ("a reference list of pending entries", "all operation sequences, priorities symbolic with all ties"),
"K05": ("first step at which a stop condition of the specification holds", "limits, delays and clock readings are symbolic, so every order of the limits being hit is covered"),
"K06": ("counters kept by the handlers of the harness", "every combination of ways to end and of missing settings"),
"K07": ("the same model run alone", "two runs nested in each other at every point"),
"K08": ("the error object the harness raised; the same program without debug mode", "failure at every event, every class of error the code might catch; delays symbolic, so any order"),
"L01": ("the destinations' documented rules; the standard `logging` machinery is real", "all combinations of levels (symbolic numbers), switches, names, repeated set-ups"),
"E01": ("a decoder written from the Gen2 command tables", "all field values at once; a test samples a few"),
"E02": ("decoder of the definition", "all values up to 2^28 / 2^56"),
"E03": ("sum over the encoded bits, from the reference encoder", "durations are symbolic, so any mixed-up duration or count shows"),
"E04": ("bit counts of the standard times symbols over frequency", "all payload sizes, parameters, defaults"),
"E05": ("formulas of the link-timing table and a copy of the tolerance table", "symbolic TRcal/RTcal hit every interval; all defaulting combinations"),
"E06": ("recomputed from E03-E05's references; ordering and brackets as inequalities", "inequalities over all link parameters"),
"T01": ("an independent state machine of the tag", "all command sequences with symbolic RNs: equality of numbers is decided both ways"),
"T02": ("the drawn slot and a count of repeat commands", "all draws (symbolic), all sequences of the menu"),
"T03": ("reference flags and persistence arithmetic", "intervals and persistence times are symbolic; all states before"),
"T04": ("reference on/off machine on symbolic powers", "every order of powers and the sensitivity, equality included"),
"T05": ("slicing of a reference list of words", "every bank length, pointer and count, past the end included"),
"R01": ("expected sequence of commands and notifications", "all outcomes at every slot, power cycles at every step"),
"R02": ("the protocol's next command and the settings", "all outcome sequences with symbolic numbers"),
"R03": ("reference arithmetic on the fractional Q", "symbolic start and step: all positions relative to the rounding boundaries"),
"R04": ("round index div rounds per target", "the number of rounds is symbolic"),
"R05": ("periods added up from zero", "durations and intervals symbolic; all interleavings with exchanges"),
"R06": ("a list of (identifier, listener, keywords) kept by the harness; a table of the replies each state expects", "all operation sequences, removal from within a notification; every reply in every state"),
"S01": ("timeline from the references of E03-E05", "all timings symbolic: which of the two ends is later is decided both ways"),
"S02": ("the same timeline chained; the moment of the power cut symbolic", "every cut in every phase of an exchange"),
"S03": ("draw <= (1-BER)^bits", "the draw, the rate and the answers are symbolic"),
"S04": ("creation and retirement times added up", "any moment is looked at; intervals and lifetimes symbolic"),
"S05": ("records made by the harness from what was received", "the leaving moment is symbolic over the whole exchange"),
"S06": ("configured values; distinctness pairwise", "symbolic suffix counter and settings"),
"S07": ("fractions counted by the harness", "all read/TID patterns; counting under all draws"),
"S08": ("start + velocity * direction * time", "update moments, velocities and coordinates symbolic"),
"S09": ("invariants of the whole model, watched from outside", "all draws, losses, power timings within the bound: several thousand different runs"),
"S10": ("the world's figures at the moments the medium is asked; the same run without records", "levels, moments and switching symbolic; equality of two whole runs"),
"F01": ("table: setting -> place in the model", "all subsets of overrides, symbolic values (zero included)"),
"F02": ("sorted distinct values", "symbolic values in any order with any equalities"),
"F03": ("pairs made by the stand-in of the simulation", "as F02; results symbolic, so a result shown next to a wrong value is always visible"),
"F04": ("names, extensions and directories joined by the harness; the plotting library's own colour map", "every combination of the options; low weight, mostly choices"),
"M01": ("the kinds of the packages the harness wrote", "all combinations of package kinds in all orders; a test would know the three models only"),
"M02": ("the same model under the kernel with the same limits (K05, K06 decide what those mean)", "limits, clock and durations symbolic: each limit is the first one hit in some path, ties included"),
"C01": ("the formulas of the fading distributions", "inequalities and monotony over all ratios, which need more than points"),
"C02": ("sums in decibels; recorded arguments of the path loss", "all values and geometries symbolic"),
"C03": ("the unfolded picture: mirror image of the receiver, sum of two phasors, Fresnel's formula", "identities over all positions (polynomial identities after reduction)"),
"P01": ("the counts of the harness", "all outcomes of all pings, every limit at every moment"),
"P02": ("times added up along the cycle", "delays, intervals and draws symbolic"),
"G01": ("replay of the drawn outcomes along the scenario's chain", "all outcomes, times symbolic"),
"G02": ("the transition matrix of the scenario", "all probabilities and draws; ends of rows in IEEE arithmetic"),
"G03": ("first-step equations of the chain, solved symbolically", "all probabilities and stay times"),
"G04": ("sums and the references of E03-E05, S03", "all sizes and parameters within the bounds"),
}

TAIL = '''## How the checks were tested

* The seeded bugs above.
* Hand-written mutants while the checks were built (10 to 40 per property, several hundred in all). Survivors
  were classified: equivalent (most: unreachable branches, values never used, texts), or a gap,
  which led to a stronger check. A generator of such mutants over all functions of `pysim` (685)
  was run in part only (41).
* Refactorings that keep the behaviour (renamed private attributes, extracted helpers, rewritten
  loops, other data structures and library functions; ten ways to write the bit encoder): the
  checks stay quiet.

## Limits

* Everything is bounded. Longer runs, more tags and larger Q than stated are not covered.
* Exact reals instead of doubles except where stated: a property that fails only through rounding is
  not seen by the symbolic part (replays and sampled paths run in doubles).
* Uninterpreted functions: what does not follow from the axioms cannot be proved; no obligation of
  the unchanged tree needs more.
* Real multi-processing, click's parsing, the look of tables and plots and the notebook are outside. So is the average run time printed by the
  multi-value runs (wall clock).
* The path loss on the wall itself (a place with x = 0) divides by zero in the code for antennas
  exactly on it; the bounds start at 0.1 m.
* No test file, dependency or build file was changed; there are no hooks.
'''
