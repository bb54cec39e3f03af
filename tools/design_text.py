"""Hand-written parts of DESIGN.md."""
HEAD = '''
# Solver-based checking of task-models

(Written by `tools/design.py` from `tools/design_text.py`, `tools/catalog.py`, the harnesses and
`seeded/`.)

## 1. The method

One technique decides every claimed property: **bounded symbolic execution of the real Python
source, with z3 deciding every branch and every assertion**.

On every run the modules a property needs are read from `/repo`'s working tree, compiled and
executed (`symex/loader.py`). No model of the code is kept anywhere: a change of the source is a
change of what is executed. The inputs are proxy objects holding z3 terms (`symex/engine.py`:
integers, reals, booleans, indices, strings made of pieces). Whenever the code asks for the truth
value of a symbolic condition, z3 is asked which outcomes the path condition allows, and every
possible outcome is explored (depth first, by re-execution with a recorded decision prefix). When a
harness asserts something, z3 is asked for inputs on this path violating it; `unsat` discharges the
assertion for *all* values on the path, and the paths together cover all values within the bounds.

* `symex/arr.py` is numpy for symbolic entries: an object array class plus a stand-in for the
  `numpy` module the code imports (sums, einsum/dot, masks, argmax, indexing by unknown indices,
  rounding, `random`...). Real numpy is used for everything concrete.
* `symex/rng.py` is randomness. *Demonic* draws may return anything their contract allows.
  *Law* draws explore every alternative with its probability as a weight, so the exact distribution
  of what the code returns is a term, compared with the documented law by z3 (P03, S03, S05, D04...).
* `symex/sched.py` replaces `threading`/`time` (C08) so that the interleaving is an unknown: exactly
  one thread runs at a time, and at each scheduling point the choice of the next is a symbolic
  variable. E02 does the same for processes and queues, including their failures.
* `symex/world.py` has the two worlds a harness runs in. In the symbolic world inputs are unknowns.
  In the concrete one they come from a solver model, and the *unpatched* code runs with the real
  numpy (only random draws, clock, processes are still the recorded ones).
* `symex/run.py` schedules the instances (harness + sizes) over the cores and writes the evidence.

Floats are idealised as exact reals; a float constant of the program stands for the simplest
rational within 1e-13 of it, so `0.1 + 0.2 == 0.3` on paper and in the encoding. Where rounding is the
subject (P04: five decimals) it is encoded exactly. `exp` is an unknown increasing positive
function with value 1 at 0; `log`/`sqrt` of concrete counts are computed.

## 2. When a violation is reported

z3's model for a violated assertion is not reported as such: it is first **replayed on the real
code** with the real numpy. Only when the same harness then fails concretely is
`VIOLATION property=<id> replay=<path>` printed; the replay file is self-contained
(`check.py --replay FILE` reruns it). For inequalities over reals the solver is asked for a witness
with a margin, so that rounding in the replay cannot blur it. A symbolic violation that does not
reproduce is counted as `not_reproduced` in the evidence and raises no alarm.

The reverse direction is checked as well: on a sample of explored paths the solver is asked for a
model of the path, the real code is run on it, and both must agree (`traces_replayed_on_unpatched_code`).
An assertion failing in such a validation replay is a violation like any other (it has a concrete
failing input); an exception out of the code under test inside its contract is a violation, too
(label "no exception"). Code that runs on without deciding anything is stopped by a watchdog on CPU
time and reported if the concrete run does not end either ("does not end").

Exit codes: 0 held on everything explored; 1 violation; 2 or 3 the machinery failed (for instance a
harness that reaches none of its assertions). What the engine cannot
encode (an `Unsupported` operation), could not finish within the time budget, or where z3
answers unknown, is listed in the evidence (`paths_outside_the_encodable_fragment`, `not_explored`,
`solver_unknown`) and printed as `INCOMPLETE`, with exit code 0: an unfamiliar but correct way of
writing the code must not raise an alarm. `--strict`, used during development, turns each of these
into a failure; **on the current tree all quick checks are complete under `--strict`**. Assertions a
harness must reach (`labels`) are required to be reached, so no check passes by vacuity.

What the checks observe is behaviour: the public methods' results and effects. Internals are used
only where a property is about them (search nodes, task-graph transitions).
To keep the checks quiet on equivalent code, three batteries of refactorings (helpers extracted,
loops rewritten, comprehensions to loops, numpy calls replaced by equivalent ones, statements
reordered: about a hundred edits) were written and run during development; every alarm they
caused was a defect of the machinery and was repaired there.

## 3. Bounds

A verdict holds for all values within the bounds of section 5 and the thorough tier widens sizes,
steps and the number of unknowns. Besides "everything unknown at small sizes", most properties have
large instances (tens of states, names of many characters, hundreds of particles) in which only
part of the input is unknown: they are there to reach thresholds, word sizes and off-by-one limits
that small sizes cannot.

## 4. What a run costs

Quick: a second to half a minute per property on 8 cores (C08 and S03 about a minute).
Thorough: up to about ten minutes per property; a run never exceeds its budget (what is left is listed).
'''

ORACLE = {
 'P01': 'A model with unknown T, O and belief is built through the constructor; `belief_update` (and `ArrayBelief.successor`) is run for an unknown action and observation. The posterior is stated without division: posterior[s\'] * Z = O[a,s\',o] * sum_s b[s] T[a,s,s\'], Z > 0; `Impossible` iff Z = 0. Inputs are compared with copies afterwards.',
 'P02': 'Shape instances vary one axis of one array at a time; row instances leave one or several rows unknown; acceptance must be equivalent (modulo the tolerance band of the float comparison) to the stated conditions. Attributes of the accepted model are compared with what was given; names are symbolic strings.',
 'P03': 'Law mode: the exact distribution of the returned tuple is a term over the unknown T, O, R and is compared with T[a,s,s\']*O[a,s\',o]; sampled twice, also around `randomize`, to expose stale state.',
 'P04': 'The text is parsed by an independent reader of the POMDP file format inside the harness; unknown entries travel through the text as marked numerals. Rounding to 5 decimals is encoded with integer arithmetic, so row sums and signs after rounding are decided for all reals.',
 'P05': '`to_dict`/`to_json`/files and back with unknown numbers and names; the loaded object is compared field by field, including missing transitions and the initial node.',
 'P06': 'Unknown value vectors, beliefs, actions and successors; chosen nodes must have maximal scalar product; a run of unknown observations is compared step by step with the graph.',
 'P07': 'Concrete-shape models with unknown probabilities, runs of unknown observations; the belief must satisfy the product form of P01 after every step. Trees are compared with their definition (abstract belief update) to depth 2 (thorough deeper), including node and belief being restored.',
 'P08': 'The belief update is an arbitrary function (memoised unknown vectors, unknown impossibility); every edge of the expanded graph is checked against tolerance, impossibility and action of the policy.',
 'P09': 'Files with unknown numbers and unknown successor entries, blank lines at unknown places, truncated files; loading must give exactly the content or raise.',
 'P10': 'Entry-wise identity new * (1 + n * level) = old + level for unknown rows and level.',
 'P11': 'Processes are replaced (`subprocess.Popen`) by a solver stand-in that reads its options and the model file (reader of P04, unknown numbers as marked numerals), and answers with unknown vectors, fails early, fails late or leaves nothing; options are unknown.',
 'B01': 'The simulator is an adversary: each call returns an unknown state and a match or not; the budget, population size and number of matches are enumerated by the solver. The particles must be found end states in order, with copies only after the budget is spent.',
 'B02': 'Pairs of values with unknown content, in different orders and number types; equality must be equivalent to equality of content and imply equal hashes (the hash of a symbolic content is an uninterpreted function of what was hashed).',
 'C01': 'Sequences of unknown returns and an unknown factor; the value is compared with the folded weighting, with the mean and the last one at the extremes.',
 'C02': 'Unknown values at every combination of visit counts in the bounds; the chosen action must maximise the documented term; law mode for the uniform choice among unexplored actions.',
 'C03': 'The tree, the simulator and the random draws are unknown; after one episode every statistic of every node is compared with the fold over what the simulator actually returned, and the node set with the one before.',
 'C04': 'Unknown sequences of transitions (task node changes, finality), copied at an unknown point; reached-ness is compared with counts.',
 'C05': 'Unknown histories including failing steps; the planner\'s belief must be the (abstract) posterior of the history, the returned action must have the best estimate, failed steps must change nothing.',
 'C06': 'Beliefs reached by two histories are unknown vectors; the nodes must be identical iff the vectors are equal.',
 'C07': 'Trees of every shape in the bounds with unknown statistics are exported, dumped with `allow_nan=False` and compared with the tree.',
 'C08': 'All interleavings of caller scripts (steps, resets, failing steps, stop, start again) with the exploring thread. Overlap of the three operations is watched by stand-ins of exploring, choosing and moving; deadlock and non-termination are states without a runnable thread.',
 'C09': 'Simulator, policy and their outcomes are unknown stand-ins behind the real runner class; messages are compared with the trace.',
 'S01': 'All features unknown; code, decode, setters, copies as bit-precise integer terms.',
 'S02': 'All task trees within the bounds (shape is a solver choice); paths of the graph are enumerated and compared with the language of the tree.',
 'S03': 'Law mode from an unknown state and action with unknown rates; the documented simulator is restated as a weighted relation and compared for every outcome.',
 'S04': 'Unknown beliefs; each summary entry is compared with its sum.',
 'S05': 'Law mode for the start; tables compared with the task.',
 'S06': 'All features unknown; the numbers in the text are marked numerals standing for terms, compared with the features by the solver; lists of names against the language of the task.',
 'T01': 'Sequences of unknown additions and an unknown path to look up; membership compared with the definition; states with unknown features and masks for `check_path`.',
 'T02': 'Every deterministic graph in the bounds (edges are unknown booleans), starts and ends unknown.',
 'T03': 'Unknown edge relation, unknown set of nodes.',
 'T04': 'Unknown adjacency; maximality is asserted over all subsets.',
 'T05': 'Unknown edge relation, including loops and cycles; runs are compared with the definition; the watchdog decides termination.',
 'T06': 'Task trees in the bounds with unknown attributes and probabilities; alternatives compared with all permutations.',
 'T07': 'Tree shapes, names, identifiers, agents unknown; export compared with the tree in visiting order; the searches with a direct definition.',
 'T08': 'All nestings in the bounds, unknown kinds.',
 'T09': 'Unknown edge relation over nodes of which two have the same text; some numbering of the nodes must give exactly the transitions.',
 'D01': 'Task trees in the bounds, unknown durations, probabilities and flags; the intended matrices are restated from the documentation and compared entry by entry.',
 'D02': 'As D01 for observations and costs.',
 'D03': 'As D01 for the bring-next model.',
 'D04': 'Unknown probability and costs, whole matrices compared.',
 'L01': 'Unknown observation sequences over models of several subtask counts; the action sequence is compared with the protocol as a state machine.',
 'E01': 'Arbitrary simulator, policy and horizon outcomes; the report is compared with the trace recorded by the stand-ins.',
 'E02': 'Schedules and failures of the worker processes are unknown; stand-ins of multiprocessing with its semantics (results of ended processes stay readable, queues may be empty, exit codes, signals).',
 'E03': 'Days, hours, minutes and seconds are unknown digits of the text.',
 'E04': 'The planner is replaced by a recorder of its arguments (bound to the real signature); parameters, counts and results are unknown and travel through the JSON files; the horizon asked for is checked by counting. Sample jobs are executed from their source without running the experiment; scripted policies are compared with the protocol they are named after.',
 'E05': 'Launchers are executed from their source with unknown results of every job; the data handed to each curve and box is compared term by term with the unknowns of the job that has the parameters named by label, axes and title.',
 'Q01': 'Unknown boards, locations, masks and feature vectors.',
 'Q02': 'Sizes within the bounds, unknown names of parts; the orders compared with the definition.',
 'U01': 'Unknown samples and grids; the axes record what is drawn; mean and standard deviation are stated without division or root (n*mean = sum, n^3*sd^2 = ...), the colour map must be justified by the signs on the path. Choices of options, axes and removals are symbolic flags.',
}

MISSED = {
 'p01-rare-observation': 'yes: witnesses now ask for tiny probabilities',
 'p02-compensating-rows': 'yes: several unknown rows',
 'p03-stale-rows': 'yes: sampling before and after smoothing',
 'p04-compensation': 'yes: rows with many tiny entries',
 'b01-duplicates': 'yes: large populations',
 'c08-same-node': 'yes: resets in the caller scripts',
 'q02-high-towers': 'yes: tall towers',
}

TAIL = '''
Reverting each fix commit of section 6 is reported by the check of its property as well.

Besides these, about 330 one-line mutations of the functions the properties are anchored in were tried
(those that keep the tests passing). Roughly sixty were missed at first; the checks of
P01-P03, P05, P06, P08, P09, B01, C01-C03, C05-C07, S01-S05, T01, T02, T04-T07, D01-D03, L01 and Q02
were strengthened (mostly: larger instances with few unknowns, a second use of the same object, odd
names and types, unequal sizes) until only mutations remained that do not change what the
property states (equivalent ones: e.g. a faster but equal test, an unreachable default, an error
message).

## 8. Statements corrected, machinery repaired

Alarms raised on correct code were resolved on the side of the check, never listed as findings:

* T05: the code counts starting as a way into the initial node, which is a sensible reading of
  "only way into its target"; the statement says so now.
* C03: each rollout draws its own start state from the belief of the new node (not the state the
  episode reached); the harness follows.
* D02 does not judge the cost of telling an intention out of its step in structured models: the
  documentation leaves it open.
* T06 asks for distinct names per order, not for the naming scheme of the current code.
* The refactoring batteries of section 2 exposed numpy operations the stand-in lacked and
  over-specified observations in harnesses; numpy scalars met in symbolic runs are unwrapped.

## 9. Limits worth knowing

* `AsyncPOMCPPolicyRunner.get_action(iterations=...)` ignores the argument; nothing documents
  otherwise, so it is no finding.
* `pomdp-solve` is not installed: solving is outside, its inputs (P04) and outputs (P09) are inside.
* Thread preemption is modelled at the scheduling points (lock, event, time, calls of the
  planner), not between bytecodes; processes are stand-ins.
* Names are unknown strings over a few characters plus fixed odd ones; files are scratch files.
'''
