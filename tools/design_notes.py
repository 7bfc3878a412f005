"""ID -> (oracle, why beyond tests)"""
NOTES = {
 'A01': ('the list of (key, matrix) that was written; every reader kind and random access must give it back, in order.', 'the tests write one set of random matrices in one call; the interplay of call divisions, key order, empty and 1-row matrices, formats and repeated or absent keys is enumerated.'),
 'A02': ('numpy slicing of the whole matrix.', 'tests read one slice; all (first row, number of rows) pairs, script ranges and their intersection are covered, where off-by-one errors live.'),
 'A03': ('a cursor over a list.', 'tests use one sequence of calls; every sequence of operations up to the depth is explored, with reset and end-of-data at each point.'),
 'A04': ('interval arithmetic on the quantiser: an element may move by at most the resolution of its interval; slices of the compressed form equal slices of the decompressed one.', 'error bounds must hold for all matrices; ties, constant columns, single rows and quartile collisions do not show with random data.'),
 'A05': ('for each cut point: the script lists only records whose bytes are complete, each readable record equals what was written, and a damaged record raises.', 'no test crashes a writer.'),
 'A06': ('a hand-written parser of the documented grammar.', 'the tests parse a dozen strings.'),
 'A07': ('the multiset of records of all inputs, in order, values within the precision of the output format.', 'tests copy one file.'),
 'A08': ('the samples that were written, cut at the segment bounds.', 'tests read a few recordings; segment bounds, parts, formats and scales interact.'),
 'L01': ('a list of tuples.', 'tests apply single operations; sequences reach states (e.g. merged then filtered with empty ranges) they do not.'),
 'L02': ('a list of rows.', 'look-ups after reordering operations depend on an index that must be kept in step.'),
 'L03': ('direct definition: contiguous, balanced within one, disjoint, covering, groups unbroken.', 'rounding of part limits depends on all of (length, parts, index).'),
 'L04': ('a list of (segment, file, start, end).', 'selection, merging and reloading compose; single-element look-ups, unsorted and number-like names.'),
 'L05': ('a list of rows; overlap and merging computed on intervals.', 'tests cover one table.'),
 'L06': ('a set of pairs and two name lists.', 'every mask and every ordering of a small universe is a state, so order-dependent index errors show.'),
 'L07': ('a map from pairs to {target, non-target, none} and condition labels.', 'same; masks that are asymmetric in both axes matter.'),
 'L08': ('a map from pairs to scores.', 'same; alignment against every ordered selection.'),
 'L09': ('set algebra on folds; all members of a group in the same part; stratification within one group.', 'tests use one assignment.'),
 'G01': ('the definition of a valid batch: chunk inside of its utterance, right label and weight, each utterance as often as the epoch says, shapes, order within an epoch when not shuffled.', 'random draws are only sampled once in tests; all corner outcomes are enumerated.'),
 'G02': ('definition of a class-balanced batch: number of classes, utterances and chunks per batch, bounds of chunks, label of each, epochs.', 'same.'),
 'G03': ('direct definition of minimum/maximum numbers of recordings per class and of class splitting.', 'interaction of limits with class sizes.'),
 'G04': ('frames by list position and class by table.', 'same.'),
 'Q01': ('history of delivered batches: each once, in order, nothing lost when the generator ends or raises, threads end.', 'tests see one schedule.'),
 'M01': ('exact counting of errors at every threshold; the convex hull by definition.', 'tie patterns are enumerated completely.'),
 'M02': ('minimum over all thresholds by counting; actual cost by counting at the Bayes threshold.', 'thresholds on and between scores.'),
 'M03': ('min-max formula of isotonic regression in exact arithmetic.', 'all 0/1 sequences up to a length.'),
 'M04': ('counting.', 'label sets of all kinds and orders.'),
 'F01': ('windowing, FFT by definition, filter weights and cosine transform written from the documentation.', 'impulses at every position are a basis for the linear stages: agreement on them is agreement on all signals of that length, up to rounding.'),
 'F02': ('the one-pass result and, for histories, a fresh object.', 'state kept over calls only shows in call sequences.'),
 'F03': ('mean and deviation over the window of each frame; a change of one frame may alter only the frames whose window contains it.', 'edge windows for all lengths and contexts.'),
 'F04': ('direct evaluation of the decision of every frame.', 'all energy patterns.'),
 'S01': ('definition with explicit loops over the unmasked cohort.', 'every mask and ranking.'),
 'S02': ('the model saved: same class, parameters, options, predictions.', 'histories of save, load, rename and predict.'),
 'S03': ('the defining equation of each transform; estimates by explicit sums, generalised eigenproblems checked by substitution.', 'all labellings.'),
 'S04': ('sums over frames of explicit Gaussian densities; EM step written out.', 'all batch sizes, segmentations and update sets.'),
 'S05': ('explicit joint Gaussian densities of the stacked vectors; the bound by direct marginal likelihood.', 'all labellings and scoring methods.'),
 'S06': ('exact rational determinants and inverses; elementary formulas.', 'extreme values and all option combinations.'),
 'S07': ('densities written out; for iterative estimators the gradient of the stated objective must vanish at the result.', 'there are no tests of these classes.'),
 'S08': ('a naive agglomeration that checks each merge to be a best one; a naive Lloyd step.', 'there are no tests of these classes.'),
 'C01': ('the definition of each option.', 'no test runs the parsers.'),
 'T02': ('plain computations on the input data written in the check.', 'no test runs a tool.'),
 'D02': ('a set model of a machine: the GPUs, those in use, the request; a stand-in for the program records its arguments, environment and visible GPUs.', 'no test has GPUs; the errors are in the states of a machine (all in use, finder elsewhere, old conda).'),
 'K02': ('each network written out as a sequence of operations on arrays (mc/checks/k02.py), with parameters given by the name of the layer; the layers of Keras are stand-ins on numpy (mc/fakekeras.py, mc/fakeconv.py). The context is found by perturbing every frame and seeing which outputs move. AlexNetV1 and inception.py are unfinished, not exported, and left out.', 'no test touches the builders; a convolution whose output nobody uses, a dilation of the wrong layer or a shortcut at the wrong place still builds and trains.'),
 'D01': ('a set model of a data directory (file -> lines), with the rule of each tool written as a filter.', 'no test runs these tools; losses in one file must reach all others, whatever the combination.'),
 'R01': ('the schedule as a function of its parameters and of the metrics so far, written in mc/lrref.py; torch and keras are replaced by stand-ins (mc/faketorch.py).', 'no test touches the schedules; counters go wrong after particular sequences.'),
 'R02': ('a run computed without the trainer (parameters, momentum, rates, metrics by hand). The training process is really killed (fork, _exit) before each of its file operations, writes, model calls and updates; checkpoints and log of the resumed run are compared with that run.', 'no test runs the trainer, and none can interrupt it at every point.'),
 'T01': ('the library functions, which have checks of their own.', 'no test runs a tool.'),
 'E01': ('the pooling formula over the frames of the undivided utterance.', 'no test; a chunk loop is wrong at its ends only.'),
 'E02': ('Gaussian algebra on the frame posteriors of the undivided utterance; closed forms of the bound with the noise fixed.', 'no test; formats, chunks and masks interact.'),
 'K01': ('the definition of each layer in plain Python loops over the frames.', 'tests of layers cannot run here and use one random batch.'),
 'N01': ('the composition of the layers that the configuration names, in numpy; torch.nn is a stand-in on numpy.', 'no test, torch is needed; options combine.'),
 'E03': ('the library calls, which have checks of their own.', 'no test runs a program.'),
}
