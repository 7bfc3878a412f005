"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=m, where=w) for a, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


IO = 'hyperion/io/'
U = 'hyperion/utils/'

p('A01', 'A feature archive gives back exactly the records written to it',
  'Every matrix or vector written under a key to a feature archive (binary, text, flushed or HDF5, with or without a script file, in any division into write calls) is what every reader returns for that key, with its shape and its values to single precision, in the order of writing (sorted by key for a bare HDF5 file); shape, row-count and dimension queries agree with the data. '
  'Random access returns the records in the order requested, with repetitions; a missing key is an error in strict mode and an empty record in permissive mode. '
  'A key that is not a single printable token is refused and leaves the archive usable.',
  ['inputs', 'histories', 'configurations'],
  'all record sequences, shapes, formats, write-call divisions and key requests',
  'Tests write one set of ten random matrices per format; they never vary the number, order and shape of records, the position of a record relative to an input buffer, or mix present and absent keys.',
  [IO + 'ark_data_writer.py', IO + 'ark_data_reader.py', IO + 'h5_data_writer.py', IO + 'h5_data_reader.py', IO + 'data_rw_factory.py', U + 'kaldi_matrix.py', U + 'kaldi_io_funcs.py', U + 'scp_list.py'],
  [('ArkDataWriter.write', IO + 'ark_data_writer.py'), ('KaldiMatrix.read/write', U + 'kaldi_matrix.py'), ('SequentialArkDataReader', IO + 'ark_data_reader.py'), ('RandomAccessH5DataReader', IO + 'h5_data_reader.py')],
  ['read', 'read_shapes', 'read_num_rows', 'read_dims'])

p('A02', 'Row slices read from disk equal slices of the full matrix',
  'Reading with a row offset and a number of rows (scalar or one value per record), or through a script file whose entries carry row ranges, returns exactly those rows of the stored matrix, for sequential and random access, binary or HDF5, compressed or not. '
  'A request combined with a script row range is relative to that range and never returns rows from outside of it; impossible requests are errors. '
  'Reading a slice never disturbs the records read after it.',
  ['inputs', 'histories', 'configurations'],
  'all row offsets and counts, all script ranges, all record positions and read sequences',
  'Tests read random slices of ten matrices; out-of-range requests and requests combined with script ranges are not compared at the boundaries.',
  [IO + 'ark_data_reader.py', IO + 'h5_data_reader.py', IO + 'data_reader.py', U + 'kaldi_matrix.py', U + 'scp_list.py'],
  [('_combine_ranges / _apply_range_to_shape', IO + 'data_reader.py'), ('KaldiMatrix.read row_offset', U + 'kaldi_matrix.py'), ('KaldiCompressedMatrix.read', U + 'kaldi_matrix.py')],
  ['read(row_offset, num_rows)'])

p('A03', 'A sequential reader hands out every record once, in order, from its cursor',
  'For every interleaving of reads of any size, shape queries, iteration, resets and end-of-file tests on a sequential reader, the records handed out are the consecutive records from the current position, each exactly once, and end-of-file is reported exactly when none is left. '
  'Reset returns to the first record. When the input is divided into parts, the parts are disjoint, contiguous, cover the input in order, and keep equal keys together when that is asked for.',
  ['histories', 'configurations', 'inputs'],
  'all operation sequences on one reader, all reader kinds, all part indices and counts',
  'Tests use three fixed patterns of calls; mixed histories of reads, shape queries and resets, and part splits of short inputs, are not reached.',
  [IO + 'ark_data_reader.py', IO + 'h5_data_reader.py', IO + 'data_reader.py', U + 'scp_list.py', U + 'list_utils.py'],
  [('cursor cur_item / file position', IO + 'ark_data_reader.py'), ('reset / eof', IO + 'h5_data_reader.py'), ('split_list', U + 'list_utils.py')],
  ['read', 'reset', 'eof', '__next__'], [('cur_item', 'index of the next record', IO + 'ark_data_reader.py')])

p('A04', 'Compressed matrices decode within the quantisation step and survive storage',
  'For every compression method a compressed matrix keeps its shape, each decoded value differs from the original by no more than the rounding of that method (global range for the uniform codes, per-column quartile segments for the speech code; saturation for the fixed-range codes), and values are ordered as the originals are. '
  'Decoding after any storage route (binary archive, HDF5, attribute round trip, in any mixture with uncompressed records) equals decoding in memory, and recoding a decoded matrix changes nothing beyond one further rounding. '
  'Matrices that cannot be coded are refused.',
  ['inputs', 'configurations'],
  'all small matrices over a value grid, all methods, all storage routes',
  'Tests compress a few random matrices with a loose tolerance; constant columns, ties, short columns and range edges are not covered.',
  [U + 'kaldi_matrix.py', IO + 'ark_data_writer.py', IO + 'h5_data_writer.py', IO + 'h5_data_reader.py'],
  [('KaldiCompressedMatrix.compress', U + 'kaldi_matrix.py'), ('_compute_column_header', U + 'kaldi_matrix.py')],
  ['KaldiCompressedMatrix', 'DataWriter(compress=True)'])

p('A05', 'A writer that dies or fails leaves a script and archive that agree',
  'When flushing is on, at whatever point the writing process dies, every record whose write call returned is listed in the script file and can be read back complete, and everything the script lists can be read back complete. '
  'Reading the cut-off archive itself yields only complete, correct records followed by an error or the end. A write that the operating system refuses is reported to the caller.',
  ['crash_points', 'fault_sequences', 'histories'],
  'all crash points of a write history, torn archive writes, persistent write errors',
  'No test interrupts a writer; the order of archive and script writes is invisible to a test that closes the writer.',
  [IO + 'ark_data_writer.py', IO + 'h5_data_writer.py', U + 'kaldi_matrix.py'],
  [('archive before script, flush', IO + 'ark_data_writer.py'), ('length checks on reading', U + 'kaldi_matrix.py')],
  ['files on disk', 'read'])

p('A06', 'Read and write specifiers mean what they say, and malformed ones are refused',
  'Every well-formed read or write specifier (any order and combination of type, script, text, binary, flush, permissive and ordering options) parses to the stated archive, script and option values, and the reader or writer built from it is of the type the specifier or the script contents name. '
  'Malformed specifiers are refused with an error.',
  ['inputs', 'configurations'],
  'all option sequences up to a length, all archive and script combinations',
  'Tests cover some twenty fixed strings; the option order, repeated options and malformed fields are an unbounded family.',
  [IO + 'rw_specifiers.py', IO + 'data_rw_factory.py'],
  [('WSpecifier.create / RSpecifier.create', IO + 'rw_specifiers.py'), ('factories', IO + 'data_rw_factory.py')],
  ['WSpecifier', 'RSpecifier', 'DataWriterFactory', 'SequentialDataReaderFactory'])

p('A07', 'Copying, converting, merging and splitting feature sets loses and alters nothing',
  'Copying any list of input feature sets to one output, in any chunk size, format, compression or division into jobs, yields every selected record exactly once with its key and its values, in input order, and the union of the jobs is the whole. '
  'Merging several inputs keeps all records, copies of copies are equal, and a reader given a transform returns the transform of each stored record.',
  ['inputs', 'histories', 'configurations'],
  'all small lists of inputs, chunk sizes, job counts and format conversions',
  'Tests copy two fixed sets with default chunking.',
  [IO + 'copy_feats.py', IO + 'data_rw_factory.py', IO + 'h5_merger.py'],
  [('CopyFeats', IO + 'copy_feats.py'), ('H5Merger', IO + 'h5_merger.py')],
  ['CopyFeats'])

p('A08', 'Audio written to disk is what every audio reader returns, segment by segment',
  'Samples written under a key to an audio set are returned unaltered by sequential and random-access readers for every lossless sample format, with the right sampling frequency, for every read size, part split and order of requests. '
  'A segment reader returns exactly the samples from the start to the end time of the segment (up to the end of the recording), for every segment of the list; segments that start behind the end, absent keys and unreadable files are errors.',
  ['inputs', 'histories', 'configurations'],
  'all small sets of recordings, segment lists and call sequences',
  'Tests write five recordings and read them back whole; segment boundaries, part splits and time offsets are not exercised.',
  [IO + 'audio_writer.py', IO + 'audio_reader.py'],
  [('AudioWriter.write', IO + 'audio_writer.py'), ('SequentialAudioReader.read, read_segment', IO + 'audio_reader.py')],
  ['read'])

p('L01', 'Script lists act like plain lists of (key, file, offset, range) rows',
  'Any sequence of sorting, filtering (by key, by path, by index), splitting, merging, shuffling, copying, saving and loading script lists gives the entries that the same operations give on a plain list of (key, file, byte offset, row range) tuples: nothing lost, duplicated, or attached to another key. '
  'Saved lists load back equal for every separator and for every mixture of entries with or without offset and range, and look-ups by key and by position return the entry asked for.',
  ['histories', 'inputs', 'configurations'],
  'all operation sequences on small lists with and without offsets and ranges',
  'Tests run each operation once on a ten-entry list; chains of operations and lists with repeated keys or partial ranges are not covered.',
  [U + 'scp_list.py', U + 'list_utils.py'],
  [('SCPList', U + 'scp_list.py'), ('split_list', U + 'list_utils.py')],
  ['SCPList'])

p('L02', 'Utterance-to-label tables keep each key bound to its information',
  'Any sequence of sorting, filtering by key, by label or by index, splitting, merging, copying, saving and loading utterance tables gives the rows the same operations give on a plain list of (key, information...) rows. '
  'Look-ups by key and by position, membership and equality agree with that list.',
  ['histories', 'inputs', 'configurations'],
  'all operation sequences on small tables of one or several columns',
  'Tests run each operation once on one ten-row table.',
  [U + 'utt2info.py', U + 'list_utils.py'],
  [('Utt2Info', U + 'utt2info.py')], ['Utt2Info'])

p('L03', 'Dividing a list into jobs is a partition with the stated grouping',
  'For every list and every number of parts not above the number of items (or of groups), the parts are contiguous, in order, disjoint, cover the list and differ in size by at most one; when grouping by key each key lies in exactly one part and the selected positions match the selected items. '
  'The list helper functions (sorting, membership, intersection positions, one-hot and sparse conversions) agree with their definitions on every list.',
  ['inputs', 'configurations'],
  'all small lists with repeated keys, all part counts and indices',
  'Tests check three part counts of one list each.',
  [U + 'list_utils.py'],
  [('split_list, split_list_group_by_key', U + 'list_utils.py'), ('ismember, intersect, sort, list2ndarray', U + 'list_utils.py')],
  ['list_utils'])

p('L04', 'Segment lists select, save and reload segments without altering them',
  'Filtering, splitting, merging, copying, saving and loading segment lists (plain ones, and extended ones with names, scores and series of files) give exactly the segments that the same operations give on a plain list of (id, file, start, end) rows. '
  'Look-ups and iteration by segment, by file and by position return all and only those segments. '
  'The speech mask of a file or segment marks exactly the frames from the rounded start to the rounded end of each segment, limited to the length of the recording.',
  ['histories', 'inputs', 'configurations'],
  'all small segment lists and operation sequences',
  'There is no test of segment lists.',
  [U + 'segment_list.py', U + 'ext_segment_list.py', U + 'trial_ndx.py'],
  [('SegmentList', U + 'segment_list.py'), ('ExtSegmentList', U + 'ext_segment_list.py')], ['SegmentList', 'ExtSegmentList'])

p('L05', 'Diarization (RTTM) tables keep files, speakers and times together',
  'Saving and loading, filtering, splitting and merging RTTM tables, and their queries (rows of a file, numbers of speakers, activity matrix, names active at the start or end of a segment, file-specific names), give what the same operations give on a plain list of (type, file, start, duration, speaker, ...) rows. '
  'Merging adjacent segments changes no instant at which a speaker is active beyond the gaps that are to be closed. '
  'Overlap removal moves the border of two consecutive overlapping segments to the middle of the overlap and nothing else.',
  ['histories', 'inputs', 'configurations'],
  'all small tables and operation sequences',
  'There is no test of RTTM tables.',
  [U + 'rttm.py'], [('RTTM', U + 'rttm.py')], ['RTTM'])

p('L06', 'Trial lists keep the set of (model, segment) trials they stand for',
  'For every trial list, saving and loading in either format, sorting, filtering to any models and segments (keeping or dropping), merging and splitting into any grid of parts yield exactly the trials of the corresponding operation on a set of (model, segment) pairs. '
  'The parts of a split are disjoint and their merge is the whole, and evaluation-set parsing selects exactly the trials of the enrolled models and tests.',
  ['histories', 'inputs', 'configurations'],
  'all small trial masks and operation sequences',
  'Tests apply each operation once to one random 3x4-like mask.',
  [U + 'trial_ndx.py', U + 'list_utils.py'], [('TrialNdx', U + 'trial_ndx.py')], ['TrialNdx'])

p('L07', 'Trial keys keep each trial a target, a non-target, or neither',
  'For every trial key, saving and loading, sorting, filtering, merging, splitting and conversion to a trial list keep every (model, segment) pair in the class (target, non-target, none) the corresponding set operation gives; no trial becomes both. '
  'Condition masks of models, segments and trials follow the models and segments they belong to.',
  ['histories', 'inputs', 'configurations'],
  'all small three-valued masks and operation sequences',
  'Tests apply each operation once to one random mask, without conditions.',
  [U + 'trial_key.py'], [('TrialKey', U + 'trial_key.py')], ['TrialKey'])

p('L08', 'Score tables keep each score with its trial through every operation',
  'For every score table, saving and loading, sorting, filtering, merging, splitting, alignment with a trial list or key, missing-trial filling and score transforms leave each (model, segment) pair with its own score and its presence flag. '
  'The target and non-target scores extracted with a key are exactly the scores of the target and of the non-target trials, and trials without a score are reported or filled as asked.',
  ['histories', 'inputs', 'configurations'],
  'all small score masks, keys and operation sequences',
  'Tests apply each operation once to one random table.',
  [U + 'trial_scores.py'], [('TrialScores', U + 'trial_scores.py')], ['TrialScores'])

p('L09', 'Cross-validation folds partition the segments and keep groups together',
  'For every segment list and number of folds, the test folds are disjoint and cover all segments that are not masked, the training part of a fold is the complement of its test part, segments of one group never straddle train and test, and balancing classes spreads each class over the folds to within one group. '
  'Train, validation and evaluation lists divide each class in the stated proportions to within one group. '
  'Fold and part lists keep every segment in the place assigned to it through saving, loading, alignment and selection.',
  ['inputs', 'configurations', 'histories'],
  'all small lists of segments, groups and classes, all fold counts',
  'There is no test of folds or part lists.',
  [U + 'fold_list.py', U + 'train_val_eval_list.py'], [('FoldList', U + 'fold_list.py'), ('TrainValEvalList', U + 'train_val_eval_list.py')], ['FoldList', 'TrainValEvalList'])

p('G01', 'The sequence batch generator delivers valid chunks, labels and epochs',
  'For every data list, chunk length, batch composition and iteration setting, each batch has the promised shape, every chunk is a run of consecutive frames of its utterance starting at a legal position, and it carries the class of that utterance. '
  'In every pass over the list each utterance (or each listed repetition of a balanced class) is used once, sequential chunks walk through their utterance in order, the number of steps is that of the iterations, and a generator that starts at an epoch or is reset within it delivers the same batches.',
  ['inputs', 'configurations', 'histories'],
  'all small data lists and configurations, every batch of several epochs',
  'Tests check one fixed data set and some settings.',
  ['hyperion/generators/sequence_batch_generator_v1.py'], [('SequenceBatchGeneratorV1', 'hyperion/generators/sequence_batch_generator_v1.py')], ['read', 'reset', 'steps_per_epoch'])

p('G02', 'The class-balanced batch generator delivers valid chunks, labels and epochs',
  'For every data list, class list, chunk length and batch composition, each batch holds the promised number of chunks, chunks per utterance and utterances per class, every chunk is a run of consecutive frames of its own utterance with a length within the limits, and it carries the class and the utterance indicator of that utterance. '
  'The number of steps of an epoch is that of the iterations, each epoch has its own draws, and a generator that starts at an epoch or is reset within it delivers the same batches.',
  ['inputs', 'configurations', 'histories'],
  'all small data lists and configurations, every batch of several epochs, and every corner outcome of the random draws',
  'Tests check one fixed data set and some settings.',
  ['hyperion/generators/sequence_batch_generator_v2.py'],
  [('SequenceBatchGeneratorV2', 'hyperion/generators/sequence_batch_generator_v2.py')], ['read', 'reset', 'steps_per_epoch'])

p('G03', 'Training-vector readers select speakers and recordings as the limits say',
  'For every labelled list and every setting of minimum and maximum recordings per speaker, number of speakers, order and subset sampling, the vectors returned are those of distinct recordings of the selected speakers, each with its own class, and the limits hold exactly; with nothing to limit, all data come back. '
  'Plain vector readers and trial readers return, for each model and segment of the trial list, the vector of that recording, and averaging enrolment recordings keeps the model-to-vector assignment.',
  ['inputs', 'configurations'],
  'all small labelled lists and limit settings, all seeds of a small range',
  'Tests use one labelled list and a few limits.',
  ['hyperion/helpers/vector_class_reader.py', 'hyperion/helpers/vector_reader.py', 'hyperion/helpers/trial_data_reader.py', 'hyperion/helpers/multi_test_trial_data_reader.py', 'hyperion/helpers/classif_trial_data_reader.py'],
  [('VectorClassReader', 'hyperion/helpers/vector_class_reader.py'), ('TrialDataReader', 'hyperion/helpers/trial_data_reader.py')], ['read'])

p('G04', 'Sequence readers return the frames, sub-sequences and classes of their list',
  'For every list of sequences, length limits, overlap, splitting mode and batch size, the batches of an epoch hold exactly the sub-sequences the limits define: whole sequences, consecutive pieces, or pieces drawn at random of the right length, each of frames of its own sequence and with its own class. '
  'Posteriors stay aligned with the frames, every sub-sequence is used at most once per epoch and all of them when the batch size divides their number, and the parts of a divided list cover it exactly once.',
  ['inputs', 'configurations', 'histories'],
  'all small lists, batch limits and sub-sequence settings',
  'Tests read one list with fixed limits.',
  ['hyperion/helpers/sequence_reader.py', 'hyperion/helpers/sequence_class_reader.py', 'hyperion/helpers/sequence_post_reader.py', 'hyperion/helpers/sequence_post_class_reader.py', 'hyperion/io/hyp_data_reader.py'],
  [('SequenceReader', 'hyperion/helpers/sequence_reader.py')], ['read'])

p('Q01', 'Background batch queues deliver every batch once, in order, and stop cleanly',
  'Under every interleaving of the producer and the consumer, the queue that runs a batch generator in the background delivers exactly the batches the generator yields, each once and in order, and ends when the generator ends. '
  'Stopping it at any moment terminates the producer without deadlock, and an error in the generator reaches the consumer or ends the stream; it never hangs.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of producer and consumer threads at their synchronisation points, within a preemption bound',
  'No test runs the queues at all; a race shows itself only in one interleaving.',
  [IO + 'queues.py', U + 'queues.py'], [('GeneratorQueue', U + 'queues.py')], ['get', 'stop', 'start'])

p('M01', 'Error rates and ROC curves equal the counts of errors at every threshold',
  'For every set of target and non-target scores (ties, single scores and total separation included), the miss and false-alarm rates at every operating point equal the fraction of targets rejected and of non-targets accepted, monotone from accept-all to reject-all. '
  'The ROC convex hull is the lower convex envelope of these points, and the equal error rate is its crossing with the diagonal; the result depends only on the order of the scores, not on how they are listed.',
  ['inputs'], 'all score sequences over a small alphabet up to a length',
  'Tests use a handful of score vectors.',
  ['hyperion/metrics/roc.py', 'hyperion/metrics/eer.py', 'hyperion/metrics/utils.py'],
  [('compute_roc, compute_rocch, rocch2eer', 'hyperion/metrics/roc.py'), ('compute_eer', 'hyperion/metrics/eer.py')], ['metrics API'])

p('M02', 'Detection costs equal their definition, and the minimum is a true minimum',
  'For every scores and prior, the actual detection cost equals prior-weighted miss and false-alarm rates at the Bayes threshold, the minimum cost equals the smallest cost over all thresholds, and the actual cost is never below the minimum. '
  'The fast routines return the same values as the reference ones for one prior or an ascending list of priors (repetitions included), in any order of scores, normalised or not.',
  ['inputs', 'configurations'], 'all score sequences over a small alphabet and a grid of priors',
  'Tests compare the routines on one random score set.',
  ['hyperion/metrics/dcf.py', 'hyperion/metrics/roc.py', 'hyperion/metrics/utils.py'],
  [('compute_dcf, compute_min_dcf, compute_act_dcf, fast_eval_dcf_eer', 'hyperion/metrics/dcf.py')], ['metrics API'])

p('M03', 'Isotonic calibration and log-likelihood-ratio cost are exact',
  'For every 0/1 sequence the pool-adjacent-violators fit is the non-decreasing sequence of least squared distance, with block widths and heights that describe it. '
  'The log-likelihood-ratio cost equals its definition and its minimum never exceeds the cost of any monotone rescaling of the scores; optimal log-likelihood ratios are a monotone function of the scores with ties treated alike.',
  ['inputs'], 'all 0/1 sequences up to a length and all small score sets',
  'Tests check one random case.',
  ['hyperion/metrics/utils.py', 'hyperion/metrics/cllr.py'],
  [('pavx, opt_loglr', 'hyperion/metrics/utils.py'), ('compute_cllr, compute_min_cllr', 'hyperion/metrics/cllr.py')], ['metrics API'])

p('M04', 'Accuracy and confusion matrices count every labelled decision once',
  'For every pair of label sequences, the confusion matrix (normalised or not, with or without given label set) counts each decision in the cell of its true and predicted label, its normalised rows sum to one, and accuracy is the fraction of equal labels. '
  'The open-set variants place trained and untrained classes in the rows that the evaluation defines, and the inputs are left unchanged.',
  ['inputs', 'configurations'], 'all short label sequences over small label sets',
  'Tests check one example of each.',
  ['hyperion/metrics/confusion_matrix.py', 'hyperion/metrics/acc.py'],
  [('compute_confusion_matrix, compute_xlabel_confusion_matrix', 'hyperion/metrics/confusion_matrix.py'), ('compute_accuracy', 'hyperion/metrics/acc.py')], ['metrics API'])

F = 'hyperion/feats/'
p('F01', 'Acoustic features are the documented function of each frame of the signal',
  'For every signal length, frame length, shift, edge mode and output stage, the number of frames is that of the definition, and each frame of the output equals the definition applied to the samples of that frame of the filtered signal. '
  'Configurations of the filter bank keep their contract (rows of triangular weights of the stated number inside the stated band), and energies follow the stated scaling.',
  ['inputs', 'configurations'], 'all signal lengths around frame boundaries, all stage and option combinations on a small frame',
  'Tests compare one recording in the default configuration with stored values.',
  [F + 'mfcc.py', F + 'filter_banks.py', F + 'feature_windows.py', F + 'stft.py'],
  [('MFCC.compute', F + 'mfcc.py'), ('FilterBankFactory', F + 'filter_banks.py')], ['MFCC.compute'])

p('F02', 'Feature extraction split into stages equals extraction in one pass',
  'For every pair of input and output stage, computing the features from the output of an earlier stage gives what computing them from the signal gives. '
  'After a reset of its filters an extractor gives what a new one gives, whatever it computed before; without a reset it continues, so that a signal cut into pieces at frame boundaries gives the frames of the whole.',
  ['configurations', 'histories', 'inputs'], 'all pairs of stages, options and call sequences',
  'Tests check two chains in the default configuration.',
  [F + 'mfcc.py'], [('input_step / output_step', F + 'mfcc.py')], ['MFCC.compute'])

p('F03', 'Feature normalisation uses exactly the frames of its window',
  'For every length and context, normalised features equal the definition: global mean and variance, or those of the frames from the left to the right context clipped at the ends of the recording, with the variance floor, in all the implementations. '
  'Each output frame depends on the frames of its window only, and inputs are left unchanged.',
  ['inputs', 'configurations'], 'all lengths and contexts up to a bound, all option combinations',
  'Tests compare three contexts on one matrix.',
  [F + 'feature_normalization.py'], [('MeanVarianceNorm', F + 'feature_normalization.py')], ['MeanVarianceNorm.normalize'])

p('F04', 'Voice activity detection and frame selection keep exactly the frames they mark',
  'For every mask and feature matrix, frame selection returns the marked frames in order, tolerating a length mismatch only up to the stated number of frames and reporting it otherwise. '
  'The energy detector marks a frame exactly when the stated fraction of frames in its context exceeds the threshold built from the mean log energy.',
  ['inputs', 'configurations'], 'all short masks, lengths, contexts and thresholds',
  'Tests check one random mask and one recording.',
  [F + 'frame_selector.py', F + 'energy_vad.py'], [('FrameSelector.select', F + 'frame_selector.py'), ('EnergyVAD.compute', F + 'energy_vad.py')], ['select', 'compute'])

p('S01', 'Score normalisation uses the cohort scores of the right model and segment',
  'For every score and cohort matrices and masks, each normalisation subtracts the mean and divides by the deviation over exactly the cohort entries selected for that model (and/or segment), combining both sides as the method defines; adaptive selection uses the best-scoring cohort entries. '
  'Permuting models, segments or cohort permutes the result accordingly, and the inputs are left unchanged.',
  ['inputs', 'configurations'], 'all small score, cohort and mask matrices over a grid',
  'There is no test of score normalisation.',
  ['hyperion/score_norm/t_norm.py', 'hyperion/score_norm/z_norm.py', 'hyperion/score_norm/s_norm.py', 'hyperion/score_norm/tz_norm.py', 'hyperion/score_norm/zt_norm.py', 'hyperion/score_norm/adapt_s_norm.py', 'hyperion/score_norm/score_norm.py'],
  [('TNorm.predict', 'hyperion/score_norm/t_norm.py'), ('AdaptSNorm.predict', 'hyperion/score_norm/adapt_s_norm.py')], ['predict'])

p('S02', 'Saved models load back to models that behave identically',
  'Every trainable model or transform, in every state it can be saved in, loads back with the same parameters and gives the same outputs on every input; a list of transforms keeps its order and content. '
  'Saving never changes the model, and loading by class name gives an object of that class.',
  ['configurations', 'inputs'], 'all model classes and their option combinations over small dimensions',
  'Tests save and load a few distributions once.',
  ['hyperion/hyp_model.py', 'hyperion/model_loader.py', 'hyperion/transforms/transform_list.py'],
  [('HypModel.save/load', 'hyperion/hyp_model.py'), ('ModelLoader', 'hyperion/model_loader.py')], ['save', 'load', 'predict'])

p('S03', 'Transforms apply the linear maps they define, after fitting and by parts',
  'Centering, whitening, length normalisation, discriminant, principal-component and mean-variance transforms compute, for every input, the map their parameters define: whitened training data have identity covariance, normalised vectors have the stated length, projected components are orthonormal and ordered by variance or discriminability. '
  'A transform of several rows equals the transform of each row, a list of transforms equals their composition, and predicting never changes its input.',
  ['inputs', 'configurations'], 'all small data sets over a value grid and all options',
  'There is no test of transforms.',
  ['hyperion/transforms/cent_whiten.py', 'hyperion/transforms/lnorm.py', 'hyperion/transforms/lda.py', 'hyperion/transforms/pca.py', 'hyperion/transforms/mvn.py', 'hyperion/transforms/nap.py', 'hyperion/transforms/sb_sw.py', 'hyperion/transforms/nda.py', 'hyperion/transforms/gaussianizer.py', 'hyperion/transforms/cent_whiten_up.py', 'hyperion/transforms/lnorm_up.py', 'hyperion/transforms/transform_list.py'],
  [('CentWhiten', 'hyperion/transforms/cent_whiten.py'), ('LDA', 'hyperion/transforms/lda.py'), ('PCA', 'hyperion/transforms/pca.py')], ['fit', 'predict'])

p('S04', 'Mixture statistics and likelihoods are sums over frames, however batched',
  'For every mixture model and data, sufficient statistics accumulated in one pass, in batches of any size, or added up over pieces of the data are the same and equal their definition; the evidence lower bound and the log-likelihood from natural parameters equal those from standard parameters. '
  'Responsibilities are non-negative and sum to one, standard-to-natural parameter conversion is invertible, and every iteration of expectation-maximisation does not lower the training likelihood.',
  ['inputs', 'configurations', 'histories'], 'all small data sets over a value grid, all batchings, several iterations',
  'Tests train one or two components on one random set.',
  ['hyperion/pdfs/core/exp_family.py', 'hyperion/pdfs/core/normal.py', 'hyperion/pdfs/core/normal_diag_cov.py', 'hyperion/pdfs/mixtures/exp_family_mixture.py', 'hyperion/pdfs/mixtures/gmm.py', 'hyperion/pdfs/mixtures/gmm_diag_cov.py'],
  [('ExpFamily', 'hyperion/pdfs/core/exp_family.py'), ('ExpFamilyMixture', 'hyperion/pdfs/mixtures/exp_family_mixture.py')], ['log_prob', 'compute_z', 'accum_suff_stats', 'fit'])

p('S05', 'PLDA scores are the likelihood ratios of the Gaussian model they state',
  'For every model of each kind and all enrolment and test vectors, the one-to-one score equals the ratio of Gaussian likelihoods of the same-speaker and different-speaker hypotheses, is symmetric in its two sides, and the many-to-one and many-to-many scores obtained with the exact method equal the Gaussian ratio of the pooled vectors. '
  'Training statistics equal their definition for every labelling, training never lowers the likelihood bound, and a score does not depend on the other vectors scored with it.',
  ['inputs', 'configurations', 'histories'], 'all small models over a parameter grid, small vector sets and labellings',
  'Tests train and score on one random set and check only against a loose bound.',
  ['hyperion/pdfs/plda/plda_base.py', 'hyperion/pdfs/plda/frplda.py', 'hyperion/pdfs/plda/splda.py', 'hyperion/pdfs/plda/plda.py'],
  [('llr_1vs1, llr_NvsM', 'hyperion/pdfs/plda/plda_base.py'), ('compute_stats_hard', 'hyperion/pdfs/plda/plda_base.py')], ['llr_1vs1', 'llr_Nvs1', 'llr_NvsM', 'fit'])

p('S06', 'Matrix packing, linear algebra and numeric helpers equal their definitions',
  'For every small positive-definite matrix the inverse, log-determinant, Cholesky inverse, vectorisation and un-vectorisation agree with the definition and invert each other. '
  'Softmax, log-sum-exp, logistic functions, covariance flooring, one-hot coding, packing of sequences into tensors and the other numeric helpers equal their definition for every input, including extreme values.',
  ['inputs', 'configurations'], 'all small matrices and vectors over a grid of values, extremes included',
  'Tests check random matrices of one size.',
  [U + 'math.py', U + 'tensors.py'],
  [('invert_pdmat, symmat2vec, vec2symmat', U + 'math.py'), ('logsumexp, softmax, logsigmoid', U + 'math.py')], ['math API'])

p('S07', 'Classifier and calibration outputs equal the model their parameters define',
  'For every parameter set and input, linear classifiers and calibrators return the stated log-likelihood, log-posterior or log-likelihood-ratio values; posteriors sum to one and predictions of several rows equal predictions of each. '
  'Parameters estimated from data equal the closed-form estimates of the model for every labelling.',
  ['inputs', 'configurations'], 'all small data sets, labellings and parameters over a grid',
  'There is no test of classifiers or calibration.',
  ['hyperion/classifiers/linear_gbe.py', 'hyperion/classifiers/linear_gbe_up.py', 'hyperion/classifiers/logistic_regression.py', 'hyperion/classifiers/binary_logistic_regression.py', 'hyperion/classifiers/linear_svmc.py', 'hyperion/classifiers/q_scoring_homo_gbe.py', 'hyperion/calibration/gauss_calibration.py', 'hyperion/calibration/unsup_gauss_calibration.py'],
  [('LinearGBE', 'hyperion/classifiers/linear_gbe.py'), ('BinaryLogisticRegression', 'hyperion/classifiers/binary_logistic_regression.py'), ('GaussCalibration', 'hyperion/calibration/gauss_calibration.py')], ['predict', 'fit'])

p('S08', 'Clustering assigns every item to exactly one cluster by its stated rule',
  'For every score matrix and threshold, agglomerative clustering merges at each step the pair of clusters with the best linkage, and cutting it gives a partition of all items whose size matches the request; relabelling the items relabels the result. '
  'K-means assigns each vector to its nearest centre, its centres are the means of their members, and its distortion does not grow over iterations.',
  ['inputs', 'configurations', 'histories'], 'all small symmetric score matrices and data sets over a grid',
  'There is no test of clustering.',
  ['hyperion/clustering/ahc.py', 'hyperion/clustering/kmeans.py'], [('AHC', 'hyperion/clustering/ahc.py'), ('KMeans', 'hyperion/clustering/kmeans.py')], ['fit', 'get_flat_clusters', 'predict'])

p('C01', 'Options given on the command line reach the component under its prefix',
  'For every component that adds options to a command line, every option and combination of options, and every prefix, filtering the parsed arguments gives exactly the parameters of that component with the values that were given or their defaults, and the component accepts them. '
  'Options of another component or prefix never leak in, options that were not defined are left out, and the input dictionary is not changed.',
  ['inputs', 'configurations'], 'all command lines of up to two (thorough three) options of every component, prefixes and several instances per parser',
  'No test runs a parser.',
  ['hyperion/helpers/sequence_reader.py', 'hyperion/helpers/vector_class_reader.py', 'hyperion/helpers/vector_reader.py', 'hyperion/helpers/plda_factory.py', 'hyperion/helpers/trial_data_reader.py', 'hyperion/feats/mfcc.py', 'hyperion/feats/energy_vad.py', 'hyperion/feats/feature_normalization.py', 'hyperion/io/data_rw_factory.py', 'hyperion/io/copy_feats.py', 'hyperion/io/audio_reader.py', 'hyperion/transforms/pca.py', 'hyperion/transforms/cent_whiten.py', 'hyperion/classifiers/linear_gbe.py', 'hyperion/classifiers/linear_svmc.py', 'hyperion/classifiers/logistic_regression.py'],
  [('add_argparse_args, filter_args', 'hyperion/helpers/sequence_reader.py'), ('add_argparse_args, filter_args', 'hyperion/feats/mfcc.py')], ['add_argparse_args', 'filter_args'])

p('T01', 'Training, scoring and evaluation tools give the results of the library',
  'For every combination of its options, a training tool saves the model that the library gives for the listed vectors and labels after the given transforms, appended to the transform list or alone as asked, so a chain of tools equals the chain of fits. '
  'A scoring tool writes, for every trial of its evaluation set and exactly once over all parts of a split, the score of the library; score normalisation and the performance report follow their definition for cohort files in any order.',
  ['inputs', 'configurations', 'histories'], 'all option combinations of the tools on small data, all chains of up to two (thorough three) training tools, all part grids',
  'No test runs a tool.',
  ['hyperion/bin/train-pca.py', 'hyperion/bin/train-lda.py', 'hyperion/bin/train-nda.py', 'hyperion/bin/train-mvn.py', 'hyperion/bin/train-cw.py', 'hyperion/bin/train-gaussianizer.py', 'hyperion/bin/train-plda.py', 'hyperion/bin/eval-plda-1vs1.py', 'hyperion/bin/eval-plda-nvs1.py', 'hyperion/bin/eval-cos-1vs1.py', 'hyperion/bin/train-linear-gbe.py', 'hyperion/bin/eval-linear-gbe.py', 'hyperion/bin/eval-score-norm.py', 'hyperion/bin/eval-2class-performance.py', 'hyperion/helpers/vector_class_reader.py', 'hyperion/helpers/vector_reader.py', 'hyperion/helpers/trial_data_reader.py', 'hyperion/helpers/classif_trial_data_reader.py'],
  [('train_pca', 'hyperion/bin/train-pca.py'), ('eval_plda', 'hyperion/bin/eval-plda-nvs1.py'), ('TrialDataReader', 'hyperion/helpers/trial_data_reader.py')], ['command-line tools'])

p('T02', 'Conversion and feature tools give what their input defines',
  'For every input and every combination of its options, a conversion tool writes each record of its input once, under its own name and with its own values: archives to hdf5 data sets, voice activity to segment files and segments or diarization tables to binary voice activity, hdf5 files merged, scores and vectors to text. '
  'The feature tools write, for every recording and each part of a split, the features, voice activity or copies that the library gives for it. The tools of Gaussian mixtures write the bound of the likelihood of a list, and for each recording its most likely components with their renormalized posteriors.',
  ['inputs', 'configurations'], 'all small inputs of each tool, all option combinations, all parts of a split',
  'No test runs a tool.',
  ['hyperion/bin/ark2hyp.py', 'hyperion/bin/arkvad2nist.py', 'hyperion/bin/h5vad2nist.py', 'hyperion/bin/merge-h5-files.py', 'hyperion/bin/rttm-to-bin-vad.py', 'hyperion/bin/segments-to-bin-vad.py', 'hyperion/bin/scores2lre_format.py', 'hyperion/bin/vectors2scores.py', 'hyperion/bin/copy-feats.py', 'hyperion/bin/compute-mfcc-feats.py', 'hyperion/bin/compute-energy-vad.py', 'hyperion/bin/eval-elbo-ubm.py', 'hyperion/bin/compute-gmm-post.py', 'hyperion/io/kaldi_data_reader.py', 'hyperion/io/h5_merger.py'],
  [('KaldiDataReader', 'hyperion/io/kaldi_data_reader.py'), ('ark_to_hyp', 'hyperion/bin/ark2hyp.py')], ['command-line tools'])

KR = 'hyperion/keras/'
p('E01', 'A sequence embedding does not depend on how the sequence was cut',
  'For every utterance length, chunk length, context, downsampling factor and kind of edges, the embedding of an utterance is the pooling (average, statistics, learnable dictionary, posterior) over the encoder frames of the undivided utterance: every frame that the options keep counts exactly once, none of another chunk or utterance does, and short utterances need no special care. '
  'Training, evaluation and extraction graphs of one network share their weights and give the scores of its definition; a saved and loaded network, also through the checkpoint loader, gives the same embeddings in the same options and formats.',
  ['inputs', 'configurations'],
  'all utterance lengths, chunk lengths, contexts, downsampling factors, poolings and formats of posteriors within the bound',
  'No test covers these classes; the errors are at the last chunk, at contexts that are not symmetric, and for utterances shorter than one chunk.',
  [KR + 'embed/seq_embed.py', KR + 'embed/seq_q_embed.py', KR + 'embed/seq_embed_lde.py', KR + 'embed/seq_meta_embed.py', KR + 'keras_utils.py', KR + 'keras_model_loader.py', KR + 'layers/pooling.py'],
  [('predict_embed (chunk loop)', KR + 'embed/seq_embed.py'), ('predict_embed', KR + 'embed/seq_q_embed.py'), ('KerasModelLoader', KR + 'keras_model_loader.py')],
  ['predict_embed', 'predict_eval'])

p('E02', 'Tied variational autoencoders give their posteriors and their bound',
  'The posterior of the utterance variable is the same for every way of cutting an utterance into chunks, in every output format, and equals the product of the frame posteriors with the prior. '
  'The training objective is the evidence bound (data term per frame, divergence of the frame variables per frame, of the utterance variable once per utterance, class loss with its weight) for every form of the data distribution, every mask, with and without class labels; generation draws from the distributions that the decoder gives; a saved network gives the same results.',
  ['inputs', 'configurations'],
  'all utterance lengths, chunk lengths, contexts, formats of posteriors, data distributions and noise draws within the bound',
  'No test covers these classes.',
  [KR + 'vae/tied_dvae_qy.py', KR + 'vae/tied_sup_vae_qyqzgy.py', KR + 'losses.py', KR + 'layers/losses.py', KR + 'layers/sampling.py', KR + 'layers/pooling.py'],
  [('compute_qy (chunk loop)', KR + 'vae/tied_dvae_qy.py'), ('build / compile', KR + 'vae/tied_sup_vae_qyqzgy.py')],
  ['compute_qy', 'elbo', 'sample'])

p('K01', 'Keras layers and losses compute their definitions and respect masks',
  'Every pooling, statistics, posterior-conversion, divergence, sampling, feature and scoring layer computes its definition for every mask, weight and format of its parameters: frames with weight zero never influence a result, weights act as multiplicities, layers and their announced shapes agree, and a layer saved in a model file and loaded with the table of custom objects is the same layer. '
  'Losses and data likelihoods are those of their distributions; training in batches gives the mean over all samples whatever the batch size.',
  ['inputs', 'configurations'],
  'all masks and weights of short sequences, all formats of parameters, sizes and batch divisions within the bound',
  'The few tests of layers need a TensorFlow that is not there and use one batch of random data.',
  [KR + 'layers/pooling.py', KR + 'layers/losses.py', KR + 'layers/sampling.py', KR + 'layers/core.py', KR + 'layers/cov.py', KR + 'layers/feats.py', KR + 'layers/tensor_manipulation.py', KR + 'layers/scoring.py', KR + 'layers/masking.py', KR + 'losses.py', KR + 'objectives.py', KR + 'constraints.py', KR + 'keras_utils.py', KR + 'backend_addons/theano_backend.py', KR + 'backend_addons/tensorflow_backend.py'],
  [('layer classes', KR + 'layers/pooling.py'), ('weighted_mean_loop / eval_loop', KR + 'keras_utils.py')],
  ['call', 'compute_output_shape', 'get_config'])

p('E03', 'Sequence-network programs write one result per utterance, that of the network',
  'For every utterance list, each part of a split and every combination of options, the extraction and evaluation programs write exactly one vector per utterance under its name, in the requested format, equal to what the network gives for its preprocessed features. '
  'The training program trains the network built from the given architectures on the sequences of the training list, with or without validation, resumes after the last checkpoint of an interrupted run, freezes the layers it is told to and saves the trained network.',
  ['inputs', 'configurations', 'histories'],
  'all option combinations of the programs on small data, all sets of checkpoints present at start',
  'No test runs a program.',
  ['hyperion/bin/keras-extract-seq-embed.py', 'hyperion/bin/keras-extract-seq-q-embed.py', 'hyperion/bin/keras-extract-tied-vae-embed.py', 'hyperion/bin/keras-eval-seq-embed.py', 'hyperion/bin/keras-eval-seq-q-embed.py', 'hyperion/bin/keras-train-cat-seq-embed-gen-v1.py', 'hyperion/bin/keras-train-cat-seq-embed-gen-v2.py', 'hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py', KR + 'keras_model_loader.py'],
  [('extract_embed', 'hyperion/bin/keras-extract-seq-q-embed.py'), ('train_embed', 'hyperion/bin/keras-train-cat-seq-embed-gen-v2.py')], ['command-line tools'])

p('D01', 'Data directory tools keep the files of a data directory consistent',
  'Fixing a data directory keeps exactly the utterances that every indexing file has (with their recordings and speakers where these are listed), keeps each of their lines unchanged, sorted and once in every file, and makes spk2utt the inverse of utt2spk; fixing again changes nothing; '
  'combining directories gives every file that all of them have, as the union of their lines, and generates the unique-utterance and segment tables where some have them; the sources stay as they were. '
  'A subset has exactly the requested number of utterances (in total, per speaker where there are as many, whole speakers until the number is reached) or the listed speakers or utterances, in every file; removing short utterances, speakers with few utterances or utterances without voice activity, and filtering trials, keeps exactly those that satisfy the limit; voice activity made in jobs is the same for every number of jobs.',
  ['inputs', 'configurations'], 'all presence patterns of up to 3 utterances in each file, all groupings of up to 4 utterances, all modes, all shuffle orders',
  'No test runs these tools; the errors are in combinations of files, groups and limits that a recipe meets once.',
  ['hyp_utils/fix_data_dir.sh', 'hyp_utils/combine_data.sh', 'hyp_utils/subset_data_dir.sh', 'hyp_utils/remove_short_utts.sh', 'hyp_utils/remove_spk_few_utts.sh', 'hyp_utils/remove_utts_wo_vad.sh', 'hyp_utils/filter_trials.awk', 'hyp_utils/rttm_to_bin_vad.sh', 'hyp_utils/segments_to_bin_vad.sh'],
  [('filter_utts, filter_speakers, filter_recordings', 'hyp_utils/fix_data_dir.sh'), ('do_filtering', 'hyp_utils/subset_data_dir.sh')], ['command-line tools'])

p('D02', 'A program launched on GPUs gets free ones, its arguments and its exit status',
  'The finder of free GPUs names exactly as many distinct GPUs as were asked for, none of which has a process, and where there are not as many it says so and fails. '
  'The launcher runs the program once with its arguments unchanged, inside the named environment and after the settings of the working directory, with the free GPUs visible to it, wherever the finder stands, or as it was where there is no finder or no GPU is asked for; it never makes a GPU in use visible; its exit status is that of the program.',
  ['inputs', 'configurations'], 'all machines of up to 4 GPUs, all subsets of them in use, all requests, all kinds of environment',
  'No test runs these programs; they depend on the state of a machine that a test does not have.',
  ['hyp_utils/free-gpu', 'hyp_utils/torch.sh'],
  [('free-gpu', 'hyp_utils/free-gpu'), ('torch.sh', 'hyp_utils/torch.sh')], ['command-line tools'])

p('K02', 'Keras network builders compute the architecture their arguments describe',
  'Every builder of networks in hyperion.keras.archs (feed-forward; time-delay: plain, residual, with an embedding, transposed; convolutional over time and frequency; VGG; residual) gives, for every combination of its arguments, a network that works and computes, in training and in evaluation, '
  'the composition of normalization, convolutions, dense layers, activations, dropout, pooling and shortcuts that the arguments describe, with the sizes, kernels, dilations and strides given once or layer by layer, and with parameters of its own in each layer; in a residual block each convolution works on the output of the one before it. '
  'The context that a builder returns is the number of frames at each side that an output depends on. Initializers, regularizers and constraints reach every layer with parameters, each in its place. The named networks (VGG16, ResNet50, ...) have the layers of the papers they cite, with the input shape and sizes of the caller.',
  ['inputs', 'configurations'], 'all combinations of options of networks of 1-3 layers or blocks, all frames perturbed for the context',
  'No test touches the builders: Keras is needed; a wrong wiring still builds and trains, and only other combinations of options or a look at what each frame depends on show it.',
  ['hyperion/keras/archs/tdnn.py', 'hyperion/keras/archs/resnet.py', 'hyperion/keras/archs/vgg.py', 'hyperion/keras/archs/convnet.py', 'hyperion/keras/archs/ffnet.py'],
  [('TDNNV1', 'hyperion/keras/archs/tdnn.py'), ('ResTDNNV1', 'hyperion/keras/archs/tdnn.py'), ('ResNetV1', 'hyperion/keras/archs/resnet.py'), ('TDVGGNetV1', 'hyperion/keras/archs/vgg.py')], ['neural networks'])

p('N01', 'PyTorch feed-forward networks compute the architecture of their configuration',
  'A network built from a configuration computes, in training and in evaluation, the composition of normalization, affine maps, activations and dropout that the configuration names, with the given sizes, with parameters of its own in each layer; every combination of the options gives a network that works. '
  'A network and every activation of the factory rebuilt from its configuration, after a round trip through JSON, with the parameters loaded, computes the same; a saved model holds its configuration and its parameters, wherever the file is.',
  ['inputs', 'configurations'], 'all activations with several sets of parameters; all combinations of the options of networks of up to 3 hidden layers',
  'No test touches these classes: torch is needed; the errors are in combinations of options and in the restored copy of a network.',
  ['hyperion/torch/archs/fcnet.py', 'hyperion/torch/archs/ffnet.py', 'hyperion/torch/archs/net_arch.py', 'hyperion/torch/torch_model.py', 'hyperion/torch/helpers/activation_factory.py', 'hyperion/torch/layers/dropout.py', 'hyperion/torch/transforms/reshape.py'],
  [('FCNetV1.forward / get_config', 'hyperion/torch/archs/fcnet.py'), ('ActivationFactory', 'hyperion/torch/helpers/activation_factory.py')], ['forward', 'get_config', 'save'])

p('R01', 'Learning-rate schedules give every step the rate their parameters define',
  'For every schedule (exponential, cosine with and without restarts, cosine for Adam, reduction on plateau), with or without warm-up, by batch or by epoch, with a minimum rate for all or each parameter group, the rate of every batch of a run is the one its parameters and the metrics so far define: it starts at the initial rate, the first cosine period by batches lasts whole epochs, a plateau is counted with its patience, threshold, mode and cool-down. '
  'A schedule saved at any moment and loaded into a new one goes on identically, and the factories give the optimizer, schedule or callback that the options on the command line describe. Callbacks for keras keep the best model by the given mode, every given number of epochs, and raise or lower the rate after the stated number of epochs.',
  ['inputs', 'configurations', 'histories'], 'all runs of up to 4 epochs with 1-3 batches, all metric sequences up to length 5, all save and restore points, a grid of parameters',
  'No test touches the schedules; a wrong counter shows itself after a particular sequence of metrics or epochs.',
  ['hyperion/torch/lr_schedulers/lr_scheduler.py', 'hyperion/torch/lr_schedulers/cos_lr.py', 'hyperion/torch/lr_schedulers/exp_lr.py', 'hyperion/torch/lr_schedulers/red_lr_on_plateau.py', 'hyperion/torch/lr_schedulers/factory.py', 'hyperion/torch/helpers/optimizer_factory.py', 'hyperion/keras/callbacks/lr_schedulers.py', 'hyperion/keras/callbacks/checkpointers.py', 'hyperion/keras/helpers/callbacks_factory.py', 'hyperion/keras/helpers/optimizer_factory.py'],
  [('LRScheduler.batch_step, epoch_begin_step, state_dict', 'hyperion/torch/lr_schedulers/lr_scheduler.py'), ('ReduceLROnPlateau.epoch_end_step', 'hyperion/torch/lr_schedulers/red_lr_on_plateau.py')], ['training API', 'command-line options'])

p('R02', 'A training run killed and resumed ends as if it had never been interrupted',
  'A training run that is killed at any moment and resumed from its last checkpoint (any number of times), or made longer in several sessions, writes the same checkpoints as a run that was never interrupted: parameters and buffers of the model, state of loss, optimizer and schedule, and logged metrics of every epoch. '
  'A checkpoint that exists under its final name is complete; resuming repeats at most the epoch that was interrupted; the training log keeps one header and a row for every epoch. Logged metrics are averages over samples, validation changes neither model nor loss, and accuracies are the fraction of correct decisions.',
  ['histories', 'crash_points', 'inputs'], 'all kill points and pairs of kill points of runs of 3 epochs, all divisions of 5 epochs into sessions, all short metric sequences',
  'No test runs the trainer; a lost piece of state shows itself only after an interruption at a particular point.',
  ['hyperion/torch/torch_trainer.py', 'hyperion/torch/loggers/csv_logger.py', 'hyperion/torch/loggers/prog_logger.py', 'hyperion/torch/loggers/loggers.py', 'hyperion/torch/utils/metric_acc.py', 'hyperion/torch/metrics/accuracy_functional.py', 'hyperion/torch/metrics/accuracy.py', 'hyperion/torch/lr_schedulers/lr_scheduler.py'],
  [('TorchTrainer.fit, save_checkpoint, load_last_checkpoint', 'hyperion/torch/torch_trainer.py'), ('MetricAcc.update', 'hyperion/torch/utils/metric_acc.py')], ['training API'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            for fn in x['anchors']['files']:
                if not os.path.exists('/repo/' + fn):
                    print('missing', x['id'], fn)
            f.write(json.dumps(x) + '\n')
