"""
C01  Options given on the command line reach the component they are meant for.

For each component with an add_argparse_*/filter_* pair, every option row, every pair of rows
(thorough: triple) and every presence pattern of keys is run through the real code under each prefix
and compared with a hand-checked table (flag, arguments) -> (parameter, value), and the filtered
parameters are given to the component itself.
"""
import argparse
import importlib
import inspect
import itertools

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of command lines (all sets of up to 2, thorough 3, options; all '
             'prefixes; several instances in one parser) run on the real parsers and compared with a table')
BOUND = {'quick': 'all command lines of at most 2 options of one component, 3 prefixes, 2 and 3 '
                  'instances per parser, all single-key dictionaries',
         'thorough': 'all command lines of at most 3 options of one component, 3 prefixes, 2 and 3 '
                     'instances per parser, all two-key dictionaries'}

PREFIXES = (None, 'pp', 'x1')

# module, class, add, filter, rows (flag, args, [(param, value)]), defaults
SPEC = [
    ('helpers.sequence_reader', 'SequenceReader', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('seq-field', ['zz'], [('seq_field', 'zz')]),
        ('no-shuffle-seqs', [], [('shuffle_seqs', False)]),
        ('subsample', ['0.37'], [('subsample', 0.37)]),
        ('min-seq-length', ['7'], [('min_seq_length', 7)]),
        ('max-seq-length', ['7'], [('max_seq_length', 7)]),
        ('seq-split-mode', ['sequential'], [('seq_split_mode', 'sequential')]),
        ('seq-split-mode', ['random_slice'], [('seq_split_mode', 'random_slice')]),
        ('seq-split-mode', ['random_samples'], [('seq_split_mode', 'random_samples')]),
        ('seq-split-mode', ['random_slice_1seq'], [('seq_split_mode', 'random_slice_1seq')]),
        ('seq-split-mode', ['random_samples_1seq'], [('seq_split_mode', 'random_samples_1seq')]),
        ('seq-split-overlap', ['0.37'], [('seq_split_overlap', 0.37)]),
        ('seqr-seed', ['7'], [('seqr_seed', 7)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': '=', 'seq_field': '', 'shuffle_seqs': True, 'subsample': 100, 'min_seq_length': 1, 'max_seq_length': None, 'seq_split_mode': 'random_slice', 'seq_split_overlap': 0, 'seqr_seed': 1024, 'part_idx': 1, 'num_parts': 1}),
    ('helpers.sequence_reader', 'SequenceReader', 'add_argparse_args', 'filter_val_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('seq-field', ['zz'], [('seq_field', 'zz')]),
        ('no-shuffle-seqs', [], []),
        ('subsample', ['0.37'], [('subsample', 0.37)]),
        ('min-seq-length', ['7'], [('min_seq_length', 7)]),
        ('max-seq-length', ['7'], [('max_seq_length', 7)]),
        ('seq-split-mode', ['sequential'], []),
        ('seq-split-mode', ['random_slice'], []),
        ('seq-split-mode', ['random_samples'], []),
        ('seq-split-mode', ['random_slice_1seq'], []),
        ('seq-split-mode', ['random_samples_1seq'], []),
        ('seq-split-overlap', ['0.37'], []),
        ('seqr-seed', ['7'], [('seqr_seed', 7)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': '=', 'seq_field': '', 'subsample': 100, 'min_seq_length': 1, 'max_seq_length': None, 'seqr_seed': 1024, 'part_idx': 1, 'num_parts': 1}),
    ('helpers.sequence_reader', 'SequenceReader', 'add_argparse_eval_args', 'filter_eval_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('seq-field', ['zz'], [('seq_field', 'zz')]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': '=', 'seq_field': '', 'part_idx': 1, 'num_parts': 1}),
    ('helpers.sequence_post_reader', 'SequencePostReader', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('seq-field', ['zz'], [('seq_field', 'zz')]),
        ('no-shuffle-seqs', [], [('shuffle_seqs', False)]),
        ('subsample', ['0.37'], [('subsample', 0.37)]),
        ('min-seq-length', ['7'], [('min_seq_length', 7)]),
        ('max-seq-length', ['7'], [('max_seq_length', 7)]),
        ('seq-split-mode', ['sequential'], [('seq_split_mode', 'sequential')]),
        ('seq-split-mode', ['random_slice'], [('seq_split_mode', 'random_slice')]),
        ('seq-split-mode', ['random_samples'], [('seq_split_mode', 'random_samples')]),
        ('seq-split-mode', ['random_slice_1seq'], [('seq_split_mode', 'random_slice_1seq')]),
        ('seq-split-mode', ['random_samples_1seq'], [('seq_split_mode', 'random_samples_1seq')]),
        ('seq-split-overlap', ['0.37'], [('seq_split_overlap', 0.37)]),
        ('seqr-seed', ['7'], [('seqr_seed', 7)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
        ('num-comp', ['7'], [('num_comp', 7)]),
    ], {'scp_sep': '=', 'seq_field': '', 'shuffle_seqs': True, 'subsample': 100, 'min_seq_length': 1, 'max_seq_length': None, 'seq_split_mode': 'random_slice', 'seq_split_overlap': 0, 'seqr_seed': 1024, 'part_idx': 1, 'num_parts': 1, 'num_comp': 2048}),
    ('helpers.sequence_post_reader', 'SequencePostReader', 'add_argparse_eval_args', 'filter_eval_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('seq-field', ['zz'], [('seq_field', 'zz')]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
        ('num-comp', ['7'], [('num_comp', 7)]),
    ], {'scp_sep': '=', 'seq_field': '', 'part_idx': 1, 'num_parts': 1, 'num_comp': 2048}),
    ('helpers.classif_trial_data_reader', 'ClassifTrialDataReader', 'add_argparse_args', 'filter_args', [
        ('v-field', ['zz'], [('v_field', 'zz')]),
        ('seg-part-idx', ['7'], [('seg_idx', 7)]),
        ('num-seg-parts', ['7'], [('num_seg_parts', 7)]),
    ], {'v_field': '', 'seg_idx': 1, 'num_seg_parts': 1}),
    ('helpers.multi_test_trial_data_reader', 'MultiTestTrialDataReader', 'add_argparse_args', 'filter_args', [
        ('tlist-sep', ['zz'], [('tlist_sep', 'zz')]),
        ('model-part-idx', ['7'], [('model_idx', 7)]),
        ('num-model-parts', ['7'], [('num_model_parts', 7)]),
        ('seg-part-idx', ['7'], [('seg_idx', 7)]),
        ('num-seg-parts', ['7'], [('num_seg_parts', 7)]),
        ('eval-set', ['enroll-test'], [('eval_set', 'enroll-test')]),
        ('eval-set', ['enroll-coh'], [('eval_set', 'enroll-coh')]),
        ('eval-set', ['coh-test'], [('eval_set', 'coh-test')]),
        ('eval-set', ['coh-coh'], [('eval_set', 'coh-coh')]),
    ], {'tlist_sep': ' ', 'model_idx': 1, 'num_model_parts': 1, 'seg_idx': 1, 'num_seg_parts': 1, 'eval_set': 'enroll-test'}),
    ('helpers.trial_data_reader', 'TrialDataReader', 'add_argparse_args', 'filter_args', [
        ('tlist-sep', ['zz'], [('tlist_sep', 'zz')]),
        ('model-part-idx', ['7'], [('model_idx', 7)]),
        ('num-model-parts', ['7'], [('num_model_parts', 7)]),
        ('seg-part-idx', ['7'], [('seg_idx', 7)]),
        ('num-seg-parts', ['7'], [('num_seg_parts', 7)]),
        ('eval-set', ['enroll-test'], [('eval_set', 'enroll-test')]),
        ('eval-set', ['enroll-coh'], [('eval_set', 'enroll-coh')]),
        ('eval-set', ['coh-test'], [('eval_set', 'coh-test')]),
        ('eval-set', ['coh-coh'], [('eval_set', 'coh-coh')]),
    ], {'tlist_sep': ' ', 'model_idx': 1, 'num_model_parts': 1, 'seg_idx': 1, 'num_seg_parts': 1, 'eval_set': 'enroll-test'}),
    ('helpers.tracking_data_reader', 'TrackingDataReader', 'add_argparse_args', 'filter_args', [
        ('tlist-sep', ['zz'], [('tlist_sep', 'zz')]),
        ('model-part-idx', ['7'], [('model_idx', 7)]),
        ('num-model-parts', ['7'], [('num_model_parts', 7)]),
        ('seg-part-idx', ['7'], [('seg_idx', 7)]),
        ('num-seg-parts', ['7'], [('num_seg_parts', 7)]),
    ], {'tlist_sep': ' ', 'model_idx': 1, 'num_model_parts': 1, 'seg_idx': 1, 'num_seg_parts': 1}),
    ('helpers.vector_class_reader', 'VectorClassReader', 'add_argparse_args', 'filter_args', [
        ('vlist-sep', ['zz'], [('vlist_sep', 'zz')]),
        ('class2int-file', ['zz'], [('class2int_file', 'zz')]),
        ('min-spc', ['7'], [('min_spc', 7)]),
        ('max-spc', ['7'], [('max_spc', 7)]),
        ('spc-pruning-mode', ['random'], [('spc_pruning_mode', 'random')]),
        ('spc-pruning-mode', ['first'], [('spc_pruning_mode', 'first')]),
        ('spc-pruning-mode', ['last'], [('spc_pruning_mode', 'last')]),
        ('csplit-min-spc', ['7'], [('csplit_min_spc', 7)]),
        ('csplit-max-spc', ['7'], [('csplit_max_spc', 7)]),
        ('csplit-mode', ['sequential'], [('csplit_mode', 'sequential')]),
        ('csplit-mode', ['random'], [('csplit_mode', 'random')]),
        ('csplit-mode', ['random_1subclass'], [('csplit_mode', 'random_1subclass')]),
        ('csplit-overlap', ['7'], [('csplit_overlap', 7)]),
        ('no-csplit-once', [], [('csplit_once', False)]),
        ('vcr-seed', ['7'], [('vcr_seed', 7)]),
    ], {'vlist_sep': ' ', 'class2int_file': None, 'min_spc': 1, 'max_spc': None, 'spc_pruning_mode': 'random', 'csplit_min_spc': 1, 'csplit_max_spc': None, 'csplit_mode': 'random', 'csplit_overlap': 0, 'csplit_once': True, 'vcr_seed': 1024}),
    ('helpers.vector_reader', 'VectorReader', 'add_argparse_args', 'filter_args', [
        ('vlist-sep', ['zz'], [('vlist_sep', 'zz')]),
    ], {'vlist_sep': ' '}),
    ('helpers.plda_factory', 'PLDAFactory', 'add_argparse_train_args', 'filter_train_args', [
        ('plda-type', ['frplda'], [('plda_type', 'frplda')]),
        ('plda-type', ['splda'], [('plda_type', 'splda')]),
        ('plda-type', ['plda'], [('plda_type', 'plda')]),
        ('y-dim', ['7'], [('y_dim', 7)]),
        ('z-dim', ['7'], [('z_dim', 7)]),
        ('diag-W', [], [('fullcov_W', False)]),
        ('no-update-mu', [], [('update_mu', False)]),
        ('no-update-V', [], [('update_V', False)]),
        ('no-update-U', [], [('update_U', False)]),
        ('no-update-B', [], [('update_B', False)]),
        ('no-update-w', [], [('update_W', False)]),
        ('no-update-d', [], [('update_D', False)]),
        ('floor-id', ['0.37'], [('floor_iD', 0.37)]),
        ('epochs', ['7'], [('epochs', 7)]),
        ('ml-md', ['ml+md'], [('ml_md', 'ml+md')]),
        ('ml-md', ['ml'], [('ml_md', 'ml')]),
        ('ml-md', ['md'], [('ml_md', 'md')]),
        ('md-epochs', ['7'], [('md_epochs', [7])]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'plda_type': 'splda', 'y_dim': 150, 'z_dim': 400, 'floor_iD': 1e-05, 'epochs': 40, 'ml_md': 'ml+md', 'md_epochs': None, 'name': 'plda', 'fullcov_W': True, 'update_mu': True, 'update_V': True, 'update_U': True, 'update_B': True, 'update_W': True, 'update_D': True}),
    ('helpers.plda_factory', 'PLDAFactory', 'add_argparse_eval_args', 'filter_eval_args', [
        ('plda-type', ['frplda'], [('plda_type', 'frplda')]),
        ('plda-type', ['splda'], [('plda_type', 'splda')]),
        ('plda-type', ['plda'], [('plda_type', 'plda')]),
        ('model-file', ['zz'], [('model_file', 'zz')]),
    ], {'plda_type': 'splda', 'model_file': 'RR'}),
    ('classifiers.linear_gbe', 'LinearGBE', 'add_argparse_train_args', 'filter_train_args', [
        ('no-update-mu', [], [('update_mu', False)]),
        ('no-update-W', [], [('update_W', False)]),
        ('balance-class-weight', [], [('balance_class_weight', True)]),
        ('prior', ['zz'], [('prior', 'zz')]),
        ('prior-beta', ['0.37'], [('prior_beta', 0.37)]),
        ('prior-nu', ['0.37'], [('prior_nu', 0.37)]),
        ('post-beta', ['0.37'], [('post_beta', 0.37)]),
        ('post-nu', ['0.37'], [('post_nu', 0.37)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'balance_class_weight': False, 'prior': None, 'prior_beta': 16, 'prior_nu': 16, 'post_beta': None, 'post_nu': None, 'name': 'lgbe', 'update_mu': True, 'update_W': True}),
    ('classifiers.linear_gbe', 'LinearGBE', 'add_argparse_eval_args', 'filter_eval_args', [
        ('model-file', ['zz'], [('model_file', 'zz')]),
        ('normalize', [], [('normalize', True)]),
        ('eval-method', ['linear'], [('eval_method', 'linear')]),
        ('eval-method', ['llk'], [('eval_method', 'llk')]),
        ('eval-method', ['predictive'], [('eval_method', 'predictive')]),
    ], {'model_file': 'RR', 'normalize': False, 'eval_method': 'linear'}),
    ('classifiers.binary_logistic_regression', 'BinaryLogisticRegression', 'add_argparse_train_args', 'filter_train_args', [
        ('penalty', ['l2'], [('penalty', 'l2')]),
        ('penalty', ['l1'], [('penalty', 'l1')]),
        ('lambda-reg', ['0.37'], [('lambda_reg', 0.37)]),
        ('no-use-bias', [], [('use_bias', False)]),
        ('bias-scaling', ['0.37'], [('bias_scaling', 0.37)]),
        ('lr-seed', ['7'], [('lr_seed', 7)]),
        ('solver', ['newton-cg'], [('solver', 'newton-cg')]),
        ('solver', ['lbfgs'], [('solver', 'lbfgs')]),
        ('solver', ['liblinear'], [('solver', 'liblinear')]),
        ('solver', ['sag'], [('solver', 'sag')]),
        ('solver', ['saga'], [('solver', 'saga')]),
        ('max-iter', ['7'], [('max_iter', 7)]),
        ('dual', [], [('dual', True)]),
        ('tol', ['0.37'], [('tol', 0.37)]),
        ('verbose', ['7'], [('verbose', 7)]),
        ('no-warm-start', [], [('warm_start', False)]),
        ('prior', ['0.37'], [('prior', 0.37)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'penalty': 'l2', 'lambda_reg': 1e-05, 'bias_scaling': 1.0, 'prior': 0.1, 'lr_seed': 1024, 'solver': 'lbfgs', 'max_iter': 100, 'dual': False, 'tol': 0.0001, 'verbose': 0, 'name': 'lr', 'use_bias': True, 'warm_start': True}),
    ('classifiers.logistic_regression', 'LogisticRegression', 'add_argparse_train_args', 'filter_train_args', [
        ('penalty', ['l2'], [('penalty', 'l2')]),
        ('penalty', ['l1'], [('penalty', 'l1')]),
        ('lambda-reg', ['0.37'], [('lambda_reg', 0.37)]),
        ('no-use-bias', [], [('use_bias', False)]),
        ('bias-scaling', ['0.37'], [('bias_scaling', 0.37)]),
        ('lr-seed', ['7'], [('lr_seed', 7)]),
        ('solver', ['newton-cg'], [('solver', 'newton-cg')]),
        ('solver', ['lbfgs'], [('solver', 'lbfgs')]),
        ('solver', ['liblinear'], [('solver', 'liblinear')]),
        ('solver', ['sag'], [('solver', 'sag')]),
        ('solver', ['saga'], [('solver', 'saga')]),
        ('max-iter', ['7'], [('max_iter', 7)]),
        ('dual', [], [('dual', True)]),
        ('tol', ['0.37'], [('tol', 0.37)]),
        ('multi-class', ['ovr'], [('multi_class', 'ovr')]),
        ('multi-class', ['multinomial'], [('multi_class', 'multinomial')]),
        ('verbose', ['7'], [('verbose', 7)]),
        ('num-jobs', ['7'], [('num_jobs', 7)]),
        ('no-warm-start', [], [('warm_start', False)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'penalty': 'l2', 'lambda_reg': 1e-05, 'bias_scaling': 1.0, 'lr_seed': 1024, 'solver': 'lbfgs', 'max_iter': 100, 'dual': False, 'tol': 0.0001, 'multi_class': 'ovr', 'verbose': 0, 'num_jobs': 1, 'name': 'lr', 'use_bias': True, 'warm_start': True}),
    ('classifiers.logistic_regression', 'LogisticRegression', 'add_argparse_eval_args', 'filter_eval_args', [
        ('model-file', ['zz'], [('model_file', 'zz')]),
        ('eval-type', ['logit'], [('eval_type', 'logit')]),
        ('eval-type', ['log-post'], [('eval_type', 'log-post')]),
        ('eval-type', ['post'], [('eval_type', 'post')]),
    ], {'model_file': 'RR', 'eval_type': 'logit'}),
    ('classifiers.linear_svmc', 'LinearSVMC', 'add_argparse_train_args', 'filter_train_args', [
        ('penalty', ['l2'], [('penalty', 'l2')]),
        ('penalty', ['l1'], [('penalty', 'l1')]),
        ('c', ['0.37'], [('C', 0.37)]),
        ('loss', ['hinge'], [('loss', 'hinge')]),
        ('loss', ['squared_hinge'], [('loss', 'squared_hinge')]),
        ('no-use-bias', [], [('use_bias', False)]),
        ('bias-scaling', ['0.37'], [('bias_scaling', 0.37)]),
        ('lr-seed', ['7'], [('lr_seed', 7)]),
        ('max-iter', ['7'], [('max_iter', 7)]),
        ('no-dual', [], [('dual', False)]),
        ('tol', ['0.37'], [('tol', 0.37)]),
        ('multi-class', ['ovr'], [('multi_class', 'ovr')]),
        ('multi-class', ['crammer_singer'], [('multi_class', 'crammer_singer')]),
        ('verbose', ['7'], [('verbose', 7)]),
        ('balance-class-weight', [], [('balance_class_weight', True)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'penalty': 'l2', 'C': 1.0, 'loss': 'squared_hinge', 'use_bias': True, 'bias_scaling': 1.0, 'lr_seed': 1024, 'max_iter': 100, 'dual': True, 'tol': 0.0001, 'multi_class': 'ovr', 'verbose': 0, 'balance_class_weight': False, 'name': 'svc'}),
    ('classifiers.linear_svmc', 'LinearSVMC', 'add_argparse_eval_args', 'filter_eval_args', [
        ('model-file', ['zz'], [('model_file', 'zz')]),
        ('eval-type', ['logit'], [('eval_type', 'logit')]),
        ('eval-type', ['bin-logpost'], [('eval_type', 'bin-logpost')]),
        ('eval-type', ['bin-post'], [('eval_type', 'bin-post')]),
        ('eval-type', ['cat-logpost'], [('eval_type', 'cat-logpost')]),
        ('eval-type', ['cat-post'], [('eval_type', 'cat-post')]),
    ], {'model_file': 'RR', 'eval_type': 'logit'}),
    ('classifiers.q_scoring_homo_gbe', 'QScoringHomoGBE', 'add_argparse_train_args', 'filter_train_args', [
        ('balance-class-weight', [], [('balance_class_weight', True)]),
        ('prior', ['zz'], [('prior', 'zz')]),
        ('prior-n', ['0.37'], [('prior_N', 0.37)]),
        ('post-n', ['0.37'], [('post_N', 0.37)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'balance_class_weight': False, 'prior': None, 'prior_N': None, 'post_N': None, 'name': 'q_scoring'}),
    ('classifiers.q_scoring_homo_gbe', 'QScoringHomoGBE', 'add_argparse_eval_args', 'filter_eval_args', [
        ('model-file', ['zz'], [('model_file', 'zz')]),
        ('normalize', [], [('normalize', True)]),
    ], {'model_file': 'RR', 'normalize': False}),
    ('feats.mfcc', 'MFCC', 'add_argparse_args', 'filter_args', [
        ('sample-frequency', ['8000'], [('fs', 8000)]),
        ('frame-length', ['7'], [('frame_length', 7)]),
        ('frame-shift', ['7'], [('frame_shift', 7)]),
        ('fft-length', ['1024'], [('fft_length', 1024)]),
        ('remove-dc-offset', ['false'], [('remove_dc_offset', False)]),
        ('remove-dc-offset', ['true'], [('remove_dc_offset', True)]),
        ('preemphasis-coeff', ['0.37'], [('preemph_coeff', 0.37)]),
        ('window-type', ['hamming'], [('window_type', 'hamming')]),
        ('window-type', ['hanning'], [('window_type', 'hanning')]),
        ('window-type', ['povey'], [('window_type', 'povey')]),
        ('window-type', ['rectangular'], [('window_type', 'rectangular')]),
        ('window-type', ['blackman'], [('window_type', 'blackman')]),
        ('use-fft2', ['false'], [('use_fft2', False)]),
        ('use-fft2', ['true'], [('use_fft2', True)]),
        ('dither', ['0.37'], [('dither', 0.37)]),
        ('fb-type', ['mel_kaldi'], [('fb_type', 'mel_kaldi')]),
        ('fb-type', ['mel_etsi'], [('fb_type', 'mel_etsi')]),
        ('fb-type', ['linear'], [('fb_type', 'linear')]),
        ('num-filters', ['7'], [('num_filters', 7)]),
        ('low-freq', ['100.5'], [('low_freq', 100.5)]),
        ('high-freq', ['3000.5'], [('high_freq', 3000.5)]),
        ('norm-filters', ['false'], [('norm_filters', False)]),
        ('norm-filters', ['true'], [('norm_filters', True)]),
        ('num-ceps', ['7'], [('num_ceps', 7)]),
        ('snip-edges', ['false'], [('snip_edges', False)]),
        ('snip-edges', ['true'], [('snip_edges', True)]),
        ('energy-floor', ['0.37'], [('energy_floor', 0.37)]),
        ('raw-energy', ['false'], [('raw_energy', False)]),
        ('raw-energy', ['true'], [('raw_energy', True)]),
        ('use-energy', ['false'], [('use_energy', False)]),
        ('use-energy', ['true'], [('use_energy', True)]),
        ('cepstral-lifter', ['0.37'], [('cepstral_lifter', 0.37)]),
        ('input-step', ['wave'], [('input_step', 'wave')]),
        ('input-step', ['fft'], [('input_step', 'fft')]),
        ('input-step', ['fft_mag'], [('input_step', 'fft_mag')]),
        ('input-step', ['log_spec'], [('input_step', 'log_spec')]),
        ('input-step', ['logfb'], [('input_step', 'logfb')]),
        ('output-step', ['fft'], [('output_step', 'fft')]),
        ('output-step', ['fft_mag'], [('output_step', 'fft_mag')]),
        ('output-step', ['log_spec'], [('output_step', 'log_spec')]),
        ('output-step', ['logfb'], [('output_step', 'logfb')]),
        ('output-step', ['cepstrum'], [('output_step', 'cepstrum')]),
    ], {'fs': 16000, 'frame_length': 25, 'frame_shift': 10, 'fft_length': 512, 'remove_dc_offset': True, 'preemph_coeff': 0.97, 'window_type': 'povey', 'use_fft2': True, 'dither': 1, 'fb_type': 'mel_kaldi', 'low_freq': 20, 'high_freq': 0, 'num_filters': 23, 'norm_filters': False, 'num_ceps': 13, 'snip_edges': True, 'energy_floor': 0, 'raw_energy': True, 'use_energy': True, 'cepstral_lifter': 22, 'input_step': 'wave', 'output_step': 'cepstrum'}),
    ('feats.frame_selector', 'FrameSelector', 'add_argparse_args', 'filter_args', [
        ('tol-num-frames', ['7'], [('tol_num_frames', 7)]),
    ], {'tol_num_frames': 3}),
    ('feats.energy_vad', 'EnergyVAD', 'add_argparse_args', 'filter_args', [
        ('sample-frequency', ['7'], [('fs', 7)]),
        ('frame-length', ['7'], [('frame_length', 7)]),
        ('frame-shift', ['7'], [('frame_shift', 7)]),
        ('dither', ['0.37'], [('dither', 0.37)]),
        ('snip-edges', ['false'], [('snip_edges', False)]),
        ('snip-edges', ['true'], [('snip_edges', True)]),
        ('vad-energy-mean-scale', ['0.37'], [('vad_energy_mean_scale', 0.37)]),
        ('vad-energy-threshold', ['0.37'], [('vad_energy_threshold', 0.37)]),
        ('vad-frames-context', ['7'], [('vad_frames_context', 7)]),
        ('vad-proportion-threshold', ['0.37'], [('vad_proportion_threshold', 0.37)]),
    ], {'fs': 16000, 'frame_length': 25, 'frame_shift': 10, 'dither': 1, 'snip_edges': True, 'vad_energy_mean_scale': 0.5, 'vad_energy_threshold': 5, 'vad_frames_context': 0, 'vad_proportion_threshold': 0.6}),
    ('feats.feature_normalization', 'MeanVarianceNorm', 'add_argparse_args', 'filter_args', [
        ('no-norm-mean', [], [('norm_mean', False)]),
        ('norm-var', [], [('norm_var', True)]),
        ('left-context', ['7'], [('left_context', 7)]),
        ('right-context', ['7'], [('right_context', 7)]),
    ], {'norm_var': False, 'left_context': 300, 'right_context': 300, 'norm_mean': True}),
    ('generators.sequence_batch_generator_v1', 'SequenceBatchGeneratorV1', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('path-prefix', ['zz'], [('path_prefix', 'zz')]),
        ('batch-size', ['7'], [('batch_size', 7)]),
        ('class-list', ['zz'], [('class_list', 'zz')]),
        ('iters-per-epoch', ['9'], [('iters_per_epoch', 9)]),
        ('gen-method', ['full_seqs'], [('gen_method', 'full_seqs')]),
        ('gen-method', ['sequential'], [('gen_method', 'sequential')]),
        ('gen-method', ['random'], [('gen_method', 'random')]),
        ('min-seq-length', ['7'], [('min_seq_length', 7)]),
        ('max-seq-length', ['7'], [('max_seq_length', 7)]),
        ('seq-overlap', ['7'], [('seq_overlap', 7)]),
        ('prune-min-length', ['7'], [('prune_min_length', 7)]),
        ('class-weight', ['balanced'], [('class_weight', 'balanced')]),
        ('class-weight', ['unbalanced'], [('class_weight', 'unbalanced')]),
        ('seq-weight', ['balanced'], [('seq_weight', 'balanced')]),
        ('seq-weight', ['unbalanced'], [('seq_weight', 'unbalanced')]),
        ('init-epoch', ['7'], [('init_epoch', 7)]),
        ('sg-seed', ['7'], [('sg_seed', 7)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': ' ', 'path_prefix': '', 'batch_size': 128, 'iters_per_epoch': 'auto', 'gen_method': 'random', 'class_list': None, 'min_seq_length': None, 'max_seq_length': None, 'seq_overlap': 0, 'prune_min_length': 0, 'class_weight': None, 'seq_weight': 'balanced', 'init_epoch': 0, 'sg_seed': 1024, 'part_idx': 1, 'num_parts': 1}),
    ('generators.sequence_batch_generator_v2', 'SequenceBatchGeneratorV2', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('path-prefix', ['zz'], [('path_prefix', 'zz')]),
        ('batch-size', ['7'], [('batch_size', 7)]),
        ('class-list', ['zz'], [('class_list', 'zz')]),
        ('iters-per-epoch', ['9'], [('iters_per_epoch', 9)]),
        ('num-egs-per-class', ['7'], [('num_egs_per_class', 7)]),
        ('num-egs-per-utt', ['7'], [('num_egs_per_utt', 7)]),
        ('min-seq-length', ['7'], [('min_seq_length', 7)]),
        ('max-seq-length', ['7'], [('max_seq_length', 7)]),
        ('prune-min-length', ['7'], [('prune_min_length', 7)]),
        ('class-weight', ['balanced'], [('class_weight', 'balanced')]),
        ('class-weight', ['unbalanced'], [('class_weight', 'unbalanced')]),
        ('init-epoch', ['7'], [('init_epoch', 7)]),
        ('sg-seed', ['7'], [('sg_seed', 7)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': ' ', 'path_prefix': '', 'batch_size': 128, 'iters_per_epoch': 'auto', 'num_egs_per_class': 1, 'num_egs_per_utt': 1, 'class_list': None, 'min_seq_length': None, 'max_seq_length': None, 'prune_min_length': 0, 'class_weight': None, 'init_epoch': 0, 'sg_seed': 1024, 'part_idx': 1, 'num_parts': 1}),
    ('transforms.gaussianizer', 'Gaussianizer', 'add_argparse_args', 'filter_args', [
        ('max-vectors', ['7'], [('max_vectors', 7)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'max_vectors': None, 'name': 'gauss'}),
    ('transforms.pca', 'PCA', 'add_argparse_args', 'filter_args', [
        ('update-mu', ['false'], [('update_mu', False)]),
        ('update-mu', ['true'], [('update_mu', True)]),
        ('update-t', ['false'], [('update_T', False)]),
        ('update-t', ['true'], [('update_T', True)]),
        ('pca-dim', ['7'], [('pca_dim', 7)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'update_mu': True, 'update_T': True, 'name': 'pca', 'pca_dim': None}),
    ('transforms.cent_whiten', 'CentWhiten', 'add_argparse_args', 'filter_args', [
        ('update-mu', ['false'], [('update_mu', False)]),
        ('update-mu', ['true'], [('update_mu', True)]),
        ('update-t', ['false'], [('update_T', False)]),
        ('update-t', ['true'], [('update_T', True)]),
        ('name', ['zz'], [('name', 'zz')]),
    ], {'update_mu': True, 'update_T': True, 'name': 'lnorm'}),
    ('io.copy_feats', 'CopyFeats', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('path-prefix', ['zz'], [('path_prefix', 'zz')]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
        ('compress', [], [('compress', True)]),
        ('compression-method', ['auto'], [('compression_method', 'auto')]),
        ('compression-method', ['speech-feat'], [('compression_method', 'speech-feat')]),
        ('compression-method', ['2byte-auto'], [('compression_method', '2byte-auto')]),
        ('compression-method', ['2byte-signed-integer'], [('compression_method', '2byte-signed-integer')]),
        ('compression-method', ['1byte-auto'], [('compression_method', '1byte-auto')]),
        ('compression-method', ['1byte-unsigned-integer'], [('compression_method', '1byte-unsigned-integer')]),
        ('compression-method', ['1byte-0-1'], [('compression_method', '1byte-0-1')]),
    ], {'scp_sep': ' ', 'path_prefix': None, 'part_idx': 1, 'num_parts': 1, 'compress': False, 'compression_method': 'auto'}),
    ('io.audio_reader', 'SequentialAudioReader', 'add_argparse_args', 'filter_args', [
        ('wav-scale', ['0.37'], [('wav_scale', 0.37)]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'wav_scale': 32768, 'part_idx': 1, 'num_parts': 1}),
    ('io.audio_reader', 'RandomAccessAudioReader', 'add_argparse_args', 'filter_args', [
        ('wav-scale', ['0.37'], [('wav_scale', 0.37)]),
    ], {'wav_scale': 32768}),
    ('io.data_rw_factory', 'DataWriterFactory', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('compress', [], [('compress', True)]),
        ('compression-method', ['auto'], [('compression_method', 'auto')]),
        ('compression-method', ['speech-feat'], [('compression_method', 'speech-feat')]),
        ('compression-method', ['2byte-auto'], [('compression_method', '2byte-auto')]),
        ('compression-method', ['2byte-signed-integer'], [('compression_method', '2byte-signed-integer')]),
        ('compression-method', ['1byte-auto'], [('compression_method', '1byte-auto')]),
        ('compression-method', ['1byte-unsigned-integer'], [('compression_method', '1byte-unsigned-integer')]),
        ('compression-method', ['1byte-0-1'], [('compression_method', '1byte-0-1')]),
    ], {'scp_sep': ' ', 'compress': False, 'compression_method': 'auto'}),
    ('io.data_rw_factory', 'SequentialDataReaderFactory', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('path-prefix', ['zz'], [('path_prefix', 'zz')]),
        ('part-idx', ['7'], [('part_idx', 7)]),
        ('num-parts', ['7'], [('num_parts', 7)]),
    ], {'scp_sep': ' ', 'path_prefix': None, 'part_idx': 1, 'num_parts': 1}),
    ('io.data_rw_factory', 'RandomAccessDataReaderFactory', 'add_argparse_args', 'filter_args', [
        ('scp-sep', ['zz'], [('scp_sep', 'zz')]),
        ('path-prefix', ['zz'], [('path_prefix', 'zz')]),
    ], {'scp_sep': ' ', 'path_prefix': None}),
]
REQ = {'model-file': 'RR'}

# how the component consumes the parameters; default: its constructor
TARGET = {
    ('PLDAFactory', 'filter_train_args'): ('plda',),
    ('PLDAFactory', 'filter_eval_args'): ('func', 'load_plda'),
    ('DataWriterFactory', 'filter_args'): ('func1', 'create'),
    ('SequentialDataReaderFactory', 'filter_args'): ('func1', 'create'),
    ('RandomAccessDataReaderFactory', 'filter_args'): ('func1', 'create'),
}
for _c in ('LinearGBE', 'LogisticRegression', 'LinearSVMC', 'QScoringHomoGBE'):
    TARGET[(_c, 'filter_eval_args')] = ('predict',)
BUILD = ('MFCC', 'FrameSelector', 'EnergyVAD', 'MeanVarianceNorm', 'Gaussianizer', 'PCA', 'CentWhiten',
         'LinearGBE', 'BinaryLogisticRegression', 'LogisticRegression', 'LinearSVMC', 'QScoringHomoGBE')


def load(i):
    mod, cn, add, filt, rows, defaults = SPEC[i]
    C = getattr(importlib.import_module('hyperion.' + mod), cn)
    return C, getattr(C, add), getattr(C, filt), rows, defaults


def fl(prefix, flag):
    return '--' + flag if prefix is None else '--%s-%s' % (prefix, flag)


def required(prefix, rows, chosen):
    flags = [r[0] for r in rows]
    return sum([[fl(prefix, k), v] for k, v in REQ.items() if k in flags and k not in chosen], [])


def argv_of(prefix, rows, sel):
    out = required(prefix, rows, [rows[j][0] for j in sel])
    for j in sel:
        out += [fl(prefix, rows[j][0])] + list(rows[j][1])
    return out


def expect(rows, defaults, sel):
    d = dict(defaults)
    for j in sel:
        for k, v in rows[j][2]:
            d[k] = v
    return d


def same(a, b):
    return type(a) is type(b) and a == b or (
        isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool)
        and not isinstance(b, bool) and a == b)


def parse(parser, argv):
    try:
        return vars(parser.parse_args(argv))
    except SystemExit as e:
        raise Exception('command line refused: %s' % ' '.join(argv)) from None


def compare(ck, what, got, want):
    for k in want:
        if k not in got:
            ck.fail('%s: parameter %s is lost' % (what, k))
        if not same(got[k], want[k]):
            ck.fail('%s: parameter %s is %r instead of %r' % (what, k, got[k], want[k]))
    for k in got:
        if k not in want and not (k.startswith('no_') and k[3:] in want):
            ck.fail('%s: unexpected parameter %s=%r' % (what, k, got[k]))


def consume(ck, i, C, what, got, want):
    """the filtered parameters are accepted by the component, which ends up with the values"""
    cn, filt = SPEC[i][1], SPEC[i][3]
    t = TARGET.get((cn, filt), ('init',))
    if t[0] == 'func':
        inspect.signature(getattr(C, t[1])).bind(**got)
    elif t[0] == 'func1':
        inspect.signature(getattr(C, t[1])).bind('x', **got)
    elif t[0] == 'predict':
        d = dict(got)
        del d['model_file']
        inspect.signature(C.predict).bind(None, None, **d)
    elif t[0] == 'plda':
        d = {k: v for k, v in got.items() if k not in ('epochs', 'ml_md', 'md_epochs')}
        m = C.create_plda(**d)
        names = {'frplda': 'FRPLDA', 'splda': 'SPLDA', 'plda': 'PLDA'}
        if type(m).__name__ != names[want['plda_type']]:
            ck.fail('%s: created %s' % (what, type(m).__name__))
        for k in ('y_dim', 'z_dim', 'fullcov_W', 'update_mu', 'update_V', 'update_U', 'update_B',
                  'update_W', 'update_D', 'floor_iD', 'name'):
            if k in ('fullcov_W',) or not hasattr(m, k):
                continue
            if k in ('y_dim', 'z_dim') and getattr(m, k) is None:
                continue
            if not same(getattr(m, k), want[k]):
                ck.fail('%s: the %s model has %s=%r instead of %r' % (what, want['plda_type'], k,
                                                                      getattr(m, k), want[k]))
        inspect.signature(m.fit).bind(None, None, epochs=got['epochs'], ml_md=got['ml_md'],
                                      md_epochs=got['md_epochs'])
    elif cn in BUILD:
        d = dict(got)
        if d.get('prior') == 'zz':
            d['prior'] = None
        steps = ['wave', 'fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']
        if cn == 'MFCC' and (steps.index(d['input_step']) > steps.index(d['output_step']) or
                             d['fft_length'] < d['fs'] * d['frame_length'] // 1000):
            inspect.signature(C.__init__).bind(None, **d)
            return
        m = C(**d)
        for k in want:
            if k == 'prior' and want[k] == 'zz':
                continue
            if hasattr(m, k) and (cn, k) not in DERIVED and not same(getattr(m, k), want[k]):
                ck.fail('%s: %s has %s=%r instead of %r' % (what, cn, k, getattr(m, k), want[k]))
            ck.step()
    else:
        # the readers and generators open their files when they are built: match the signature along
        # the constructors that receive the rest
        d = dict(got)
        n = len(inspect.signature(C.__init__).parameters)
        accepted = set()
        for B in C.__mro__:
            if '__init__' in B.__dict__:
                ps = inspect.signature(B.__init__).parameters
                accepted |= set(ps)
                if not any(p.kind == p.VAR_KEYWORD for p in ps.values()):
                    break
        bad = [k for k in d if k not in accepted]
        if bad:
            ck.fail('%s: %s does not accept %s' % (what, cn, bad))
    ck.step()


# attributes that hold something derived from the parameter of the same name
DERIVED = set()


def cases(tier):
    for i in range(len(SPEC)):
        yield ['keys', i]
    for i in range(len(SPEC)):
        for p in range(len(PREFIXES)):
            yield ['sets', i, p, 0, 1]
    for i in range(len(SPEC)):
        yield ['multi', i]
    for i in range(len(SPEC)):
        for p in range(len(PREFIXES)):
            yield ['sets', i, p, 2, 2]
    if tier == 'thorough':
        for i in range(len(SPEC)):
            yield ['keys2', i]
            n = len(SPEC[i][4])
            for p in range(len(PREFIXES)):
                for first in range(n):
                    yield ['first', i, p, first]


def run_sel(ck, i, C, add, filt, rows, defaults, prefix, parser, sel):
    argv = argv_of(prefix, rows, sel)
    ns = parse(parser, argv)
    got = filt(prefix=prefix, **ns)
    what = '%s.%s %r' % (SPEC[i][1], SPEC[i][3], argv)
    want = expect(rows, defaults, sel)
    compare(ck, what, got, want)
    consume(ck, i, C, what, got, want)
    ck.state([i, prefix, sorted(got.items(), key=lambda t: t[0])])
    ck.step()


def ok(rows, sel):
    f = [rows[j][0] for j in sel]
    return len(set(f)) == len(f)


def run_case(ck, case):
    kind, i = case[0], case[1]
    C, add, filt, rows, defaults = load(i)
    R = range(len(rows))
    if kind == 'sets':
        prefix = PREFIXES[case[2]]
        parser = argparse.ArgumentParser()
        add(parser, prefix=prefix)
        for r in range(case[3], case[4] + 1):
            for sel in itertools.combinations(R, r):
                if ok(rows, sel):
                    run_sel(ck, i, C, add, filt, rows, defaults, prefix, parser, sel)
    elif kind == 'first':
        prefix = PREFIXES[case[2]]
        parser = argparse.ArgumentParser()
        add(parser, prefix=prefix)
        for rest in itertools.combinations(range(case[3] + 1, len(rows)), 2):
            sel = (case[3],) + rest
            if ok(rows, sel):
                run_sel(ck, i, C, add, filt, rows, defaults, prefix, parser, sel)
    elif kind == 'multi':
        # several instances in one parser: an option of one leaves the others alone
        for prefs in ((None, 'pp'), ('pp', 'x1'), (None, 'pp', 'x1')):
            parser = argparse.ArgumentParser()
            for p in prefs:
                add(parser, prefix=p)
            for a in R:
                for k in range(len(prefs)):
                    for b in [None, a, (a + 1) % len(rows)]:
                        sels = [()] * len(prefs)
                        sels[k] = (a,)
                        if b is not None:
                            sels[(k + 1) % len(prefs)] = (b,)
                        argv = sum([argv_of(p, rows, s) for p, s in zip(prefs, sels)], [])
                        ns = parse(parser, argv)
                        for p, s in zip(prefs, sels):
                            got = filt(prefix=p, foo=1, pp_foo=2, x1_foo=3, **ns)
                            compare(ck, '%s.%s %r for prefix %r' % (SPEC[i][1], SPEC[i][3], argv, p), got,
                                    expect(rows, defaults, s))
                            ck.step()
    elif kind in ('keys', 'keys2'):
        # only the options present in the dictionary are passed on
        keys = list(defaults)
        for prefix in PREFIXES:
            p = '' if prefix is None else prefix + '_'
            for r in ((0, 1) if kind == 'keys' else (2,)):
                for ks in itertools.combinations(keys, r):
                    d = {p + k: ('val', k) for k in ks}
                    d['other'] = 5
                    d['qq_' + keys[0]] = 6
                    if prefix is not None:
                        d[keys[-1]] = 7
                    try:
                        got = filt(prefix=prefix, **d)
                    except Exception as e:
                        ck.fail('%s.%s(prefix=%r) of %s: %r' % (SPEC[i][1], SPEC[i][3], prefix, d, e))
                    want = {k: ('val', k) for k in ks if k not in NOPOS.get((SPEC[i][1], SPEC[i][3]), ())}
                    got = {k: v for k, v in got.items()
                           if k not in NOPOS.get((SPEC[i][1], SPEC[i][3]), ())}
                    if got != want:
                        ck.fail('%s.%s(prefix=%r) of %s: %r' % (SPEC[i][1], SPEC[i][3], prefix, d, got))
                    ck.step()
    ck.trace()


# parameters whose only form in the dictionary is the negated one
NOPOS = {('PLDAFactory', 'filter_train_args'): ('fullcov_W', 'update_mu', 'update_V', 'update_U', 'update_B',
                                                'update_W', 'update_D')}
