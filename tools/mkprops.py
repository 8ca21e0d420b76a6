#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as one readable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
DATA = ['kamrecsys/data/base.py', 'kamrecsys/data/event.py']
SC = 'kamrecsys/data/event_with_score.py'
MFS = 'kamrecsys/score_predictor/matrix_factorization.py'
MFI = 'kamrecsys/item_finder/matrix_factorization.py'
PL = 'kamrecsys/score_predictor/topic_model.py'
ABSENT = 'the tests that touch this need sample data files that are not in the repository, and they only compare one small data set with constants'

p('C01', 'External and internal object ids form exact one-to-one tables',
  'After events are stored in a data container, each object type has internal ids 0..n-1, where n is the reported number of objects of that type, listed in strictly increasing order of external id, and the known external ids are exactly those occurring in the event columns of that type. Converting an external id to an internal id and back (and the reverse, for scalars) returns the original. An external id that does not occur, and an internal id that is negative or not smaller than n, is rejected with ValueError in the respective conversion.',
  ['inputs', 'configurations'], 'every event array (any number of events, columns, object types, any assignment of types to columns) and every id, known or not',
  'an unbounded family of event arrays and type assignments (shared types between columns, unused types); ' + ABSENT,
  DATA, [('set_event / _gen_id build the tables', 'kamrecsys/data/event.py:EventData.set_event, kamrecsys/data/base.py:ObjectUtilMixin._gen_id'),
         ('to_eid / to_iid look ids up', 'kamrecsys/data/base.py:ObjectUtilMixin')],
  [('eid', 'per type, external id of each internal id', 'BaseData'), ('iid', 'per type, dictionary from external to internal id', 'BaseData'), ('n_objects', 'number of objects per type', 'BaseData')])
p('C02', 'Stored events are a lossless encoding of the input events',
  'After events are stored, the container holds one row of internal ids per input event, in order, with every id in range for its object type, and converting the stored events back to external ids gives exactly the input; converting any events made of known ids to internal ids and back, one event or a whole array, is also the identity. Event features and scores given with the events are stored as row-aligned copies, so later changes to the caller\'s arrays do not show, and a conversion input of the wrong shape is rejected with TypeError.',
  ['inputs', 'configurations'], 'every event array, every assignment of object types to columns, with and without event features and scores',
  'quantifies over all event arrays and type assignments; ' + ABSENT,
  DATA + [SC], [('set_event encodes', 'kamrecsys/data/event.py:EventData.set_event'), ('to_eid_event / to_iid_event convert', 'kamrecsys/data/event.py:EventUtilMixin')],
  [('event', 'internal-id event array', 'EventData'), ('score', 'scores of events', 'EventWithScoreData')])
p('C03', 'Unknown external ids become the reserved id, never a known object',
  'When events are converted from external to internal ids, every id that is unknown for the object type of its column is replaced by the reserved value of that column (the number of objects of that type, or the caller\'s replacement value for that column), so by default it never coincides with the internal id of a known object, and every known id in the same event or array is still converted to its own internal id.',
  ['inputs', 'configurations'], 'every fitted or filled object, every mixture of known and unknown ids, one event or an array, default and explicit replacement values',
  'the mixture of known and unknown ids per column and type is unbounded; ' + ABSENT,
  DATA, [('to_iid_event default values', 'kamrecsys/data/event.py:EventUtilMixin.to_iid_event')])
p('C04', 'Filtering events equals rebuilding the data set from the kept events',
  'Filtering a data set with a boolean condition or an index array yields a data set whose events, event count, object counts and id tables in both directions are exactly those obtained by storing the kept events (in the selected order) in a new container of the same kind; filtering a container that holds no events returns None.',
  ['inputs', 'histories'], 'every data set (also one obtained by earlier filtering) and every condition, including those that remove all events of some objects',
  'a relation between two unbounded inputs (data set and condition) and over chains of filters; ' + ABSENT,
  ['kamrecsys/data/event.py', SC, 'kamrecsys/data/base.py'], [('filter_event re-indexes objects', 'kamrecsys/data/event.py:EventData.filter_event'), ('_gen_id_substitution_table', 'kamrecsys/data/base.py')])
p('C05', 'Features, scores and event features stay attached to their owners',
  'Setting object features stores, for each known object, the feature row given for its external id whatever the order of the rows and whatever extra ids they list; filtering keeps each surviving object\'s feature row, and each surviving event\'s score and event feature, attached to the same external id or event, and keeps the score domain. Filtering leaves the original data set unchanged.',
  ['inputs', 'histories'], 'every data set with features, any row order and surplus rows, every filter condition, chains of filters',
  'unbounded data sets, row orders and filters; ' + ABSENT,
  ['kamrecsys/data/base.py', 'kamrecsys/data/event.py', SC], [('set_feature', 'kamrecsys/data/base.py:BaseData.set_feature'), ('filter_event', 'kamrecsys/data/event.py, ' + SC)],
  [('feature', 'object features per type', 'BaseData'), ('event_feature', 'features of events', 'EventData')])
p('C06', 'Score levels, bins and digitized scores agree with the score domain',
  'For a score domain (minimum, maximum, stride) whose range is a whole number of strides, the number of levels is range/stride + 1, the level values are evenly spaced from the minimum to the maximum, there is exactly one histogram bin per level, and digitizing a score that is a level gives the index of that level (other scores, including those outside the domain, get the index of the nearest level). When no domain is given, the minimum and maximum of the scores and the smallest gap between distinct scores are used.',
  ['inputs', 'configurations'], 'every admissible score domain, including fractional strides, and every array of scores',
  'all domains and scores; floating-point strides such as 0.1 break naive counting only for particular domains; tests use two domains',
  [SC, 'kamrecsys/metrics/base.py'], [('set_event computes levels', SC + ':EventWithScoreData.set_event'), ('generate_score_bins', 'kamrecsys/metrics/base.py'), ('digitize_score, get_score_levels', SC)])
p('C07', 'Binarizing scores applies the threshold and nothing else',
  'Binarizing replaces each score by 0 if it is not greater than the threshold and by 1 otherwise, the default threshold being the centre of the score domain, and sets the score domain to (0, 1, 1) with two levels; events, ids and features are unchanged.',
  ['inputs'], 'every scored data set, every threshold including the default', 'all scores, thresholds and domains, including scores equal to the threshold; ' + ABSENT,
  [SC], [('binarize_score', SC + ':EventWithScoreData.binarize_score')])
p('C08', 'Prediction for a list of events is per event, with the right columns and types',
  'Predicting a list of events given by external ids returns one score per event, in order, where each score depends only on that event and equals the model\'s prediction for the internal ids of the columns chosen at fitting, each converted with the table of its own object type and with unknown ids replaced by that type\'s reserved id; a single event gives a scalar.',
  ['inputs', 'configurations'], 'every fitted recommender, every choice of event columns and assignment of object types, any mixture of known and unknown integer ids',
  'all column choices, type assignments and id mixtures; the existing test uses one fitted movielens model with the default columns and its data file is absent',
  ['kamrecsys/base/base.py', 'kamrecsys/data/event.py'], [('predict', 'kamrecsys/base/base.py:BaseEventRecommender.predict'), ('fit selects columns', 'kamrecsys/base/base.py:BaseEventRecommender.fit')],
  [('event_index', 'columns used by the model', 'BaseEventRecommender')])
p('C09', 'Matrix-factorization predictions follow the formula, unknowns contribute nothing',
  'A fitted matrix-factorization model predicts global bias + user bias + item bias + inner product of the user\'s and item\'s latent factors (passed through the sigmoid for the item finders), with the parameters learned for that user and item; an unknown user or item contributes zero bias and zero latent factors.',
  ['inputs', 'configurations'], 'every fitted model of the three matrix-factorization classes, every number of factors, every pair of known or unknown user and item',
  'all fitted parameters and pairs, in particular cold-start pairs; ' + ABSENT,
  [MFS, MFI], [('raw_predict', MFS + ', ' + MFI), ('rows for unknown objects appended by fit', MFS + ':PMF.fit, ' + MFI)])
p('C10', 'The training loss is the documented regularized objective of the predictions',
  'For every parameter vector, the loss of the score predictor is half the sum of squared differences between the scores and the model\'s predictions plus half of C times the squared L2 norm of all biases and factors (the global bias excluded); the losses of the item finders are the cross-entropy between the 0/1 targets and the predicted probabilities, over the given events for explicit data and over all user-item pairs for implicit data, plus the same regularizer.',
  ['inputs'], 'every parameter vector, event set, score vector, C, number of factors, users and items (linear predictors inside the clipping domain of the sigmoid)',
  'all parameter vectors and data; the tests compare a few constants on sample data that is absent',
  [MFS, MFI], [('loss', MFS + ':PMF.loss, ' + MFI + ':LogisticPMF.loss, ImplicitLogisticPMF.loss')])
p('C11', 'The gradient is the exact derivative of the loss',
  'For every parameter vector and data set, every component of the gradient of the three matrix-factorization models is the partial derivative of that model\'s loss with respect to that parameter (for the item finders, wherever no linear predictor is clipped).',
  ['inputs'], 'every parameter vector, event set (with repeated users, items and events), scores, C, number of factors, users and items',
  'an equation between two functions of all parameters and data; a wrong term can vanish on sampled points, and the tests\' data files are absent',
  [MFS, MFI], [('grad_loss', MFS + ':PMF.grad_loss, ' + MFI + ':LogisticPMF.grad_loss, ImplicitLogisticPMF.grad_loss')])
p('C12', 'Fitting leaves a self-contained, truthful model and touches nothing else',
  'After fitting a matrix-factorization model, the learned parameters are exactly those returned by the optimizer, the reported fitting results (numbers of users, items, events and parameters, initial and final loss, status) describe that run, and the training events and scores are discarded while the id tables are kept. Fitting changes neither the data set nor option objects supplied by the caller, and later changes to the data container do not alter the fitted model.',
  ['inputs', 'histories', 'configurations'], 'every data set, hyper-parameter and optimizer setting, and every later operation on the data container',
  'relates states before and after over all inputs and histories; the tests check a few reported numbers on absent data',
  [MFS, MFI, 'kamrecsys/base/base.py', 'kamrecsys/score_predictor/base.py', 'kamrecsys/item_finder/base.py', 'kamrecsys/data/base.py'],
  [('fit, remove_data', MFS + ', ' + MFI + ', kamrecsys/base/base.py')], [('fit_results_', 'report of fitting', 'BaseRecommender')])
p('C13', 'The topic model always holds valid, smoothed probability tables',
  'After every maximization step the latent, user, item and rating tables of the multinomial pLSA model are the smoothed, normalized expected counts of the events under the current responsibilities: all entries positive and every conditional distribution summing to one; after fitting they still are, except for one extra all-ones row for unknown users and for unknown items. The reported loss is the mean negative log-likelihood of the events, the reported number of iterations is the number performed (at most the allowed maximum), and success is reported exactly when the tolerance was reached.',
  ['inputs', 'configurations', 'histories'], 'every data set, number of latent classes, positive smoothing parameter, iteration limit (at least 1) and tolerance; every iteration',
  'an invariant over all iterations and inputs; ' + ABSENT,
  [PL], [('maximization_step', PL + ':MultinomialPLSA.maximization_step'), ('E-step and main loop', PL + ':MultinomialPLSA.fit'), ('loss', PL + ':MultinomialPLSA.loss')],
  [('pZ_, pXgZ_, pYgZ_, pRgZ_', 'probability tables', 'MultinomialPLSA')])
p('C14', 'Predicted scores stay in their range',
  'Predictions of the topic model are, for known and unknown users and items, the expectation of the rating under the model\'s normalized rating distribution for that pair (hence between the smallest and largest score level), or, in mode prediction, a score level of maximal probability; predictions of the logistic item finders are probabilities strictly between 0 and 1. The safe sigmoid equals the logistic function of its argument clipped to the documented symmetric domain, so it is monotone and its values lie within [1e-15, 1 - 1e-15].',
  ['inputs'], 'every fitted model and every pair, every real argument of the sigmoid including huge ones',
  'all tables and pairs and extreme arguments; the tests check a few pairs on absent data',
  [PL, MFI, 'kamrecsys/utils/kammath.py'], [('raw_predict', PL + ':MultinomialPLSA.raw_predict, ' + MFI), ('safe_sigmoid', 'kamrecsys/utils/kammath.py')])
p('C15', 'The implicit-feedback matrix marks exactly the consumed pairs',
  'For an implicit-feedback recommender, the rating matrix has one row per known user and one column per known item of the selected event columns, and an entry is 1 if that user-item pair occurs in the training events (however often) and 0 otherwise, identically for every supported storage type; an unsupported storage type is rejected with TypeError.',
  ['inputs', 'configurations'], 'every event set with repeated events, every choice of event columns and type assignment, every storage type',
  'all event sets and column choices; the test uses one sample that is absent',
  ['kamrecsys/item_finder/base.py'], [('get_event_array', 'kamrecsys/item_finder/base.py:BaseImplicitItemFinder.get_event_array')])
p('C16', 'Binary-only components accept exactly binary data',
  'The binary-score test holds exactly for arrays whose elements are all 0 or 1 (with at least one of each when uniform arrays are not allowed). Fitting an explicit-feedback item finder raises ValueError unless the score domain is (0, 1, 1) with two levels and the scores contain only 0 and 1 and at least one of each; the item-finder report and statistics raise ValueError for non-binary true scores and contain the area under the curve exactly when both classes occur.',
  ['inputs'], 'every score array and score domain', 'all score arrays; the tests try a handful',
  ['kamrecsys/utils/base.py', 'kamrecsys/item_finder/base.py', 'kamrecsys/metrics/item_finder.py'],
  [('is_binary_score', 'kamrecsys/utils/base.py'), ('BaseExplicitItemFinder.fit', 'kamrecsys/item_finder/base.py'), ('item_finder_report, item_finder_statistics', 'kamrecsys/metrics/item_finder.py')])
p('C17', 'Error metrics equal their definitions and reject bad input',
  'For finite true and predicted scores of equal length, the mean absolute and mean squared errors are the means of the absolute and squared differences, each reported with the population standard deviation of those per-sample errors, and the root mean squared error is the square root of the mean squared error. Non-finite values and unequal lengths raise ValueError, and the inputs are not modified.',
  ['inputs'], 'every pair of score arrays', 'all arrays of all lengths; tests use one small pair',
  ['kamrecsys/metrics/real.py'], [('mean_absolute_error, mean_squared_error', 'kamrecsys/metrics/real.py')])
p('C18', 'Score histograms and summary statistics count every sample once',
  'The score histogram of an array over a score domain has one bin per score level, counts each score in the bin of the nearest level so that the counts add up to the number of scores, and lists the level values; with a number of bins it has that many bins and lists their centres. The score-predictor report and statistics contain the number of samples, the errors, the means and population standard deviations of true and predicted scores, and (statistics) these histograms and their densities.',
  ['inputs', 'configurations'], 'every array of finite scores (also outside the domain), every admissible score domain, every number of bins',
  'all arrays and domains; tests use one array', ['kamrecsys/metrics/real.py', 'kamrecsys/metrics/base.py', 'kamrecsys/metrics/score_predictor.py'],
  [('score_histogram', 'kamrecsys/metrics/real.py'), ('generate_score_bins', 'kamrecsys/metrics/base.py'), ('score_predictor_report, score_predictor_statistics', 'kamrecsys/metrics/score_predictor.py')])
p('C19', 'The gamma-prior variance is positive and equals its formula',
  'For positive prior parameters a and b, the variance with gamma prior equals (2b + sum of squares - (sum)^2/n) / (2a + n) over the n finite elements of the input and is positive; non-finite elements are ignored by default, an input without finite elements raises ValueError, and the full output also gives n.',
  ['inputs'], 'every input array with and without non-finite elements, every positive a and b', 'all arrays and parameters; the test uses one array',
  ['kamrecsys/metrics/real.py'], [('variance_with_gamma_prior', 'kamrecsys/metrics/real.py')])
p('C20', 'Cross-validation splitters partition the data as promised',
  'Every splitter yields exactly the requested number of folds, each a pair of sorted, disjoint index sets that together cover all samples. Over all folds of the K-fold splitters each sample is in exactly one test set; within every group the K-fold test sets of different folds differ in size by at most one, and each random split puts the same test proportion of every group in the test set; the interlaced splitter puts sample i in the test set of fold i mod the number of folds.',
  ['inputs', 'configurations'], 'every number of samples and folds, every group assignment, shuffled or not, every random seed',
  'all group assignments, sizes and seeds; the existing test samples one grouping and the module could not even be imported with the installed scikit-learn',
  ['kamrecsys/model_selection/split.py'], [('ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold', 'kamrecsys/model_selection/split.py')])
p('C21', 'Making results JSON-ready preserves every number and the structure',
  'Converting a nested structure of dictionaries and lists in place makes it serializable as JSON: arrays and sparse matrices become nested lists with equal elements, numpy integers and floats become equal Python numbers, Python numbers and booleans and the keys and order of containers are unchanged, and every other value is replaced by its string.',
  ['inputs'], 'every finite nesting of dictionaries and lists of these values (complex numbers excluded)', 'unbounded nesting and mixtures of types; there is no test',
  ['kamrecsys/utils/kamexputils.py'], [('json_decodable', 'kamrecsys/utils/kamexputils.py')])
p('C22', 'Averaged fold statistics pair up the same fold and position',
  'The mean of statistics over folds calls the function once per key (dictionary arguments) or per position (list arguments) with the corresponding elements of all arguments in order, and returns the elementwise mean of the returned statistics, independent of the dictionaries\' insertion order; other argument types raise TypeError.',
  ['inputs'], 'every function, every list of dictionaries with equal keys or lists of equal length', 'all functions and arguments; the test calls only the dictionary form',
  ['kamrecsys/metrics/base.py'], [('statistics_mean', 'kamrecsys/metrics/base.py')])
p('C23', 'Loading an event file yields exactly the rows of the file',
  'Loading a tab-separated event file gives a data set with one event per line, in order, whose external ids are the leading columns (as many as the event has elements, with the given object types), whose scores are the next column for the scored variant, and whose event features are the remaining columns under the given types; the score domain is the given one (default 1 to 5 by 1). The loaders of named data sets use the layout and score domain of their data set and attach to every user and item the row of the user and item file with its external id (texts in UTF-8).',
  ['inputs', 'configurations'], 'every file, number of object types, assignment of object types to columns, event-feature type and score domain',
  'all files and configurations; one file is tested and only for the variant without scores', ['kamrecsys/datasets/base.py', 'kamrecsys/datasets/movielens.py', 'kamrecsys/datasets/sushi3.py', 'kamrecsys/datasets/flixster.py', 'kamrecsys/datasets/others.py'],
  [('load_event, load_event_with_score', 'kamrecsys/datasets/base.py')])
p('C24', 'Experiments test on held-out events only and keep results aligned',
  'In a cross-validation experiment, the model of each fold is fitted to exactly the events outside that fold\'s test indices and predicts exactly the test events, and the recorded events, true scores, event features, index lists and predictions of a fold all refer to the same test events in the same order; in one-fold mode only the requested fold is run, with the same split. In a hold-out experiment the model is fitted to the whole training file and the recorded true scores, events and predictions are those of the test file, row by row.',
  ['inputs', 'configurations'], 'every data set, number of folds, target fold, recommender',
  'leakage or misalignment shows only for particular data and folds; the scripts have no tests at all', ['scripts/exp_recsys_util.py'],
  [('cv_test, holdout_test, training, testing', 'scripts/exp_recsys_util.py')])
p('C25', 'Merging folds and computing statistics keeps all results of every fold',
  'Merging one-fold result files gives a result whose training results, test results, environments and predictions contain, under each fold number, exactly that fold\'s entries; statistics over a multi-fold result are those of the concatenated true and predicted scores of the same folds in the same order.',
  ['inputs'], 'every set of result files with distinct fold numbers', 'all result files; the scripts have no tests', ['scripts/exp_recsys_fold_merge.py', 'scripts/stats_recsys.py'],
  [('first_fold, rest_fold', 'scripts/exp_recsys_fold_merge.py'), ('do_task', 'scripts/stats_recsys.py')])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
