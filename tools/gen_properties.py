#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
DB, MEM, ABC = 'DRecPy/Dataset/db_dataset.py', 'DRecPy/Dataset/mem_dataset.py', 'DRecPy/Dataset/dataset_abc.py'
FU, FAC, INT = 'DRecPy/Dataset/file_utils.py', 'DRecPy/Dataset/dataset_factory.py', 'DRecPy/Dataset/integrated_datasets.py'
LKO, MXS, RNS = ['DRecPy/Evaluation/Splits/%s.py' % x for x in ('leave_k_out', 'matrix_split', 'random_split')]
RE, RC, PE = ['DRecPy/Evaluation/Processes/%s_evaluation.py' % x for x in ('ranking', 'recommendation', 'predictive')]
MR, MG = 'DRecPy/Evaluation/Metrics/ranking.py', 'DRecPy/Evaluation/Metrics/regression.py'
PS, LS = 'DRecPy/Sampler/point_sampler.py', 'DRecPy/Sampler/list_sampler.py'
REC = 'DRecPy/Recommender/recommender_abc.py'
KB, KU, KI, AG, SI = ['DRecPy/Recommender/Baseline/%s.py' % x for x in ('base_knn', 'user_knn', 'item_knn', 'aggregation', 'similarity')]
CD, DM, CA = ['DRecPy/Recommender/%s.py' % x for x in ('cdae', 'dmf', 'caser')]
ESA, ESM = 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py', 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'
LT = 'DRecPy/Evaluation/loss_tracker.py'

prop('C01', 'Dataset operations follow one relational model on both backends',
 "For every dataset and every sequence of select, select_one, exists, unique, count_unique, min, max, values, drop, apply and len calls, in-memory and database-backed datasets both return exactly the rows, columns, values, record ids and row order prescribed by reading those calls as relational operations over the loaded rows. Rows always come out in record id order (the order of the source), a projection without duplicates keeps the first occurrence of each combination of the given columns (ignoring the record id), and reading a single column as a list gives scalars. Reading, counting or projecting with an unknown column is an error.",
 ['inputs', 'histories', 'configurations'], 'every dataset content, every operation sequence, both backends, both copy modes',
 'The suite checks each method once on a five-row fixture; compositions of operations, duplicate rows, unsorted ids, empty results and range queries on indexed columns are not reached.',
 [DB, MEM, ABC], [('state query composition', DB), ('data frame filtering', MEM)], ['values_list', 'select_one', 'unique', 'count_unique', 'min/max', 'len', 'columns'],
 [('_state_query', 'SQL text standing for the filtered rows', DB), ('_df', 'rows of the in-memory dataset', MEM)])
prop('C02', 'Dataset copies and derived datasets are isolated from each other',
 "No operation on one dataset instance (in-place select, drop or unique, apply, assigning or removing internal ids, partially reading, closing or garbage collecting it) changes the rows, columns, internal ids or answers observable through any other instance copied or derived from the same data. Operations called with copy=True leave the dataset they are called on unchanged. Column lists, record id lists and data frames passed in by the caller are never modified.",
 ['histories', 'schedules'], 'every interleaving of operations over a family of instances sharing storage, with value iterators left open at any point',
 'Tests look at one or two instances after one operation; sharing between three or more derived instances, open iterators and close/garbage collection orders are not sampled.',
 [DB, MEM], [('shared table registry and table migration', DB), ('data frame replacement on write', MEM)], ['values_list of every live instance after every operation'],
 [('_shared_db_table_instances', 'instances using each table', DB)])
prop('C03', 'Storage optimisation of database datasets is invisible',
 "Whatever the number, kind and order of reads, the optimisation thresholds, the number of live copies of a dataset and the value iterators left open, a database-backed dataset gives the same rows, ids and aggregate values as one whose storage is never reorganised. Repeating a read gives the same answer, and never an error, at any point of the history.",
 ['histories', 'configurations'], 'every history and every setting of the optimisation thresholds, with any number of sharing copies',
 'Tests trigger each optimisation once with fixed thresholds and compare a handful of values.',
 [DB], [('_optimize_states', DB), ('_record_interaction / _update_state thresholds', DB)], ['values_list', 'len', 'min/max', 'user_to_uid'],
 [('_active_table', 'table the instance reads', DB), ('_n_direct_interactions', 'reads since last optimisation', DB)])
prop('C04', 'Internal ids are a bijection in order of first appearance',
 "After assign_internal_ids, the users (and the items) of a dataset are numbered 0..n-1 in order of first appearance, every row carries the ids of its user and item, and conversions between raw and internal ids are inverse to each other and give None for ids that do not exist. This holds for integer and string ids, on filtered datasets and after repeated assignment; removing internal ids removes both columns and makes conversions fail until ids are assigned again. Raw ids given as text or numbers convert alike.",
 ['inputs', 'histories'], 'every dataset content and id type, and every history of filtering, assigning, removing and re-assigning',
 'Tests use one fixture with three users and look up selected ids.',
 [DB, MEM], [('assign_internal_ids', DB), ('assign_internal_ids', MEM), ('user_to_uid and inverses', DB)], ['values_list([uid, iid])', 'user_to_uid', 'uid_to_user', 'item_to_iid', 'iid_to_item'])
prop('C05', 'Interaction vectors always reflect the current rows of the dataset',
 "For every user (or item) present in a dataset with internal ids, the user (item) interaction vector has, at the position of each item (user) id, the sum of the interaction values of the matching rows the dataset holds at that moment, and 0 elsewhere, and reaches up to the largest id present. This remains true after any history of in-place filters, drops, apply calls and id re-assignments, whatever vectors were read before, and vectors of unknown ids are refused.",
 ['histories', 'inputs'], 'every history of reads and in-place changes, both backends, any cache limit',
 'Tests read vectors of freshly loaded fixtures; none reads a vector, changes the data and reads again except for one apply.',
 [DB, MEM], [('interaction matrix cache', MEM), ('user/item vector caches', DB)], ['select_user_interaction_vec', 'select_item_interaction_vec'],
 [('_cached_interaction_matrix', 'matrix built on first read', MEM), ('_user_interaction_vec_cache', 'vectors read so far', DB)])
prop('C06', 'Saved datasets reload to the same rows and loaded files stay untouched',
 "Saving a dataset as csv (with or without header, all or selected columns) or as a sqlite file and loading it again gives the same rows, in the same order, with record ids renumbered from 0 and without internal ids, for every dataset state reached before saving. Reading, filtering, modifying, copying or closing a dataset loaded from a sqlite file never changes what that file contains until save is called. After saving onto its own file a dataset still shows the saved rows, and a file in use by other instances is refused as a target.",
 ['inputs', 'histories'], 'every content (including values containing delimiters and quotes), every derivation before saving, every use of the loaded dataset after',
 'Tests round-trip unfiltered fixtures once and delete the file right after.',
 [DB, MEM], [('save', DB), ('save', MEM), ('_load_from_db', DB)], ['file contents', 'values_list of a fresh load'])
prop('C07', 'Saving to a sqlite file is atomic under crashes and failures',
 "If a save to a sqlite path is interrupted by a crash of the process or fails with an error at any point, the path still holds either its complete previous contents (or is still absent) or the complete new contents, never a partial file. The same holds for every other operation on a dataset loaded from the file: interrupted or failing (for instance because the disk is full) it never changes what the file holds. After such an interruption a later save to the same path succeeds, and a save that failed leaves the dataset usable with its rows unchanged.",
 ['crash_points', 'fault_sequences'], 'every step of the save (line of code, file operation, statement, partial write) at which the process may die, be interrupted or get an error',
 'No test interrupts a save.',
 [DB], [('write to <path>.tmp then replace', DB)], ['contents of the target path at each interruption'])
prop('C08', 'Splits partition the dataset and respect their size and eligibility rules',
 "For every dataset, train and test rows returned by a split are disjoint, unmodified rows of the input; their union is the input minus exactly the rows of users below min_user_interactions, and the input itself is unchanged. leave_k_out takes exactly k (or floor(k * interactions)) rows from each eligible user with more rows than that, and the chronologically last ones when last_timestamps is set on chronologically ordered data; random_split takes exactly floor(ratio * rows); matrix_split only takes rows of the sampled fraction of users and the sampled fraction of items, all such rows of a user or none, and none when it would empty the user's train rows. Rows are drawn at random: every row that may be taken is taken by some seed. Invalid k, ratio or thread arguments are refused.",
 ['inputs', 'configurations'], 'every dataset content, id type and parameter value',
 'Tests check sizes on a few parameter values of one generated integer-id dataset.',
 [LKO, MXS, RNS], [('per user sampling tasks', LKO), ('matrix task', MXS), ('index sampling', RNS)], ['rows of train and test'])
prop('C09', 'Splits do not depend on thread schedule, thread count or backend',
 "For a given dataset, parameters and seed, a split returns the same train and test rows whatever the number of threads, the order in which the per-user tasks run or interleave, and verbosity, and the same rows for in-memory and database-backed datasets. Each seed determines the split; no user is lost, duplicated or left half processed under any interleaving, and an error while splitting is raised rather than hidden.",
 ['schedules', 'configurations'], 'every completion order and interleaving of the per-user tasks, 1..n threads, both backends',
 'Tests run one schedule per call on one machine.',
 [LKO, MXS, RNS, DB], [('per-user seeds', LKO), ('locks around shared result lists', LKO), ('state lock on copy/optimise', DB)], ['rows of train and test'])
prop('C10', 'Point samplers and generators only yield sound positive and negative pairs',
 "Every record yielded by select_random_generator is a current row of the dataset satisfying the given query, and every pair yielded by null_interaction_pair_generator is a pair of known internal ids without a row in the dataset or, when a threshold is given, one whose row lies below the threshold; all qualifying rows or pairs are reachable. PointSampler.sample(n) returns exactly n triples, positives being rows at or above the threshold with their value and negatives having value 0, in the proportion neg_ratio to 1, only positives when neg_ratio is 0. Generators require internal ids and at least one record.",
 ['inputs', 'configurations'], 'every dataset, threshold, negative ratio and seed',
 'Tests check the first few outputs for one seed, and PointSampler is not tested.',
 [PS, DB, MEM], [('null pair rejection sampling', DB), ('null pair rejection sampling', MEM), ('PointSampler.sample', PS)], ['yielded pairs'])
prop('C11', 'List samplers only yield sound record sequences',
 "Every element returned by ListSampler.sample_group_records(n) stems from one group: its positive sequence holds only rows of that group at or above the threshold, contiguous in the requested order, as long as the maximum length allows and at least the minimum, the n_targets target rows follow immediately after it, and there are neg_ratio distinct negative ids per target, all existing in the dataset and none belonging to a positive row of the group. Exactly n elements are returned; every qualifying group, window and negative id can be drawn, groups with too few records are never used and an error is raised when no group qualifies.",
 ['inputs', 'configurations'], 'every dataset, grouping, ordering, length bounds and seed, both backends',
 'ListSampler has no tests.',
 [LS], [('sample_group_records', LS)], ['returned sequences'])
prop('C12', 'Predictions, rankings and recommendations respect raw ids and their options',
 "For every fitted recommender, predict, rank and recommend take and return raw ids only; rank returns a subset of the requested known items without repetitions, recommend a subset of the known items, both at most n entries, the best n ordered by non-increasing score, excluding exactly the user's already seen items when novelty is on and, for recommend, items scoring below the given threshold. Unknown users are refused, unknown items are refused or skipped as requested, and predict with skip_errors gives None instead of failing. Nothing works before fitting.",
 ['inputs', 'configurations'], 'every dataset, recommender, user, item list and option combination',
 'Tests rank a few fixed lists with the KNN models; the deep models and the base class are not tested.',
 [REC, KB, KU, KI, CD, DM, CA], [('id conversion in predict/rank/recommend', REC), ('_rank overrides', KU)], ['returned lists'])
prop('C13', 'KNN predictions follow the neighbourhood definition',
 "A UserKNN (ItemKNN) prediction is the mean or similarity-weighted mean of the interactions, with the requested item (by the requested user), of those of the k most similar neighbours that have one, where only neighbours with positive similarity and at least m co-ratings count and similarities are shrunk by n/(n+shrinkage). Without such a neighbour it is None, or the item (user) average when averages are enabled (data with one interaction per user and item; ratings of zero are ratings); rank scores equal predict scores. Fitting again gives the same model as fitting afresh on the new data, on both backends.",
 ['inputs', 'configurations', 'histories'], 'every dataset, similarity metric, k, m, shrinkage, aggregation and averages setting, and refits',
 'Tests compare selected predictions on one fixture with default-like parameters.',
 [KB, KU, KI, AG], [('similarity filter and shrinkage', KU), ('nlargest neighbours', KI), ('aggregation', AG)], ['predict', 'rank'])
prop('C14', 'The training loop follows its documented protocol',
 "fit runs exactly the requested number of epochs unless the early stopping rule ends it, each epoch sampling one batch of the requested size, predicting it, computing its loss and applying one update to every registered variable, after setup has seen the assigned ids and interaction range. When verbose or given an early stopping rule, epoch callbacks run at exactly the multiples of their frequency (when verbose also once before training) and their results and the losses reach the early stopping rule with matching epoch numbers; without registered variables no training happens. A dataset passed with copy_dataset=True is left unchanged.",
 ['configurations', 'histories'], 'every combination of epochs, batch size, callback and early stopping frequencies, verbosity, registered variables and refits',
 'The training loop has no tests.',
 [REC, LT, ESA], [('fit', REC), ('LossTracker', LT)], ['sequence of calls into the recommender, callback and rule'])
prop('C15', 'Early stopping keeps the best epoch and restores its weights',
 "With an early stopping rule, after fit every registered variable, layer and model holds exactly the weights it had at the end of the epoch the rule last designated as best (the initial weights if that is epoch 0), or the last epoch's weights if the rule could never be computed. The maximum validation value rule designates the first called epoch reaching the maximum of its metric, matching names with or without the @k suffix, never stops training, and rejects missing, empty or malformed results. Earlier fits do not influence the outcome.",
 ['histories', 'configurations'], 'every sequence of validation results, every frequency combination, every kind of registered variable and refits',
 'Neither rules nor weight reversion are tested.',
 [REC, ESA, ESM], [('_store_epoch_weights / _revert_weights', REC), ('compute', ESA), ('_compute_best_epoch', ESM)], ['variable values after fit', 'compute results'])
prop('C16', 'Ranking evaluation averages metrics over correctly built candidate lists',
 "ranking_evaluation gives, for each metric and k, the average over the evaluated test users (the first n_test_users) of the metric computed on the model's ranking of that user's positive test items plus the requested negative ones, where positives are test rows at or above the threshold, negatives rows below it or, if requested, generated known items the user has no positive row for, and relevancies and the best item come from the test rows. Users without enough positives or candidates, or unknown to the model, are left out; the result, rounded to 4 decimals, does not depend on thread schedule, verbosity or backend.",
 ['inputs', 'schedules', 'configurations'], 'every test set, model, option combination, thread count and id type',
 'Tests fix one generated dataset and compare four metrics with recorded numbers.',
 [RE], [('_ranking_evaluation_user', RE), ('metric_sums under lock', RE)], ['arguments of rank and of the metrics', 'returned averages'])
prop('C17', 'Recommendation evaluation averages metrics over model recommendations',
 "recommendation_evaluation gives, for each metric and k, the average over the evaluated test users (the first n_test_users) of the metric computed on the model's top recommendations (the largest k requested, with the given novelty and prediction threshold) against that user's positive test items, their test relevancies (0 for items not in the test rows) and best item. Users without enough positive items or unknown to the model are left out and never block the evaluation; the result, rounded to 4 decimals, does not depend on thread schedule, verbosity or backend.",
 ['inputs', 'schedules', 'configurations'], 'every test set, model, option combination, thread count and id type',
 'Tests fix one generated dataset and compare four metrics with recorded numbers.',
 [RC], [('_recommendation_evaluation_user', RC)], ['arguments of recommend and of the metrics', 'returned averages'])
prop('C18', 'Predictive evaluation compares each test pair with its prediction',
 "predictive_evaluation computes each metric, rounded to 4 decimals, over exactly the pairs (true interaction, predicted value) of the test rows in order, up to n_test_predictions counted pairs, where rows the model cannot predict are skipped or, with count_none_predictions, counted as predicted 0. Prediction errors are skipped or propagated according to skip_errors, and MSE, RMSE and MAE equal their definitions.",
 ['inputs', 'configurations'], 'every test set, prediction pattern and option combination',
 'Tests fix one dataset and a few option values.',
 [PE, MG], [('prediction loop', PE), ('regression metrics', MG)], ['pairs passed to the metrics', 'returned values'])
prop('C19', 'Ranking metrics equal their definitions',
 "For every recommendation list, truncation k (or none), relevant item list and relevancy map, Precision, Recall, HitRatio, ReciprocalRank, FScore (any beta), AveragePrecision, DCG and NDCG (strong and weak relevancy) return the value of their textbook definition on the first k recommendations. Arguments are never modified, results depend only on the arguments, and a missing relevance argument gives 0.",
 ['inputs'], 'every list (with repetitions, shorter or longer than k), every k and relevance input',
 'Tests check a few hand-written lists per metric.',
 [MR], [('metric __call__', MR)], ['metric values'])
prop('C20', 'Queries select exactly the rows satisfying all conditions or are refused',
 "A query of comma separated 'column operator value' conditions selects exactly the rows for which every comparison holds, for each of >, >=, <, <=, == and !=, for integer, float and string columns (numeric or alphabetic order), including string values with quotes, commas, spaces or equal to column names, with and without internal ids assigned, on both backends. Queries with an unknown column or operator, a missing part or a value of the wrong type are refused and leave the dataset unchanged.",
 ['inputs', 'configurations'], 'every query, column type and id state',
 'Tests try each operator on one or two columns of a five-row fixture.',
 [DB, MEM, ABC], [('_parse_query', DB), ('_apply_query', MEM), ('_split_query', ABC)], ['select', 'select_one', 'exists', 'select_random_generator'])
prop('C21', 'A seed fixes every stochastic result',
 "For every dataset and parameters, generators, samplers and splits created with the same seed produce the same sequence of results, also when other randomness is consumed in between, when several are used at the same time, and in different processes (whatever the hash seed). They neither read nor disturb the state of the global random generator.",
 ['histories', 'configurations'], 'every interleaving of seeded components, every seed and process',
 'Tests compare a few recorded values in a single process.',
 [PS, LS, DB, MEM, LKO, MXS, RNS], [('random.Random(seed) instances', PS), ('sorted sampling populations', LS)], ['result sequences', 'global random state'])
prop('C22', 'Similarity functions equal their definitions',
 "For every rating matrix, cosine, adjusted cosine (row means removed), collaborative filtering cosine (co-rated entries only), jaccard, mean squared difference and pearson (co-rated means removed) similarities give, for every pair of rows, the value of their definition computed on the stored ratings, 0 where undefined. Results are symmetric, do not depend on the sparse or dense input form, and never modify the input.",
 ['inputs'], 'every matrix shape and sparsity pattern, including empty rows and constant rows',
 'Tests compare two fixed matrices per function.',
 [SI], [('similarity functions', SI)], ['returned matrices'])
prop('C23', 'Loading reads every record once, in order, with the declared columns',
 "Loading a file gives exactly its records in file order with record ids 0..n-1, the declared columns minus skipped (None) ones, columns of numbers as those numbers and any other column as its text, for every single or multi character delimiter, header setting, quoting, encoding, line ending, blank line and chunk size, identically for both backends and when a file that does not fit in memory is loaded out of memory instead. Loading a data frame gives its rows in order under the given labels with record ids 0..n-1 whatever its index, without changing the data frame or the list of columns given, and missing or reserved columns are refused.",
 ['inputs', 'configurations'], 'every file content, column declaration, delimiter, header, encoding and chunk size',
 'Tests load a few small resource files with default chunk sizes.',
 [DB, MEM, FAC], [('_load_from_csv', DB), ('read_csv', MEM), ('read_df', FAC)], ['columns', 'values_list', 'value types'])
prop('C24', 'Integrated train and test datasets are consistent across calls',
 "For a stored dataset without own split files, the train and test datasets are the same deterministic split of the full dataset whichever is requested first, in which backend and however often, before and after they are cached on disk: disjoint, together holding every row of the users with enough interactions, 10 test rows for every user with more than 10. For datasets with own split files those files are returned, the full dataset is always the full file, unknown names are refused and nothing is downloaded again. A request that fails or dies at any point, downloading included, never makes a later request fail or answer anything else.",
 ['histories', 'configurations'], 'every order and repetition of train/test/full requests over both backends, with interruptions and network failures in between',
 'Tests only check names without network access.',
 [INT, FU], [('generated split files', INT)], ['rows of returned datasets'])
prop('C25', 'Temporary storage lives exactly as long as it is needed',
 "The temporary database behind database-backed datasets stays readable for as long as any instance derived from it is open, whichever instances are closed or garbage collected and in whatever order, and is deleted when the last one is closed. Closing twice is harmless, files left by a dead process are deleted when the library is next loaded, and files of running processes or files saved by the user are never deleted.",
 ['histories', 'crash_points'], 'every order of copying, deriving, closing and garbage collecting instances, process deaths at any point',
 'One test checks the registries after one sequence of copies and closes.',
 [DB, FU], [('shared instance registry', DB), ('tmp_files.txt registry', FU)], ['files in the data folder', 'reads of surviving instances'],
 [('_shared_db_instances', 'instances using each file', DB)])
prop('C26', 'A reloaded model answers like the saved one',
 "For every fitted KNN, CDAE, DMF or custom model over an in-memory dataset, saving it to a file and loading it back, in the same or another process, gives a model whose predict, rank and recommend answers equal those of the original for every user, item and option. The saved model itself is unchanged by saving and independent of the loaded one afterwards.",
 ['inputs', 'histories'], 'every fitted model and every query on the reloaded one',
 'Model persistence has no tests.',
 [REC, PS], [('save / load', REC), ('__getstate__ / __setstate__', PS)], ['predict', 'rank', 'recommend'])
prop('C27', 'The neural recommenders train on the right data',
 "For every dataset, backend and setting, CDAE, DMF and Caser learn from exactly what they document. They draw interactions reaching the threshold and pairs that have none (Caser: L consecutive positives of one user in sort order, the T that follow, and neg_ratio * T items without a positive interaction). CDAE reconstructs, for each sampled user, 1 for exactly the items whose interaction reaches the threshold; DMF predicts the interaction standardised to [0, 1] (raw without use_nce); Caser gives 1 to targets and 0 to negatives. The loss of a batch is the mean of the loss over its own targets and predictions (bce, or mse for CDAE). Predictions made in training without corruption or dropout equal those of predict (rank for Caser); scores are finite, CDAE and DMF scores are within range, and a Caser ranking depends on a user's last L interactions only.",
 ['inputs', 'configurations'], 'every dataset, threshold, batch size, loss, window and target length, sort order, optimizer and backend',
 'Tests of these models only compare a few predictions of unfitted ones.',
 [CD, DM, CA, PS, LS], [('_reconstruct_for_training', CD), ('_sample_batch / _predict_batch', DM), ('_predict_batch / _rank', CA)], ['_predict_batch, _compute_batch_loss', 'predict', 'rank'])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
