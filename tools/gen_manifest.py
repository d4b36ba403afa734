"""Writes MANIFEST.json: one check per property whose harness module exists."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import main

T = 'TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC'
G = 'TLA+ specification checked with TLC; behaviours generated by TLC replayed into the real code and validated by TLC'
TRUST = ' Trusted: TLC, the encoding of recorded events as integers (harness/), and that the scenarios drawn from VERIF_SEED sample the input space; there is no exhaustiveness over real inputs.'
NOTE = {
 'C01': (G, 'model_checking', 'Dataset.tla (relational model, all histories of small tables) is model checked; every answer of the real code over generated histories on both backends must equal the transition the specification prescribes.'),
 'C02': (G, 'model_checking', 'As C01, over families of copied and derived instances: after every operation all other live instances are observed again and must be unchanged.'),
 'C03': (G, 'model_checking', 'Storage.tla models shared tables, optimisation and open iterators and is checked to refine the relational model (five broken variants must fail); real histories run with tiny and random optimisation thresholds.'),
 'C04': (G, 'model_checking', 'Identifier assignment as an operation of Dataset.tla; every conversion in both directions is observed after every operation.'),
 'C05': (G, 'model_checking', 'Vectors are defined from the current rows in DatasetOps.tla; all vectors are read before and after each mutation.'),
 'C20': (G, 'model_checking', 'Query semantics in DatasetOps.tla (Holds/Select); condition strings over numbers, strings with hostile contents and columns named like values, plus malformed ones.'),
 'C06': (T, 'model_checking', 'Persist.tla: file contents as a function of the save history; traces of save/load/mutate/close histories on both backends and formats.'),
 'C07': (T, 'fault_enumeration', 'Persist.tla is checked with a crash at every step; the real save is killed (or made to fail) at every executed line of library code and at every file size limit, and the file observed afterwards must be one the specification allows.'),
 'C25': (T, 'model_checking', 'TempFiles.tla: reference counting of temporary databases over create/derive/close/collect/crash/import histories; real histories in child processes.'),
 'C08': (T, 'model_checking', 'SplitLaws.tla states the laws of the three splits; every real split is validated against them by TLC.'),
 'C09': (T, 'model_checking', 'Splits.tla models the task queue, threads and locks (all interleavings; four broken variants must fail); real splits run under perturbed schedules and must give one result.'),
 'C10': (T, 'model_checking', 'Sampler.tla: soundness and reachability of pairs; real generators and samplers drained on both backends.'),
 'C11': (T, 'model_checking', 'Sampler.tla: admissible sequences; every returned element must be admissible, and every admissible start must be reachable on small groups.'),
 'C21': (T, 'model_checking', 'Seeds.tla: private streams (a shared stream variant must fail); traces interleave several seeded objects, global randomness and other processes.'),
 'C12': (T, 'model_checking', 'Recommender.tla: option semantics over arbitrary score tables; a recommender with given scores, KNN and the neural models are driven through every option.'),
 'C13': (T, 'model_checking', 'KNN.tla: neighbourhoods and predictions in exact arithmetic; every prediction of fitted models validated.'),
 'C26': (T, 'model_checking', 'Recommender.tla: a model is a function of its state; answers before saving, after loading, and in another process are compared as one trace.'),
 'C14': (T, 'model_checking', 'Training.tla: the loop as a state machine, checked exhaustively for small parameters; calls recorded from real fits must be a behaviour of it.'),
 'C15': (T, 'model_checking', 'Training.tla with weight history: restored weights must be those of the designated epoch (broken variants must fail); real fits with variables, layers and models.'),
 'C27': (T, 'model_checking', 'Neural.tla: targets, windows, labels and the loss as functions of the table; every step of real fits of the three models validated (predictions themselves are taken as given: initial weights are free).'),
 'C16': (T, 'model_checking', 'Evaluation.tla: candidate lists and averaging over Metrics.tla in exact arithmetic; real evaluations of models with known rankings, schedules perturbed.'),
 'C17': (T, 'model_checking', 'Evaluation.tla: as C16 for recommendations.'),
 'C18': (T, 'model_checking', 'Evaluation.tla: counted pairs and errors of predictive evaluation.'),
 'C19': (T, 'model_checking', 'Metrics.tla in exact rational arithmetic (logarithms tabulated); every returned value validated.'),
 'C22': (T, 'model_checking', 'Similarity.tla in exact arithmetic (roots compared through squares); every pair of rows validated.'),
 'C23': (T, 'model_checking', 'Loading.tla: text of a file as a function of records and format; loaded rows must be the records on both backends.'),
 'C24': (T, 'model_checking', 'Integrated.tla: cache states of the dataset loader; traces of calls in every order over stored files, network access intercepted.'),
}
checks, na = [], []
for p in sorted(NOTE):
    mod = main.MODULES[p]
    if os.path.exists(os.path.join(ROOT, 'harness', mod + '.py')) and ('def %s(' % p) in open(os.path.join(ROOT, 'harness', mod + '.py')).read():
        t, lv, n = NOTE[p]
        checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p, technique=t, level=lv, level_note=n + TRUST))
    else:
        na.append(dict(property=p, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks observe the public behaviour of the library only. Genuine defects found were repaired (fix: commits) or are listed in KNOWN_FINDINGS.json.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
