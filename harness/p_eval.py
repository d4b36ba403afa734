"""C16 ranking, C17 recommendation, C18 predictive evaluation of models whose answers are recorded."""
import gc, math, threading, logging
import core, ds
from codec import native
from models import TableModel
from p_splits import Perturb

import DRecPy.Dataset  # noqa: F401
from DRecPy.Recommender.Baseline import UserKNN
from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation, predictive_evaluation
from DRecPy.Evaluation import Metrics as M
from DRecPy.Evaluation.Metrics import RankingMetricABC, PredictiveMetricABC
import matplotlib.pyplot as plt

NONE, FAILS = -2000000000, -1999999999
IDS = {'int': lambda k: k, 'zero': lambda k: k - 1, 'big': lambda k: 10**10 + k, 'str': lambda k: 'i%d' % k, 'odd': lambda k: "o'%d \"x\"" % k}


def recording(base):
    class Recording(base):
        """Records every ranking and recommendation it gives."""

        def setup(self, planned):
            self.lock, self.calls, self.planned, self.slow = threading.Lock(), [], planned, None

        def _log(self, e):
            with self.lock:
                self.calls.append(e)

        def _guard(self, user):
            if self.slow is not None and user == self.slow:
                import time
                time.sleep(.1)
            if user in self.planned:
                raise RuntimeError('planned failure')

        def rank(self, user_id, item_ids, novelty=True, skip_invalid_items=True, **kwds):
            e = dict(u=native(user_id), asked=[native(x) for x in item_ids], novelty=novelty, err=True, recs=[], n=0, thr=None)
            self._log(e)
            self._guard(user_id)
            r = super().rank(user_id, item_ids, novelty=novelty, skip_invalid_items=skip_invalid_items, **kwds)
            e['recs'], e['err'] = [native(i) for _, i in r], False
            return r

        def recommend(self, user_id, n=None, novelty=True, interaction_threshold=None, **kwds):
            e = dict(u=native(user_id), asked=[], novelty=novelty, err=True, recs=[], n=n, thr=interaction_threshold)
            self._log(e)
            self._guard(user_id)
            r = super().recommend(user_id, n=n, novelty=novelty, interaction_threshold=interaction_threshold, **kwds)
            e['recs'], e['err'] = [native(i) for _, i in r], False
            return r

        def predict(self, user_id, item_id, skip_errors=False, **kwds):
            if user_id in self.planned:
                if skip_errors:
                    return None
                raise RuntimeError('planned failure')
            return super().predict(user_id, item_id, skip_errors=skip_errors, **kwds)
    return Recording


RecTable, RecKNN = recording(TableModel), recording(UserKNN)


class Spy(RankingMetricABC):
    def __init__(self):
        super().__init__()
        self.seen, self.lock = [], threading.Lock()

    def __call__(self, recommendations, k=None, relevant_recommendations=None, relevant_recommendation=None, relevancies=None):
        with self.lock:
            self.seen.append(dict(k=k, recs=[native(x) for x in recommendations], rel=[native(x) for x in relevant_recommendations], best=native(relevant_recommendation),
                                  rv=[[native(i), native(v)] for i, v in relevancies.items()]))
        return 0.25


class PairSpy(PredictiveMetricABC):
    def __call__(self, y_true, y_pred):
        self.pairs = [[native(a), native(b)] for a, b in zip(y_true, y_pred)]
        return 0.5 if len(y_true) == len(y_pred) else 7.0


def metric(m):
    if m['name'] == 'FScore':
        return M.FScore(beta=m['bn'] / m['bd'])
    if m['name'] in ('DCG', 'NDCG'):
        return getattr(M, m['name'])(strong_relevancy=m['strong'])
    return getattr(M, m['name'])()


def build(sc, rows, backend):
    u, i = IDS[sc['uk']], IDS[sc['ik']]
    floats = any(r[2] % 2 for r in rows)
    return ds.load(dict(cols=['user', 'item', 'interaction'], rows=[[u(a), i(b), c / 2 if floats else c // 2] for a, b, c in rows]), backend)


def run(sc):
    logging.disable(logging.CRITICAL)
    plt.show = lambda *a, **k: None
    U, I = IDS[sc['uk']], IDS[sc['ik']]
    uc = {U(k): k for k in range(1, 30)}
    ic = {I(k): k for k in range(1, 40)}

    def ucode(x):
        return uc.get(x, 0)

    def icode(x):
        return ic.get(x, 0)
    ops, models, tests = [], {}, {}
    for c in sc['calls']:
        b, tb = c['backend'], c['tbackend']
        if b not in models:
            train = build(sc, sc['train'], b)
            kw = dict(verbose=False)
            if sc['dth'] is not None:
                kw['interaction_threshold'] = sc['dth']
            if sc['model'] == 'table':
                mdl = RecTable({(U(x), I(y)): (None if s is None else s / 8) for x, y, s in sc['scores']}, **kw)
            else:
                mdl = RecKNN(k=3, m=1, sim_metric='cosine', shrinkage=None, use_averages=sc['avg'], **kw)
            mdl.setup([])
            mdl.fit(train)
            models[b] = mdl
        mdl = models[b]
        if tb != 'train' and tb not in tests:
            tests[tb] = build(sc, sc['test'], tb)
        test = None if tb == 'train' else tests[tb]
        if tb == 'trainarg':
            test = mdl.interaction_dataset
        rows = sc['train'] if tb in ('train', 'trainarg') else sc['test']
        planned = [U(x) for x in c['planned']]
        mdl.setup(planned)
        if c.get('slow') is not None:
            mdl.slow = U(c['slow'])
        e = dict(op=c['op'], err=False)
        if c['op'] == 'predictive':
            pairs = []
            table = {(x, y): s for x, y, s in sc['scores']}
            known_u, known_i = {r[0] for r in sc['train']}, {r[1] for r in sc['train']}
            for x, y, v in rows:
                s = table.get((x, y))
                pairs.append([v * 4, FAILS if x in c['planned'] else NONE if x not in known_u or y not in known_i or s is None else s])
            spy = PairSpy()
            names = list(c['names'])
            kw = dict(verbose=c['verbose'])
            if names != ['RMSE', 'MSE'] or c['explicit']:
                kw['metrics'] = [getattr(M, n)() for n in names] + ([spy] if c['spied'] else [])
            if c['n'] >= 0:
                kw['n_test_predictions'] = c['n']
            if c['countnone']:
                kw['count_none_predictions'] = True
            if not c['skip']:
                kw['skip_errors'] = False
            spied = c['spied'] and 'metrics' in kw
            e.update(rows=pairs, n=c['n'], countnone=c['countnone'], skip=c['skip'], spied=spied, names=names + (['PairSpy'] if spied else []), res=[], pairs=[])
            try:
                r = predictive_evaluation(mdl, test, **kw)
                e['res'] = [dict(name=n, val=val4(v)) for n, v in r.items()]
                if spied:
                    e['pairs'] = [[s8(a), s8(p)] for a, p in spy.pairs]
            except Exception as ex:
                e.update(err=True, why=repr(ex)[:300])
            ops.append(e)
            continue
        ms = c['metrics']
        spy = Spy()
        kw = dict(verbose=c['verbose'], seed=c['seed'], max_concurrent_threads=c['threads'])
        kw['k'] = c['ks'][0] if len(c['ks']) == 1 and not c['klist'] else list(c['ks'])
        kw['metrics'] = [metric(m) for m in ms] + ([spy] if c['spied'] else [])
        if c['nusers'] >= 0:
            kw['n_test_users'] = c['nusers']
        if c['npos'] >= 0:
            kw['n_pos_interactions'] = c['npos']
        if c['th'] is not None:
            kw['interaction_threshold'] = c['th']
        if c['novelty']:
            kw['novelty'] = True
        if c['op'] == 'ranking':
            if len(c['nneg']) == 1:
                kw['n_neg_interactions'] = c['nneg'][0]
            elif c['nneg']:
                kw['n_neg_interactions'] = c['nneg'][0] / c['nneg'][1]
            if c['gen']:
                kw['generate_negative_pairs'] = True
        elif c['low'] is not None:
            kw['ignore_low_predictions_threshold'] = c['low']
        th = c['th'] if c['th'] is not None else sc['dth'] if sc['dth'] is not None else 1e-3
        e.update(key=c['key'], novelty=c['novelty'], ks=c['ks'], metrics=ms, spied=c['spied'], extra=False, res=[], thc=thcode(c['low']),
                 p=dict(rows=rows, train=sc['train'], users=sorted({r[0] for r in sc['train']}), items=sorted({r[1] for r in sc['train']}), nusers=c['nusers'], npos=c['npos'],
                        nneg=c['nneg'], gen=c['gen'], th=math.ceil(2 * th)))
        if c.get('reach'):
            taken = set()
            for k in range(c['reach']):
                kw['seed'] = c['seed'] + 31 * k
                mdl.setup([])
                spy.seen.clear()
                try:
                    (ranking_evaluation if c['op'] == 'ranking' else recommendation_evaluation)(mdl, test, **kw)
                except Exception as ex:
                    e.update(err=True, why=repr(ex)[:300])
                    break
                taken |= {(ucode(x['u']), icode(y)) for x in mdl.calls for y in x['asked']}
                if c['op'] == 'recommendation':
                    us = {ucode(x['u']) for x in mdl.calls}
                    if len(us) == 1:
                        taken |= {(u, icode(y)) for u in us for x in spy.seen for y in x['rel']}
            ops.append(dict(op='reach', ranking=c['op'] == 'ranking', err=e['err'], p=e['p'], taken=sorted(taken)))
            continue
        try:
            with Perturb(c['sched'], c['delay']):
                r = (ranking_evaluation if c['op'] == 'ranking' else recommendation_evaluation)(mdl, test, **kw)
            names = {'%s@%d' % (m['name'], k): (x + 1, k) for x, m in enumerate(ms) for k in c['ks']}
            for n, v in r.items():
                if n in names:
                    e['res'].append(dict(m=names[n][0], k=names[n][1], val=val4(v)))
                elif not (n.startswith('Spy@') and v in (.25, 0)):
                    e['extra'] = True
        except Exception as ex:
            e.update(err=True, why=repr(ex)[:300])
        calls = list(mdl.calls)
        e['calls'] = [dict(u=ucode(x['u']), asked=[icode(y) for y in x['asked']], novelty=bool(x['novelty']), err=x['err'], recs=[icode(y) for y in x['recs']], n=native(x['n']) if x['n'] is not None else -1,
                           thc=thcode(x['thr']), planned=x['u'] in planned) for x in calls]
        e['calls'].sort(key=lambda x: x['u'])
        e['spies'] = [dict(k=x['k'], recs=[icode(y) for y in x['recs']], rel=[icode(y) for y in x['rel']], best=0 if x['best'] is None else icode(x['best']),
                           rv=[[icode(y), s2(v)] for y, v in x['rv']]) for x in spy.seen]
        ops.append(e)
        plt.close('all')
    for d in list(tests.values()) + [m.interaction_dataset for m in models.values()]:
        if hasattr(d, 'close'):
            d.close()
    gc.collect()
    return dict(ops=ops)


def val4(v):
    v = native(v)
    if not isinstance(v, (int, float)) or isinstance(v, bool) or abs(v) > 1e4:
        return 1999999999
    x = v * 10**4
    return int(round(x)) if abs(x - round(x)) < 1e-4 else 1999999998


def s8(v):
    x = float(v) * 8
    return int(round(x)) if abs(x - round(x)) < 1e-6 else 1999999999


def s2(v):
    if v is None:
        return 1999999999
    x = float(v) * 2
    return int(round(x)) if abs(x - round(x)) < 1e-6 else 1999999999


def thcode(t):
    return NONE if t is None else int(round(float(t) * 1000))


def encode(t):
    return dict(ops=[{k: v for k, v in e.items() if k != 'why'} for e in t['ops']])


# ---------------------------------------------------------------- scenarios
ALL = ['Precision', 'Recall', 'HitRatio', 'FScore', 'AveragePrecision', 'ReciprocalRank', 'DCG', 'NDCG']


def rows(rng, users, items, n, vals, distinct=False):
    cells = [(u, i) for u in users for i in items]
    rng.shuffle(cells)
    cells = cells[:n]
    if distinct:
        vs = rng.sample(range(1, 120), len(cells))
        return [[u, i, v] for (u, i), v in zip(cells, vs)]
    return [[u, i, rng.choice(vals)] for u, i in cells]


def scenario(rng, op):
    distinct = op == 'recommendation' and rng.random() < .35
    ints = rng.random() < .7
    vals = [0, 2, 4, 6, 8] if ints else [0, 1, 2, 3, 5, 8]
    nu, ni = rng.randint(1, 5), rng.randint(2, 9)
    train = rows(rng, range(1, nu + 1), range(1, ni + 1), rng.randint(2, max(3, nu * ni * 2 // 3)), vals)
    extra_u, extra_i = rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1, 3])
    test = rows(rng, range(1, nu + extra_u + 1), range(1, ni + extra_i + 1), rng.randint(1, max(2, nu * ni * 2 // 3)), vals, distinct)
    model = 'table' if op == 'predictive' else rng.choice(['table', 'table', 'knn'])
    pool = rng.choice([[8, 16, 24, 32, 40], list(range(1, 60)), [None, 8, 16, 24], [8]])
    us, its = sorted({r[0] for r in train}), sorted({r[1] for r in train})
    if op == 'predictive' and rng.random() < .5:
        pool = [None, 0, 4, 8, 20, -8, 40]
    scores = [[u, i, rng.choice(pool)] for u in us for i in its]
    sc = dict(uk=rng.choice(list(IDS)), ik=rng.choice(list(IDS)), train=train, test=test, model=model, scores=scores, avg=rng.random() < .5, dth=rng.choice([None, None, 1.0, 2.5]), calls=[])
    if op == 'predictive':
        for _ in range(6):
            sc['calls'].append(dict(op=op, backend=rng.choice(['mem', 'db']), tbackend=rng.choice(['mem', 'db', 'train']), planned=rng.sample(range(1, nu + 1), 1) if rng.random() < .15 else [],
                                    names=rng.choice([['RMSE', 'MSE'], ['MSE', 'RMSE', 'MAE'], ['MAE'], ['RMSE']]), explicit=rng.random() < .5, spied=rng.random() < .7,
                                    n=rng.choice([-1, -1, 1, 2, 3, 50]), countnone=rng.random() < .4, skip=rng.random() < .75, verbose=rng.random() < .2))
        return sc
    for q in range(rng.choice([1, 2])):
        names = rng.sample([m for m in ALL if m not in ('DCG', 'NDCG') or (ints and not distinct)], rng.randint(1, 4))
        ms = [dict(name=n, bn=rng.choice([1, 1, 2]), bd=rng.choice([1, 2]), strong=rng.random() < .5) for n in names]
        npos = -1
        if op == 'ranking':
            npos = rng.choice([-1, -1, 1, 2, 3])
        elif distinct:
            npos = rng.choice([1, 1, 2])
        nneg = rng.choice([[], [], [1], [2], [4], [1, 2], [3, 2]]) if op == 'ranking' else []
        c = dict(op=op, key=q, metrics=ms, spied=npos >= 0 or rng.random() < .6, ks=rng.choice([[10], [1], [2], [3, 1], [1, 2, 5], [4]]), klist=rng.random() < .5, seed=rng.choice([0, 0, 1, 5, 99]),
                 nusers=rng.choice([-1, -1, -1, 1, 2, 50]), npos=npos, nneg=nneg, gen=bool(nneg) and rng.random() < .6, th=rng.choice([None, 0, 1, 2.0, 2.5, 3]) if not distinct else rng.choice([None, 5, 20]),
                 novelty=rng.random() < .4, low=rng.choice([None, None, 1.0, 2.0]) if op == 'recommendation' else None, planned=rng.sample(range(1, nu + 1), 1) if rng.random() < .12 else [])
        for r in range(rng.choice([2, 2, 3])):
            tb = rng.choice(['mem', 'db'])
            if r and sc['calls'][-1]['tbackend'] in ('train', 'trainarg'):
                tb = rng.choice(['train', 'trainarg'])
            elif not r and rng.random() < .15 and not distinct:
                tb = 'train'
            sc['calls'].append(dict(c, backend=rng.choice(['mem', 'mem', 'db']), tbackend=tb, threads=rng.choice([1, 2, 4, 4, 8]), verbose=rng.random() < .3, sched=rng.randint(0, 10**6),
                                    delay=rng.choice([0, .02, .1]), slow=rng.randint(1, nu) if rng.random() < .15 else None))
    return sc


def reach(rng, op):
    """One evaluation, repeated with many seeds."""
    nu, ni = (rng.randint(1, 2), rng.randint(4, 6)) if op == 'ranking' else (1, rng.randint(3, 6))
    train = rows(rng, range(1, nu + 1), range(1, ni + 1), rng.randint(nu * ni // 3, nu * ni // 2), [2, 4, 8])
    train += [[1, i, 2] for i in range(1, ni + 1) if not any(r[1] == i for r in train)]
    test = rows(rng, range(1, nu + 1), range(1, ni + 1), rng.randint(nu * ni // 2, nu * ni), [2, 4, 8])
    sc = dict(uk=rng.choice(list(IDS)), ik=rng.choice(list(IDS)), train=train, test=test, model='table', scores=[[u, i, 8] for u in range(1, nu + 1) for i in range(1, ni + 1)], avg=False, dth=None, calls=[])
    nneg = rng.choice([[], [1], [1], [2], [1, 2], [2, 1]]) if op == 'ranking' else []
    sc['calls'].append(dict(op=op, key=0, reach=120, metrics=[dict(name='Precision', bn=1, bd=1, strong=False)], spied=True, ks=[2], klist=False, seed=rng.randint(0, 9), nusers=-1, npos=rng.choice([-1, 1, 1, 2]),
                            nneg=nneg, gen=bool(nneg) and rng.random() < .6, th=rng.choice([2.0, 3]), novelty=False, low=None, planned=[], backend='mem', tbackend='mem', threads=1, verbose=False, sched=0, delay=0))
    return sc


def _eval(chk, op, tag, quick, thorough):
    if op != 'predictive':
        chk.design('Evaluation', chk.n('Evaluation.cfg', 'Evaluation4.cfg'))
        for b, inv in (('nolock', 'Complete'), ('nojoin', 'Complete'), ('nocount', 'Terminates')):
            chk.design('Evaluation', 'EvaluationBug_%s.cfg' % b, expect_violation=inv)
    scens = [scenario(chk.rng('%s%d' % (tag, k)), op) for k in range(chk.n(quick, thorough))]
    if op != 'predictive':
        scens += [reach(chk.rng('reach%s%d' % (tag, k)), op) for k in range(chk.n(24, 120))]
    chk.scenarios('EvalTrace', run, encode, scens, timeout=120)


def C16(chk):
    _eval(chk, 'ranking', 'r', 700, 6000)


def C17(chk):
    _eval(chk, 'recommendation', 'c', 700, 6000)


def C18(chk):
    chk.design('MetricsMC')
    _eval(chk, 'predictive', 'p', 700, 6000)
