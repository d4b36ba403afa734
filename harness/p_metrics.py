"""C19 ranking metrics, C22 similarities: real results against the definitions of Metrics.tla and Similarity.tla."""
import copy, itertools, math
from fractions import Fraction
import core
from codec import native

from DRecPy.Evaluation import Metrics as M
from DRecPy.Recommender.Baseline import similarity as S
import numpy as np
from scipy.sparse import csr_matrix, lil_matrix, coo_matrix, csc_matrix

BADF = [-7777, 7777]


def frac(v, limit=20000):
    v = native(v)
    if isinstance(v, bool) or not isinstance(v, (int, float)) or math.isinf(v):
        return list(BADF)
    f = Fraction(v).limit_denominator(limit)
    return [f.numerator, f.denominator] if abs(f - Fraction(v)) < 1e-9 else list(BADF)


def fixed(v, scale):
    v = native(v)
    if isinstance(v, bool) or not isinstance(v, (int, float)) or math.isinf(v) or abs(v) * scale > 2e9:
        return -1999999999
    return int(round(v * scale))


# ---------------------------------------------------------------- ranking metrics
RANK = ['Precision', 'Recall', 'HitRatio', 'ReciprocalRank', 'FScore', 'AveragePrecision', 'DCG', 'NDCG']
KINDS = {'int': lambda x: x, 'str': lambda x: 'item %d' % x, 'big': lambda x: 10**12 + x, 'zero': lambda x: x - 1, 'neg': lambda x: 3 - x,
         'text0': lambda x: '' if x == 1 else str(x), 'np': lambda x: np.int64(x - 1)}


def run_metrics(sc):
    name = KINDS[sc['kind']]
    shared = {}
    ops = []

    def build(c):
        if c['op'] == 'FScore':
            return M.FScore(beta=c['beta'][0] / c['beta'][1])
        if c['op'] in ('DCG', 'NDCG'):
            return getattr(M, c['op'])(strong_relevancy=c['strong'])
        return getattr(M, c['op'])()
    for c in sc['calls']:
        key = (c['op'], tuple(c.get('beta', ())), c.get('strong'))
        if key not in shared:
            shared[key] = build(c)
        recs = [name(x) for x in c['recs']]
        kw = {}
        if not c['norel']:
            if c['op'] in ('DCG', 'NDCG'):
                kw['relevancies'] = {name(x): (r / 2 if r % 2 or sc['floats'] else r // 2) for x, r in c['relevancies']}
            elif c['op'] == 'ReciprocalRank':
                kw['relevant_recommendation'] = name(c['best'])
            else:
                kw['relevant_recommendations'] = [name(x) for x in c['rel']]
        if c['k'] >= 0:
            kw['k'] = c['k']
        args0 = copy.deepcopy((recs, kw))
        res = []
        for m in (shared[key], build(c), shared[key]):
            try:
                res.append(('ok', native(m(recs, **kw))))
            except Exception as e:
                res.append(('err', type(e).__name__))
        e = dict(c, changed=(recs, kw) != args0, again=any(r != res[0] for r in res[1:]), err=res[0][0] == 'err')
        e['val'] = e['res'] = None if e['err'] else res[0][1]
        ops.append(e)
    return dict(ops=ops)


def enc_metrics(t):
    out = []
    for e in t['ops']:
        o = dict(beta=[1, 1], strong=True, best=0, rel=[], relevancies=[], pairs=[])
        o.update(e)
        if e['op'] in ('DCG', 'NDCG') and not e['norel']:
            o['val'], o['res'] = (0 if e['err'] else fixed(e['val'], 10000)), [0, 1]
        elif e['op'] == 'RMSE':
            o['val'], o['res'] = 0, [0, 1] if e['err'] else frac(e['res'] ** 2)
        else:
            o['val'], o['res'] = 0, [0, 1] if e['err'] else frac(e['res'])
        out.append(o)
    return dict(ops=out)


def metric_call(op, recs, k, rel, best, rel2, beta=(1, 1), strong=True, norel=False):
    return dict(op=op, recs=list(recs), k=k, rel=list(rel), best=best, relevancies=[list(x) for x in rel2], beta=list(beta), strong=strong, norel=norel)


def C19(chk):
    chk.design('MetricsMC', chk.n('MetricsMC.cfg', 'MetricsMC4.cfg'), workers=chk.n(2, 4))
    calls = []
    items = [1, 2, 3]
    rng = chk.rng('x')
    # every list, relevant set and truncation within the bounds of MetricsMC.cfg
    for n in range(0, 4):
        for recs in itertools.permutations(items, n):
            for r in range(0, 4):
                for rel in itertools.combinations(items, r):
                    for k in (-1, 1, 2, 3, 4):
                        for op in ('Precision', 'Recall', 'HitRatio', 'FScore', 'AveragePrecision'):
                            calls.append(metric_call(op, recs, k, rel, 0, [], beta=rng.choice([(1, 1), (2, 1), (1, 2), (3, 2), (0, 1)])))
            for k in (-1, 1, 2, 3, 4):
                for best in items:
                    calls.append(metric_call('ReciprocalRank', recs, k, [], best, []))
                for rel2 in itertools.product((0, 2, 5), repeat=3):
                    if rng.random() < .25 or chk.thorough:
                        for op in ('DCG', 'NDCG'):
                            calls.append(metric_call(op, recs, k, [], 0, list(zip(items, rel2)), strong=rng.random() < .5))
    for _ in range(chk.n(3000, 30000)):
        pool = list(range(1, rng.choice([3, 6, 9, 12])))
        n = rng.randint(0, min(8, len(pool)))
        recs = rng.sample(pool, n)
        if rng.random() < .15 and recs:
            recs = recs[:6] + [rng.choice(recs)]
            rng.shuffle(recs)
        rel = rng.sample(pool, rng.randint(0, min(8, len(pool))))
        k = rng.choice([-1, -1, 1, 2, 3, 4, 5, 6, 8, 10, 50, 0])
        op = rng.choice(RANK)
        if op == 'HitRatio' and rel and rng.random() < .2:  # counts distinct items
            rel = rel + [rng.choice(rel) for _ in range(rng.randint(1, 3))]
        rel2 = [[x, rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8])] for x in pool]
        rng.shuffle(rel2)
        calls.append(metric_call(op, recs, k, rel, rng.choice(pool), rel2, beta=rng.choice([(1, 1), (2, 1), (1, 2), (3, 2), (1, 4)]),
                                 strong=rng.random() < .5, norel=rng.random() < .05))
    rng.shuffle(calls)
    scens = [dict(kind=rng.choice(sorted(KINDS)), floats=rng.random() < .5, calls=calls[i:i + 40]) for i in range(0, len(calls), 40)]
    chk.scenarios('MetricsTrace', run_metrics, enc_metrics, scens, timeout=60)


# ---------------------------------------------------------------- similarities
SIMS = {'cosine': 'cosine_sim', 'cosine_cf': 'cosine_sim_cf', 'adjusted_cosine': 'adjusted_cosine_sim', 'jaccard': 'jaccard_sim',
        'pearson': 'pearson_corr', 'msd': 'msd'}
FORMS = {'csr': csr_matrix, 'lil': lil_matrix, 'dense': np.array, 'csc': csc_matrix, 'coo': coo_matrix}


def _dense(m):
    return np.array(m.todense() if hasattr(m, 'todense') else m)


class NoProducts:
    """The first product of sparse matrices does not fit into memory."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = [(c, n, c.__dict__.get(n)) for c in (csr_matrix, csc_matrix) for n in ('dot', '__matmul__', '__mul__')] if self.on else []

        def fail(n, real):
            def product(m, *a, **k):
                if self.on:
                    self.on = False
                    raise MemoryError
                return real(m, *a, **k)
            return product
        for c, n, _ in self.old:
            setattr(c, n, fail(n, getattr(c, n)))
        return self

    def __exit__(self, *a):
        for c, n, f in self.old:
            setattr(c, n, f) if f is not None else delattr(c, n)


def run_sims(sc):
    ops = []
    for c in sc['calls']:
        dense = np.array(c['m'], dtype=float) / c['den'] if c['den'] != 1 or c['dtype'] == 'float' else np.array(c['m'], dtype=int)
        arg = FORMS[c['form']](dense)
        before = _dense(arg).copy()
        e = dict(c, err=False, shape=True, res=[])
        try:
            with NoProducts(c['op'] == 'jaccard' and c['oom']):
                r = getattr(S, SIMS[c['op']])(arg)
            r = _dense(r)
            n = len(c['m'])
            if c['op'] == 'pearson' and not sc.get('finding') and r.ndim == 2 and r.shape[0] == r.shape[1] < n:
                r = np.pad(r, (0, n - len(r)))  # known finding
            if r.shape != (n, n):
                e['shape'] = False
            else:
                e['res'] = [[None if math.isnan(r[i, j]) else float(r[i, j]) for j in range(n)] for i in range(n)]
        except Exception as ex:
            e['err'], e['why'] = True, repr(ex)
        e['changed'] = bool((_dense(arg) != before).any() or _dense(arg).dtype != before.dtype)
        ops.append(e)
    return dict(ops=ops)


def enc_sims(t):
    out = []
    for e in t['ops']:
        def val(v):
            if v is None:
                return [0, -999]
            sign = 0 if abs(v) < 1e-12 else 1 if v > 0 else -1
            v = v * v if e['op'] in ('cosine', 'cosine_cf', 'adjusted_cosine', 'pearson') else abs(v)
            return [sign, int(math.floor(v * 1e8 + .5)) if v < 20 else -999]
        out.append(dict(op=e['op'], m=e['m'], err=e['err'], shape=e['shape'], changed=e['changed'], res=[[val(v) for v in r] for r in e['res']]))
    return dict(ops=out)


def C22(chk):
    chk.design('SimilarityMC')
    rng = chk.rng('s')
    calls = []
    vals = [0, 1, 2, 5]
    for a in itertools.product(vals, repeat=2):
        for b in itertools.product(vals, repeat=2):
            for op in SIMS:
                calls.append(dict(op=op, m=[list(a), list(b)], den=1, dtype=rng.choice(['int', 'float']), form=rng.choice(sorted(FORMS)), oom=rng.random() < .4))
    for _ in range(chk.n(1600, 12000)):
        n, c = rng.randint(1, 5), rng.randint(1, 5)
        p = rng.choice([.2, .5, .8, 1])
        vals, den = rng.choice([([1, 2, 3, 4, 5], 1), ([1, 2, 3, 4, 5, 6, 7, 8, 9, 10], 2), ([-1, 1], 1), ([1], 1), ([-2, -1, 1, 2, 3], 1), ([1, 5], 1)])
        m = [[rng.choice(vals) if rng.random() < p else 0 for _ in range(c)] for _ in range(n)]
        if rng.random() < .2:
            m[rng.choice([-1, rng.randrange(n)])] = [0] * c
        if rng.random() < .2 and n > 1:
            m[0] = list(m[-1])
        calls.append(dict(op=rng.choice(sorted(SIMS)), m=m, den=den, dtype=rng.choice(['int', 'float']), form=rng.choice(sorted(FORMS)), oom=rng.random() < .4))
    rng.shuffle(calls)
    scens = [dict(calls=calls[i:i + 20]) for i in range(0, len(calls), 20)]
    scens.append(dict(finding='pearson_shape', calls=[dict(op='pearson', m=[[1, 2, 3], [3, 2, 1], [0, 0, 0]], den=1, dtype='float', form='csr', oom=False)]))
    chk.scenarios('SimilarityTrace', run_sims, enc_sims, scens, timeout=60)
