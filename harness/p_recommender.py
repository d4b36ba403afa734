"""C12 query interface, C13 KNN predictions, C26 saved models: calls of real recommenders."""
import gc, json, os, subprocess, sys, tempfile
import core, ds
from codec import native
from models import TableModel

import DRecPy.Dataset  # noqa: F401
from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
from DRecPy.Recommender import CDAE, DMF, Caser

NONE = -2000000000
METRICS = ['adjusted_cosine', 'cosine', 'cosine_cf', 'jaccard', 'msd', 'pearson']


def fix6(v):
    if v is None:
        return NONE
    try:
        v = float(v)
    except Exception:
        return 1999999999
    return int(round(v * 10**6)) if v == v and abs(v) < 1900 else 1999999999


# ---------------------------------------------------------------- contents
IDS = {'int': lambda k: k, 'shift': lambda k: k + 1, 'zero': lambda k: k - 1, 'big': lambda k: 10**10 + 7 * k, 'str': lambda k: 'id %d' % k, 'strn': lambda k: "o'%d" % k}
FOREIGN = {'int': [0, 99, 'x', None], 'shift': [0, 1, 99, None, 'u'], 'zero': [-1, 99, None, 'x'], 'big': [0, 1, 2, 3, None], 'str': ['id 77', 0, 1, None, ''], 'strn': ["o'", 0, None]}


def matrix(rng, nu, ni, vals, density):
    r = [[rng.choice(vals) if rng.random() < density else None for _ in range(ni)] for _ in range(nu)]
    for row in r:  # every user and item occurs
        if all(x is None for x in row):
            row[rng.randrange(ni)] = rng.choice(vals)
    for i in range(ni):
        if all(row[i] is None for row in r):
            r[rng.randrange(nu)][i] = rng.choice(vals)
    return r


ZEROS = [[0, 2, 4, 6], [0, 0, 2, 4, 10], [0, 1, 3]]  # interactions of zero are interactions too


def dataset(rng, knn, dup=False, nmin=2, nmax=6, zeros=True):
    vals = rng.choice([[200, 201, 202, 203]] if knn == 'close' else [[2, 4, 6, 8, 10], [2, 4, 6, 8, 10], [1, 2, 3, 5, 8], [2], [2, 10], [-2, 2, 4]] + ZEROS[:3 * zeros] if knn else [[2, 4, 6, 8, 10], [1, 2], [-2, 2, 6], [2], [0, 2, 4]])
    nu, ni = rng.randint(nmin, nmax), rng.randint(nmin, nmax)
    r = matrix(rng, nu, ni, vals, rng.choice([.3, .5, .7, .9]))
    cells = [(u, i) for u in range(nu) for i in range(ni) if r[u][i] is not None]
    rng.shuffle(cells)
    if dup:
        cells += [rng.choice(cells) for _ in range(rng.randint(0, 3))]
    return dict(uk=rng.choice(list(IDS)), ik=rng.choice(list(IDS)), rows=[[u, i, r[u][i]] for u, i in cells], ts=rng.random() < .3)


def build(d, backend):
    floats = any(x[2] % 2 for x in d['rows'])
    rows = [[IDS[d['uk']](u + 1), IDS[d['ik']](i + 1), x / 2 if floats else x // 2] + ([k * 7 % 50] if d['ts'] else []) for k, (u, i, x) in enumerate(d['rows'])]
    return ds.load(dict(cols=['user', 'item', 'interaction'] + (['timestamp'] if d['ts'] else []), rows=rows), backend, via=d.get('via', 'csv'))


def codes(d):
    """Codes of the raw ids: users and items 1.. in order of first appearance."""
    us, its = list(dict.fromkeys(x[0] for x in d['rows'])), list(dict.fromkeys(x[1] for x in d['rows']))
    return {u: k + 1 for k, u in enumerate(us)}, {i: k + 1 for k, i in enumerate(its)}


class Ids:
    def __init__(self, d):
        self.uc, self.ic = codes(d)
        self.d = d
        self.u = [IDS[d['uk']](u + 1) for u in self.uc]
        self.i = [IDS[d['ik']](i + 1) for i in self.ic]

    def item_code(self, raw):
        raw = native(raw)
        for k, x in enumerate(self.i):
            if type(x) is type(raw) and x == raw:
                return k + 1
        return 0

    def pick(self, kind, code, typed=False):
        """Raw id of a code; code <= 0 picks an unknown id (typed: of the type of the known ones)."""
        l, f = (self.u, FOREIGN[self.d['uk']]) if kind == 'u' else (self.i, FOREIGN[self.d['ik']])
        if 1 <= code <= len(l):
            return l[code - 1], code
        x = f[-code % len(f)]
        if typed and type(x) is not type(l[0]):
            x = f[1] if type(f[1]) is type(l[0]) else f[0]
        if any(type(x) is type(y) and x == y for y in l):
            x = -5 if typed else None
        return x, 0


def make_model(p, ids=None):
    kw = dict(verbose=p.get('verbose', False), seed=p.get('seed'))
    if p.get('ith') is not None:
        kw['interaction_threshold'] = p['ith']
    if p['model'] in ('user', 'item'):
        cls = UserKNN if p['model'] == 'user' else ItemKNN
        return cls(k=p['k'], m=p['m'], sim_metric=p['metric'], aggregation=p['agg'], shrinkage=None if p['shrink'] < 0 else p['shrink'], use_averages=p['avg'], **kw)
    if p['model'] == 'table':
        return TableModel(None, **kw)
    if p['model'] == 'cdae':
        return CDAE(hidden_factors=4, **kw)
    if p['model'] == 'dmf':
        return DMF(user_factors=[6, 4], item_factors=[6, 4], **kw)
    return Caser(**kw)


def training(p, d):
    """Neural models: some are trained for a few epochs, on positives."""
    xs = {x[2] for x in d['rows']}
    if p['model'] in ('cdae', 'dmf') and max(xs) >= max(2 * (p.get('ith') or 0), 1) and len(xs) > 1:
        return dict(epochs=len(d['rows']) % 3, batch_size=3, neg_ratio=0, learning_rate=.05)
    return dict(epochs=0) if p['model'] in ('cdae', 'dmf', 'caser') else {}


def run(sc):
    ops = []
    p = sc['p']
    mdl = make_model(p)
    data = ids = None
    for c in sc['calls']:
        if c['op'] == 'fit':
            old, data = data, build(c['d'], c['backend'])
            ids = Ids(c['d'])
            nu, ni = len(ids.u), len(ids.i)
            e = dict(op='fit', users=list(range(1, nu + 1)), items=list(range(1, ni + 1)), seen=sorted({(ids.uc[x[0]], ids.ic[x[1]]) for x in c['d']['rows']}), table=[], err=False)
            r = [[0] * ni for _ in range(nu)]
            for u, i, x in c['d']['rows']:
                r[ids.uc[u] - 1][ids.ic[i] - 1] = 1000000 if x == 0 else x  # RatedZero
            e['p'] = dict(kind=p['model'], nu=nu, ni=ni, r=r, k=p.get('k', 0), m=p.get('m', 0), metric=p.get('metric', ''), agg=p.get('agg', ''), shrink=p.get('shrink', 0), avg=p.get('avg', False))
            if p['model'] == 'table':
                table = {}
                for u in range(nu):
                    for i in range(ni):
                        s = c['scores'][u][i]
                        table[(ids.u[u], ids.i[i])] = None if s is None else s / 8
                        e['table'].append([u + 1, i + 1, NONE if s is None else s * 125000])
                mdl.table = table
            try:
                mdl.fit(data, **training(p, c['d']), copy_dataset=c['copy'])
                if p['model'] == 'caser':  # no point predictions: scores as in a complete ranking
                    for u in range(nu):
                        for s, raw in mdl.rank(ids.u[u], list(ids.i), novelty=False):
                            e['table'].append([u + 1, ids.item_code(raw), fix6(s)])
            except Exception as ex:
                e.update(err=True, why=repr(ex)[:300])
            ops.append(e)
            if old is not None and hasattr(old, 'close'):
                old.close()
            continue
        if ids is None:
            i0 = Ids(sc['calls'][-1]['d'])
        else:
            i0 = ids
        u, uc = i0.pick('u', c['u'])
        e = dict(op=c['op'], u=uc, err=False)
        try:
            if c['op'] == 'predict':
                i, icode = i0.pick('i', c['i'])
                e.update(i=icode, skip=c['skip'], v=NONE)
                kw = dict(skip_errors=True) if c['skip'] else {}
                if p['model'] == 'table' and len(ops) % 3 == 0:
                    kw['context'] = 1  # other arguments are for the model
                e['v'] = fix6(mdl.predict(u, i, **kw))
            elif c['op'] == 'rank':
                picks = [i0.pick('i', k, True) for k in c['asked']]
                e.update(asked=[k for _, k in picks], novelty=c['novelty'], skipinv=c['skipinv'], n=c['n'], res=[])
                kw = {} if c['novelty'] else dict(novelty=False)
                if not c['skipinv']:
                    kw['skip_invalid_items'] = False
                if c['n'] >= 0:
                    kw['n'] = c['n']
                e['res'] = [[fix6(s), i0.item_code(x)] for s, x in mdl.rank(u, [x for x, _ in picks], **kw)]
            else:
                e.update(n=c['n'], novelty=c['novelty'], th=c['th'], res=[])
                kw = {} if c['novelty'] else dict(novelty=False)
                if c['n'] >= 0:
                    kw['n'] = c['n']
                if c['th'] != NONE:
                    kw['interaction_threshold'] = c['th'] / 10**6
                e['res'] = [[fix6(s), i0.item_code(x)] for s, x in mdl.recommend(u, **kw)]
        except Exception as ex:
            e.update(err=True, why=repr(ex)[:300])
        ops.append(e)
    if data is not None and hasattr(data, 'close'):
        data.close()
    if mdl.interaction_dataset is not None and mdl.interaction_dataset is not data and hasattr(mdl.interaction_dataset, 'close'):
        mdl.interaction_dataset.close()
    gc.collect()
    return dict(ops=ops)


def encode(t):
    return dict(ops=[{k: v for k, v in e.items() if k != 'why'} for e in t['ops']])


# ---------------------------------------------------------------- scenarios
def queries(rng, d, n, predict_all=True, predicts=True):
    uc, ic = codes(d)
    nu, ni = len(uc), len(ic)
    out = []
    if predict_all:
        cells = [(u, i) for u in range(1, nu + 1) for i in range(1, ni + 1)]
        rng.shuffle(cells)
        out += [dict(op='predict', u=u, i=i, skip=True) for u, i in cells]
    for _ in range(n):
        u = rng.randint(1, nu) if rng.random() < .9 else -rng.randint(0, 6)
        kind = rng.choice(['predict', 'rank', 'rank', 'recommend', 'recommend'])
        if kind == 'predict' and predicts:
            out.append(dict(op='predict', u=u, i=rng.randint(1, ni) if rng.random() < .8 else -rng.randint(0, 6), skip=rng.random() < .5))
        elif kind == 'recommend':
            out.append(dict(op='recommend', u=u, n=rng.choice([-1, -1, 0, 1, 2, 3, ni, ni + 2]), novelty=rng.random() < .5, th=rng.choice([NONE, NONE, 10**6, 2 * 10**6, 3 * 10**6, 0, 2500000, -10**6])))
        else:
            asked = [rng.randint(1, ni) for _ in range(rng.randint(0, ni))] if rng.random() < .4 else rng.sample(range(1, ni + 1), rng.randint(0, ni))
            if rng.random() < .3:
                asked.insert(rng.randint(0, len(asked)), -rng.randint(0, 6))
            out.append(dict(op='rank', u=u, asked=asked, novelty=rng.random() < .5, skipinv=rng.random() < .7, n=rng.choice([-1, -1, -1, 0, 1, 2, len(asked), len(asked) + 1])))
    return out


def knn_params(rng):
    return dict(model=rng.choice(['user', 'item']), k=rng.choice([1, 1, 2, 2, 3, 5, 20]), m=rng.choice([0, 1, 1, 2, 2, 3]), metric=rng.choice(METRICS), agg=rng.choice(['mean', 'weighted_mean', 'weighted_mean']),
                shrink=rng.choice([-1, 0, 1, 10, 100]), avg=rng.random() < .4, verbose=rng.random() < .1)


def scenario_c12(rng, kind):
    if kind == 'knn':
        p = knn_params(rng)
    else:
        p = dict(model=kind, seed=rng.randint(0, 99))
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        close = kind == 'knn' and rng.random() < .5  # predictions that differ by little
        d = dataset(rng, 'close' if close else kind == 'knn', dup=kind != 'knn', zeros=p.get('metric') != 'jaccard', **(dict(nmin=5, nmax=10) if close else {}))
        if kind == 'caser':
            d['ts'] = True  # sorted by it
            while min(sum(1 for x in d['rows'] if x[0] == u) for u in {x[0] for x in d['rows']}) < 5:
                d = dataset(rng, False, nmin=7, nmax=8)
                d['rows'] = [x for u in {x[0] for x in d['rows']} for x in [y for y in d['rows'] if y[0] == u]]
                d['ts'] = True
                keep = {u for u in {x[0] for x in d['rows']} if sum(1 for x in d['rows'] if x[0] == u) >= 5}
                d['rows'] = [x for x in d['rows'] if x[0] in keep] or d['rows']
        if not calls and rng.random() < .2:  # before fitting
            calls += [q for q in queries(rng, d, 3, False)]
        uc, ic = codes(d)
        pool = rng.choice([[8, 16, 24], [1, 2, 3, 4, 5, 40, None], [-8, 0, 8, None], [8], [None, 8]])
        f = dict(op='fit', d=d, backend=rng.choice(['mem', 'db']) if kind != 'caser' else 'mem', copy=rng.random() < .3)
        if kind == 'table':
            f['scores'] = [[rng.choice(pool) for _ in ic] for _ in uc]
        calls.append(f)
        calls += queries(rng, d, 25 if kind in ('table', 'knn') else 15, kind != 'caser', kind != 'caser')
    if calls[0]['op'] != 'fit':  # queries before the first fit use its ids
        k = next(k for k, c in enumerate(calls) if c['op'] == 'fit')
        calls = [dict(c, d=calls[k]['d']) if j < k else c for j, c in enumerate(calls)]
    return dict(p=p, calls=calls)


def run_c12(sc):
    # queries before fitting carry the ids of the dataset fitted later
    ops = []
    k = next(j for j, c in enumerate(sc['calls']) if c['op'] == 'fit')
    if k:
        pre = dict(p=sc['p'], calls=sc['calls'][:k])
        ops = run(pre)['ops']
    return dict(ops=ops + run(dict(p=sc['p'], calls=sc['calls'][k:]))['ops'])


def C12(chk):
    chk.design('RecommenderMC', chk.n('RecommenderMC.cfg', 'RecommenderMC4.cfg'))
    for b in ('noveltylate', 'nonescored', 'thresholdstrict'):
        chk.design('RecommenderMC', 'RecommenderMCBug_%s.cfg' % b, expect_violation='Correct')
    scens = []
    for k in range(chk.n(900, 8000)):
        scens.append(scenario_c12(chk.rng('t%d' % k), 'table'))
    for k in range(chk.n(250, 2000)):
        scens.append(scenario_c12(chk.rng('k%d' % k), 'knn'))
    for kind, n in (('cdae', 40), ('dmf', 24), ('caser', 8)):
        for k in range(chk.n(n, n * 4)):
            scens.append(scenario_c12(chk.rng('%s%d' % (kind, k)), kind))
    chk.rng('order').shuffle(scens)
    chk.scenarios('RecommenderTrace', run_c12, encode, scens)


def C13(chk):
    chk.design('KNNMC', chk.n('KNNMC.cfg', 'KNNMCFull.cfg'), workers=chk.n(3, 4), timeout=chk.n(300, 900))
    chk.design('KNNMC', 'KNNMCBug_latem.cfg', expect_violation='Admissible')
    if chk.tier != 'quick':
        chk.design('KNNMC', 'KNNMCZero.cfg', workers=6)
    scens = []
    for k in range(chk.n(900, 8000)):
        rng = chk.rng('k%d' % k)
        p = knn_params(rng)
        calls = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            d = dataset(rng, True, nmax=rng.choice([4, 5, 6]), zeros=p['metric'] != 'jaccard')
            calls.append(dict(op='fit', d=d, backend=rng.choice(['mem', 'mem', 'db']), copy=rng.random() < .3))
            calls += queries(rng, d, 6)
        scens.append(dict(p=p, calls=calls))
    chk.scenarios('KNNTrace', run, encode, scens)


# ---------------------------------------------------------------- saved models
CODES = {}


def canon(x):
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    x = native(x)
    if hasattr(x, 'numpy'):
        x = native(x.numpy())
    return repr(x)


def answer(mdl, q):
    op, u, a = q
    try:
        if op == 'predict':
            r = mdl.predict(u, a['i'], skip_errors=a['skip'])
        elif op == 'rank':
            r = mdl.rank(u, a['items'], novelty=a['novelty'], skip_invalid_items=a['skipinv'])
        elif op == 'recommend':
            r = mdl.recommend(u, n=a['n'], novelty=a['novelty'], interaction_threshold=a['th'])
        elif op == 'data':
            d = mdl.interaction_dataset
            r = d if d is None else [list(d.columns), [list(x) for x in d.values_list(to_list=True)], len(d),
                                     [d.user_to_uid(x) for x in d.unique('user').values_list('user', to_list=True)]]
        else:
            r = [mdl.fitted, mdl.n_users, mdl.n_items, mdl.n_rows, mdl.min_interaction, mdl.max_interaction, mdl.interaction_threshold, mdl.seed, mdl.verbose]
        return json.dumps(canon(r))
    except Exception as ex:
        return 'error ' + type(ex).__name__


def run_files(sc):
    insts, ops, later = {}, [], []
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    jobs = []

    def ask_all(m, mdl, qs):
        for k, q in qs:
            ops.append(dict(op='ask', m=m, q=k, a=answer(mdl, q)))
    qs_of, ver = {}, {}
    fileq = {}
    for c in sc['calls']:
        e = dict(op=c['op'], m=c['m'], err=False)
        try:
            if c['op'] == 'fit':
                if c['m'] not in insts:
                    insts[c['m']] = make_model(c['p'])
                mdl = insts[c['m']]
                ids = Ids(c['d'])
                if c.get('unfitted'):
                    insts[c['m']] = make_model(c['p'])
                elif c['p']['model'] == 'table':
                    mdl.table = {(ids.u[u], ids.i[i]): (None if s is None else s / 8) for u, row in enumerate(c['scores']) for i, s in enumerate(row)}
                if not c.get('unfitted'):
                    mdl.fit(build(c['d'], 'mem'), copy_dataset=c['copy'], **training(c['p'], c['d']))
                qs = [('attrs', 0, None), ('data', 0, None)]
                for q in c['queries']:
                    u = ids.pick('u', q['u'])[0]
                    if q['op'] == 'predict':
                        qs.append(('predict', u, dict(i=ids.pick('i', q['i'])[0], skip=q['skip'])))
                    elif q['op'] == 'rank':
                        qs.append(('rank', u, dict(items=[ids.pick('i', k, True)[0] for k in q['asked']], novelty=q['novelty'], skipinv=q['skipinv'])))
                    else:
                        qs.append(('recommend', u, dict(n=None if q['n'] < 0 else q['n'], novelty=q['novelty'], th=None if q['th'] == NONE else q['th'] / 10**6)))
                qs_of[c['m']] = list(enumerate(qs))
            elif c['op'] == 'save':
                e['f'] = c['f']
                fileq[c['f']] = qs_of[c['m']]
                insts[c['m']].save(os.path.join(folder, c['f']))
            elif c['op'] == 'load':
                e['f'] = c['f']
                insts[c['m']] = TableModel.load(os.path.join(folder, c['f']))
                qs_of[c['m']] = fileq[c['f']]
            elif c['op'] == 'ask':
                qs = qs_of[c['m']]
                ask_all(c['m'], insts[c['m']], [qs[k % len(qs)] for k in c['which']] if c['which'] else qs)
                continue
            elif c['op'] == 'child':
                cp = os.path.join(folder, 'job%d' % len(jobs))
                core.shutil.copy(os.path.join(folder, c['f']), cp)
                ops.append(dict(op='load', m=c['m'], f=c['f'], err=False))
                jobs.append(dict(file=cp, m=c['m'], qs=fileq[c['f']], at=len(ops)))
                continue
        except Exception as ex:
            e.update(err=True, why=repr(ex)[:300])
        ops.append(e)
        if e['err']:  # what follows would need its result
            break
    if jobs:
        src = os.path.join(folder, 'jobs.json')
        json.dump(jobs, open(src, 'w'), default=core._json_default)
        env = dict(os.environ, DATA_FOLDER=os.path.join(folder, 'data'), VERIF_REPO_PATH=core.REPO)
        out = os.path.join(folder, 'out.json')
        subprocess.run([sys.executable, os.path.join(core.VERIF, 'harness', 'load_child.py'), src, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        res = json.load(open(out))
        for j, r in reversed(list(zip(jobs, res))):
            if r['err']:
                ops[j['at'] - 1]['err'] = True
                ops[j['at'] - 1]['why'] = r['why']
            ops[j['at']:j['at']] = [dict(op='ask', m=j['m'], q=k, a=a) for k, a in r['answers']]
    core.shutil.rmtree(folder, ignore_errors=True)
    return dict(ops=ops)


def encode_files(t):
    code, ops = {}, []
    for e in t['ops']:
        e = {k: v for k, v in e.items() if k != 'why'}
        if e['op'] == 'ask':
            e['a'] = code.setdefault(e['a'], len(code) + 1)
        ops.append(e)
    return dict(ops=ops)


def C26(chk):
    chk.design('ModelFiles')
    chk.design('ModelFiles', 'ModelFilesBug_alias.cfg', expect_violation='Independent')
    scens = []

    def fit(rng, m, p):
        d = dataset(rng, p['model'] not in ('table', 'cdae', 'dmf'))
        d['via'] = rng.choice(['csv', 'df'])
        uc, ic = codes(d)
        f = dict(op='fit', m=m, p=p, d=d, copy=rng.random() < .3, queries=queries(rng, d, 12))
        if p['model'] == 'table':
            f['scores'] = [[rng.choice([None, 1, 2, 3, 8, 40]) for _ in ic] for _ in uc]
        return f

    def history(rng, child, kind=None):
        p = dict(model=kind) if kind else knn_params(rng) if rng.random() < .75 else dict(model='table', seed=1)
        p.update(ith=rng.choice([None, 0, 0.5, 3]), seed=rng.choice([None, 0, 7]))
        calls = [fit(rng, 'a', p)]
        if rng.random() < .15:
            calls[0]['unfitted'] = True
        files, live = [], ['a']
        for _ in range(rng.randint(3, 8)):
            k = rng.random()
            if k < .3 or not files:
                f = 'f%d' % rng.randint(1, 3)
                if rng.random() < .5:
                    calls.append(dict(op='ask', m=live[0], which=[rng.randint(0, 30) for _ in range(4)]))
                m = rng.choice(live)
                calls.append(dict(op='save', m=m, f=f))
                files = sorted(set(files) | {f})
            elif k < .6:
                m = 'bcdefghijk'[len(live) - 1]
                f = rng.choice(files)
                if child:
                    calls.append(dict(op='child', m=m + 'x', f=f))
                calls.append(dict(op='load', m=m, f=f))
                live.append(m)
            elif k < .75:
                m = rng.choice(live)
                calls.append(fit(rng, m, p))
            calls.append(dict(op='ask', m=rng.choice(live), which=[]))
        for m in live:
            calls.append(dict(op='ask', m=m, which=[]))
        return calls
    for k in range(chk.n(500, 4000)):
        scens.append(dict(calls=history(chk.rng('h%d' % k), False)))
    for k in range(chk.n(40, 240)):
        scens.append(dict(calls=history(chk.rng('n%d' % k), False, ['cdae', 'dmf'][k % 2])))
    for k in range(chk.n(8, 48)):  # with loads in a fresh process
        rng, calls = chk.rng('c%d' % k), []
        for part in range(5):
            calls += [dict(c, m=c['m'] + str(part), **({'f': c['f'] + str(part)} if 'f' in c else {})) for c in history(rng, True)]
        scens.append(dict(calls=calls))
    scens = scens[-chk.n(8, 48):] + scens[:-chk.n(8, 48)]
    chk.scenarios('ModelFilesTrace', run_files, encode_files, scens)
