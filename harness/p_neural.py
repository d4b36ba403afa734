"""C27 training data of CDAE, DMF and Caser (and their training protocol for C14 and C15): real fits, every step recorded."""
import gc, math, zlib
import numpy as np
import core, ds
from codec import native
from p_training import MaxRule, s8

import DRecPy.Dataset  # noqa: F401
from DRecPy.Recommender import CDAE, DMF, Caser
from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
from DRecPy.Sampler import PointSampler, ListSampler
import tensorflow as tf
import matplotlib.pyplot as plt

BASES = dict(cdae=CDAE, dmf=DMF, caser=Caser)
SAMPLED, INSIDE = [], []


def _record(cls, name):
    real = getattr(cls, name)

    def recording(self, *a, **k):  # only what the caller outside of the sampler gets
        INSIDE.append(name)
        try:
            r = real(self, *a, **k)
        finally:
            INSIDE.pop()
        if not INSIDE:
            SAMPLED.extend(r if type(r) is list else [r])
        return r
    setattr(cls, name, recording)


for _name in ('sample', 'sample_one', 'sample_positive', 'sample_negative'):
    _record(PointSampler, _name)
_record(ListSampler, 'sample_group_records')


def q(x, unit):
    x = float(x)
    if math.isnan(x) or abs(x) * unit > 2e9:
        return -999999999
    return int(math.floor(x * unit + .5))


def table(x):
    """Predictions or targets as a list of rows."""
    if hasattr(x, 'numpy'):
        x = x.numpy()
    if isinstance(x, (list, tuple)) and x and (hasattr(x[0], 'numpy') or isinstance(x[0], (list, tuple, np.ndarray))):
        return [np.asarray(r.numpy() if hasattr(r, 'numpy') else r, dtype=np.float64).ravel().tolist() for r in x]
    a = np.asarray([float(v) for v in x] if isinstance(x, (list, tuple)) else x, dtype=np.float64)
    return [a.tolist()] if a.ndim == 1 else [r.ravel().tolist() for r in a]


class Log:
    def __init__(self):
        self.events, self.pairs, self.model = [], None, None

    def vars(self):
        m = self.model
        out = list(m.trainable_weights)
        for t in m.trainable_layers + m.trainable_models:
            out += list(t.trainable_weights)
        return out

    def w(self):
        return [zlib.crc32(np.ascontiguousarray(v.numpy()).tobytes()) & 0x3fffffff for v in self.vars()]

    def flush(self):
        if self.pending is None:
            return
        opt, self.pending = self.pending, None
        pairs, self.pairs = self.pairs, None
        vs = self.vars()
        times = [1] * len(vs)
        grads = opt == 'default' and self.kind == 'cdae'
        if opt != 'default':
            given = [id(v) for _, v in pairs or []]
            times = [given.count(id(v)) for v in vs]
            grads = any(g is not None and bool(np.any(tf.convert_to_tensor(g).numpy() != 0)) for g, _ in pairs or [])
        self.events.append(dict(op='update', times=times, w=self.w(), grads=grads, expected=[]))

    def add(self, **e):
        self.flush()
        self.events.append(e)


class Recording:
    """Optimizer that notes the variables it is given, around plain gradient descent or Adam."""

    def __init__(self, log, inner):
        self.log, self.inner = log, inner

    def apply_gradients(self, pairs, **kw):
        pairs = list(pairs)
        self.log.pairs = (self.log.pairs or []) + pairs
        if self.inner is None:
            for g, v in pairs:
                if g is not None:
                    v.assign_sub(tf.convert_to_tensor(g) * .5)
        else:
            self.inner.apply_gradients(pairs, **kw)


def recorder(kind):
    base = BASES[kind]

    class Recorded(base):
        def _pre_fit(self, *a, **k):
            super()._pre_fit(*a, **k)
            if kind == 'caser':  # creates the variables of its layers
                self._rank(0, list(range(self.n_items)), self.n_items, False)
            self.log.e = 0
            self.log.add(op='prefit', w=self.log.w())

        def _sample_batch(self, batch_size, **k):
            del SAMPLED[:]
            self.log.add(op='sample', batch=batch_size)
            self.log.e += 1
            self.batch = super()._sample_batch(batch_size, **k)
            return self.batch

        def _predict_batch(self, batch, **k):
            out = super()._predict_batch(batch, **k)
            if batch is not getattr(self, 'batch', None):  # a prediction, not training
                return out
            self.preds, self.desired = out
            p, d = self.log.p, self.interaction_dataset
            samples, direct = list(SAMPLED), []
            del SAMPLED[:]
            if kind == 'caser':
                rec = [dict(uid=native(a[0]['uid']) if a else -1, window=[native(r['iid']) for r in a], targets=[native(r['iid']) for r in b], negatives=[native(n) for n in c]) for a, b, c in samples]
            else:
                rec = [[native(u), native(i), s8(v)] for u, i, v in samples]
            with tf.GradientTape.stop_recording(self.tape) if getattr(self, 'tape', None) else _nothing():
                if kind == 'cdae' and p['corr']:
                    for u, _, _ in samples:
                        direct.append([q(self.predict(d.uid_to_user(u), d.iid_to_item(i)), 100000) for i in range(self.n_items)])
                if kind == 'dmf':
                    self.batch = None
                    direct.append([q(self.predict(d.uid_to_user(u), d.iid_to_item(i)), 1000) for u, i, _ in samples])
                    self.batch = batch
                if kind == 'caser' and not p['drop']:
                    for r in rec:
                        last = self.interaction_dataset.select('uid == %d' % r['uid']).values_list(['iid', 'timestamp', 'rid'])
                        last = [x['iid'] for x in (sorted(last, key=lambda x: x['timestamp']) if p['sorted'] else last)][-p['wlen']:]
                        scores = {}
                        if last == r['window']:
                            scores = {d.item_to_iid(i): float(x) for x, i in self.rank(d.uid_to_user(r['uid']), [d.iid_to_item(i) for i in range(self.n_items)], novelty=False)}
                        direct.append([q(1 / (1 + math.exp(-scores[i])), 100000) for i in r['targets'] + r['negatives']] if scores else [])
            preds, targets = table(self.preds), table(self.desired)
            if kind == 'dmf':  # in whatever shape
                preds, targets = [[x for r in preds for x in r]], [[x for r in targets for x in r]]
            flat = [x for r in preds for x in r]
            low, high = 1e-7, 1 - 1e-7
            self.log.add(op='predict', same=True, samples=rec, targets=[[q(x, 1000) for x in r] for r in targets], preds=[[q(x, 100000) for x in r] for r in preds],
                         lnp=[[q(-math.log(min(max(x, low), high)), 1000) for x in r] for r in preds], lnq=[[q(-math.log(1 - min(max(x, low), high)), 1000) for x in r] for r in preds],
                         extreme=not flat or max(flat) > .9999 or [len(r) for r in preds] != [len(r) for r in targets], direct=direct)
            self.parts = dict(same=True)
            return out

        def _loss_event(self, **part):
            self.parts.update(part)
            if 'batch' in self.parts and 'reg' in self.parts:
                b, r = self.parts['batch'], self.parts['reg']
                self.log.add(op='loss', same=self.parts['same'], mean=q(b, 1000), total=q(np.float32(b) + np.float32(r), 1000))
                self.log.pending = self.log.p['opt']

        def _compute_batch_loss(self, predictions, desired_values, **k):
            r = super()._compute_batch_loss(predictions, desired_values, **k)
            self._loss_event(batch=float(r), same=predictions is self.preds and desired_values is self.desired)
            return r

        def _compute_reg_loss(self, *a, **k):
            r = super()._compute_reg_loss(*a, **k)
            self._loss_event(reg=float(r))
            return r
    return Recorded


class _nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make(p, log):
    kw = dict(verbose=p['verbose'], seed=p['seed'], interaction_threshold=p['thr'] / 8)
    cls = recorder(p['model'])
    if p['model'] == 'cdae':
        m = cls(hidden_factors=p['factors'], corruption_level=0 if p['corr'] else .3, loss=p['loss'], **kw)
    elif p['model'] == 'dmf':
        m = cls(user_factors=[5, p['factors']], item_factors=[4, p['factors']] if p['factors'] != 2 else [2], use_nce=p['nce'], l2_norm_vectors=p['norm'], **kw)
    else:
        m = cls(L=p['wlen'], T=p['ntargets'], d=p['factors'], n_v=p['nv'], n_h=p['nh'], dropout_rate=p['drop'], sort_column='timestamp' if p['sorted'] else None, **kw)
    m.log, log.model = log, m
    return m


def run(sc):
    tf.config.run_functions_eagerly(True)
    log, ops = Log(), None
    log.pending = None
    plt.show = lambda *a, **k: None
    m = None
    for f in sc['fits']:
        p = dict(f)
        log.p, log.kind = p, p['model']
        if m is None:
            m = make(p, log)
        m.verbose = p['verbose']
        data = ds.load(p['data'], p['backend'])
        ref = ds.load(p['data'], p['backend'])
        ref.assign_internal_ids()
        rows = ref.values_list(['uid', 'iid', 'interaction', 'timestamp'], to_list=True)
        vals = [s8(r[2]) for r in rows]
        low = 0 if min(vals) == 8 else min(vals)
        before = (list(data.columns), data.has_internal_ids, data.values_list(to_list=True))
        log.events.append(dict(op='fit', p=dict({k: v for k, v in p.items() if k not in ('data', 'norm', 'factors', 'nv', 'nh', 'seed')},
                                                trainable=True, drop=bool(p['drop']), rows=[[native(a), native(b), s8(c), native(t)] for a, b, c, t in rows], nitems=len({r[1] for r in rows}), lo=low, hi=max(vals))))
        users = [ref.uid_to_user(u) for u in range(len({r[0] for r in rows}))]
        items = [ref.iid_to_item(i) for i in range(len({r[1] for r in rows}))]

        def callback(model):
            log.add(op='callback', w=log.w())
            model.rank(users[0], items)
            return {k: v[log.e] / 8 for k, v in p['cbvals'].items()}
        kw = dict(epochs=p['epochs'], batch_size=p['batch'], learning_rate=.05, neg_ratio=p['nneg'], reg_rate=p['reg'] / 1000)
        if p['copy']:
            kw['copy_dataset'] = True
        if p['cb']:
            kw.update(epoch_callback_fn=callback, epoch_callback_freq=p['cb'])
        if p['es']:
            kw.update(early_stopping_rule=Rule(log, p['metric']), early_stopping_freq=p['es'])
        if p['opt'] != 'default':
            kw['optimizer'] = Recording(log, None if p['opt'] == 'sgd' else tf.keras.optimizers.Adam(learning_rate=.05))
        err = ''
        try:
            m.fit(data, **kw)
        except Exception as ex:
            err = repr(ex)[:300]
        log.flush()
        m.batch = None
        log.events.append(dict(op='end', err=bool(err), why=err, w=log.w(), fitted=m.fitted is True, touched=(list(data.columns), data.has_internal_ids, data.values_list(to_list=True)) != before))
        plt.close('all')
        if not err:
            def scores():
                if p['model'] == 'caser':
                    return [[[native(i), float(x)] for x, i in m.rank(u, items, novelty=False)] for u in users]
                return [[[i, float(m.predict(u, i))] for i in items] for u in users]
            tables = scores()
            log.events.append(dict(op='scores', finite=all(np.isfinite(x) for t in tables for _, x in t), stable=close(tables, scores()), items=all(sorted(map(repr, items)) == sorted(repr(x[0]) for x in t) for t in tables),
                                   scores=[q(x, 100000) for t in tables for _, x in t]))
            if p['model'] == 'caser' and m.interaction_dataset is data:
                recent(log, m, data, p, users)
        for d in (data, ref, m.interaction_dataset):
            if hasattr(d, 'close'):
                d.close()
    gc.collect()
    return dict(ops=log.events)


class Rule(MaxRule):
    def compute(self, losses, results, called, **kw):
        best = -1
        try:
            best = MaxValidationValueRule.compute(self, losses, results, called, **kw)
        finally:
            self.log.add(op='rule', losses=[q(x, 1000) for x in losses], results={k: [s8(x) for x in v] for k, v in results.items()}, called=[native(x) for x in called], best=native(best))
        return best


def close(a, b):
    a, b = [[sorted((repr(i), x) for i, x in t) for t in c] for c in (a, b)]
    return all([i for i, _ in s] == [i for i, _ in t] and np.allclose([x for _, x in s], [x for _, x in t], atol=1e-4, rtol=0) for s, t in zip(a, b))


def recent(log, m, data, p, users):
    """Rankings before and after the interactions of a user before the last ones are dropped."""
    rows = data.values_list(['rid', 'user', 'item', 'timestamp'], to_list=True)
    user = users[0]
    mine = [r for r in rows if r[1] == user]
    if p['sorted']:
        mine.sort(key=lambda r: r[3])
    old = [r[0] for r in mine[:-p['wlen']]]
    left = {r[2] for r in rows if r[0] not in old}
    if not old or any(r[2] not in left for r in rows):
        return
    items = sorted(left, key=repr)
    a = sorted((repr(i), q(x, 100000)) for x, i in m.rank(user, items, novelty=False))
    data.drop(old, copy=False)
    try:
        b = sorted((repr(i), q(x, 100000)) for x, i in m.rank(user, items, novelty=False))
    except Exception:
        b = []
    log.events.append(dict(op='recent', before=[list(x) for x in a], after=[list(x) for x in b]))


def encode(t):
    ops = []
    for e in t['ops']:
        e = {k: v for k, v in e.items() if k not in ('why', 'params')}
        ops.append(e)
    return dict(ops=ops)


def params(rng, what, model=None):
    model = model or rng.choice(['cdae', 'dmf', 'caser'])
    wlen, nt, nneg = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2])
    nu, per = rng.randint(3 if model == 'caser' else 2, 5), wlen + nt + rng.choice([0, 0, 1, 2])
    ni = per + nt * nneg + rng.randint(0, 4)
    kind = rng.choice(['int', 'str'])
    users = rng.sample(range(1, 40), nu) if kind == 'int' else ['u%d' % x for x in rng.sample(range(1, 40), nu)]
    items = rng.sample(range(1, 60), ni) if kind == 'int' else ['i%d' % x for x in rng.sample(range(1, 60), ni)]
    vals, thr = rng.choice([([1, 2, 3, 4, 5], 8 * 3), ([1.0, 2.5, 4.0], 20), ([1], 8), ([1, 5], 8), ([0, 1, 2], 8), ([0.5, 1.0, 3.5], 8)])
    good = [v for v in vals if v * 8 >= thr]
    rows, ts = [], 1000
    chosen = [rng.sample(items, per) for _ in users]
    while model == 'caser' and len({i for c in chosen for i in c}) < per + nt * nneg:  # enough negatives for every user
        chosen = [rng.sample(items, per) for _ in users]
    if model == 'caser' and rng.random() < .5:  # histories that come back to the same items
        chosen = [(c * 3)[:per + rng.choice([wlen, per])] for c in chosen]
    for u, c in zip(users, chosen):
        for i in c:
            rows.append([u, i, rng.choice(good)])
        low = [v for v in vals if v * 8 < thr]
        if model == 'caser' and low and rng.random() < .5:  # interactions that are not learnt from, but belong to the history
            rows += [[u, i, rng.choice(low)] for i in rng.sample(sorted(set(items) - set(c), key=repr), min(2, len(set(items) - set(c))))]
        if model != 'caser':
            taken = {r[1] for r in rows if r[0] == u}
            for i in rng.sample(sorted(set(items) - taken, key=repr), rng.randint(0, min(2, len(items) - per - 1))):
                rows.append([u, i, rng.choice(vals)])
    if model == 'dmf' and len({r[2] for r in rows}) == 1 and rows[0][2] != 1:  # standardised values need a range
        rows[0][2], rows[-1][2] = vals[0], vals[-1]
    if model == 'cdae' and rng.random() < .4:  # several interactions with the same item
        rows += [list(rng.choice(rows)) for _ in range(rng.randint(1, 3))]
    if model != 'caser' and len({(r[0], r[1]) for r in rows}) == len(users) * len({r[1] for r in rows}):
        out = rows[len(rows) // 2][:2]  # negatives are pairs without an interaction
        rows = [r for r in rows if r[:2] != out]
    rounds = model == 'caser' and len({(r[0], r[1]) for r in rows}) < len(rows)
    if not rounds or rng.random() < .3:
        rng.shuffle(rows)
    style = rng.choice(['up', 'down', 'any', 'ties'] if not rounds else ['up', 'down', 'ties'])
    for k, r in enumerate(rows):
        r.append({'up': ts + k, 'down': ts - k, 'any': rng.randint(1, 500), 'ties': rng.choice([1, 2, 3])}[style])
    stop = what == 'stop'
    epochs = rng.choice([1, 2, 3, 4] if what != 'data' else [1, 2])
    cb = rng.choice([1, 1, 2, 3] if stop else [0, 1, 2]) if what != 'data' else 0
    es = rng.choice([1, 2, 3]) if stop else rng.choice([0, 0, 1]) if what == 'protocol' else 0
    pk = rng.randint(0, epochs)
    cbvals = {'M': [10 - abs(k - pk) for k in range(epochs + 1)] if rng.random() < .6 else [rng.randint(-9, 9) for _ in range(epochs + 1)]}
    return dict(what=what, model=model, epochs=epochs, batch=rng.choice([1, 1, 2, 3, 5]), cb=cb, es=es, verbose=rng.random() < .3, rule='max', metric='M', cbvals=cbvals, copy=rng.random() < .4,
                opt=rng.choice(['default', 'sgd', 'adam']), thr=thr, nce=rng.random() < .6, norm=rng.random() < .5, corr=rng.random() < .7, loss=rng.choice(['mse', 'bce']) if model == 'cdae' else 'bce',
                wlen=wlen, ntargets=nt, nneg=nneg, sorted=rng.random() < .6, factors=rng.choice([2, 3]), nv=rng.choice([1, 2]), nh=rng.choice([1, 2, 4]), drop=rng.choice([0, 0, .5]), seed=rng.choice([1, 2, 9]),
                reg=rng.choice([0, 0, 1, 50]), data=dict(cols=['user', 'item', 'interaction', 'timestamp'], rows=rows, verbose=False), backend=rng.choice(['mem', 'mem', 'db']))


def again(rng, f):
    """Another fit of the same model object: constructor arguments stay."""
    g = params(rng, f['what'], f['model'])
    if f['model'] == 'caser':
        g = dict(g, data=f['data'])
    else:
        g = dict(g, data=g['data'])
    return dict(g, **{k: f[k] for k in ('thr', 'nce', 'norm', 'corr', 'loss', 'wlen', 'ntargets', 'sorted', 'factors', 'nv', 'nh', 'drop', 'seed')})


def scenarios(chk, what, n):
    scens = []
    for k in range(n):
        rng = chk.rng('neural%s%d' % (what, k))
        f = params(rng, what)
        fits = [f]
        if rng.random() < .25 and f['model'] == 'caser':
            fits.append(dict(again(rng, f), nneg=f['nneg']))
        scens.append(dict(fits=fits))
    return scens


def C27(chk):
    chk.design('NeuralMC')
    chk.design('NeuralMC', 'NeuralMCBug_crossed.cfg', expect_violation='ZeroAtTargets')
    if chk.tier == 'thorough':
        chk.design('NeuralMC', 'NeuralMC4.cfg')
    chk.scenarios('NeuralTrace', run, encode, scenarios(chk, 'data', chk.n(240, 2400)), timeout=120)
