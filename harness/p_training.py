"""C14 training protocol, C15 early stopping: real fits of a recommender that records every call."""
import gc, os
import numpy as np
import core, ds
from codec import native

import DRecPy.Dataset  # noqa: F401
from DRecPy.Recommender import RecommenderABC
from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC, InvalidEpochValidationResultsException
import tensorflow as tf
import matplotlib.pyplot as plt


def s8(x):
    v = float(x) * 8
    return int(round(v)) if abs(v - round(v)) < 1e-6 and abs(v) < 1e8 else 99999999


def s64(x):
    v = float(x) * 64
    return int(round(v)) if abs(v - round(v)) < 1e-3 and abs(v) < 1e8 else 99999999


def _holder(base):
    class Holder(base):
        """A layer or model holding plain variables."""

        def __init__(self, values, regs):
            super().__init__()
            object.__setattr__(self, 'held', [tf.Variable([v]) for v in values])
            object.__setattr__(self, 'regs', regs)

        @property
        def trainable_weights(self):
            return list(self.held)

        trainable_variables = trainable_weights
        weights = trainable_weights
        variables = trainable_weights

        @property
        def losses(self):
            return [tf.reduce_sum(r * v) for r, v in zip(self.regs, self.held) if r != 0]

        def get_weights(self):
            return [v.numpy() for v in self.held]

        def set_weights(self, ws):
            for v, w in zip(self.held, ws):
                v.assign(w)

        def call(self, x):
            return x
    return Holder


Layer, Model = _holder(tf.keras.layers.Layer), _holder(tf.keras.models.Model)


class Optimizer:
    """Plain gradient descent with rate 1 which records what it is given."""

    def __init__(self, name, log):
        self.name, self.log = name, log

    def apply_gradients(self, pairs, **kw):
        for g, v in pairs:
            self.log.updates.append((self.name, v, g))
            if g is not None:
                v.assign_sub(tf.convert_to_tensor(g))


class Log:
    def __init__(self):
        self.events, self.updates, self.vars, self.reg = [], [], [], []

    def w(self):
        return [s8(v.numpy()[0]) for v in self.vars]

    def flush(self):
        if self.updates:
            ups, self.updates = self.updates, []
            n = len(self.vars)
            idx = {id(v): k for k, v in enumerate(self.vars)}
            times, grads = [0] * n, [99999999] * n
            for _, v, g in ups:
                k = idx.get(id(v))
                if k is not None:
                    times[k] += 1
                    grads[k] = 0 if g is None else s8(np.sum(np.asarray(g)))
            self.events.append(dict(op='update', times=times, grads=grads, opt='/'.join(sorted({u[0] for u in ups})), w=self.w(), reg=self.reg))

    def add(self, **e):
        self.flush()
        self.events.append(e)


class Recorder(RecommenderABC):
    def __init__(self, log, **kwds):
        super().__init__(**kwds)
        self.log, self.p = log, None

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        p, d = self.p, self.interaction_dataset
        self.log.vars, k = [], 0
        for kind, n in p['layout']:
            vals, regs = [x / 8 for x in p['w0'][k:k + n]], [x / 8 for x in p['reg'][k:k + n]]
            k += n
            if kind == 'var':
                for v in vals:
                    var = tf.Variable([v])
                    self.log.vars.append(var)
                    self._register_trainable(var)
            else:
                h = (Layer if kind == 'layer' else Model)(vals, regs)
                self.log.vars += h.held
                self._register_trainables([h])
        if p['opt'] == 'own' or p['bothopt']:
            self._register_optimizer(Optimizer('own', self.log))
        rows = d.values_list(['user', 'item', 'interaction', 'uid', 'iid'], to_list=True)
        self.log.add(op='prefit', ids=d.has_internal_ids, pairs=sorted({(native(r[3]), native(r[4])) for r in rows}), nusers=native(self.n_users),
                     nitems=native(self.n_items), nrows=native(self.n_rows), min=s8(self.min_interaction), max=s8(self.max_interaction),
                     args=[s64(learning_rate), s64(neg_ratio), s64(reg_rate)], kw=kwds.get('depth', -1))
        self.e = 0

    def _sample_batch(self, batch_size, **kwds):
        self.log.add(op='sample', batch=batch_size, kw=kwds.get('depth', -1))
        self.e += 1
        self.batch = [object()] * self.p['sizes'][self.e - 1]
        return self.batch

    def _predict_batch(self, batch_samples, **kwds):
        self.log.add(op='predict', same=batch_samples is self.batch, kw=kwds.get('depth', -1))
        g = self.p['grads'][min(self.e, len(self.p['grads'])) - 1]
        self.preds = [v * (x / 8) for v, x in zip(self.log.vars, g)]
        self.desired = [0] * len(self.preds)
        return self.preds, self.desired

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        self.log.add(op='loss', same=predictions is self.preds and desired_values is self.desired)
        return tf.add_n([tf.reduce_sum(x) for x in predictions])

    def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
        self.log.reg = [s64(reg_rate), batch_size, len(trainable_models), len(trainable_layers), len(trainable_weights)]
        r = super()._compute_reg_loss(reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds)
        k = 0
        for kind, n in self.p['layout']:  # plain variables have no regularizers of their own
            if kind == 'var':
                for v, x in zip(self.log.vars[k:k + n], self.p['reg'][k:k + n]):
                    r = r + tf.reduce_sum(v * (x / 8))
            k += n
        return r

    def _predict(self, uid, iid, **kwds):
        return 0.0


class ScriptRule(EarlyStoppingRuleABC):
    """Designates scripted epochs: per call an epoch, or -1 for results that cannot be used; stops at a given epoch."""

    def __init__(self, log, script, stop_at):
        super().__init__(['M'])
        self.log, self.script, self.stop_at, self.k = log, script, stop_at, 0

    def compute(self, losses, results, called, **kw):
        b = self.script[self.k % len(self.script)]
        self.k += 1
        b = min(b, len(losses))
        rule_event(self.log, losses, results, called, b)
        if b < 0:
            raise InvalidEpochValidationResultsException('scripted')
        return b

    def _compute_best_epoch(self, *a, **k):
        return 0

    def stop_training(self, cur, best, target, **kw):
        ans = cur >= self.stop_at
        self.log.add(op='stop', cur=cur, best=best, target=target, ans=ans)
        return ans


class MaxRule(MaxValidationValueRule):
    def __init__(self, log, metric):
        super().__init__(metric)
        self.log = log

    def compute(self, losses, results, called, **kw):
        try:
            best = super().compute(losses, results, called, **kw)
        except InvalidEpochValidationResultsException:
            rule_event(self.log, losses, results, called, -1)
            raise
        rule_event(self.log, losses, results, called, best)
        return best

    def stop_training(self, cur, best, target, **kw):
        ans = super().stop_training(cur, best, target, **kw)
        self.log.add(op='stop', cur=cur, best=best, target=target, ans=bool(ans))
        return ans


def rule_event(log, losses, results, called, best):
    log.add(op='rule', losses=[s64(x) for x in losses], results={k: [s8(x) for x in v] for k, v in results.items()}, called=[native(x) for x in called], best=native(best))


def run(sc):
    if sc.get('rules'):
        return dict(ops=[direct(e) for e in sc['rules']])
    log = Log()
    rec = Recorder(log, verbose=sc['fits'][0]['verbose'], seed=sc['seed'])
    plt.show = lambda *a, **k: None
    for f in sc['fits']:
        p = dict(f)
        rec.p, rec.verbose = p, p['verbose']
        data = ds.load(p['data'], p['backend'])
        pre = data.values_list(['user', 'item', 'interaction'], to_list=True)
        if p['preassigned']:
            data.assign_internal_ids()
        before = (list(data.columns), data.has_internal_ids, data.values_list(to_list=True))
        if p['preassigned']:  # ids are assigned afresh for the rows left
            data = data.select('interaction >= %s' % p['cut'])
            before = (list(data.columns), data.has_internal_ids, data.values_list(to_list=True))
            pre = data.values_list(['user', 'item', 'interaction'], to_list=True)
        users, items = list(dict.fromkeys(r[0] for r in pre)), list(dict.fromkeys(r[1] for r in pre))
        p['rows'] = [[users.index(r[0]) + 1, items.index(r[1]) + 1, s8(r[2])] for r in pre]
        p['users'], p['items'] = list(range(1, len(users) + 1)), list(range(1, len(items) + 1))
        if not pre:
            continue
        log.events.append(dict(op='fit', p={k: v for k, v in p.items() if k not in ('data', 'layout', 'script')}))
        vals = p['cbvals']

        def callback(model):
            e = rec.e
            log.add(op='callback', w=log.w(), model=model is rec and model.fitted)
            if e == p['badcb']:
                return [1]
            return {n: vals[n][e] / 8 for n in sorted(vals)}
        kw = dict(epochs=p['epochs'], batch_size=p['batch'], learning_rate=p['args'][0] / 64, neg_ratio=p['args'][1] / 64, reg_rate=p['args'][2] / 64)
        if p['copy']:
            kw['copy_dataset'] = True
        if p['cb']:
            kw['epoch_callback_fn'] = callback
            if p['cb'] != 5 or p['explicit']:
                kw['epoch_callback_freq'] = p['cb']
        if p['es']:
            kw['early_stopping_rule'] = ScriptRule(log, p['script'], p['stop_at']) if p['rule'] == 'script' else MaxRule(log, p['metric_arg'])
            if p['es'] != 5 or p['explicit']:
                kw['early_stopping_freq'] = p['es']
        if p['depth'] >= 0:
            kw['depth'] = p['depth']
        if p['opt'] == 'forced':
            kw['optimizer'] = Optimizer('forced', log)
        rec.fitted = False
        err = ''
        try:
            rec.fit(data, **kw)
        except Exception as ex:
            err = repr(ex)[:300]
        log.flush()
        log.events.append(dict(op='end', err=bool(err), why=err, w=log.w(), fitted=rec.fitted is True, own=rec.interaction_dataset is data,
                               touched=(list(data.columns), data.has_internal_ids, data.values_list(to_list=True)) != before))
        plt.close('all')
        for d in (data, rec.interaction_dataset):
            if hasattr(d, 'close'):
                d.close()
    gc.collect()
    return dict(ops=log.events)


def direct(e):
    """A direct call of the maximum validation value rule."""
    o = dict(e)
    form, metric = e['form'], e['metric_arg']
    results = {r['name']: [x / 8 for x in r['vals']] for r in e['results']}
    if form == 'notdict':
        results = list(results.items())
    elif form == 'none':
        results = None
    elif form == 'notlist':
        results = {k: (v[0] if v else 1.0) for k, v in results.items()}
    o.update(refused=False, err=False, best=-1, stop=False)
    try:
        r = MaxValidationValueRule(metric)
        o['best'] = native(r.compute([1.0] * e['n'], results, list(e['called'])))
        o['stop'] = bool(r.stop_training(e['n'], o['best'], e['n'] + 3))
    except InvalidEpochValidationResultsException:
        o['refused'] = True
    except Exception as ex:
        o['err'], o['why'] = True, repr(ex)[:200]
    return o


def encode(t):
    ops = []
    for e in t['ops']:
        e = {k: v for k, v in e.items() if k != 'why'}
        ops.append(e)
    return dict(ops=ops)


NAMES = [('M', None), ('M', 'HR'), ('HitRatio@5', 'NDCG@10'), ('P@2', None), ('NDCG@10', 'NDCG@5')]


def fit_params(rng, stopping):
    epochs = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 11])
    layout, n = [], 0
    trainable = rng.random() > .06
    if trainable:
        for _ in range(rng.choice([1, 2, 3, 3, 7])):
            kind = rng.choice(['var', 'layer', 'model'])
            m = 1 if kind == 'var' else rng.choice([1, 2, 2, 6])
            layout.append((kind, m))
            n += m
    cb = rng.choice([0, 1, 1, 2, 3, 5] if not stopping else [0, 1, 1, 1, 2, 2, 3, 5])
    es = rng.choice([0, 0, 1, 2, 3, 5] if not stopping else [1, 1, 2, 2, 3, 5])
    a, b = rng.choice(NAMES)
    names = [x for x in (a, b) if x]
    style = rng.choice(['any', 'peak', 'ties', 'down'])
    cbvals = {}
    for nm in names:
        if style == 'any':
            cbvals[nm] = [rng.randint(-20, 20) for _ in range(epochs + 1)]
        elif style == 'ties':
            cbvals[nm] = [rng.choice([1, 2]) for _ in range(epochs + 1)]
        elif style == 'down':
            cbvals[nm] = [epochs - k for k in range(epochs + 1)]
        else:
            pk = rng.randint(0, epochs)
            cbvals[nm] = [10 - abs(k - pk) for k in range(epochs + 1)]
    metric = rng.choice(names)
    arg = metric if names == ['NDCG@10', 'NDCG@5'] else rng.choice([metric, metric.split('@')[0]])
    data = ds.content(rng, nmax=rng.choice([4, 8, 12]), nmin=2)
    verbose = rng.random() < .35
    cut = rng.choice([-5, 1, 2, 3])
    ivals = [r[data['cols'].index('interaction')] for r in data['rows']]
    kinds = [k for k, _ in layout]
    return dict(sizes=[rng.randint(1, 40) for _ in range(epochs)], depth=rng.choice([-1, 0, 3]), parts=[kinds.count('model'), kinds.count('layer'), kinds.count('var')], epochs=epochs, batch=rng.randint(1, 40), cb=cb, es=es, verbose=verbose, trainable=trainable, layout=layout, w0=[rng.randint(-40, 40) for _ in range(n)],
                grads=[[rng.randint(1, 16) * rng.choice([1, -1]) for _ in range(n)] for _ in range(max(1, epochs))],
                reg=[rng.choice([0, 0, 1, 2, -3]) for _ in range(n)], opt=rng.choice(['own', 'forced']), bothopt=rng.random() < .5, copy=rng.random() < .5,
                explicit=rng.random() < .5, rule=rng.choice(['script', 'max', 'max']), metric=metric, metric_arg=arg, cbvals=cbvals,
                badcb=rng.randint(0, epochs) if rng.random() < .05 else -1, script=[rng.choice([-1, 0, 0, 1, 2, 3, 5, 99]) for _ in range(rng.randint(1, 5))],
                stop_at=rng.choice([1, 2, 3, 4, 99]), args=[64 // 2, 64 * rng.randint(1, 6), rng.choice([0, 16, 64])], data=data,
                backend=rng.choice(['mem', 'mem', 'db']), preassigned=rng.random() < .3, cut=cut if any(v >= cut for v in ivals) else -5)


def rule_call(rng):
    base = ['HitRatio', 'NDCG', 'P', 'M']
    pick = rng.sample(base, rng.randint(0, 3))
    n = rng.randint(0, 6)
    called = sorted(rng.sample(range(0, 20), n))
    res = []
    for b in pick:
        suf = rng.choice(['', '@5', '@10'])
        res.append(dict(name=b + suf, full=b + suf, base=b, vals=[rng.choice([1, 2, 3, -5, rng.randint(-30, 30)]) for _ in called]))
    form = 'ok' if rng.random() < .8 else rng.choice(['notdict', 'none', 'notlist'])
    if not pick:
        form = 'ok'
    metric = rng.choice((pick or base) + base[:1])
    exact = rng.random() < .3
    if exact:
        metric = metric + '@5'
    return dict(op='maxrule', results=res, form=form, wellformed=form == 'ok' or (form == 'notlist' and not res), metric=metric, metric_arg=metric, exact=exact, called=called, n=n)


def C14(chk):
    chk.design('TrainingMC')
    scens = []
    for k in range(chk.n(700, 5000)):
        rng = chk.rng('t%d' % k)
        scens.append(dict(seed=rng.choice([None, 1, 7]), fits=[fit_params(rng, False) for _ in range(rng.choice([1, 1, 2, 3]))]))
    chk.scenarios('TrainingTrace', run, encode, scens)
    import p_neural  # the models of the library
    chk.scenarios('NeuralTrace', p_neural.run, p_neural.encode, p_neural.scenarios(chk, 'protocol', chk.n(100, 1000)), timeout=120)


def C15(chk):
    chk.design('TrainingMC', 'TrainingMC5.cfg')
    for b in ('offbyone', 'stale', 'laststop'):
        chk.design('TrainingMC', 'TrainingMCBug_%s.cfg' % b, expect_violation='Restored')
    scens = []
    for k in range(chk.n(700, 5000)):
        rng = chk.rng('s%d' % k)
        scens.append(dict(seed=rng.choice([None, 1, 7]), fits=[fit_params(rng, True) for _ in range(rng.choice([1, 1, 2, 3]))]))
    for k in range(chk.n(40, 400)):
        rng = chk.rng('r%d' % k)
        scens.append(dict(rules=[rule_call(rng) for _ in range(12)]))
    chk.scenarios('TrainingTrace', run, encode, scens)
    import p_neural  # the models of the library
    chk.scenarios('NeuralTrace', p_neural.run, p_neural.encode, p_neural.scenarios(chk, 'stop', chk.n(100, 1000)), timeout=120)
