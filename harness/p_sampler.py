"""C10 point samplers and generators, C11 list samplers, C21 seeds."""
import gc, hashlib, json, os, random, subprocess, sys
import core, ds
from codec import Codec, native, number, BAD, NULL

import DRecPy.Dataset  # noqa: F401
from DRecPy.Sampler import PointSampler, ListSampler

NOTHR = -1999999000


# ---------------------------------------------------------------- common
# values that are equal unless all of their digits count
CLOSE = [[2.00000004, 2.0000001, 2.5], [10**7, 10**7 + 1, 10**7 + 2], [0.0001234567891, 0.0001234567892, 1.0], [123456.789, 123456.7891, 1.0]]


def sdata(rng, nusers, nitems, nrows, dup=False, extra=True):
    kind = rng.choice(['int', 'str', 'bigint'])
    pool = dict(int=lambda n: rng.sample(range(1, 60), n), bigint=lambda n: [2**31 + 7 * k for k in rng.sample(range(50), n)],
                str=lambda n: rng.sample(["o'neil", 'a b', 'x,y', 'u1', 'U1', 'é', 'zz', 'B', 'n7', 'user', 'rid', 'q"q'], min(n, 12)) + ['i%d' % k for k in range(n - 12)])[kind]
    users, items = pool(nusers), pool(nitems)
    pairs = [(u, i) for u in users for i in items]
    rng.shuffle(pairs)
    pairs = pairs[:nrows]
    if dup and pairs:
        pairs += [rng.choice(pairs) for _ in range(rng.randint(0, 2))]
    vals = rng.choice([[1, 2, 3, 4, 5], [1, 2, 3, 4, 5], [0.5, 1.5, 2.5, 3.0, 5.0], [0.5, 1.5, 2.5, 3.0, 5.0], [1], [0, 1], [0, 1], [-2, 0, 3]] + CLOSE)
    if any(isinstance(v, float) for v in vals):
        vals = [float(v) for v in vals]
    rows = [[u, i, rng.choice(vals), rng.randint(1, 12), rng.choice(['t1', 't2', "t'3"])] for u, i in pairs]
    cols = ['user', 'item', 'interaction', 'timestamp', 'tag']
    if not extra:
        cols, rows = cols[:3], [r[:3] for r in rows]
    return dict(cols=cols, rows=rows, types={}, vals=sorted(set(vals)))


def do_pre(d, e):
    if e['op'] == 'assign':
        d.assign_internal_ids()
    elif e['op'] == 'remove':
        d.remove_internal_ids()
    elif e['op'] == 'select':
        d.select(ds.query_text(e['q']), copy=False)
    elif e['op'] == 'drop':
        d.drop(e['rids'], copy=False)


def records(recs):
    cols = None
    out = []
    for r in recs:
        k = sorted(r)
        cols = k if cols is None or cols == k else ['inconsistent']
        out.append([native(r[c]) for c in k])
    return cols or [], out


def take(g, n):
    out = []
    for _ in range(n):
        try:
            out.append(next(g))
        except StopIteration:
            break
    return out


def thr(e):
    return None if e['thr'] is None else e['thr']


def run(sc):
    random.seed(json.dumps(sc['ops']))  # generators without a seed draw from the global one
    ds.set_thresholds(sc.get('thresholds'))
    d = ds.load(sc['data'], sc['backend'])
    ops = []
    for e in sc['ops']:
        e = dict(e)
        try:
            if e['op'] in ('assign', 'remove', 'select', 'drop'):
                do_pre(d, e)
            elif e['op'] == 'random':
                g = d.select_random_generator(ds.query_text(e['q']), seed=e['seed']) if e['q'] else d.select_random_generator(seed=e['seed'])
                e['cols'], e['recs'] = records(take(g, e['n']))
                del g
            elif e['op'] == 'null':
                g = d.null_interaction_pair_generator(interaction_threshold=thr(e), seed=e['seed'])
                e['pairs'] = [[native(x) for x in p] for p in take(g, e['n'])]
                del g
            elif e['op'] == 'point':
                s = PointSampler(d, e['ratio'], interaction_threshold=thr(e), seed=e['seed'])
                if e['what'] == 'mixed':
                    t = s.sample(e['n']) if e['how'] == 'n' else [s.sample_one() for _ in range(e['n'])]
                elif e['what'] == 'positive':
                    t = [s.sample_positive() for _ in range(e['n'])]
                else:
                    t = [s.sample_negative() for _ in range(e['n'])]
                e['triples'] = [[native(x) for x in p] for p in t]
                del s
            elif e['op'] == 'list':
                p = e['p']
                s = ListSampler(d, list(p['gcols']), neg_ratio=p['ratio'], n_targets=p['targets'] or None, negative_ids_col=p['negcol'],
                                interaction_threshold=thr(p), sort_column=p['sort'] or None, min_positive_records=p['min'],
                                max_positive_records=p['max'] or None, seed=e['seed'])
                els = s.sample_group_records(e['n'])
                e['els'], e['cols'] = [], None
                for el in els:
                    pos, tgt, neg = el if p['targets'] else (el, [], [])
                    c1, pr = records(pos)
                    c2, tr = records(tgt)
                    c = c1 if c1 == c2 or not tgt else ['inconsistent']
                    e['cols'] = c if e['cols'] in (None, c) else ['inconsistent']
                    e['els'].append(dict(pos=pr, tgt=tr, neg=[native(x) for x in neg]))
            elif e['op'] == 'rows':
                e['cols'] = [str(c) for c in d.columns]
                e['rows'] = [[native(v) for v in r] for r in d.values_list(columns=list(d.columns), to_list=True)]
            e['err'] = False
        except Exception as ex:
            e['err'], e['why'] = True, repr(ex)[:200]
        gc.collect()
        ops.append(e)
    del d
    gc.collect()
    return dict(cols=sc['data']['cols'], rows=sc['data']['rows'], ops=ops)


class Ranks(Codec):
    """Only the order of interactions matters here: they become ranks around zero, whatever their size."""

    def __init__(self):
        super().__init__()
        self.inters = {0}

    def add(self, col, v):
        v = native(v)
        if col == 'interaction' and isinstance(v, (int, float)) and not isinstance(v, bool):
            self.inters.add(number(v))
        else:
            super().add(col, v)

    def freeze(self):
        order = sorted(self.inters)
        self.rank = {v: k - order.index(0) for k, v in enumerate(order)}
        return super().freeze()

    def scaled(self, v):
        v = native(v)
        return NULL if v is None else self.rank.get(number(v), BAD) if isinstance(v, (int, float)) and not isinstance(v, bool) else BAD


def encode(t):
    c = Ranks()
    every = [(t['cols'], t['rows'])]
    for e in t['ops']:
        cols = e.get('cols') or []
        if e.get('els') is not None:
            for el in e['els']:
                every += [(cols, el['pos']), (cols, el['tgt']), ([e['p']['negcol']], [[x] for x in el['neg']])]
        for k in ('recs', 'rows'):
            if e.get(k):
                every.append((cols, e[k]))
    for cols, rows in every:
        for r in rows:
            for col, v in zip(cols, r):
                c.add(col, v)
    for e in t['ops']:
        for q in e.get('q', []):
            c.add(q['col'], q['val'])
        c.add('interaction', e.get('thr'))
        c.add('interaction', e['p']['thr'] if 'p' in e else None)
        for x in e.get('triples', []):
            c.add('interaction', x[-1] if len(x) == 3 else None)
    c.freeze()

    def enc(cols, rows):
        return [[c.enc(col, v) for col, v in zip(cols, r)] for r in rows]
    ops = []
    for e in t['ops']:
        o = {k: e[k] for k in ('op', 'err', 'rids', 'n', 'exhaustive', 'what', 'ratio') if k in e}
        cols = o['cols'] = e.get('cols') or []
        if 'q' in e:
            o['q'] = [dict(col=x['col'], op=x['op'], val=c.enc(x['col'], x['val'])) for x in e['q']]
        if 'thr' in e:
            o['thr'] = NOTHR if e['thr'] is None else c.scaled(e['thr'])
        if e['op'] == 'random':
            o['recs'] = enc(cols, e.get('recs', []))
        elif e['op'] == 'null':
            o['pairs'] = [[c.enc('uid', x) for x in p] for p in e.get('pairs', [])]
        elif e['op'] == 'point':
            o['triples'] = [[c.enc('uid', p[0]), c.enc('iid', p[1]), c.scaled(p[2])] if len(p) == 3 else [BAD] for p in e.get('triples', [])]
        elif e['op'] == 'list':
            o['p'] = dict(e['p'], thr=NOTHR if e['p']['thr'] is None else c.scaled(e['p']['thr']))
            o['els'] = [dict(pos=enc(cols, el['pos']), tgt=enc(cols, el['tgt']), neg=[c.enc(e['p']['negcol'], x) for x in el['neg']]) for el in e.get('els', [])]
        elif e['op'] == 'rows':
            o['rows'] = enc(cols, e.get('rows', []))
        ops.append(o)
    return dict(cols=t['cols'], rows=enc(t['cols'], t['rows']), ops=ops)


def history(rng, data, assign=True):
    ops = []
    n = len(data['rows'])

    def filt():
        if rng.random() < .5:
            return dict(op='drop', rids=rng.sample(range(n), rng.randint(0, max(1, n // 4))))
        return dict(op='select', q=[dict(col='interaction', op=rng.choice(['>=', '<=', '!=']), val=rng.choice(data['vals']))] if rng.random() < .5 else
                    [dict(col='user', op='!=', val=rng.choice(data['rows'])[0])])
    if rng.random() < .3:
        ops.append(filt())
    if assign:
        ops.append(dict(op='assign'))
        if rng.random() < .35:
            ops.append(filt())
            if rng.random() < .4:
                ops.append(dict(op='assign'))
    return ops


def apply_history(data, hist):
    """Rows left and internal ids after the history (only used to decide which draws terminate)."""
    rows = [dict(zip(data['cols'], r), rid=k) for k, r in enumerate(data['rows'])]
    ids = None
    for e in hist:
        if e['op'] == 'drop':
            rows = [r for r in rows if r['rid'] not in e['rids']]
        elif e['op'] == 'select':
            f = {'>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b, '!=': lambda a, b: a != b}
            for q in e['q']:
                rows = [r for r in rows if f[q['op']](r[q['col']], q['val'])]
        elif e['op'] == 'assign':
            um, im = {}, {}
            for r in rows:
                r['uid'], r['iid'] = um.setdefault(r['user'], len(um)), im.setdefault(r['item'], len(im))
            ids = True
    return rows, ids


def n_null(rows, t):
    if not rows:
        return 0
    mu, mi = max(r['uid'] for r in rows), max(r['iid'] for r in rows)
    rated = {(r['uid'], r['iid']) for r in rows}
    below = {(r['uid'], r['iid']) for r in rows if t is not None and r['interaction'] < t}
    return (mu + 1) * (mi + 1) - len(rated) + len(below)


def C10(chk):
    chk.design('SamplerMC', chk.n('SamplerMC.cfg', 'SamplerMC4.cfg'), workers=chk.n(1, 4))
    scens = []
    for k in range(chk.n(300, 2400)):
        rng = chk.rng('p%d' % k)
        small = rng.random() < .5
        data = sdata(rng, rng.randint(1, 3 if small else 5), rng.randint(1, 3 if small else 5), rng.randint(1, 6 if small else 12), dup=rng.random() < .25)
        assigned = rng.random() < .93
        ops = history(rng, data, assigned)
        rows, ids = apply_history(data, ops)
        for _ in range(4):
            t = rng.choice([None, None] + data['vals'] + [max(data['vals']) + 1, sum(data['vals'][:2]) / 2])
            exhaustive = small and rng.random() < .6
            n = 260 if exhaustive else rng.choice([0, 1, 5, 30])
            seed = rng.choice([None, 0, 1, 7, 23, 99])
            what = rng.choice(['random', 'null', 'point', 'point'])
            can_null = not ids or not rows or n_null(rows, t) > 0
            if what == 'random':
                q = rng.choice([[], [], [dict(col='interaction', op='>=', val=rng.choice(data['vals']))], [dict(col='user', op='==', val=rng.choice(data['rows'])[0])],
                                [dict(col='item', op='!=', val=rng.choice(data['rows'])[1]), dict(col='interaction', op='<', val=4)]])
                ops.append(dict(op='random', q=q, seed=seed, n=max(n, 1), exhaustive=exhaustive))
            elif what == 'null' and can_null:
                ops.append(dict(op='null', thr=t, seed=seed, n=max(n, 1), exhaustive=exhaustive))
            elif what == 'point':
                ratio = rng.choice([0, 0, 1, 1, 2, 5, 0.5]) if can_null else 0
                w = rng.choice(['mixed', 'mixed', 'positive', 'negative']) if can_null else rng.choice(['mixed', 'positive'])
                if w == 'mixed' and ratio == 0.5:
                    ratio = 1
                ops.append(dict(op='point', thr=t, ratio=ratio, seed=seed, n=n if w == 'mixed' and ratio else max(n, 1), what=w, how=rng.choice(['n', 'one']), exhaustive=exhaustive))
                if w == 'mixed' and not exhaustive and ops[-1]['n'] == 0:
                    ops[-1]['n'] = rng.choice([0, 3])
                if ops[-1]['n'] == 0:  # nothing drawn: generators are not started
                    ops[-1]['n'] = 1
        ops.append(dict(op='rows'))
        scens.append(dict(data=data, backend=('mem', 'db')[k % 2], ops=ops, thresholds=rng.choice(ds.THRESHOLDS)))
    chk.scenarios('SamplerTrace', run, encode, scens, timeout=120)


def C11(chk):
    chk.design('SamplerMC', chk.n('SamplerMC.cfg', 'SamplerMC4.cfg'), workers=chk.n(1, 4))
    scens = []
    for k in range(chk.n(700, 4000)):
        rng = chk.rng('l%d' % k)
        large = rng.random() < .25
        if large:
            data = sdata(rng, rng.randint(1, 3), rng.choice([12, 24, 40]), rng.randint(20, 70), dup=rng.random() < .25)
        else:
            data = sdata(rng, rng.randint(1, 4), rng.randint(3, 8), rng.randint(4, 22), dup=rng.random() < .25)
        ops = history(rng, data, rng.random() < .96)
        ids = any(o['op'] == 'assign' for o in ops)
        for _ in range(2):
            mn = rng.choice([1, 1, 2, 2, 3, 4] if not large else [1, 2, 5, 6, 8, 8])
            p = dict(gcols=rng.choice([['user'], ['user'], ['uid'] if ids else ['user'], ['item'], ['user', 'tag'], ['tag']]), thr=rng.choice([None, None] + data['vals']),
                     sort=rng.choice(['', '', 'timestamp', 'interaction', 'tag']), min=mn, max=rng.choice([0, 0, mn, mn + 1, mn + 3]),
                     targets=rng.choice([0, 1, 1, 2, 3] if not large else [0, 1, 2, 3, 5]), ratio=rng.choice([1, 1, 2, 0, 3]), negcol=rng.choice(['iid', 'iid', 'item', 'uid']))
            if p['gcols'] == ['item'] and p['negcol'] != 'uid':
                p['negcol'] = 'uid'
            if not ids and p['negcol'] in ('uid', 'iid'):
                pass
            ops.append(dict(op='list', p=p, seed=rng.choice([None, 0, 1, 7, 23]), n=rng.choice([1, 4, 12]), exhaustive=False))
        ops.append(dict(op='rows'))
        scens.append(dict(data=data, backend=('mem', 'db')[k % 2], ops=ops, thresholds=rng.choice(ds.THRESHOLDS)))
    for k in range(chk.n(48, 300)):  # everything that may be sampled is sampled
        rng = chk.rng('x%d' % k)
        data = sdata(rng, rng.randint(1, 3), rng.randint(3, 6), rng.randint(4, 14))
        ops = [dict(op='assign')]
        mn = rng.choice([1, 1, 2])
        p = dict(gcols=rng.choice([['user'], ['uid']]), thr=rng.choice([None, None] + data['vals'][:1]), sort=rng.choice(['', 'timestamp']), min=mn,
                 max=rng.choice([0, mn, mn, mn + 1]), targets=rng.choice([0, 1, 1, 2]), ratio=rng.choice([0, 1, 1, 2]), negcol=rng.choice(['iid', 'item']))
        ops.append(dict(op='list', p=p, seed=rng.choice([0, 1, 7, 23]), n=260, exhaustive=True))
        scens.append(dict(data=data, backend=('mem', 'db')[k % 2], ops=ops, thresholds=None))
    chk.scenarios('SamplerTrace', run, encode, scens, timeout=120)


# ---------------------------------------------------------------- C21
def canon(v):
    if isinstance(v, dict):
        return [[k, canon(v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    v = native(v)
    return float(v) if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**53 else v


def make_source(spec, d):
    kind, p, seed = spec['kind'], spec['p'], spec['seed']
    from DRecPy.Evaluation import Splits
    if kind == 'random':
        g = d.select_random_generator(p['q'], seed=seed) if p['q'] else d.select_random_generator(seed=seed)
        return lambda: next(g)
    if kind == 'null':
        g = d.null_interaction_pair_generator(interaction_threshold=p['thr'], seed=seed)
        return lambda: next(g)
    if kind == 'point':
        s = PointSampler(d, p['ratio'], interaction_threshold=p['thr'], seed=seed)
        return lambda: s.sample(p['n']) if p['n'] > 1 else s.sample_one()
    if kind == 'list':
        s = ListSampler(d, p['gcols'], neg_ratio=p['ratio'], n_targets=p['targets'], min_positive_records=p['min'], max_positive_records=p['max'],
                        negative_ids_col=p['negcol'], sort_column=p['sort'], interaction_threshold=p['thr'], seed=seed)
        return lambda: s.sample_group_records(p['n'])
    fn = getattr(Splits, kind)

    def split():
        tr, te = fn(d, seed=seed, verbose=False, **p)
        return [tr.values_list(['rid', 'user', 'item'], to_list=True), te.values_list(['rid', 'user', 'item'], to_list=True)]
    return split


def _gstate():
    import numpy as np
    s = np.random.get_state()
    return hash((random.getstate(), s[1].tobytes(), s[2]))


def seed_events(sc, order_seed, proc):
    """One interleaving of the scenario's sources with each other and with other consumers of randomness."""
    import numpy as np
    rng = random.Random(order_seed)
    datas = {}
    for b in set(s['backend'] for s in sc['sources']):
        d = ds.load(sc['data'], b)
        for e in sc['pre']:
            do_pre(d, e)
        datas[b] = d
    random.seed(rng.random())
    ops, live = [], {}
    todo = [(k, n) for k, s in enumerate(sc['sources']) for n in range(s['draws'])]
    order = [k for k, _ in todo]
    rng.shuffle(order)
    for k in order:
        s = sc['sources'][k]
        if rng.random() < .3:
            for _ in range(rng.randint(1, 5)):
                random.random()
                np.random.rand()
            ops.append(dict(op='consume'))
        if rng.random() < .1:
            random.seed(rng.randint(0, 3))
            np.random.seed(rng.randint(0, 3))
            ops.append(dict(op='consume'))
        before = _gstate()
        try:
            if k not in live:
                live[k] = make_source(s, datas[s['backend']])
            v = canon(live[k]())
        except Exception as ex:
            v = 'error ' + type(ex).__name__
        ops.append(dict(op='global', same=_gstate() == before, what=s['kind']))
        ops.append(dict(op='draw', key=s['key'], src='%s-%d' % (proc, k), val=v))
    live.clear()
    datas.clear()
    gc.collect()
    return ops


CHILD = {}


def run_seeds(sc):
    ops = []
    for n in range(2):
        ops += seed_events(sc, sc['order'] + n, 'p%d' % n)
    for hs, res in CHILD.items():
        r = res.get(str(sc['id']))
        ops += r if r is not None else [dict(op='no result in a process with hash seed %s' % hs)]
    return dict(ops=ops)


def enc_seeds(t):
    out = []
    for e in t['ops']:
        e = dict(e)
        if e['op'] == 'draw':
            e['val'] = int(hashlib.md5(json.dumps(e['val'], default=core._json_default).encode()).hexdigest()[:7], 16)
        e.pop('what', None)
        out.append(e)
    return dict(ops=out)


def child_main(path_in, path_out, hs):
    out = {}
    scens = json.load(open(path_in))
    for r, sc in zip(core.run_scenarios(lambda s: seed_events(s, s['order'] + 1000 + int(hs), 'h%s' % hs), scens, timeout=100, nproc=3), scens):
        out[str(sc['id'])] = r['trace'] if r.get('ok') else [dict(op='failed in a process with hash seed %s: %s' % (hs, json.dumps(r)[:300]))]
    json.dump(out, open(path_out, 'w'), default=core._json_default)


def C21(chk):
    chk.design('SeedsMC')
    chk.design('SeedsMC', 'SeedsMCBug_shared.cfg', expect_violation='Deterministic')
    scens = []
    for k in range(chk.n(150, 1200)):
        rng = chk.rng('s%d' % k)
        data = sdata(rng, rng.randint(2, 5), rng.randint(3, 7), rng.randint(6, 18))
        dense = len({(r[0], r[1]) for r in data['rows']}) == len({r[0] for r in data['rows']}) * len({r[1] for r in data['rows']})
        base = []
        for n in range(3):
            kind = rng.choice(['random', 'null', 'point', 'list', 'list', 'leave_k_out', 'matrix_split', 'random_split'])
            if kind in ('null', 'point') and dense:
                kind = 'random'
            t = rng.choice([None] + data['vals'][:2])
            p = dict(random=dict(q=rng.choice([None, 'interaction >= %r' % data['vals'][0]])), null=dict(thr=t),
                     point=dict(ratio=rng.choice([0, 1, 3, 5]), thr=t, n=rng.choice([1, 5])),
                     list=dict(gcols=rng.choice([['user'], ['uid']]), ratio=rng.choice([1, 1, 2]), targets=rng.choice([1, 1, 2, None]), min=1, max=rng.choice([1, 2, None]), thr=t, n=3,
                               negcol=rng.choice(['iid', 'item', 'item']), sort=rng.choice([None, 'timestamp'])),
                     leave_k_out=rng.choice([dict(k=1), dict(k=.5), dict(k=2, min_user_interactions=2), dict(k=1, last_timestamps=True), dict(k=1, max_concurrent_threads=1)]),
                     matrix_split=dict(user_test_ratio=.5, item_test_ratio=.5), random_split=dict(test_ratio=.5))[kind]
            base.append(dict(kind=kind, p=p, seed=rng.choice([0, 1, 5, 42]), backend=('mem', 'db')[(k + n) % 2], key=n + 1,
                             draws=2 if 'split' in kind or kind == 'leave_k_out' else rng.choice([3, 6])))
        sources = [dict(rng.choice(base)) for _ in range(4)] + base
        scens.append(dict(id=k, data=data, pre=[dict(op='assign')] + ([dict(op='drop', rids=[rng.randrange(len(data['rows']))])] if rng.random() < .3 else []), sources=sources, order=rng.randint(0, 10**6)))
    todo = scens if chk.replay is None else [chk.replay['scenario']]
    if chk.replay is None or 'id' in todo[0]:
        pin = os.path.join(core.SCRATCH, 'seeds.json')
        json.dump(todo, open(pin, 'w'))
        procs = []
        for hs in ('1', '7', '12345')[:chk.n(2, 3)]:
            env = dict(os.environ, PYTHONHASHSEED=hs)
            pout = os.path.join(core.SCRATCH, 'seeds_%s.json' % hs)
            procs.append((hs, pout, subprocess.Popen([sys.executable, os.path.join(core.VERIF, 'harness', 'seed_child.py'), pin, pout, hs], env=env,
                                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for hs, pout, p in procs:
            try:
                p.wait(600)
            except subprocess.TimeoutExpired:
                p.kill()
            CHILD[hs] = json.load(open(pout)) if os.path.exists(pout) else {}
    chk.scenarios('SeedsTrace', run_seeds, enc_seeds, scens, timeout=100)
