"""C08 split laws, C09 independence of schedule, thread count, verbosity and backend."""
import gc, io, os, random, sys, threading, time
import core, ds
from codec import Codec, native, BAD

import DRecPy.Dataset  # noqa: F401
from DRecPy.Evaluation.Splits import leave_k_out, random_split, matrix_split

FN = dict(leave_k_out=leave_k_out, random_split=random_split, matrix_split=matrix_split)


# ---------------------------------------------------------------- schedule perturbation
class Perturb:
    """Random delays at the lines the library's threads execute: explores interleavings of the worker threads."""

    def __init__(self, seed, p):
        self.seed, self.p = seed, p

    def __enter__(self):
        self.old = sys.getswitchinterval()
        rng = random.Random(self.seed)
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
        p = self.p
        if p:

            def local(frame, event, arg):
                if event == 'line' and rng.random() < p:
                    time.sleep(rng.choice([0, 0, 1e-5, 1e-4, 1e-3]))
                return local

            def glob(frame, event, arg):
                if 'DRecPy' not in frame.f_code.co_filename:
                    return None
                return local
            threading.settrace(glob)
            if rng.random() < .5:  # within lines as well: before and after calls of built-in functions
                def prof(frame, event, arg):
                    if event in ('c_call', 'c_return') and rng.random() < p and 'DRecPy' in frame.f_code.co_filename:
                        time.sleep(rng.choice([0, 0, 1e-5, 1e-4, 1e-3]))
                threading.setprofile(prof)
        self.sleep = sleep = time.sleep

        def shorter(t):  # progress polling of the main thread
            sleep(min(t, .02) if threading.current_thread() is threading.main_thread() else t)
        time.sleep = shorter
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        threading.setprofile(None)
        time.sleep = self.sleep
        sys.setswitchinterval(self.old)


def rows_of(d):
    cols = list(d.columns)
    return cols, [[native(v) for v in r] for r in d.values_list(columns=cols, to_list=True)]


def kwargs(e):
    p, kw = e['p'], dict(seed=e['seed'], verbose=e['verbose'])
    if e['op'] == 'leave_k_out':
        kw.update(k=p['k'] if p['kd'] == 0 else p['k'] / p['kd'], min_user_interactions=p['min'])
        if p['last']:
            kw.update(last_timestamps=True)
            if e.get('label'):
                kw.update(timestamp_label=e['label'])
    elif e['op'] == 'random_split':
        kw.update(test_ratio=p['k'] / p['kd'])
    else:
        kw.update(user_test_ratio=p['uk'] / p['ukd'], item_test_ratio=p['ik'] / p['ikd'], min_user_interactions=p['min'])
    if e['op'] != 'random_split' and e['threads'] is not None:
        kw['max_concurrent_threads'] = e['threads']
    return kw


def prepare(sc, backend):
    d = ds.load(sc['data'], backend)
    for pre in sc.get('pre', []):
        if pre['op'] == 'drop':
            d = d.drop(pre['rids'])
        elif pre['op'] == 'assign':
            d.assign_internal_ids()
        elif pre['op'] == 'select':
            d.select(pre['q'], copy=False)
    return d


def run(sc):
    insts = {}
    ops = []
    for e in sc['calls']:
        e = dict(e)
        b = e['backend']
        if b not in insts:
            ds.set_thresholds(sc.get('thresholds'))
            insts[b] = prepare(sc, b)
        d = insts[b]
        out = None
        if e.get('reach'):
            taken = set()
            for seed in range(e['reach']):
                tr, te = FN[e['op']](d, **kwargs(dict(e, seed=seed * 31)))
                taken.update(native(v) for v in te.values_list('rid', to_list=True))
                for x in (tr, te):
                    if hasattr(x, 'close'):
                        x.close()
            ops.append(dict(op='reach', of=e['op'], p=e['p'], taken=sorted(taken)))
            continue
        try:
            if e['fault']:
                bad, sel = e['fault_user'], d.select
                hit = []

                def failing(q, *a, **k):
                    if isinstance(q, str) and repr(bad) in q.replace('"', "'"):
                        hit.append(1)
                        raise RuntimeError('injected failure')
                    return sel(q, *a, **k)
                d.select = failing
            elif e.get('slow') is not None:
                slow, sel = e['slow'], d.select

                def lagging(q, *a, **k):
                    if isinstance(q, str) and repr(slow) in q.replace('"', "'"):
                        time.sleep(.15)
                    return sel(q, *a, **k)
                d.select = lagging
            try:
                with Perturb(e['sched'], e['delay']):
                    out = FN[e['op']](d, **kwargs(e))
            finally:
                d.__dict__.pop('select', None)
                if e['fault']:
                    e['fault'] = bool(hit)
            e['err'] = False
        except Exception as ex:
            e['err'], e['why'] = True, repr(ex)[:200]
        if not e['err']:
            tr, te = out
            ctr, e['train'] = rows_of(tr)
            cte, e['test'] = rows_of(te)
            e['cols'] = ctr if ctr == cte else ['train and test columns differ']
            if e.get('close'):
                for x in (tr, te):
                    if hasattr(x, 'close'):
                        x.close()
        ops.append(e)
        if e.get('check_input', True):
            c, r = rows_of(d)
            ops.append(dict(op='input', cols=c, rows=r))
    ref = prepare(sc, 'mem')
    cols, rows = rows_of(ref)
    insts.clear()
    gc.collect()
    return dict(cols=cols, rows=rows, ops=ops)


def encode(t):
    c = Codec()
    cols = t['cols']
    all_rows = list(t['rows'])
    for e in t['ops']:
        for k in ('rows', 'train', 'test'):
            all_rows += e.get(k, [])
    for r in all_rows:
        for col, v in zip(cols, r):
            c.add(col, v)
    c.freeze()

    def enc(rows, cs):
        out = []
        for r in rows:
            d = {col: c.enc(col, v) for col, v in zip(cs, r)}
            out.append([d.get('rid', BAD), d.get('user', BAD), d.get('item', BAD), d.get('timestamp', 0)] + [d.get(x, BAD) for x in sorted(cols)])
        return out
    ops = []
    for e in t['ops']:
        if e['op'] == 'input':
            ops.append(dict(op='input', cols=e['cols'], rows=enc(e['rows'], e['cols'])))
            continue
        if e['op'] == 'reach':
            ops.append(dict(e, taken=[c.enc('rid', v) for v in e['taken']]))
            continue
        o = {k: e[k] for k in ('op', 'p', 'err', 'fault', 'key')}
        o['threads'] = e['threads'] if e['threads'] is not None else 1
        o.update(cols=e.get('cols', []), train=enc(e.get('train', []), e.get('cols', [])), test=enc(e.get('test', []), e.get('cols', [])))
        ops.append(o)
    return dict(cols=cols, rows=enc(t['rows'], cols), ops=ops)


# ---------------------------------------------------------------- generation
def data_for(rng, nusers, nitems, nrows, chrono):
    kind = rng.choice(['int', 'str', 'mixedstr', 'bigint'])
    pool = dict(int=lambda n: rng.sample(range(1, 60), n), bigint=lambda n: [2**31 + 7 * k for k in rng.sample(range(50), n)],
                str=lambda n: rng.sample(["o'neil", 'a b', 'x,y', 'u1', 'U1', 'é', 'zz', 'B', '"q"', 'n7', 'user', 'rid'], n), mixedstr=lambda n: ['u%d' % k for k in rng.sample(range(1, 60), n)])[kind]
    users, items = pool(nusers), pool(nitems)
    weights = [rng.choice([1, 1, 2, 4, 8]) for _ in users]
    rows = [[rng.choices(users, weights)[0], rng.choice(items), rng.randint(1, 5), 0] for _ in range(nrows)]
    t = 0
    for r in rows:
        t = t + rng.choice([0, 1, 1, 3]) if chrono else rng.randint(1, 50)
        r[3] = t
    types = dict(user='str' if kind in ('str', 'mixedstr') else 'int', item='str' if kind in ('str', 'mixedstr') else 'int', interaction='num', timestamp='num')
    return dict(cols=['user', 'item', 'interaction', 'timestamp'], rows=rows, types=types)


RATIOS = [(1, 2), (1, 4), (3, 4), (1, 5), (1, 10), (3, 10), (2, 5), (9, 10), (1, 3), (2, 3)]


def exact_ratio(rng, nmax, top=False):
    """A ratio whose floating point products with 1..nmax floor like the exact ones."""
    while True:
        k, kd = rng.choice(RATIOS + ([(1, 1)] if top else []))
        if all(int(n * (k / kd)) == (n * k) // kd for n in range(nmax + 1)):
            return k, kd


def call(rng, op, n, chrono, invalid=False):
    if op == 'leave_k_out':
        p = dict(k=rng.choice([1, 1, 2, 3, 5, 10]), kd=0, min=rng.choice([0, 0, 1, 2, 3, 5]), last=rng.random() < .4, anyorder=False)
        if rng.random() < .4:
            p['k'], p['kd'] = exact_ratio(rng, n)
        if invalid:
            p.update(rng.choice([dict(k=0, kd=0), dict(k=-1, kd=0), dict(k=1, kd=1), dict(k=3, kd=2), dict(k=0, kd=2)]))
    elif op == 'random_split':
        k, kd = exact_ratio(rng, n)
        p = dict(k=k, kd=kd, min=0)
        if invalid:
            p.update(rng.choice([dict(k=0, kd=2), dict(k=1, kd=1), dict(k=3, kd=2), dict(k=-1, kd=2)]))
    else:
        uk, ukd = exact_ratio(rng, n, True)
        ik, ikd = exact_ratio(rng, n, True)
        p = dict(uk=uk, ukd=ukd, ik=ik, ikd=ikd, min=rng.choice([0, 0, 1, 2, 3, 5]))
        if invalid:
            p.update(rng.choice([dict(uk=0), dict(uk=11, ukd=10), dict(ik=0), dict(ik=-1), dict(ik=3, ikd=2)]))
    return dict(op=op, p=p, seed=rng.choice([0, 1, 2, 7, 10, 42, 1000]), threads=rng.choice([None, 1, 2, 4, 8]), verbose=False, sched=rng.randint(0, 10**6), delay=0,
                fault=False, key=0)


def prep(rng, data):
    pre = []
    if rng.random() < .35:
        pre.append(dict(op='drop', rids=rng.sample(range(len(data['rows'])), max(1, len(data['rows']) // 5))))
    if rng.random() < .2:
        pre.append(dict(op='select', q='interaction >= 2'))
    if rng.random() < .3:
        pre.append(dict(op='assign'))
    return pre


def C08(chk):
    chk.design('Splits')
    scens = []
    for k in range(chk.n(420, 3000)):
        rng = chk.rng('a%d' % k)
        chrono = rng.random() < .6
        nrows = rng.choice([3, 6, 10, 16, 24])
        data = data_for(rng, rng.randint(1, 6), rng.randint(1, 6), nrows, chrono)
        calls = []
        for _ in range(3):
            op = rng.choice(['leave_k_out', 'leave_k_out', 'random_split', 'matrix_split', 'matrix_split'])
            e = call(rng, op, nrows, chrono, invalid=rng.random() < .12)
            if op != 'random_split' and rng.random() < .05:
                e['threads'] = rng.choice([0, -1])
            e['backend'] = rng.choice(['mem', 'db'])
            calls.append(e)
        if k % 4 == 0:
            calls[0]['verbose'] = True
        scens.append(dict(data=data, calls=calls, pre=prep(rng, data), thresholds=rng.choice(ds.THRESHOLDS)))
    # every row that may be taken is taken by some seed
    for k in range(chk.n(45, 300)):
        rng = chk.rng('r%d' % k)
        op = ['leave_k_out', 'random_split', 'matrix_split'][k % 3]
        data = data_for(rng, rng.randint(2, 4), rng.randint(2, 4), rng.choice([4, 6, 8]), True)
        e = call(rng, op, 8, True)
        if op == 'leave_k_out':
            e['p'].update(last=False, min=rng.choice([0, 0, 2, 3]), **rng.choice([dict(k=1, kd=0), dict(k=2, kd=0), dict(k=1, kd=2), dict(k=1, kd=4), dict(k=3, kd=4)]))
        elif op == 'random_split':
            e['p'].update(rng.choice([dict(k=1, kd=4), dict(k=1, kd=2), dict(k=3, kd=4)]))
        else:
            e['p'].update(uk=rng.choice([1, 2, 3]), ukd=4, ik=rng.choice([1, 2, 3]), ikd=4, min=rng.choice([0, 0, 2]))
            if rng.random() < .2:
                e['p'].update(uk=1, ukd=1)
        e.update(threads=rng.choice([1, 2]), reach=250 if op == 'matrix_split' else 120, backend=rng.choice(['mem', 'mem', 'db']))
        scens.append(dict(data=data, calls=[e], pre=[], thresholds=None))
    # timestamps out of order: known finding
    bad = dict(cols=['user', 'item', 'interaction', 'timestamp'], rows=[[1, 1, 1, 100], [1, 2, 1, 50], [1, 3, 1, 25]], types={})
    e = dict(op='leave_k_out', p=dict(k=1, kd=0, min=0, last=True, anyorder=True), seed=0, threads=1, verbose=False, sched=0, delay=0, fault=False, key=0, backend='mem')
    scens.append(dict(finding='leave_k_out_timestamps_out_of_order', data=bad, calls=[e], pre=[]))
    chk.scenarios('SplitsTrace', run, encode, scens, timeout=100)


def C09(chk):
    chk.design('Splits', 'Splits5.cfg', workers=3)
    for b, i in (('nolock', 'ScheduleIndependent'), ('sharedrng', 'ScheduleIndependent'), ('nojoin', 'ScheduleIndependent'), ('hide', 'ErrorsRaised')):
        chk.design('Splits', 'SplitsBug_%s.cfg' % b, expect_violation=i)
    scens = []
    for k in range(chk.n(140, 1200)):
        rng = chk.rng('s%d' % k)
        chrono = rng.random() < .6
        nrows = rng.choice([8, 16, 30, 40])
        data = data_for(rng, rng.randint(2, 9), rng.randint(2, 6), nrows, chrono)
        bases = [call(rng, rng.choice(['leave_k_out', 'matrix_split', 'leave_k_out', 'random_split']), nrows, chrono) for _ in range(2)]
        for n, e in enumerate(bases):
            e['key'] = n + 1
        calls = []
        for _ in range(rng.choice([6, 8, 10])):
            e = dict(rng.choice(bases))
            e.update(backend=rng.choice(['mem', 'db']), threads=rng.choice([None, 1, 2, 3, 4, 8, 16]), sched=rng.randint(0, 10**6), delay=rng.choice([0, 0, .02, .1, .3]),
                     verbose=rng.random() < .4, slow=rng.choice(data['rows'])[0] if rng.random() < .25 else None, check_input=rng.random() < .3, close=rng.random() < .5)
            calls.append(e)
        if rng.random() < .5:  # a failing task
            e = dict(rng.choice([b for b in bases if b['op'] != 'random_split'] or [call(rng, 'leave_k_out', nrows, chrono)]))
            e.update(backend=rng.choice(['mem', 'db']), threads=rng.choice([1, 2, 4]), sched=rng.randint(0, 10**6), delay=.05, fault=True, verbose=rng.random() < .5,
                     fault_user=rng.choice(data['rows'])[0], key=0)
            calls.insert(rng.randrange(len(calls)), e)
        scens.append(dict(data=data, calls=calls, pre=prep(rng, data), thresholds=rng.choice(ds.THRESHOLDS)))
    chk.scenarios('SplitsTrace', run, encode, scens, timeout=150)
