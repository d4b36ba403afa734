"""C01-C05 and C20: the dataset state machine."""
import json, re
import core, ds

import DRecPy.Dataset  # noqa: F401  (imported before the workers fork)


def scripts(chk, profile, count, nops, backends=('mem', 'db'), tag='', weird=False, thresholds=True, **kw):
    out = []
    for k in range(count):
        rng = chk.rng('%s%s%d' % (profile, tag, k))
        backend = backends[k % len(backends)]
        data = ds.content(rng, nmax=rng.choice([3, 6, 10, 14, 14, 40] if k % 3 else [3, 6, 10, 14]), nmin=0 if (backend == 'mem' and k % 17 == 0) else 1, weird=weird)
        via = 'df' if backend == 'mem' and rng.random() < .3 else 'csv'
        if not data['rows']:
            via = 'df'
            data['rows'] = []
        data['chunksize'] = rng.choice([None, None, 1, 2, 3, 7])
        data['verbose'] = k % 5 == 3
        for c in ('user_vec_cache_limit', 'item_vec_cache_limit'):
            data[c] = rng.choice([None, None, 0, 1, 2])
        g = ds.ScriptGen(rng, data, profile, rng.randint(nops // 2, nops), gens=kw.get('gens', True))
        out.append(dict(data=data, backend=backend, via=via, ops=g.build(), oom=backend == 'mem' and rng.random() < kw.get('oom', 0),
                        thresholds=rng.choice(ds.THRESHOLDS) if thresholds and backend == 'db' else None))
    return [s for s in out if s['data']['rows']]


def large_scripts(chk, count, backends=('mem', 'db')):
    out = []
    for k in range(count):
        rng = chk.rng('large%d' % k)
        data = ds.large_content(rng)
        data['chunksize'] = rng.choice([None, 100, 1000])
        data['verbose'] = k % 4 > 1
        g = ds.ScriptGen(rng, data, 'large', 14, maxinst=4)
        backend = backends[k % len(backends)]
        out.append(dict(data=data, backend=backend, via='csv', ops=g.build(), thresholds=rng.choice(ds.THRESHOLDS) if backend == 'db' else None))
    return out


def spec_scripts(chk, count, backends=('mem', 'db')):
    """Behaviours generated by TLC from Dataset.tla, executed on the real datasets with all instances read after every step."""
    out = []
    hists = core.generate('DatasetGen', count, 13, chk.seed * 7919 + 13)
    names = {'int': lambda k: 10 + k, 'str': lambda k: 'abc'[k]}
    for n, h in enumerate(hists):
        rng = chk.rng('spec%d' % n)
        kind = rng.choice(['int', 'str'])
        nm = names[kind]
        rows = [[nm(r['user']), nm(r['item']), r['interaction']] for r in h[0]['rows']]
        data = dict(cols=['user', 'item', 'interaction'], rows=rows, types=dict(user=kind, item=kind, interaction='num'))
        ops, gens, ids, cols, dead, closed_gens = [], {}, {1: False}, {1: ['user', 'item', 'interaction', 'rid']}, set(), set()
        for e in h[1:]:
            e = dict(e)
            o, i = e['op'], e.get('i')
            if i is not None and i not in cols:
                continue
            if o in ('apply', 'assign', 'close') and gens:
                continue
            if o == 'assign' and not {'user', 'item'} <= set(cols[i]) or o == 'remove' and not ids[i]:
                continue
            if o in ('pull', 'closegen') and e['g'] not in gens or o == 'open' and e['g'] in gens:
                continue
            if o in ('copy', 'select', 'drop', 'unique') and e['j'] != i and (e['j'] in cols or e['j'] in dead):
                continue
            if o == 'select':
                e['q'] = [dict(c, val=nm(c['val']) if c['col'] in ('user', 'item') else c['val']) for c in e['q']]
                if not all(c['col'] in cols[i] for c in e['q']):
                    continue
                e['bad'] = False
            elif o == 'unique':
                if not set(e['cols']) <= set(cols[i]):
                    continue
                e.update(all=False, bad=False)
            elif o == 'apply':
                if 'interaction' not in cols[i]:
                    continue
                e['bad'] = False
            elif o == 'close':
                e['how'] = rng.choice(['close', 'del'])
            elif o == 'closegen':
                e['how'] = rng.choice(['close', 'del', 'exhaust'])
            elif o == 'open':
                e['cols'] = list(cols[i])
            ops.append(e)
            if o in ('copy', 'select', 'drop', 'unique'):
                j = e['j']
                cols[j] = list(cols[i])
                ids[j] = ids[i]
                if o == 'unique':
                    cols[j] = e['cols'] + ([] if 'rid' in e['cols'] else ['rid'])
            elif o == 'assign':
                cols[i] = cols[i] + [c for c in ('uid', 'iid') if c not in cols[i]]
                ids[i] = True
            elif o == 'remove':
                cols[i] = [c for c in cols[i] if c not in ('uid', 'iid')]
                ids[i] = False
            elif o == 'close':
                del cols[i]
                dead.add(i)
            elif o == 'open':
                gens[e['g']] = i
            elif o == 'closegen':
                del gens[e['g']]
            for k in sorted(cols):
                ops += [dict(op='columns', i=k), dict(op='values', i=k, all=True, cols=[], tolist=False, bad=False)]
        for b in backends:
            out.append(dict(data=data, backend=b, via='csv', ops=ops, thresholds=rng.choice(ds.THRESHOLDS) if b == 'db' else None))
    return out


def go(chk, scens, backends=('mem', 'db')):
    scens = large_scripts(chk, chk.n(16 if chk.prop in ('C01', 'C03') else 8, 60), backends) + scens
    chk.scenarios('DatasetTrace', ds.run_script, ds.encode, scens)


def C01(chk):
    chk.design('DatasetMC')
    go(chk, scripts(chk, 'rel', chk.n(2500, 16000), 22) + spec_scripts(chk, chk.n(60, 600)))


def C02(chk):
    chk.design('DatasetMC')
    chk.design('Storage', 'Storage3.cfg')
    chk.design('Storage', 'StorageBug_shared.cfg', expect_violation='Transparent')
    chk.design('Storage', 'StorageBug_applyshared.cfg', expect_violation='Transparent')
    go(chk, scripts(chk, 'iso', chk.n(2500, 16000), 30) + spec_scripts(chk, chk.n(120, 1200)))


def C03(chk):
    chk.design('Storage')
    if chk.thorough:
        chk.design('Storage', 'Storage3x2.cfg', timeout=1500, workers=4, heap='8g')
    chk.design('Storage', 'StorageBug_dropshared.cfg', expect_violation='Transparent')
    chk.design('Storage', 'StorageBug_iterators.cfg', expect_violation='IterStable')
    go(chk, scripts(chk, 'opt', chk.n(2500, 16000), 34, backends=('db',)) + spec_scripts(chk, chk.n(80, 800), backends=('db',)), ('db',))


def C04(chk):
    chk.design('DatasetMC')
    go(chk, scripts(chk, 'ids', chk.n(2500, 16000), 30))


def C05(chk):
    chk.design('DatasetMC')
    go(chk, scripts(chk, 'vec', chk.n(2500, 16000), 26, oom=.3))


def C20(chk):
    chk.design('DatasetMC')
    go(chk, scripts(chk, 'query', chk.n(2500, 16000), 24, weird=True))
