"""C06 saving and loading, C07 atomic saves under crashes and failures, C25 life time of temporary files."""
import csv, gc, importlib, json, os, random, resource, shutil, signal, sqlite3, struct, sys, tempfile, time
import core, crash, ds
from codec import native

import DRecPy.Dataset  # noqa: F401
from DRecPy.Dataset import InteractionDataset

PATHS = {1: 'a.sqlite', 2: 'b.sqlite', 3: 'c.csv', 4: 'd.csv', 5: 'e f.sqlite', 6: 'g.tsv'}
SQLITE, CSV = (1, 2, 5), (3, 4, 6)
ds.PROFILES['persist'] = dict(select=3, unique=1.5, drop=2, apply=2, assign=1.2, remove=.5, copy=1.2, close=1.5, values=1, len=.3, columns=.3, max=.3, count_unique=.4, user_to_uid=.3, vec=.3)


def clean_strings(data):
    """Text that reads as a number (or as a missing value) is not kept as text by csv files."""
    for r in data['rows']:
        for k, v in enumerate(r):
            if isinstance(v, str) and ds._looks_num(v):
                r[k] = 'n' + v
    return data


class PersistGen(ds.ScriptGen):
    def __init__(self, *a, **k):
        self.known, self.src = {}, {1: 0}
        super().__init__(*a, **k)

    def emit(self, **k):
        super().emit(**k)
        if k['op'] in ('copy', 'select', 'unique', 'drop') and k.get('j') not in (None, k['i']):
            self.src[k['j']] = self.src.get(k['i'], 0)
        if k['op'] in ('select', 'unique', 'drop', 'apply', 'assign', 'remove', 'close', 'values', 'copy') and self.src.get(k['i']):
            super().emit(op='file', p=self.src[k['i']])

    def own(self, j):
        """Changes a dataset loaded from a file in place, and saves it to that file."""
        rng, s = self.rng, self.st[j]
        if rng.random() < .5 and not s['stale'] and not s['ids']:
            s.update(cols=s['cols'] + ['uid', 'iid'], types=dict(s['types'], uid='uid', iid='iid'), ids=True)
            super().emit(op='assign', i=j)
        for _ in range(rng.randint(0, 3)):
            if rng.random() < .5:
                super().emit(op='drop', i=j, j=j, rids=[rng.randint(0, max(len(self.data['rows']), 1))], keep=False)
            else:
                super().emit(op='select', i=j, j=j, q=self.query(s), bad=False)
            s['rows'] = False
            if rng.random() < .3:
                super().emit(op='len', i=j)
        p = self.src[j]
        super().emit(op='save', i=j, p=p, fmt='sqlite', all=True, cols=[], header=False, bad=False, implicit=rng.random() < .5)
        if all(c in s['cols'] for c in ('user', 'item', 'interaction')) and not [k for k in self.st if k != j and self.src.get(k) == p]:
            kc = [c for c in s['cols'] if c not in ('rid', 'uid', 'iid')]
            self.known[p] = dict(fmt='sqlite', cols=kc, types={c: s['types'][c] for c in kc}, header=False)
        super().emit(op='file', p=p)
        self.probe(j)

    def step(self):
        rng = self.rng
        r = rng.random()
        live = [i for i in self.st]
        if r < .16 and live:
            i = rng.choice(live)
            s = self.st[i]
            backend = self.backend[i]
            fmt = 'csv' if backend == 'mem' or rng.random() < .4 else 'sqlite'
            own = self.src.get(i) if fmt == 'sqlite' else None
            if fmt == 'sqlite':
                p = rng.choice(SQLITE + ((own,) * 4 if own else ()))
            else:
                p = rng.choice(CSV)
            allc = fmt == 'sqlite' or rng.random() < .5
            cols = [] if allc else self.collist(s)
            if not allc and rng.random() < .6:
                cols = list(dict.fromkeys(cols + [c for c in ('user', 'item', 'interaction') if c in s['cols']]))
                rng.shuffle(cols)
            if not allc and not [c for c in cols if c not in ('rid', 'uid', 'iid')]:
                return
            if allc and not [c for c in s['cols'] if c not in ('rid', 'uid', 'iid')]:
                return
            bad = fmt == 'csv' and rng.random() < .05
            if bad:
                allc, cols = False, cols + ['nope']
            header = fmt == 'csv' and rng.random() < .4
            implicit = p == own and rng.random() < .5
            super().emit(op='save', i=i, p=p, fmt=fmt, all=allc, cols=cols, header=header, bad=bad, implicit=implicit)
            others = [k for k in self.st if k != i and self.src.get(k) == p]
            okay = not bad and (fmt == 'csv' or all(c in s['cols'] for c in ('user', 'item', 'interaction')) and not others)
            if okay:
                kc = [c for c in (s['cols'] if allc else cols) if c not in ('rid', 'uid', 'iid')]
                self.known[p] = dict(fmt=fmt, cols=kc, types={c: s['types'][c] for c in kc}, header=header)
            for q in sorted(self.known):
                super().emit(op='file', p=q)
            if okay or rng.random() < .5:
                self.probe(i)
        elif r < .34:
            j = self.free()
            if j is None or not self.known:
                return
            p = rng.choice(sorted(self.known) + ([rng.choice(sorted(PATHS))] if rng.random() < .05 else []))
            f = self.known.get(p)
            if f is None:
                if p in SQLITE:
                    super().emit(op='load', j=j, p=p, backend='db', fcols=[], header=False, chunk=None, missing=True)
                    self.dead.add(j)
                return
            if f['fmt'] == 'csv' and not all(c in f['cols'] for c in ('user', 'item', 'interaction')):
                return
            if '?' in f['types'].values():
                return
            backend = 'db' if f['fmt'] == 'sqlite' else rng.choice(['mem', 'db'])
            super().emit(op='load', j=j, p=p, backend=backend, fcols=f['cols'], header=f['header'], chunk=rng.choice([None, 1, 2, 5]), verbose=rng.random() < .25)
            cols = (['rid'] + f['cols']) if f['fmt'] == 'sqlite' else f['cols'] + ['rid']
            self.st[j] = dict(cols=cols, types=dict(f['types'], rid='rid'), ids=False, stale=False, rows=False)
            self.backend[j], self.src[j] = backend, p if f['fmt'] == 'sqlite' else 0
            self.probe(j)
            while self.src[j] and rng.random() < .35:
                self.own(j)
        elif r < .37 and self.known:
            super().emit(op='file', p=rng.choice(sorted(self.known)))
        else:
            before = set(self.st)
            super().step()
            for j in set(self.st) - before:
                self.backend[j] = self.backend[self.ops[-1]['i']] if 'i' in self.ops[-1] else next(self.backend[o['i']] for o in reversed(self.ops) if o.get('j') == j)


def read_csv(path, header):
    with open(path, newline='', encoding='utf8') as f:
        rows = list(csv.reader(f))
    cols = rows.pop(0) if header and rows else []

    def num(v):
        try:
            return int(v)
        except ValueError:
            try:
                return float(v)
            except ValueError:
                return v
    return cols, [[num(v) for v in r] for r in rows]


def look(path, fmt, header, fcols, wd):
    """What a file holds, seen from outside: sqlite files are copied and the copy is loaded."""
    if not os.path.exists(path):
        return dict(there=False, broken=False, cols=[], res=[])
    try:
        if fmt == 'csv':
            cols, rows = read_csv(path, header)
            return dict(there=True, broken=any(len(r) != len(fcols) for r in rows), cols=cols if header else list(fcols), res=rows)
        copy = os.path.join(wd, 'look_%d.sqlite' % os.getpid())
        shutil.copy(path, copy)
        try:
            d = InteractionDataset(copy, verbose=False)
            cols = [c for c in d.columns if c != 'rid']
            rows = d.values_list(columns=['rid'] + cols, to_list=True)
            d.close()
            rids = [native(r[0]) for r in rows] == list(range(len(rows)))
            return dict(there=True, broken=not rids, cols=cols, res=[[native(v) for v in r[1:]] for r in rows])
        finally:
            os.remove(copy)
    except Exception as ex:
        return dict(there=True, broken=True, cols=[], res=[], why=repr(ex)[:300])


def run_persist(sc):
    ds.set_thresholds(sc.get('thresholds'))
    wd = tempfile.mkdtemp(prefix='fs_', dir=core.SCRATCH)
    path = {p: os.path.join(wd, n) for p, n in PATHS.items()}
    insts, gens, out, meta = {1: ds.load(sc['data'], sc['backend'], sc.get('via', 'csv'))}, {}, [], {}
    for e in sc['ops']:
        e = dict(e)
        if e['op'] == 'file':
            e.update(look(path[e['p']], **meta.get(e['p'], dict(fmt='csv', header=False, fcols=[])), wd=wd))
            e['tag'] = 'ok'
            e['rcols'] = e['cols']
            out.append(e)
            continue
        if 'i' in e and e['i'] not in insts:
            continue
        try:
            if e['op'] == 'save':
                d = insts[e['i']]
                cols = None if e['all'] else list(e['cols'])
                if e['fmt'] == 'sqlite':
                    d.save() if e['implicit'] else d.save(path[e['p']])
                else:
                    kw = dict(write_header=True) if e['header'] else {}
                    d.save(path[e['p']], columns=cols, **kw)
                wc = [c for c in (d.columns if e['all'] else e['cols']) if c not in ('rid', 'uid', 'iid')]
                meta[e['p']] = dict(fmt=e['fmt'], header=e['header'], fcols=wc)
            elif e['op'] == 'load':
                e.update(cols=[], ids=False)
                p = path[e['p']]
                m = meta.get(e['p'])
                if not e.get('missing') and (m is None or sorted(m['fcols']) != sorted(e['fcols']) or m['fmt'] == 'csv' and (m['fcols'] != e['fcols'] or m['header'] != e['header'])):
                    continue  # an earlier save was refused
                if e['p'] in SQLITE:
                    kw = {} if e['chunk'] is None else dict(chunksize=e['chunk'])
                    d = InteractionDataset(p, verbose=e.get('verbose', False), **kw) if e['chunk'] != 1 else InteractionDataset(p, in_memory=False, verbose=e.get('verbose', False), **kw)
                else:
                    if not os.path.exists(p) or not read_csv(p, e['header'])[1]:
                        continue  # files without records are not loaded
                    kw = dict(chunksize=e['chunk']) if e['chunk'] is not None and e['backend'] == 'db' else {}
                    d = InteractionDataset(p, columns=list(e['fcols']), has_header=e['header'], in_memory=e['backend'] == 'mem', verbose=e.get('verbose', False), **kw)
                insts[e['j']] = d
                e.update(cols=[str(c) for c in d.columns], ids=bool(d.has_internal_ids))
            else:
                ds.observe(e, insts, gens, sc)
            e['tag'] = 'ok'
        except Exception as ex:
            e['tag'] = 'err'
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:200])
        out.append(e)
    for i in list(insts):
        d = insts.pop(i)
        try:
            if hasattr(d, 'close'):
                d.close()
        except Exception:
            pass
    del d
    gc.collect()
    for p in sorted(meta):
        out.append(dict(op='file', p=p, tag='ok', **look(path[p], **meta[p], wd=wd)))
        out[-1]['rcols'] = out[-1]['cols']
    shutil.rmtree(wd, ignore_errors=True)
    return dict(cols=sc['data']['cols'], rows=sc['data']['rows'], ops=out)


def encode_persist(t):
    r = ds.encode(t)
    for o, e in zip(r['ops'], t['ops']):
        for k in ('p', 'fmt', 'header', 'there', 'broken'):
            if k in e:
                o[k] = e[k]
    return r


def persist_scripts(chk, count, nops=40):
    out = []
    for k in range(count):
        rng = chk.rng('persist%d' % k)
        backend = ('db', 'db', 'mem')[k % 3]
        data = clean_strings(ds.content(rng, nmax=rng.choice([2, 4, 8, 14]), nmin=1, weird=rng.random() < .5))
        data['chunksize'] = rng.choice([None, None, 1, 2, 3])
        g = PersistGen(rng, data, 'persist', rng.randint(nops // 2, nops), maxinst=8, gens=False)
        g.backend = {1: backend}
        out.append(dict(data=data, backend=backend, via='csv', ops=g.build(), thresholds=rng.choice(ds.THRESHOLDS)))
    return [s for s in out if s['data']['rows']]


def C06(chk):
    chk.design('PersistMC', 'PersistMC2.cfg' if chk.thorough else None)
    chk.design('PersistMC', 'PersistBug_share.cfg', expect_violation='Atomic')
    chk.scenarios('PersistTrace', run_persist, encode_persist, persist_scripts(chk, chk.n(2500, 12000)))


# ---------------------------------------------------------------- C07
def snapshot(path, name):
    for ext in ('', '-journal', '-wal', '-shm'):
        if os.path.exists(name + ext):
            os.remove(name + ext)
        if os.path.exists(path + ext):
            shutil.copy(path + ext, name + ext)


def contents(d):
    cols = sorted(c for c in d.columns if c not in ('rid', 'uid', 'iid'))
    return [[[c, native(v)] for c, v in zip(cols, r)] for r in d.values_list(columns=cols, to_list=True)]


def look_crash(path, wd):
    """The file as the next user finds it: a copy (with what sqlite left beside it) is loaded in a new process."""
    if not os.path.exists(path):
        return dict(there=False, broken=False, rows=[])
    copy = os.path.join(wd, 'look.sqlite')
    snapshot(path, copy)

    def read(report):
        try:
            d = InteractionDataset(copy, verbose=False)
            assert sqlite3.connect(copy).execute('PRAGMA integrity_check').fetchone()[0] == 'ok', 'integrity check'
            report(rows=contents(d))
        except Exception as ex:
            report(why=repr(ex)[:300])
    got = crash.in_child(read)
    ok = len(got) == 1 and 'rows' in got[0]
    return dict(there=True, broken=not ok, rows=got[0]['rows'] if ok else [], why='' if ok else str(got))


def mutate(d, ops):
    for op, v in ops:
        if op == 'select' and any(r >= v for r in d.values_list(columns=['rid'], to_list=True)):
            d.select('rid >= %d' % v, copy=False)
        elif op == 'drop' and len(d) > 2:
            d.drop(d.values_list(columns=['rid'], to_list=True)[:1], copy=False)
        elif op == 'apply':
            d.apply('interaction', lambda x: x + v)
        elif op == 'retype':
            d.apply('interaction', lambda x: 'k%s' % x if v else float(x) + .5)
        elif op == 'assign':
            d.assign_internal_ids()
        elif op == 'values':
            for _ in range(v):
                list(d.values())


def run_crash(sc):
    ds.set_thresholds(sc.get('thresholds'))
    wd = tempfile.mkdtemp(prefix='crash_', dir=core.SCRATCH)
    target, other = os.path.join(wd, 't.sqlite'), os.path.join(wd, 'o.sqlite')
    template = os.path.join(wd, 'template.sqlite')

    def prepare(report):  # files that exist at the start
        d = ds.load(sc['data'], 'db')
        d.save(other)
        if sc['existing'] or sc['setup'] == 'own':
            d.drop([0], copy=False) if len(d) > 2 else None
            d.save(template)
        d.close()
    crash.in_child(prepare)

    def reset():
        for n in os.listdir(wd):
            if n.startswith('t.sqlite'):
                os.remove(os.path.join(wd, n))
        if os.path.exists(template):
            shutil.copy(template, target)
    keep = []

    def build():
        if sc['setup'] == 'fresh':
            d = ds.load(sc['data'], 'db')
        else:
            d = InteractionDataset(target if sc['setup'] == 'own' else other, verbose=False, **({} if sc['chunk'] is None else dict(chunksize=sc['chunk'])))
        if sc['setup'] != 'own':
            mutate(d, sc['ops'])
        return d

    def attempt(kind, at, later):
        def go(report):
            f = crash.Faults(kind, wd)
            f.at = at
            d = build()
            if not later and sc['setup'] == 'own':  # other operations are hit as well
                report(what='use')
                with f:
                    mutate(d, sc['ops'])
                report(what='used', points=f.points())
                return
            mutate(d, sc['ops'] if sc['setup'] == 'own' else [])
            if kind in ('size', 'sizekill') and sc['setup'] == 'fresh':
                mutate(d, [('values', 6)])  # temporary storage is not protected: nothing is written to it while saving
            report(what='start', rows=contents(d))
            for faulty in (True, False):
                try:
                    if faulty:
                        with f:
                            d.save('' if sc['implicit'] and sc['setup'] == 'own' else target)
                    else:
                        d.save(target)
                    out = 'ok'
                except Exception:
                    out = 'err'
                except crash.Interrupted:
                    report(what='died')
                    return
                try:
                    after, bad = contents(d), False
                except Exception:
                    after, bad = [], True
                snapshot(target, os.path.join(wd, 'snap%d' % faulty))
                report(what='end', out=out, after=after, bad=bad, points=f.points(), faulty=faulty)
                if out == 'ok':
                    return
        return crash.in_child(go)

    codes, events = {}, []

    def rows(rs):
        return [codes.setdefault(json.dumps(r), len(codes) + 1) for r in rs]

    def coded(lk):
        return dict(lk, rows=rows(lk['rows']))

    def judge(res, kind, at, faulty):
        for x in res:
            if x['what'] in ('start', 'use'):
                start = x
        rest = [x for x in res if x['what'] == 'end']
        if not rest:
            lk = coded(look_crash(target, wd))
            if not res or start['what'] == 'use':
                events.append(dict(op='use', look=lk, fault=[kind, at]))
            else:
                events.append(dict(op='save', rows=rows(start['rows']), out='died', look=lk, after=[], unusable=False, faulty=faulty, fault=[kind, at]))
        for x in rest:
            lk = coded(look_crash(os.path.join(wd, 'snap%d' % x['faulty']), wd))
            events.append(dict(op='save', rows=rows(start['rows']), out=x['out'], look=lk, after=rows(x['after']), unusable=x['bad'],
                               faulty=x['faulty'] and faulty, fault=[kind, at] if x['faulty'] else []))

    for kind, phase in sc['faults']:
        if phase == 'use' and sc['setup'] != 'own':
            continue
        reset()
        dry = attempt(kind, None, phase == 'save')
        points = sum([x.get('points', []) for x in dry], []) or [0]
        if kind in ('size', 'sizekill'):
            points = range(0, os.path.getsize(target) + 4096 if os.path.exists(target) else 4096)
        if kind == 'state':
            points = points[::max(1, len(points) // sc.get('states', 25))]
        elif sc['at']:
            points = [points[int(f * len(points))] for f in sc['at']]
        elif len(points) > 250:
            points = [points[k * len(points) // 250] for k in range(250)]
        for at in sorted(set(points)):
            reset()
            events.append(dict(op='reset', look=coded(look_crash(target, wd)), fault=[]))
            try:
                res = attempt(kind, at, phase == 'save')
            except core.MachineryError:
                if phase == 'use':
                    res = []  # the operation failed, as it should
                else:
                    raise
            judge(res, kind, at, True)
            if events[-1]['look']['broken']:
                break  # not judged any further
            if phase == 'save' and events[-1]['out'] == 'died' or phase == 'use':
                judge(attempt(kind, None, True), kind, None, False)
    shutil.rmtree(wd, ignore_errors=True)
    return dict(ops=events)


def encode_crash(t):
    def lk(x):
        return dict(there=x['there'], broken=x['broken'], rows=x['rows'])
    return dict(ops=[dict({k: v for k, v in e.items() if k not in ('look', 'fault')}, look=lk(e['look'])) for e in t['ops']])


KINDS = ('line', 'interrupt', 'audit', 'sql', 'size', 'sizekill')


def crash_scripts(chk, count, points, full):
    out = []
    for k in range(count):
        rng = chk.rng('crash%d' % k)
        data = clean_strings(ds.content(rng, nmax=rng.choice([3, 6, 14]), nmin=2, weird=rng.random() < .3))
        if rng.random() < .3:  # several pages
            base = data['rows']
            data['rows'] = [list(r) for _ in range(200) for r in base][:rng.choice([120, 300])]
        if len(data['rows']) < 2:
            continue
        ops = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            ops.append(rng.choice([('select', rng.randint(0, 2)), ('drop', 0), ('values', rng.randint(1, 5)), ('assign', 0)]
                                  + [('apply', 1), ('retype', rng.choice([0, 1]))] * (not any(o[0] in ('apply', 'retype') for o in ops))))
        numeric = all(isinstance(r[data['cols'].index('interaction')], (int, float)) for r in data['rows'])
        ops = [o for o in ops if numeric or o[0] not in ('apply', 'retype')]
        setup = ('own', 'fresh', 'other', 'own')[k % 4]
        faults = [('state', 'save'), (rng.choice(KINDS), 'save'), (rng.choice(KINDS), 'save')] + ([(rng.choice(('line', 'state', 'interrupt', 'size', 'sizekill', 'sql')), 'use')] if setup == 'own' and ops else [])
        out.append(dict(data=data, setup=setup, existing=rng.random() < .7, ops=ops, chunk=rng.choice([None, 1, 2, 50]), implicit=rng.random() < .5, faults=faults,
                        at=sorted(rng.random() for _ in range(points)), thresholds=rng.choice(ds.THRESHOLDS)))
    for k in range(full):  # every place of a save, once
        rng = chk.rng('full%d' % k)
        data = clean_strings(ds.content(rng, nmax=5, nmin=3, weird=False))
        setup = ('own', 'other', 'fresh')[k % 3]
        kind = ('line', 'interrupt', 'audit', 'sql')[k % 4]
        if len(data['rows']) > 2:
            out.insert(0, dict(data=data, setup=setup, existing=True, ops=[('drop', 0)], chunk=rng.choice([None, 1, 2]), implicit=rng.random() < .5, faults=[(kind, 'save')], at=None, thresholds=rng.choice(ds.THRESHOLDS)))
    return out


def C07(chk):
    chk.design('PersistMC', 'PersistMC2.cfg' if chk.thorough else None)
    for b, inv in (('inplace', 'Atomic'), ('removefirst', 'Atomic'), ('keeptmp', 'Progress')):
        chk.design('PersistMC', 'PersistBug_%s.cfg' % b, expect_violation=inv)
    chk.scenarios('CrashTrace', run_crash, encode_crash, crash_scripts(chk, chk.n(80, 400), chk.n(5, 40), chk.n(12, 60)), timeout=300)


# ---------------------------------------------------------------- C25
class Proc:
    """A process using the library, driven over pipes."""

    def __init__(self, userfile, other=False):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                signal.alarm(240)
                os.umask(0)
                if other:
                    os.setgroups([])
                    os.setgid(OTHER)
                    os.setuid(OTHER)
                self.serve(a[0], b[1], userfile)
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = os.fdopen(a[1], 'w'), os.fdopen(b[0], 'r')
        self.alive = True

    def ask(self, **k):
        self.w.write(json.dumps(k) + '\n')
        self.w.flush()
        line = self.r.readline()
        return json.loads(line) if line else dict(tag='err', err='process ended')

    def end(self, how):
        if how == 'kill':
            os.kill(self.pid, signal.SIGKILL)
        else:
            try:
                self.w.write(json.dumps(dict(op='exit', how=how)) + '\n')
                self.w.flush()
            except OSError:
                pass
        os.waitpid(self.pid, 0)
        self.alive = False
        self.w.close()
        self.r.close()

    def serve(self, r, w, userfile):
        for m in [m for m in sys.modules if m.split('.')[0] == 'DRecPy']:
            del sys.modules[m]
        insts, want, gens = {}, {}, []
        for line in os.fdopen(r, 'r'):
            e = json.loads(line)
            if e['op'] == 'exit':
                if e['how'] == 'clean':
                    insts.clear()
                    gens.clear()
                    gc.collect()
                os._exit(0)
            try:
                res = dict(tag='ok')
                if e['op'] == 'load':
                    import DRecPy.Dataset as D
                elif e['op'] == 'check':
                    res['bad'] = []
                    for k, d in insts.items():
                        try:
                            if k in want and d.values_list(to_list=True) != want[k]:
                                res['bad'].append([k, 'other contents'])
                        except Exception as ex:
                            res['bad'].append([k, str(ex)[:200]])
                    d = None
                else:
                    self.do(e, insts, want, userfile)
            except Exception as ex:
                res = dict(tag='err', err='%s: %s' % (type(ex).__name__, str(ex)[:200]))
            os.write(w, (json.dumps(res) + '\n').encode())

    def do(self, e, insts, want, userfile):
        from DRecPy.Dataset import InteractionDataset
        k = e.get('k')
        if e['op'] == 'create':
            if e['via'] == 'user':
                insts[k] = InteractionDataset(userfile, verbose=False)
            else:
                insts[k] = InteractionDataset(e['csv'], columns=['user', 'item', 'interaction'], in_memory=False, verbose=False)
        elif e['op'] == 'fail':
            try:
                InteractionDataset(e['csv'], columns=['user', 'item', 'interaction'], in_memory=False, verbose=False)
            except Exception:
                pass
            gc.collect()
            return
        elif e['op'] == 'derive':
            d, how = insts[k], e['how']
            k = e['j']
            insts[k] = {'copy': lambda: d.copy(), 'select': lambda: d.select('interaction >= 0'), 'unique': lambda: d.unique(['user']),
                        'drop': lambda: d.drop([d.values_list(columns=['rid'], to_list=True)[0]])}[how]()
        elif e['op'] == 'use':
            d, how = insts[k], e['how']
            if how == 'ids':
                d.assign_internal_ids()
            elif how == 'apply':
                d.apply('interaction', lambda x: x + 1)
            elif how == 'filter':
                d.select('interaction >= 0', copy=False)
            else:
                for _ in range(6):
                    list(d.values())
        elif e['op'] == 'close':
            d = insts.pop(k)
            want.pop(k)
            if e['how'] != 'del':
                d.close()
            if e['how'] == 'twice':
                d.close()
            del d
            gc.collect()
            return
        want[k] = insts[k].values_list(to_list=True)


OTHER = 65534  # an unprivileged user
_others = None


def others():
    """Whether processes of another user can use the library and the scratch directories here."""
    global _others
    if _others is None:
        d = tempfile.mkdtemp(prefix='other_', dir=core.SCRATCH)
        open_up(d)
        pid = os.fork()
        if pid == 0:
            ok = 1
            try:
                os.setgroups([])
                os.setgid(OTHER)
                os.setuid(OTHER)
                import DRecPy
                for root, _, names in os.walk(os.path.dirname(DRecPy.__file__)):
                    for n in names:
                        if n.endswith('.py'):
                            open(os.path.join(root, n)).close()
                open(os.path.join(d, 'x'), 'w').close()
                try:
                    os.kill(os.getppid(), 0)
                except PermissionError:
                    ok = 0
            except Exception:
                pass
            os._exit(ok)
        _others = os.waitpid(pid, 0)[1] == 0
        shutil.rmtree(d, ignore_errors=True)
    return _others


def open_up(d):
    """Lets other users into a scratch directory."""
    os.chmod(d, 0o777)
    d = os.path.dirname(d)
    while d.startswith(core.SCRATCH) and len(d) >= len(core.SCRATCH):
        os.chmod(d, os.stat(d).st_mode | 0o011)
        d = os.path.dirname(d)


def used(events):
    """Numbers of the files of processes still running, after the events."""
    own, dead = {}, set()
    for e in events:
        for f in e['new']:
            own[f] = e['p']
        if e['op'] == 'die':
            dead.add(e['p'])
    return {f for f in own if own[f] not in dead}


def run_temp(sc):
    wd = tempfile.mkdtemp(prefix='temp_', dir=core.SCRATCH)
    open_up(wd)
    home = os.path.join(wd, 'data')
    before = os.environ['DATA_FOLDER']
    userfile = os.path.join(home if sc['userhome'] else wd, 'mine.sqlite')
    good, bad = os.path.join(wd, 'good.csv'), os.path.join(wd, 'bad.csv')
    with open(good, 'w') as f:
        f.write(''.join('%d,%d,%d\n' % (k % 5, k, k % 3) for k in range(sc['n'])))
    with open(bad, 'w') as f:
        f.write('1,2,3\n' * 3 + '1,2,x\n')
    procs, ids, events = {}, {}, []
    os.environ['DATA_FOLDER'] = home
    try:
        def prepare(report):
            os.environ['DATA_FOLDER'] = before
            os.makedirs(home)
            os.chmod(home, 0o777)
            d = InteractionDataset(good, columns=['user', 'item', 'interaction'], in_memory=False, verbose=False)
            d.save(userfile)
            d.close()
            os.chmod(userfile, 0o666)
        crash.in_child(prepare)
        if not sc['home']:
            shutil.rmtree(home) if not sc['userhome'] else None
        rows = sqlite3.connect(userfile).execute('SELECT user, item, interaction FROM interactions ORDER BY rid').fetchall()
        for e in sc['ops']:
            e = dict(e, new=[])
            p = e['p']
            if e['op'] == 'load':
                procs[p] = Proc(userfile, e.get('other') and others())
            elif e['op'] == 'gone':  # a file nobody uses any more is removed by hand
                dead = [n for n in ids if os.path.isdir(home) and n in os.listdir(home) and ids[n] not in used(events)]
                for n in dead[:e['n']]:
                    os.remove(os.path.join(home, n))
                e['p'] = p = 0
            elif e['op'] == 'die':
                procs.pop(p).end(e['how'])
            res = procs[p].ask(**dict(e, csv=bad if e['op'] == 'fail' else good)) if e['op'] not in ('die', 'gone') else dict(tag='ok')
            e['bad'] = [[q] + b for q, x in sorted(procs.items()) for b in x.ask(op='check').get('bad', [[0, 'no answer']])]
            e.update(res)
            seen = sorted(n for n in os.listdir(home) if n.endswith('.sqlite') and n != 'mine.sqlite') if os.path.isdir(home) else []
            for n in seen:
                if n not in ids:
                    ids[n] = len(ids) + 1
                    e['new'].append(ids[n])
            e['files'] = [ids[n] for n in seen]
            try:
                e['userok'] = sqlite3.connect(userfile).execute('SELECT user, item, interaction FROM interactions ORDER BY rid').fetchall() == rows
            except sqlite3.Error:
                e['userok'] = False
            events.append(e)
            if e['tag'] != 'ok':
                break
    finally:
        for x in procs.values():
            x.end('kill')
        os.environ['DATA_FOLDER'] = before
        shutil.rmtree(wd, ignore_errors=True)
    return dict(ops=events)


def encode_temp(t):
    return dict(ops=[dict(op=e['op'], p=e['p'], k=e.get('k', 0), j=e.get('j', 0), new=e['new'], files=e['files'], bad=[1] * len(e['bad']), userok=e['userok'], tag=e['tag']) for e in t['ops']])


def temp_scripts(chk, count):
    out = []
    for n in range(count):
        rng = chk.rng('temp%d' % n)
        ops, live, keys, born = [], {}, 0, 0
        multi = rng.random() < .3  # processes of several users
        for _ in range(rng.randint(6, 26)):
            r = rng.random()
            if not live or r < .12 and born < 5:
                born += 1
                live[born] = {}
                ops.append(dict(op='load', p=born, other=multi and rng.random() < .5))
                continue
            if r > .97:
                ops.append(dict(op='gone', p=0, n=rng.choice([1, 1, 2])))
                continue
            p = rng.choice(sorted(live))
            mine = live[p]
            if r < .2 and len(live) + (5 - born) > 1:
                del live[p]
                ops.append(dict(op='die', p=p, how=rng.choice(['kill', 'kill', 'exit', 'clean'])))
            elif r < .42 or not mine:
                keys += 1
                mine[keys] = ['user', 'item', 'interaction']
                ops.append(dict(op='create', p=p, k=keys, via='user' if rng.random() < .25 else 'csv'))
            elif r < .46:
                ops.append(dict(op='fail', p=p, k=0))
            elif r < .66:
                k = rng.choice(sorted(mine))
                keys += 1
                how = rng.choice(['copy', 'select', 'drop', 'unique'])
                if how == 'unique' or mine[k] != ['user', 'item', 'interaction']:
                    how = 'copy' if mine[k] != ['user', 'item', 'interaction'] else how
                mine[keys] = ['user'] if how == 'unique' else mine[k]
                ops.append(dict(op='derive', p=p, k=k, j=keys, how=how))
            elif r < .76:
                k = rng.choice(sorted(mine))
                if len(mine[k]) == 3:
                    ops.append(dict(op='use', p=p, k=k, how=rng.choice(['ids', 'apply', 'filter', 'values'])))
            else:
                k = rng.choice(sorted(mine))
                del mine[k]
                ops.append(dict(op='close', p=p, k=k, how=rng.choice(['once', 'twice', 'del', 'del'])))
        if born < 6:
            if rng.random() < .2:
                ops.append(dict(op='gone', p=0, n=1))
            ops.append(dict(op='load', p=6, other=multi and rng.random() < .3))
        out.append(dict(ops=ops, n=rng.choice([3, 12, 40]), home=multi or rng.random() < .8, userhome=rng.random() < .4))
    return out


def C25(chk):
    chk.design('TempFiles', 'TempFiles4.cfg' if chk.thorough else None)
    for b, inv in (('eager', 'Readable'), ('doubleclose', 'Readable'), ('unregall', 'NoLeak'), ('keepfile', 'NoLeak'), ('closeuser', 'UserFiles')):
        chk.design('TempFiles', 'TempBug_%s.cfg' % b, expect_violation=inv)
    chk.scenarios('TempTrace', run_temp, encode_temp, temp_scripts(chk, chk.n(1500, 6000)), timeout=300)
