"""C23 loading of text files and data frames, C24 integrated datasets."""
import csv, io, json, os, random, shutil, sys, tempfile, zipfile
import core, crash, ds
from codec import native

import DRecPy.Dataset  # noqa: F401
from DRecPy.Dataset import InteractionDataset

WORDS = ['a', 'b', 'zz', 'B', 'é', 'ß', "o'neil", 'x,y', 'say "hi"', ' lead', 'trail ', 'NA', 'N/A', 'null', 'None', 'nan', 'True', 'false', 'inf', '-', '#x', '1_000', '0x10', '1 2',
         'a;b', 'a|b', 'a:b', '10', '3.5', '007', '1e5', 'back\\', '', 'a\tb', '*', '$', 'é,"ü"', '1,5', "''", '""', 'NULL', '<NA>', 'n/a', '0', '-0', '00']
DELIMS = [',', ',', ';', '\t', '|', ' ', ':', '::', '::', '||', '$$', '.*', ', ', ' - ', '^^', '\\s', '+', '.']
ENCODINGS = [None, None, 'utf8', 'latin1', 'utf-16', 'cp1252', 'utf-8-sig']


def is_num(s):
    if '_' in s or s.strip() != s:
        return False
    try:
        return float(s) == float(s) and abs(float(s)) != float('inf')
    except ValueError:
        return False


def column(rng, kind, n, delim):
    def ok(w):
        return len(delim) == 1 and not (w == '' and delim == ' ') or not any(c in w for c in set(delim) | {'"'}) and w != ''
    words = [w for w in WORDS if ok(w)]
    if kind == 'int':
        return [str(rng.choice([rng.randint(0, 9), rng.randint(-50, 2000), rng.randint(0, 2**50)])) for _ in range(n)]
    if kind == 'padded':
        return ['%04d' % rng.randint(0, 99) for _ in range(n)]
    if kind == 'float':
        return [rng.choice([repr(rng.uniform(-10, 10)), repr(round(rng.uniform(0, 5), rng.choice([1, 3, 6]))), '%de%d' % (rng.randint(1, 9), rng.randint(0, 3))]) for _ in range(n)]
    if kind == 'numbers':
        return [rng.choice([str(rng.randint(0, 9)), repr(rng.uniform(0, 10))]) for _ in range(n)]
    if kind == 'bool':
        return [rng.choice(['True', 'False']) for _ in range(n)]
    if kind == 'odd':
        return [rng.choice(['NA', 'null', 'None', '1_0', '2_0', 'n/a']) for _ in range(n)]
    if kind == 'under':
        return [rng.choice(['1_0', '2_0', '10_000', '1_0.5']) for _ in range(n)]
    if kind == 'plus':
        return [rng.choice(['+5', '7', '+0.5', '+12']) for _ in range(n)]
    if kind == 'mixed':  # numbers with some text among them
        out = [rng.choice([str(rng.randint(0, 99)), '0%d' % rng.randint(0, 99), '%d.50' % rng.randint(0, 9)]) for _ in range(n)]
        for k in rng.sample(range(n), rng.choice([1, 1, max(1, n // 2)])):
            out[k] = rng.choice(['x', 'u7', '034X'])
        return out
    out = [rng.choice(words) for _ in range(n)]
    out[rng.randrange(n)] = rng.choice(['zz', 'Q'])
    return out


def write_text(sc, path):
    d, n = sc['delim'], len(sc['rows'])
    lines = []
    for r in ([sc['headline']] if sc['header'] else []) + sc['rows']:
        if len(d) == 1:
            buf = io.StringIO()
            csv.writer(buf, delimiter=d, lineterminator='', quoting=sc['quoting']).writerow(r)
            lines.append(buf.getvalue())
        else:
            lines.append(d.join(r))
    for k in sorted(sc['blank'], reverse=True):
        lines.insert(k + sc['header'] + 1, '')
    with open(path, 'w', newline='', encoding=sc['encoding'] or 'utf8') as f:
        f.write(sc['eol'].join(lines) + (sc['eol'] if sc['lasteol'] else ''))
    assert n


class Intern:
    def __init__(self):
        self.n, self.t = {}, {}

    def num(self, v):
        return self.n.setdefault(v, len(self.n) + 1)

    def text(self, v):
        return self.t.setdefault(v, len(self.t) + 1)

    def field(self, s):
        num = is_num(s)
        return dict(num=num, n=self.num(int(s) if s.lstrip('-').isdigit() else float(s)) if num else 0, t=self.text(s))

    def value(self, v):
        v = native(v)
        if isinstance(v, str):
            return ['t', self.text(v)]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return ['x', 0]
        return ['n', self.num(v)]


class NoMemory:
    """Reading a file into memory does not fit."""

    def __init__(self, on):
        mod = sys.modules.get('DRecPy.Dataset.mem_dataset')
        self.pd = getattr(mod, 'pd', None)
        self.on = on and self.pd is not None

    def __enter__(self):
        if self.on:
            self.orig = self.pd.read_csv

            def fail(*a, **k):
                raise MemoryError
            self.pd.read_csv = fail
        return self.on

    def __exit__(self, *a):
        if self.on:
            self.pd.read_csv = self.orig


def run_loading(sc):
    it = Intern()
    out = []
    if sc.get('big'):  # large files are read in parts
        sc = dict(sc, rows=[list(sc['rows'][0]) for _ in range(sc['big'])] + sc['rows'])
    wd = tempfile.mkdtemp(prefix='load_', dir=core.SCRATCH)
    path = os.path.join(wd, 'f.csv')
    write_text(sc, path)
    for c in sc['loads']:
        e = dict(op='load', decl=[x or '' for x in c['decl']], cols=[], len=0, rids=[], rows=[], backend='', want=c['backend'])
        kw = {}
        decl = list(c['decl'])
        if c.get('chunk') is not None:
            kw['chunksize'] = c['chunk']
        if sc['encoding'] is not None:
            kw['encoding'] = sc['encoding']
        if sc['header'] or c['explicit']:
            kw['has_header'] = sc['header']
        if sc['delim'] != ',' or c['explicit']:
            kw['delimiter'] = sc['delim']
        try:
            with NoMemory(c['nomem']) as nomem:
                if c['backend'] == 'mem' and nomem:
                    e['want'] = 'db'
                d = InteractionDataset(path, columns=decl, in_memory=c['backend'] == 'mem', verbose=c.get('verbose', False), **kw)
            report(e, d, it)
        except Exception as ex:
            e.update(tag='err', err='%s: %s' % (type(ex).__name__, str(ex)[:200]))
        e['same'] = decl == list(c['decl'])
        out.append(e)
    shutil.rmtree(wd, ignore_errors=True)
    fields = [[it.field(x) for x in r] for r in sc['rows']]
    if sc.get('big'):  # the repeated rows are compared here
        for e in out:
            if e['tag'] == 'ok' and e['rids'] == list(range(len(sc['rows']))) and len(set(map(json.dumps, e['rows'][:sc['big'] + 1]))) == 1:
                e.update(rows=e['rows'][sc['big']:], rids=e['rids'][:len(sc['rows']) - sc['big']], len=e['len'] - sc['big'])
        fields = fields[sc['big']:]
    return dict(file=fields, ops=out)


def report(e, d, it):
    cols = [str(c) for c in d.columns if c != 'rid']
    rows = d.values_list(columns=cols, to_list=True) if len(cols) > 1 else [[v] for v in d.values_list(columns=cols, to_list=True)]
    e.update(tag='ok', cols=cols, len=len(d), rids=[native(v) for v in d.values_list(columns=['rid'], to_list=True)],
             rows=[[it.value(v) for v in r] for r in rows], backend='mem' if d.in_memory else 'db')


def run_df(sc):
    import pandas as pd
    it = Intern()

    def typed(col):
        return [(int(x) if x.lstrip('-').isdigit() else float(x)) for x in col] if all(is_num(x) for x in col) else list(col)
    names = sc['names']
    data = {c: typed([r[k] for r in sc['rows']]) for k, c in enumerate(names)}
    df = pd.DataFrame(data, columns=names, index=sc['index'])
    before = df.copy(deep=True)
    lab = sc['labels']
    back = {v: k for k, v in lab.items()}
    decl = [back.get(c, c) for c in names]
    e = dict(op='load', decl=decl, cols=[], len=0, rids=[], rows=[], backend='', want='mem', same=True)
    try:
        d = InteractionDataset.read_df(df, verbose=sc.get('verbose', False), **{k + '_label': v for k, v in lab.items() if v != k or sc['explicit']})
        report(e, d, it)
        if sorted(e['cols']) == sorted(decl):  # any order
            perm = [e['cols'].index(c) for c in decl]
            e.update(cols=decl, rows=[[r[k] for k in perm] for r in e['rows']])
        d.apply('interaction', lambda x: x + 1)
        d.select('interaction >= 3', copy=False)
    except Exception as ex:
        if not e.get('tag'):
            e.update(tag='err', err='%s: %s' % (type(ex).__name__, str(ex)[:200]))
    same = before.equals(df) and list(before.index) == list(df.index) and list(before.columns) == list(df.columns)
    return dict(file=[[it.field(x) for x in r] for r in sc['rows']], ops=[e, dict(op='df', same=bool(same))])


def run_load(sc):
    return run_df(sc) if sc['kind'] == 'df' else run_loading(sc)


def encode_load(t):
    keep = ('op', 'decl', 'cols', 'len', 'rids', 'rows', 'backend', 'want', 'tag', 'same')
    return dict(file=t['file'], ops=[{k: v for k, v in e.items() if k in keep} for e in t['ops']])


def load_scripts(chk, count):
    out = []
    for k in range(count):
        rng = chk.rng('load%d' % k)
        delim = rng.choice(DELIMS)
        enc = rng.choice(ENCODINGS)
        n = rng.choice([1, 2, 3, 5, 9, 17])
        names = ['user', 'item', 'interaction'] + rng.sample(['timestamp', 'tag', 'score', 'x1'], rng.choice([0, 0, 1, 2]))
        if rng.random() < .5:
            rng.shuffle(names)
        # whitespace as text delimiter or dots leave no room for some values
        kinds = ['int', 'int', 'padded', 'float', 'text', 'text', 'mixed', 'bool', 'odd', 'numbers', 'under', 'plus']
        if delim in ('.', '.*', '+'):
            kinds = ['int', 'padded', 'text', 'bool']
        cols = {}
        for c in names:
            kind = rng.choice(['int', 'float', 'numbers'] if c == 'interaction' else kinds)
            if c == 'interaction' and delim in ('.', '.*', '+'):
                kind = 'int'
            cols[c] = column(rng, kind, n, delim)
        rows = [list(r) for r in zip(*[cols[c] for c in names])]
        if enc in ('latin1', 'cp1252'):
            rows = [[v.encode(enc, 'ignore').decode(enc) for v in r] for r in rows]
        if delim == '+' or delim == '.':
            quoting = csv.QUOTE_ALL
        else:
            quoting = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
        if rng.random() < .2:
            out.append(df_script(rng, names, rows))
            continue
        blank = sorted(rng.sample(range(n), rng.randint(1, min(2, n)))) if rng.random() < .25 else []
        sc = dict(kind='file', delim=delim, encoding=enc, rows=rows, header=rng.random() < .5, headline=['h%d' % i for i in range(len(names))], quoting=quoting,
                  blank=blank, eol=rng.choice(['\n', '\n', '\r\n']), lasteol=rng.random() < .8, loads=[])
        decls = [list(names)]
        skippable = [c for c in names if c not in ('user', 'item', 'interaction')]
        if skippable:
            d = list(names)
            for c in rng.sample(skippable, rng.randint(1, len(skippable))):
                d[d.index(c)] = None
            decls.append(d)
            if names[-1] in skippable:
                decls.append(names[:-1])
        if rng.random() < .25:
            bad = list(names)
            bad[bad.index(rng.choice(['user', 'item', 'interaction']))] = rng.choice([None, 'other'])
            decls.append(bad)
        if rng.random() < .2:
            decls.append([c if c != names[-1] else rng.choice(['uid', 'iid']) for c in names] + [])
        for d in decls:
            for backend in ('mem', 'db'):
                sc['loads'].append(dict(decl=d, backend=backend, nomem=rng.random() < .15, verbose=rng.random() < .3, explicit=rng.random() < .5,
                                        chunk=rng.choice([None, 1, 2, 3, n, n + 1, max(1, n - 1)]) if backend == 'db' else None))
        out.append(sc)
    for k in range(chk.n(4, 16)):  # large files
        rng = chk.rng('big%d' % k)
        sc = dict(kind='file', delim=rng.choice([',', '::']), encoding=None, rows=[['1', '01', '2', '3'], ['2', '02', '1', '7'], ['x', '0y', '3', '2.5']], header=rng.random() < .5, headline=['a', 'b', 'c', 'd'],
                  quoting=csv.QUOTE_MINIMAL, blank=[], eol='\n', lasteol=True, big=rng.choice([60000, 90000]), loads=[])
        for backend in ('mem', 'db'):
            sc['loads'].append(dict(decl=['user', 'item', 'interaction', 'x'], backend=backend, nomem=False, verbose=rng.random() < .5, explicit=True, chunk=rng.choice([None, 1000, 7]) if backend == 'db' else None))
        out.append(sc)
    return out


def df_script(rng, names, rows):
    rows = [list(r) for r in rows]
    for k, c in enumerate(names):  # text in data frames is text even if it looks like a number
        col = [r[k] for r in rows]
        if all(is_num(x) for x in col):
            for r in rows:
                r[k] = str(int(r[k])) if r[k].lstrip('-').isdigit() else r[k]
    labels = {c: rng.choice([c, c, 'my_' + c]) for c in ('user', 'item', 'interaction')}
    cols = [labels.get(c, c) for c in names]
    if rng.random() < .1:
        cols[names.index('item')] = 'missing'
    n = len(rows)
    index = rng.choice([list(range(n)), list(range(n))[::-1], [5 * i + 3 for i in range(n)], [0] * n, ['r%d' % i for i in range(n)]])
    return dict(kind='df', names=cols, rows=rows, labels=labels, index=index, verbose=rng.random() < .3, explicit=rng.random() < .5)


def C23(chk):
    chk.design('Loading', 'Loading8.cfg' if chk.thorough else None)
    for b, inv in (('header', 'Complete'), ('restart', 'Consecutive'), ('last', 'Complete'), ('blank', 'Complete')):
        chk.design('Loading', 'LoadingBug_%s.cfg' % b, expect_violation=inv)
    chk.scenarios('LoadingTrace', run_load, encode_load, load_scripts(chk, chk.n(2500, 20000)), timeout=200)


# ---------------------------------------------------------------- C24
NAMES = {'ml-100k': dict(delim='\t', enc='utf8', header=False, folder='ml-100k', full='u.data', train='ua.base', test='ua.test', ts=True),
         'ml-1m': dict(delim='::', enc='utf8', header=False, folder='ml-1m', full='ratings.dat', ts=True),
         'ml-10m': dict(delim='::', enc='utf8', header=False, folder='ml-10M100K', full='ratings.dat', ts=True),
         'ml-20m': dict(delim=',', enc='utf8', header=True, folder='ml-20m', full='ratings.csv', ts=True),
         'bx': dict(delim=';', enc='latin1', header=True, folder=None, full='BX-Book-Ratings.csv', ts=False)}


def as_text(rows, o):
    quoted = o['delim'] == ';'
    head = ['userId', 'movieId', 'rating', 'timestamp'][:4 if o['ts'] else 3]
    lines = ([head] if o['header'] else []) + rows
    return ''.join(o['delim'].join('"%s"' % v if quoted else str(v) for v in r) + '\n' for r in lines).encode(o['enc'])


def archive(sc):
    o = NAMES[sc['name']]
    if o['folder'] is None:
        return as_text(sc['rows'], o)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr(o['folder'] + '/README', 'x')
        z.writestr(o['folder'] + '/' + o['full'], as_text(sc['rows'], o))
        if 'train' in o:
            z.writestr(o['folder'] + '/' + o['train'], as_text([sc['rows'][k] for k in sc['train']], o))
            z.writestr(o['folder'] + '/' + o['test'], as_text([sc['rows'][k] for k in sc['test']], o))
    return buf.getvalue()


def run_integrated(sc):
    import requests, time
    import DRecPy.Dataset as D
    wd = tempfile.mkdtemp(prefix='int_', dir=core.SCRATCH)
    before = os.environ['DATA_FOLDER']
    blob = archive(sc)
    o = NAMES[sc['name']]
    index = {json.dumps([native(v) for v in r]): k + 1 for k, r in enumerate(sc['rows'])}
    want = ['user', 'item', 'interaction'] + (['timestamp'] if o['ts'] else [])
    homes, events = 0, []
    try:
        def fresh():
            nonlocal homes
            homes += 1
            os.environ['DATA_FOLDER'] = os.path.join(wd, 'home%d' % homes)
            if homes % 2:
                os.makedirs(os.environ['DATA_FOLDER'])
        fresh()
        for e in sc['ops']:
            e = dict(e)
            if e['op'] == 'reset':
                fresh()
                events.append(e)
                continue

            def go(report, at=None, dry=False):
                gets = []

                def request(self, method, url, *a, **k):
                    gets.append(url)
                    if e['down']:
                        raise requests.exceptions.ConnectionError('no network')
                    r = requests.models.Response()
                    r.status_code, r._content, r._content_consumed, r.url = 200, blob, True, url
                    r.raw = io.BytesIO(blob)
                    return r
                requests.sessions.Session.request = request
                sleep = time.sleep
                time.sleep = lambda s: sleep(.002)
                fn = {'full': D.get_full_dataset, 'train': D.get_train_dataset, 'test': D.get_test_dataset}[e['kind']]
                f = crash.Faults(e['how'], os.environ['DATA_FOLDER']) if e['fault'] else None
                try:
                    if f is not None:
                        f.at = at
                        with f:
                            d = fn(e['name'], force_out_of_memory=e['db'], verbose=e.get('verbose', False))
                    else:
                        d = fn(e['name'], force_out_of_memory=e['db'], verbose=e.get('verbose', False))
                    cols = sorted(c for c in d.columns if c not in ('rid',))
                    rows = d.values_list(columns=want, to_list=True) if cols == sorted(want) else []
                    nums = [index.get(json.dumps([int(v) if isinstance(v, float) and v == int(v) else v for v in map(native, r)]), 0) for r in rows]
                    report(tag='ok', rows=nums, gets=len(gets), typed=cols == sorted(want) and d.in_memory == (not e['db']), points=f.points() if f else [])
                except FileNotFoundError as ex:
                    report(tag='refused', rows=[], gets=len(gets), typed=False, err=str(ex)[:200])
                except Exception as ex:
                    report(tag='err', rows=[], gets=len(gets), typed=False, err='%s: %s' % (type(ex).__name__, str(ex)[:200]))
                except crash.Interrupted:
                    report(tag='err', rows=[], gets=0, typed=False)
            if e['fault']:  # counted on a copy of the folder
                home = os.environ['DATA_FOLDER']
                copy = os.path.join(wd, 'dry')
                if os.path.isdir(home):
                    shutil.copytree(home, copy)
                os.environ['DATA_FOLDER'] = copy
                got = crash.in_child(go)
                shutil.rmtree(copy, ignore_errors=True)
                os.environ['DATA_FOLDER'] = home
                pts = got[0].get('points') if got else None
                pts = pts or [0]
                at = pts[int(e['at'] * len(pts))]
                got = crash.in_child(lambda report: go(report, at))
            else:
                got = crash.in_child(go)
            e.update(got[0] if got else dict(tag='died', rows=[], gets=0, typed=False))
            e.pop('points', None)
            events.append(e)
    finally:
        os.environ['DATA_FOLDER'] = before
        shutil.rmtree(wd, ignore_errors=True)
    return dict(users=sc['users'], own='train' in o, train=[k + 1 for k in sc['train']], test=[k + 1 for k in sc['test']], ops=events)


def encode_integrated(t):
    keep = ('op', 'kind', 'known', 'fault', 'down', 'tag', 'rows', 'gets', 'typed')
    return dict(t, ops=[{k: v for k, v in e.items() if k in keep} for e in t['ops']])


def integrated_scripts(chk, count):
    out = []
    for n in range(count):
        rng = chk.rng('int%d' % n)
        name = rng.choice(['ml-1m', 'ml-20m', 'bx', 'bx', 'ml-10m', 'ml-100k', 'ml-1m'])
        o = NAMES[name]
        users, rows = [], []
        for u in rng.sample(range(1, 40), rng.randint(2, 5)):
            for k in rng.sample(range(1, 30), rng.choice([2, 9, 10, 11, 12, 14])):
                item = k if name != 'bx' else rng.choice(['%05dX' % k, '\xe9%d' % k, 'i%d' % k, 'a %d' % k])
                rows.append([u, item, rng.choice([1, 2, 3, 4, 5]) if name != 'ml-20m' else rng.choice([.5, 1.5, 3.5])] + ([rng.randint(10**8, 10**9)] if o['ts'] else []))
        if rng.random() < .6:
            rng.shuffle(rows)
        uniq = {}
        for r in rows:
            uniq[(r[0], r[1])] = r
        rows = list(uniq.values())
        users = [r[0] for r in rows]
        cut = rng.randint(1, max(1, len(rows) - 1))
        ops = []
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .08:
                ops.append(dict(op='reset'))
                continue
            fault = rng.random() < .3
            known = rng.random() > .05
            ops.append(dict(op='get', verbose=rng.random() < .3, kind=rng.choice(['train', 'test', 'full', 'train', 'test']), name=name if known else rng.choice(['', 'ml', 'bx2', 'ML-1M']), known=known, db=rng.random() < .5,
                            fault=fault and known, how=rng.choice(['line', 'interrupt', 'audit', 'audit']), at=rng.random(), down=rng.random() < .1))
        ops += [dict(op='get', verbose=rng.random() < .3, kind=k, name=name, known=True, db=rng.random() < .5, fault=False, how='', at=0, down=False) for k in rng.sample(['train', 'test', 'full'], 3)]
        out.append(dict(name=name, rows=rows, users=users, train=list(range(cut)), test=list(range(cut, len(rows))), ops=ops))
    return out


def C24(chk):
    chk.design('Integrated')
    for b, inv in (('partialdir', 'Available'), ('partialgen', 'Right'), ('swapped', 'Right')):
        chk.design('Integrated', 'IntegratedBug_%s.cfg' % b, expect_violation=inv)
    chk.scenarios('IntegratedTrace', run_integrated, encode_integrated, integrated_scripts(chk, chk.n(480, 5000)), timeout=300)
