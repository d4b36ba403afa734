"""Dataset scripts: random generation, execution on the real library, encoding for DatasetTrace.tla."""
import csv, gc, os, random, sys, tempfile
import core
from codec import Codec, native, scaled, NULL, BAD

OPS = ['>', '>=', '<', '<=', '==', '!=']
STRS = ['a', 'b', 'B', 'ab', 'z', 'é', 'A b', "o'neil", 'x,y', 'user', 'item', 'say "hi"', '10', '9', '3.5', ' lead', 'tag', 'rid', 'o\'n "x", y', 'back\\', '\\\'', 'A', 'a_', '%', 'aa']
PLAIN = ['a', 'b', 'B', 'ab', 'z', 'u10', 'u9', 'Zz']


# ------------------------------------------------------------------ contents
def content(rng, nmax=10, id_kind=None, extra=None, nmin=0, weird=False):
    kinds = ['int', 'int', 'bigint', 'str', 'mixedstr', 'near', 'nearstr']
    uk = id_kind or rng.choice(kinds)
    ik = id_kind or rng.choice(kinds)
    if uk in ('near', 'nearstr') and rng.random() < .7:
        ik = uk

    def pool(kind, n):
        if kind == 'int':
            return rng.sample(range(1, 30), n)
        if kind == 'bigint':
            base = rng.choice([2**31 + 5, 2**40, 10**9])
            return [base + k for k in rng.sample(range(0, 50), n)]
        if kind == 'str':
            return rng.sample(STRS if weird else PLAIN, n)
        if kind == 'near':  # concatenations of different combinations coincide
            return rng.sample([1, 2, 11, 12, 21, 111, 112, 121], n)
        if kind == 'nearstr':
            return rng.sample(['a', 'aa', 'aaa', 'ab', 'b', 'ba', 'A', 'aA'], n)
        return ['u%d' % k for k in rng.sample(range(1, 30), n)]
    big = 5 if nmax < 30 else 7
    users, items = pool(uk, rng.randint(1, big)), pool(ik, rng.randint(1, big))
    clash = uk == ik and uk in ('near', 'nearstr') and nmax > 2
    if clash:
        p = [1, 11] if uk == 'near' else ['a', 'aa']
        users, items = list(dict.fromkeys(p + users)), list(dict.fromkeys(p + items))
    n = rng.randint(max(nmin, 2) if clash else nmin, nmax)
    vals = rng.choice([[1, 2, 3, 4, 5], [1, 2, 11, 12, 21], [0.5, 1.0, 1.5, 2.5, 5.0, 3.5], [-1, 0, 1, 2.5], [1], [3, 70000, 1000000, 16777217]])
    time0 = rng.choice([0, 0, 978300760, 1500000000000])
    scores = rng.choice([None, [3.14159265359, 3.141592653, 0.1, 0.3, 1234567.891], [1e-07, 0.125, 2.5e+14, 16777217, 16777216]])
    cols = ['user', 'item', 'interaction']
    extra = extra if extra is not None else rng.choice([[], [], ['timestamp'], ['timestamp', 'tag'], ['tag'], ['score', 'timestamp']])
    cols = cols + extra
    if rng.random() < .3:
        rng.shuffle(cols)
    rows = []
    for _ in range(n):
        r = dict(user=rng.choice(users), item=rng.choice(items), interaction=rng.choice(vals), timestamp=time0 + rng.randint(1, 40),
                 tag=rng.choice(STRS if weird else PLAIN), score=rng.choice(scores) if scores else rng.randint(-4, 20) / 2)
        rows.append([r[c] for c in cols])
        if rng.random() < .15 and rows:
            rows.append(list(rng.choice(rows)))
    rows = rows[:nmax]
    if clash and len(rows) > 1:
        u, i = cols.index('user'), cols.index('item')
        (rows[0][u], rows[0][i]), (rows[-1][u], rows[-1][i]) = p, p[::-1]
    # first line decides the column types of the database backend: keep them homogeneous
    for c in ('score', 'interaction'):
        if c in cols and rows and any(isinstance(r[cols.index(c)], float) and r[cols.index(c)] != int(r[cols.index(c)]) for r in rows):
            k = cols.index(c)
            for r in rows:
                r[k] = float(r[k])
    types = {c: ('str' if c == 'tag' else 'num') for c in cols}
    types['user'] = 'str' if uk in ('str', 'mixedstr', 'nearstr') else 'int'
    types['item'] = 'str' if ik in ('str', 'mixedstr', 'nearstr') else 'int'
    if types['user'] == 'str' or types['item'] == 'str' or 'tag' in cols:
        # text columns whose first value looks numeric would be read as numbers
        for c in cols:
            if types[c] == 'str' and rows:
                k = cols.index(c)
                if all(_looks_num(r[k]) for r in rows) or _looks_num(rows[0][k]):
                    for r in rows:
                        if _looks_num(r[k]):
                            r[k] = 'n' + r[k]
    return dict(cols=cols, rows=rows, types=types)


def large_content(rng, rows=None):
    """More rows, users and items than any usual batch, cache or small integer type holds."""
    n, nu, ni = rows or rng.choice([260, 700, 1100, 1100]), rng.choice([3, 40, 150, 270]), rng.choice([5, 40, 150, 270])
    uk, ik = rng.choice(['int', 'str']), rng.choice(['int', 'str'])
    user = {k: (k * 7 + 3 if uk == 'int' else 'u%d' % (k * 13)) for k in range(nu)}
    item = {k: (k * 3 + 1 if ik == 'int' else 'i%d' % (k * 11)) for k in range(ni)}
    rs = [[user[rng.randrange(nu)], item[rng.randrange(ni)], rng.randint(1, 5), rng.randint(1, 900)] for _ in range(n)]
    return dict(cols=['user', 'item', 'interaction', 'timestamp'], rows=rs, types=dict(user=uk, item=ik, interaction='num', timestamp='num'), large=True)


def _looks_num(s):
    try:
        float(s)
        return True
    except Exception:
        return False


def write_csv(path, cols, rows, header=False):
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, lineterminator='\n')
        if header:
            w.writerow(cols)
        for r in rows:
            w.writerow(r)


def load(data, backend, via='csv', verbose=None, workdir=None):
    verbose = data.get('verbose', False) if verbose is None else verbose
    from DRecPy.Dataset import InteractionDataset
    if backend == 'mem' and via == 'df':
        import pandas as pd
        return InteractionDataset.read_df(pd.DataFrame(data['rows'], columns=data['cols']), verbose=verbose)
    fd, path = tempfile.mkstemp(suffix='.csv', dir=core.SCRATCH)
    os.close(fd)
    try:
        write_csv(path, data['cols'], data['rows'])
        kw = {k: data[k] for k in ('chunksize', 'user_vec_cache_limit', 'item_vec_cache_limit') if backend == 'db' and data.get(k) is not None}
        return InteractionDataset(path, columns=list(data['cols']), in_memory=(backend == 'mem'), verbose=verbose, **kw)
    finally:
        os.remove(path)


def set_thresholds(th):
    """(n_query, n_rows, ratio, direct) optimisation thresholds of the database backend; None keeps the defaults."""
    from DRecPy.Dataset import DatabaseInteractionDataset as D
    names = ('_opt_n_query_threshold', '_opt_n_rows_threshold', '_opt_ratio_threshold', '_opt2_n_direct_interactions_threshold')
    if not DEFAULTS:
        DEFAULTS.update({n: getattr(D, n, None) for n in names})
    for name, v in zip(names, th if th is not None else [DEFAULTS[n] for n in names]):
        if hasattr(D, name):
            setattr(D, name, v)


DEFAULTS = {}


class LowMemory:
    """Matrices with more than one row do not fit in memory: the in-memory dataset has to do without them."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import sys
        self.mod = sys.modules.get('DRecPy.Dataset.mem_dataset')
        self.on = self.on and hasattr(self.mod, 'csr_matrix')
        if self.on:
            self.orig = orig = self.mod.csr_matrix

            def limited(*a, **k):
                if (k.get('shape') or (0,))[0] > 1:
                    raise MemoryError
                return orig(*a, **k)
            self.mod.csr_matrix = limited

    def __exit__(self, *a):
        if self.on:
            self.mod.csr_matrix = self.orig


THRESHOLDS = [None, (1, 0, 1.01, 1), (2, 1, 1.0, 2), (1, 1, 0.9, 10**9), (10**9, 10**9, 0.0, 10**9), (3, 0, 0.8, 3), (10**9, 0, 1.0, 1)]

# ------------------------------------------------------------------ functions for apply
FUNCS = {
    'double': ('num', lambda x: x * 2, 'num'), 'inc': ('num', lambda x: x + 1, 'num'), 'neg': ('num', lambda x: -x, 'num'),
    'half': ('num', lambda x: x / 2, 'num'), 'one': ('num', lambda x: 1, 'num'), 'onef': ('num', lambda x: 1.0, 'num'), 'toint': ('num', lambda x: int(x), 'num'),
    'tofloat': ('num', lambda x: float(x), 'num'), 'tostr': ('num', lambda x: 'v%d' % round(x * 4), 'str'),
    'suffix': ('str', lambda s: s + '~', 'str'), 'upper': ('str', lambda s: s.upper(), 'str'), 'strlen': ('str', lambda s: len(s), 'num'),
    'big': ('num', lambda x: x >= 3 and 5 or 1, 'num'),
}
BADFUNCS = {'none': lambda x: None, 'list': lambda x: [x], 'raise': lambda x: 1 / 0}


# ------------------------------------------------------------------ script generation
PROFILES = {
    'rel': dict(select=4, unique=2.5, drop=2.5, apply=1.5, assign=1, remove=.6, copy=.7, close=.3, values=4, select_one=3, exists=2, count_unique=2,
                max=1.5, min=1.5, len=2, columns=1, open=.2, pull=.2, closegen=.2, user_to_uid=.3, vec=.2, bad=.8),
    'iso': dict(select=3, unique=1.5, drop=2, apply=3, assign=2, remove=1.2, copy=3, close=2, values=3, select_one=.6, exists=.4, count_unique=.5,
                max=.4, min=.4, len=1, columns=1, open=2.0, pull=2, closegen=1.2, user_to_uid=.8, uid_to_user=.5, item_to_iid=.5, vec=1, bad=.3, probe=2, reorder=.4),
    'opt': dict(select=3, unique=2, drop=2, apply=1.5, assign=1.2, remove=.6, copy=3, close=1.5, values=5, select_one=3, exists=1.5, count_unique=3,
                max=2, min=2, len=2, columns=.6, open=1.2, pull=1, closegen=1, user_to_uid=1, uid_to_user=.6, item_to_iid=.6, iid_to_item=.4, vec=1, repeat=4, reorder=.4),
    'ids': dict(select=2.5, unique=.6, drop=2, apply=.4, assign=4, remove=1.5, copy=1.2, close=.4, values=2, select_one=.6, exists=.3, count_unique=.3,
                max=.6, min=.6, len=.4, columns=1, user_to_uid=4, uid_to_user=4, item_to_iid=4, iid_to_item=4, vec=.5, idvals=4, readassign=.7, reorder=1.2),
    'vec': dict(select=2, unique=.8, drop=2, apply=2, assign=2.5, remove=.3, copy=1, close=.3, values=1, len=.2, vec=12, max=.2, columns=.2, sweep=3),
    'large': dict(select=3, unique=1, drop=5, apply=1, assign=1.5, remove=.3, copy=1, close=.5, values=2, select_one=2, exists=1, count_unique=1.5, max=1, min=1, len=1,
                  user_to_uid=2, uid_to_user=2, item_to_iid=2, iid_to_item=2, vec=2, open=.5, pull=.5, closegen=.5),
    'query': dict(select=6, unique=.6, drop=.4, apply=.4, assign=1, remove=.6, copy=.3, values=1, select_one=4, exists=4, badq=3),
}


class ScriptGen:
    """Random scripts. Only column names, column types and id state are tracked here; what the operations answer is
    decided by the specification alone."""

    def __init__(self, rng, data, profile, nops, maxinst=7, weirdq=False, gens=True):
        self.rng, self.data, self.w, self.nops = rng, data, dict(PROFILES[profile]), nops
        if not gens:
            for k in ('open', 'pull', 'closegen', 'readassign'):
                self.w.pop(k, None)
        self.maxinst, self.weird, self.large = maxinst, weirdq, data.get('large', False)
        self.st = {1: dict(cols=data['cols'] + ['rid'], types=dict(data['types'], rid='rid'), ids=False, stale=False, rows=True)}
        self.gens, self.ops, self.dead = {}, [], set()
        self.vals = {c: [r[k] for r in data['rows']] for k, c in enumerate(data['cols'])}

    def emit(self, **k):
        self.ops.append(k)

    def free(self):
        c = [j for j in range(1, self.maxinst + 1) if j not in self.st and j not in self.dead]
        return c[0] if c else None

    def target(self, i, p_copy=.6):
        j = self.free()
        return j if j is not None and self.rng.random() < p_copy else i

    def cond(self, s):
        rng = self.rng
        col = rng.choice([c for c in s['cols'] + [c for c in ('user', 'item', 'interaction') if c in s['cols']] if s['types'].get(c) != '?'])
        t = s['types'].get(col, 'rid')
        op = rng.choice(OPS)
        if t in ('rid', 'uid', 'iid'):
            v = rng.randint(-1, 6) if not self.large else rng.randint(0, 300)
        elif t == 'int':
            base = self.vals[col]
            v = rng.choice(base) if base and rng.random() < .85 else rng.randint(0, 31)
            v = v + rng.choice([0, 0, 0, 0, 0, 1, -1, .5, -.5]) if isinstance(v, int) else v  # also numbers that are no identifiers
        elif t == 'num':
            base = [x for x in self.vals.get(col, []) if not isinstance(x, str)]
            v = rng.choice(base) if base and rng.random() < .7 else rng.choice([0, 1, 2, 3, 4, 5, 2.5, 3.5, -1, 0.75])
        else:
            base = [x for x in self.vals.get(col, []) if isinstance(x, str)]
            v = rng.choice(base) if base and rng.random() < .7 else rng.choice(STRS)
        return dict(col=col, op=op, val=v)

    def query(self, s):
        return [self.cond(s) for _ in range(self.rng.choice([1, 1, 1, 2, 2, 3]))]

    def collist(self, s, extra_rid=True):
        cols = list(s['cols'])
        k = self.rng.choice([1, 1, 2, 2, 3, len(cols)])
        return self.rng.sample(cols, min(k, len(cols)))

    def step(self):
        rng = self.rng
        name = rng.choices(list(self.w), list(self.w.values()))[0]
        live = list(self.st)
        if not live:
            return
        i = rng.choice(live)
        s = self.st[i]
        full = all(c in s['cols'] for c in ('user', 'item', 'interaction'))
        gens_here = [g for g, o in self.gens.items() if o == i]
        gens_other = [g for g, o in self.gens.items() if o != i]
        if name == 'copy':
            j = self.free()
            if j is None:
                return
            self.st[j] = dict(s, cols=list(s['cols']), types=dict(s['types']))
            self.emit(op='copy', i=i, j=j)
        elif name == 'select':
            j = self.target(i)
            self.st[j] = dict(s, cols=list(s['cols']), types=dict(s['types']), rows=False)
            self.emit(op='select', i=i, j=j, q=self.query(s), bad=False)
        elif name == 'unique':
            j = self.target(i, .75)
            allc = rng.random() < .3
            cols = list(s['cols']) if allc else self.collist(s)
            if [c for c in cols if c != 'rid'] == []:
                return
            ncols = cols if 'rid' in cols else cols + ['rid']
            lost = not all(c in ncols for c in ('user', 'item', 'interaction')) or (s['ids'] and not ('uid' in ncols and 'iid' in ncols))
            if j == i and lost and rng.random() < .7:
                return
            self.st[j] = dict(s, cols=list(ncols), types=dict(s['types']), stale=s['stale'] or lost)
            self.emit(op='unique', i=i, j=j, cols=[] if allc else cols, all=allc, bad=False, asstr=(len(cols) == 1 and rng.random() < .3))
        elif name == 'drop':
            j = self.target(i)
            n = len(self.data['rows'])
            self.st[j] = dict(s, cols=list(s['cols']), types=dict(s['types']), rows=False)
            k = rng.randint(0, max(1, n // 2)) if not self.large else rng.choice([3, n // 3, n - 5, n - 20])
            rids = [rng.randint(0, max(n, 1)) for _ in range(k)] if not self.large or k < 10 else rng.sample(range(n + 2), k)
            self.emit(op='drop', i=i, j=j, rids=rids, keep=rng.random() < .35)
        elif name == 'apply':
            if gens_other or s['stale'] and rng.random() < .5:
                return
            cand = [c for c in s['cols'] if c not in ('rid', 'uid', 'iid', 'user', 'item') and s['types'][c] != '?']
            if rng.random() < .08:
                self.emit(op='apply', i=i, col=rng.choice(['user', 'item', 'rid']), fn='inc', bad=True)
                return
            if not cand:
                return
            col = rng.choice(cand)
            if rng.random() < .08:
                self.emit(op='apply', i=i, col=col, fn=rng.choice(sorted(BADFUNCS)), bad=True)
                return
            fns = [f for f in FUNCS if FUNCS[f][0] == s['types'][col] and (col != 'interaction' or FUNCS[f][2] == 'num')]
            fn = rng.choice(fns)
            self.scalings = getattr(self, 'scalings', 0) + (fn in ('half', 'double'))
            if self.scalings > (5 if max(self.vals.get('interaction') or [0]) < 10**5 else 1) and fn in ('half', 'double'):  # values stay representable
                fn = 'neg'
            s['types'] = dict(s['types'])
            if FUNCS[fn][2] != FUNCS[fn][0]:  # refused on an empty dataset: then the type stays
                s['types'][col] = FUNCS[fn][2] if s.get('rows') else '?'
            self.emit(op='apply', i=i, col=col, fn=fn, bad=False)
        elif name == 'assign':
            if gens_other or s['stale']:
                return
            if not s['ids']:
                s['cols'] = s['cols'] + [c for c in ('uid', 'iid') if c not in s['cols']]
            s['types'] = dict(s['types'], uid='uid', iid='iid')
            s['ids'] = True
            self.emit(op='assign', i=i)
        elif name == 'reorder':  # other orders of the columns, then the identifiers leave
            j = self.free()
            if j is None or not s['ids'] or s['stale'] or not full or not ('uid' in s['cols'] and 'iid' in s['cols']):
                return
            cols = list(s['cols'])
            rng.shuffle(cols)
            self.st[j] = dict(s, cols=list(cols), types=dict(s['types']))
            self.emit(op='unique', i=i, j=j, cols=cols, all=False, bad=False, asstr=False)
            if rng.random() < .4:
                self.st[j]['rows'] = False
                self.emit(op='select', i=j, j=j, q=self.query(self.st[j]), bad=False)
            if rng.random() < .7:
                self.st[j]['ids'] = False
                self.st[j]['cols'] = [c for c in cols if c not in ('uid', 'iid')]
                self.emit(op='remove', i=j)
            self.emit(op='values', i=j, all=rng.random() < .5, cols=list(self.st[j]['cols']), tolist=True, bad=False, asstr=False)
        elif name == 'remove':
            if not s['ids'] or s['stale']:
                return
            s['ids'] = False
            s['cols'] = [c for c in s['cols'] if c not in ('uid', 'iid')]
            self.emit(op='remove', i=i)
        elif name == 'close':
            if len(self.st) < 2 or gens_here or (gens_other and rng.random() < .5):
                return
            del self.st[i]
            self.dead.add(i)
            self.emit(op='close', i=i, how=rng.choice(['close', 'del']))
        elif name in ('values', 'repeat', 'idvals'):
            allc = rng.random() < .4
            cols = [] if allc else self.collist(s)
            if name == 'idvals':
                allc, cols = False, [c for c in ('user', 'uid', 'item', 'iid') if c in s['cols']]
                if not cols:
                    return
            e = dict(op='values', i=i, all=allc, cols=cols, tolist=rng.random() < .6, bad=False, asstr=(len(cols) == 1 and rng.random() < .2))
            for _ in range(rng.randint(2, 6) if name == 'repeat' else 1):
                self.emit(**e)
        elif name == 'probe':
            for k in live:
                self.probe(k)
        elif name in ('select_one', 'exists'):
            e = dict(op=name, i=i, q=self.query(s), bad=False)
            if name == 'select_one':
                allc = rng.random() < .5
                e.update(all=allc, cols=[] if allc else self.collist(s), tolist=rng.random() < .5)
            for _ in range(rng.choice([1, 1, 1, 3])):
                self.emit(**e)
        elif name == 'count_unique':
            allc = rng.random() < .3
            cols = [] if allc else self.collist(s)
            if not allc and rng.random() < .4 and 'user' in s['cols'] and 'item' in s['cols']:
                cols = ['user', 'item']
            if cols == ['rid']:
                return
            self.emit(op='count_unique', i=i, all=allc, cols=cols, bad=False)
        elif name in ('max', 'min'):
            self.emit(op=name, i=i, col=rng.choice(s['cols']), bad=False)
        elif name == 'len':
            self.emit(op='len', i=i)
        elif name == 'columns':
            self.emit(op='columns', i=i)
        elif name == 'open':
            g = [g for g in (1, 2, 3, 4) if g not in self.gens]
            if not g or len(self.gens) > 2:
                return
            self.gens[g[0]] = i
            cols = self.collist(s)
            self.emit(op='open', i=i, g=g[0], cols=cols)
        elif name == 'readassign':  # assigns internal ids to a selection which is being read
            if self.gens or s['stale'] or len(self.st) >= self.maxinst or not self.data['rows']:
                return
            if rng.random() < .7:
                j = self.free()
                if j is None:
                    return
                self.st[j] = dict(s, cols=list(s['cols']), types=dict(s['types']), rows=False)
                n = len(self.data['rows'])
                self.emit(op='drop', i=i, j=j, rids=[rng.randrange(n) for _ in range(rng.randint(0, 2))], keep=False)
                i, s = j, self.st[j]
            self.emit(op='open', i=i, g=1, cols=self.collist(s))
            self.emit(op='pull', g=1, n=rng.choice([1, 1, 2]))
            if not s['ids']:
                s['cols'] = s['cols'] + [c for c in ('uid', 'iid') if c not in s['cols']]
            s['ids'] = True
            s['types'].update(uid='uid', iid='iid')
            self.emit(op='assign', i=i)
            if rng.random() < .5:
                self.emit(op='values', i=i, all=True, cols=[], tolist=True, bad=False)
            self.emit(op='pull', g=1, n=50)
            self.emit(op='closegen', g=1, how=rng.choice(['close', 'del', 'exhaust']))
        elif name == 'pull':
            if self.gens:
                self.emit(op='pull', g=rng.choice(sorted(self.gens)), n=rng.choice([1, 1, 2, 50]))
        elif name == 'closegen':
            if self.gens:
                g = rng.choice(sorted(self.gens))
                del self.gens[g]
                self.emit(op='closegen', g=g, how=rng.choice(['close', 'del', 'exhaust']))
        elif name in ('user_to_uid', 'item_to_iid'):
            if s['stale']:
                return
            col = name[:4]
            base = self.vals[col]
            v = rng.choice(base) if base and rng.random() < .8 else rng.choice([9999, -5] if s['types'][col] == 'int' else ['nope', ''])
            form = rng.choice(['same', 'same', 'text', 'float'])
            bad = False
            if s['types'][col] == 'int' and rng.random() < .05:
                v, form, bad = 'abc', 'same', True
            self.emit(op=name, i=i, arg=v, form=form, bad=bad)
        elif name in ('uid_to_user', 'iid_to_item'):
            if s['stale']:
                return
            self.emit(op=name, i=i, arg=rng.randint(-1, 6) if not self.large else rng.choice([-1, 0, 5, 100, 127, 128, 129, 200, 256, 257, 300]))
        elif name == 'vec':
            if s['stale'] or not full or s['types']['interaction'] != 'num':
                return
            if not s['ids'] and rng.random() < .9:
                return
            for _ in range(rng.choice([1, 1, 2])):
                self.emit(op=rng.choice(['user_vec', 'item_vec']), i=i, arg=rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 9, -1] if not self.large else [0, 1, 39, 127, 128, 129, 149, 255, 256]))
        elif name == 'sweep':  # all vectors, before and after something else happens
            if s['stale'] or not full or s['types']['interaction'] != 'num' or not s['ids']:
                return
            kind = rng.choice(['user_vec', 'item_vec', 'both'])
            for rep in (0, 1):
                for k in range(5):
                    for v in ('user_vec', 'item_vec'):
                        if kind in (v, 'both'):
                            self.emit(op=v, i=i, arg=k)
                if rep == 0:
                    w, self.w = self.w, {k: v for k, v in self.w.items() if k in ('apply', 'drop', 'select', 'assign', 'unique')}
                    self.step()
                    self.w = w
                    if i not in self.st or self.st[i]['stale'] or not self.st[i]['ids']:
                        return
        elif name == 'bad':
            k = rng.choice(['values', 'unique', 'count_unique', 'max', 'min', 'select', 'select_one', 'exists'])
            unk = rng.choice(['nope', 'USER', 'uid' if 'uid' not in s['cols'] else 'xid'])
            q = self.query(s)
            badcol = [dict(col=unk, op='==', val=1)]
            if k == 'values':
                self.emit(op=k, i=i, all=False, cols=[unk], tolist=rng.random() < .5, bad=True)
            elif k in ('unique', 'count_unique'):
                j = self.target(i)
                e = dict(op=k, i=i, all=False, cols=self.collist(s) + [unk], bad=True)
                if k == 'unique':
                    e['j'] = j
                self.emit(**e)
            elif k in ('max', 'min'):
                self.emit(op=k, i=i, col=unk, bad=True)
            elif k == 'select':
                self.emit(op=k, i=i, j=self.target(i), q=q + badcol if rng.random() < .5 else badcol, bad=True)
            elif k == 'exists':
                self.emit(op=k, i=i, q=badcol, bad=True)
            else:
                self.emit(op=k, i=i, q=badcol if rng.random() < .5 else q, all=False, cols=[unk], tolist=False, bad=True)
        elif name == 'badq':
            self.bad_query(i, s)

    def bad_query(self, i, s):
        rng = self.rng
        col = rng.choice([c for c in s['cols'] if s['types'].get(c) != '?'])
        t = s['types'].get(col, 'rid')
        good = self.cond(s)
        kind = rng.choice(['op', 'missing', 'nospace', 'type', 'empty', 'col'])
        if kind == 'op':
            text = '%s %s 1' % (col, rng.choice(['=', '<>', '=>', 'in', 'like', '!', '><']))
            if t == 'str':
                text = text[:-1] + "'a'"
        elif kind == 'missing':
            text = rng.choice(['%s' % col, '%s ==' % col, '== 1'])
        elif kind == 'nospace':
            text = '%s==%s' % (col, fmt(good['val']))
        elif kind == 'empty':
            text = rng.choice(['', ',', query_text([good]) + ','])
        elif kind == 'col':
            text = 'nope == 1'
        else:
            if t == 'str':
                text = '%s %s %s' % (col, rng.choice(OPS), rng.choice(['5', '2.5']))
            else:
                text = '%s %s %s' % (col, rng.choice(OPS), rng.choice(["'abc'", '"x"']))
        if rng.random() < .3 and kind != 'empty':
            text = query_text([good]) + ', ' + text
        opn = rng.choice(['select', 'select_one', 'exists'])
        e = dict(op=opn, i=i, q=[], text=text, bad=True, all=True, cols=[], tolist=False)
        if opn == 'select':
            e['j'] = self.target(i)
        self.emit(**e)

    def probe(self, k):
        self.emit(op='columns', i=k)
        self.emit(op='len', i=k)
        few = self.large and self.rng.random() < .7
        self.emit(op='values', i=k, all=not few, cols=['rid'] if few else [], tolist=self.rng.random() < .5, bad=False)

    def build(self):
        while len(self.ops) < self.nops:
            self.step()
        for g in sorted(self.gens):
            self.emit(op='pull', g=g, n=50)
            self.emit(op='closegen', g=g, how='close')
        for k in sorted(self.st):
            self.probe(k)
            s = self.st[k]
            if s['ids'] and not s['stale']:
                self.emit(op='values', i=k, all=False, cols=['user', 'uid', 'item', 'iid'], tolist=True, bad=False)
                if s['types']['interaction'] == 'num':
                    self.emit(op='user_vec', i=k, arg=0)
                    self.emit(op='item_vec', i=k, arg=0)
        return self.ops


def fmt(v):
    return repr(v)


def query_text(q, rng=None):
    return ', '.join('%s %s %s' % (c['col'], c['op'], fmt(c['val'])) for c in q)


# ------------------------------------------------------------------ execution
def run_script(sc):
    """Executes a script on the real code; returns the trace (events with everything that was observed)."""
    with LowMemory(sc.get('oom')):
        return _run_script(sc)


def _run_script(sc):
    set_thresholds(sc.get('thresholds'))
    insts = {1: load(sc['data'], sc['backend'], sc.get('via', 'csv'))}
    gens, out = {}, []
    for e in sc['ops']:
        e = dict(e)
        try:
            observe(e, insts, gens, sc)
            e['tag'] = 'ok'
        except Exception as ex:
            e['tag'] = 'err'
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:200])
        out.append(e)
    gens.clear()
    for i in list(insts):
        d = insts.pop(i)
        try:
            if hasattr(d, 'close'):
                d.close()
        except Exception:
            pass
    gc.collect()
    return dict(cols=sc['data']['cols'], rows=sc['data']['rows'], ops=out)


def rows_out(res, cols, tolist):
    """Normalises records to lists in the requested order and notes their shape."""
    shape, keys, rows = 'none', [], []
    for r in res:
        if isinstance(r, dict):
            sh = 'dict'
            k = sorted(str(x) for x in r)
            if shape == 'none':
                keys = k
            elif k != keys:
                keys = ['inconsistent']
            rows.append([native(r[c]) if c in r else 'MISSING' for c in cols])
        elif isinstance(r, (list, tuple)):
            sh = 'list'
            rows.append([native(x) for x in r])
        elif r is None:
            sh = 'scalar'
            rows.append([None])
        else:
            sh = 'scalar'
            rows.append([native(r)])
        shape = sh if shape in ('none', sh) else 'mixed'
    return shape, keys, rows


def observe(e, insts, gens, sc):
    op = e['op']
    d = insts.get(e.get('i'))
    if 'q' in e:
        q = e.get('text', query_text(e['q']))
    cols = None
    if 'all' in e:
        cols = None if e['all'] else (e['cols'][0] if e.get('asstr') else list(e['cols']))
    given = list(cols) if isinstance(cols, list) else None
    inplace = e.get('j') == e.get('i')
    if op == 'copy':
        insts[e['j']] = d.copy()
    elif op == 'select':
        r = d.select(q, copy=not inplace) if (inplace or len(sc['ops']) % 2) else d.select(q)
        if not inplace:
            insts[e['j']] = r
    elif op == 'unique':
        r = d.unique(cols, copy=not inplace)
        if not inplace:
            insts[e['j']] = r
    elif op == 'drop':
        rids = list(e['rids'])
        r = d.drop(rids, copy=not inplace, keep=e['keep'])
        if rids != e['rids']:
            e['tag_arg'] = 'rids modified'
        if not inplace:
            insts[e['j']] = r
    elif op == 'apply':
        d.apply(e['col'], FUNCS[e['fn']][1] if e['fn'] in FUNCS else BADFUNCS[e['fn']])
    elif op == 'assign':
        d.assign_internal_ids()
    elif op == 'remove':
        d.remove_internal_ids()
    elif op == 'close':
        del insts[e['i']]
        if e['how'] == 'close' and hasattr(d, 'close'):
            d.close()
        del d
        gc.collect()
    elif op == 'columns':
        e['cols'] = [str(c) for c in d.columns]
        e['ids'] = bool(d.has_internal_ids)
    elif op == 'len':
        e['num'] = native(len(d))
    elif op == 'values':
        res = d.values_list(columns=cols, to_list=e['tolist'])
        e['rcols'] = list(d.columns) if e['all'] else e['cols']
        e['shape'], e['keys'], e['res'] = rows_out(res, e['rcols'], e['tolist'])
    elif op == 'select_one':
        r = d.select_one(q, columns=cols, to_list=e['tolist'])
        e['rcols'] = list(d.columns) if e['all'] else e['cols']
        e['shape'], e['keys'], e['res'] = rows_out([] if r is None else [r], e['rcols'], e['tolist'])
    elif op == 'exists':
        r = d.exists(q)
        e['num'] = int(r) if r in (True, False) else BAD
    elif op == 'count_unique':
        e['num'] = native(d.count_unique(cols))
    elif op == 'max':
        e['num'] = native(d.max(e['col']))
    elif op == 'min':
        e['num'] = native(d.min(e['col']))
    elif op == 'open':
        g = d.values(columns=list(e['cols']), to_list=True)
        gens[e['g']] = (g, e['cols'])
        e['res'] = _take(g, 1)
    elif op == 'pull':
        g, gcols = gens[e['g']]
        e['cols'] = gcols
        e['res'] = _take(g, e['n'])
    elif op == 'closegen':
        g, _ = gens.pop(e['g'])
        if e['how'] == 'close':
            g.close()
        elif e['how'] == 'exhaust':
            for _ in iter(lambda: next(g, None), None):
                pass
        del g
        gc.collect()
    elif op in ('user_to_uid', 'item_to_iid'):
        a = e['arg']
        if e.get('form') == 'text':
            a = str(a)
        elif e.get('form') == 'float' and isinstance(a, int) and abs(a) < 2**53:
            import numpy as np
            a = np.int64(a)
        e['num'] = native(getattr(d, op)(a))
    elif op in ('uid_to_user', 'iid_to_item'):
        e['num'] = native(getattr(d, op)(e['arg']))
    elif op in ('user_vec', 'item_vec'):
        v = d.select_user_interaction_vec(e['arg']) if op == 'user_vec' else d.select_item_interaction_vec(e['arg'])
        e['vec'] = [native(x) for x in v.toarray()[0]]
    else:
        raise core.MachineryError('unknown op ' + op)
    if given is not None and given != cols:
        e['mutated'] = cols


def _take(g, n):
    res = []
    for _ in range(n):
        try:
            res.append(next(g))
        except StopIteration:
            break
    return rows_out(res, [], True)[2]


# ------------------------------------------------------------------ encoding
def encode(t):
    c = Codec()
    for r in t['rows']:
        for col, v in zip(t['cols'], r):
            c.add(col, v)
    poss = {col: {v: 1 for v in (native(r[k]) for r in t['rows'])} for k, col in enumerate(t['cols'])}
    # all values that can occur in a column, whichever instance: closed under the applied functions
    graphs = {}
    for k, e in enumerate(t['ops']):
        if e['op'] == 'apply' and not e['bad']:
            kind, fn, _ = FUNCS[e['fn']]
            g = []
            for v in list(poss[e['col']]):
                if isinstance(v, str) == (kind == 'str'):
                    w = fn(v)
                    g.append((v, w))
            for _, w in g:
                poss[e['col']][w] = 1
                c.add(e['col'], w)
            graphs[k] = g
    allcols = {e['op']: None for e in t['ops']}
    for e in t['ops']:
        for cd in e.get('q', []):
            c.add(cd['col'], cd['val'])
        for r in e.get('res', []):
            for v in r:
                c.add('tag', v)
                c.add('user', v)
        if e['op'] in ('user_to_uid', 'item_to_iid'):
            c.add('user', e['arg'])
        if e['op'] in ('uid_to_user', 'iid_to_item'):
            c.add('user', e.get('num'))
        if e['op'] in ('max', 'min'):
            c.add('user', e.get('num'))
    c.freeze()
    ops = []
    cur = {1: list(t['cols']) + ['rid']}
    for k, e in enumerate(t['ops']):
        o = {x: e[x] for x in ('op', 'tag', 'i', 'j', 'g', 'n', 'all', 'cols', 'tolist', 'bad', 'keep', 'rids', 'shape', 'keys', 'ids', 'col') if x in e}
        if e.get('mutated') is not None or e.get('tag_arg'):
            o['op'] = 'argument modified'
        if 'q' in e:
            o['q'] = [dict(col=cd['col'], op=cd['op'], val=c.enc(cd['col'], cd['val'])) for cd in e['q']]
        if e['op'] == 'apply':
            o['f'] = [[c.enc(e['col'], a), c.enc(e['col'], b)] for a, b in graphs.get(k, [])]
        if 'res' in e:
            cols = e.get('rcols') or e['cols']
            o['res'] = [[c.enc(cols[x], v) if x < len(cols) else BAD for x, v in enumerate(r)] for r in e['res']]
        elif e['op'] in ('values', 'select_one', 'open', 'pull'):
            o['res'] = []
        if e['op'] in ('values', 'select_one'):
            o.setdefault('shape', 'none')
            o.setdefault('keys', [])
        if e['op'] == 'pull':
            o.setdefault('cols', [])
        if e['op'] in ('len', 'exists', 'count_unique'):
            n = e.get('num')
            o['num'] = n if isinstance(n, int) and not isinstance(n, bool) else BAD
        if e['op'] in ('max', 'min'):
            o['num'] = c.enc(e['col'], e.get('num'))
        if e['op'] in ('user_to_uid', 'item_to_iid'):
            o['arg'] = c.enc(e['op'][:4], e['arg'])
            o['num'] = c.enc('uid', e.get('num'))
        if e['op'] in ('uid_to_user', 'iid_to_item'):
            o['arg'] = e['arg']
            o['num'] = c.enc(e['op'][-4:], e.get('num'))
        if e['op'] in ('user_vec', 'item_vec'):
            o['arg'] = e['arg']
            o['vec'] = [c.scaled(x) for x in e.get('vec', [])]
        ops.append(o)
    return dict(cols=t['cols'], rows=[[c.enc(col, v) for col, v in zip(t['cols'], r)] for r in t['rows']], ops=ops)
