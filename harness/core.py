"""Shared machinery: scratch environment, forked scenario runner, TLC runner, verdicts, evidence and findings."""
import gc, json, os, sys, time, tempfile, shutil, subprocess, hashlib, random, re, signal, select, struct, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)
SCRATCH = None


class MachineryError(Exception):
    pass


def setup_env():
    """Fresh scratch directory for everything the checked code writes; must run before DRecPy is imported."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif_')
    os.environ['DATA_FOLDER'] = os.path.join(SCRATCH, 'data')
    os.makedirs(os.environ['DATA_FOLDER'])
    sys.path.insert(0, REPO)
    return SCRATCH


def cleanup_env():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


# ---------------------------------------------------------------- scenario execution
def _write_msg(fd, obj):
    data = json.dumps(obj, default=_json_default).encode()
    data = struct.pack('<I', len(data)) + data
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:off + 65536])


def _json_default(o):
    if hasattr(o, 'item'):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError('not json: %r' % type(o))


class _Worker:
    def __init__(self, fn, scenarios, indices, wid):
        self.indices, self.pos, self.buf = indices, 0, b''
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                df = os.path.join(SCRATCH, 'data_w%d_%d' % (wid, os.getpid()))
                os.makedirs(df, exist_ok=True)
                os.environ['DATA_FOLDER'] = df
                for i in indices:
                    try:
                        res = dict(ok=1, trace=fn(scenarios[i]))
                    except BaseException as e:  # failure of the driver itself
                        res = dict(ok=0, error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
                    _write_msg(w, res)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        self.pid, self.fd, self.t = pid, r, time.time()

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)


def run_scenarios(fn, scenarios, timeout=150, nproc=None):
    """Runs fn(scenario) for each scenario in forked workers. Result per scenario: dict(ok=1, trace=..),
    dict(hang=1) when it exceeds the timeout, dict(died=sig) when the process dies."""
    nproc = nproc or NPROC
    n = len(scenarios)
    results = [None] * n
    if n == 0:
        return results
    gc.collect()
    gc.freeze()  # keeps collections in the workers cheap
    chunks = [list(range(k, n, nproc)) for k in range(min(nproc, n))]
    workers = [_Worker(fn, scenarios, c, k) for k, c in enumerate(chunks)]
    wid = len(workers)
    while workers:
        fds = [w.fd for w in workers]
        ready, _, _ = select.select(fds, [], [], 1.0)
        for w in list(workers):
            if w.fd in ready:
                data = os.read(w.fd, 1 << 20)
                if data:
                    w.buf += data
                    while len(w.buf) >= 4:
                        ln = struct.unpack('<I', w.buf[:4])[0]
                        if len(w.buf) < 4 + ln:
                            break
                        results[w.indices[w.pos]] = json.loads(w.buf[4:4 + ln].decode())
                        w.buf = w.buf[4 + ln:]
                        w.pos += 1
                        w.t = time.time()
                else:  # eof
                    _, st = os.waitpid(w.pid, 0)
                    os.close(w.fd)
                    workers.remove(w)
                    if w.pos < len(w.indices):
                        results[w.indices[w.pos]] = dict(died=st)
                        rest = w.indices[w.pos + 1:]
                        if rest:
                            workers.append(_Worker(fn, scenarios, rest, wid))
                            wid += 1
                    continue
            if time.time() - w.t > timeout and w.pos < len(w.indices):
                w.kill()
                workers.remove(w)
                results[w.indices[w.pos]] = dict(hang=1)
                rest = w.indices[w.pos + 1:]
                if sum(1 for r in results if r and r.get('hang')) >= 6:  # enough: do not spend the whole budget
                    for i in rest:
                        results[i] = dict(skipped=1)
                    rest = []
                if rest:
                    workers.append(_Worker(fn, scenarios, rest, wid))
                    wid += 1
    return results


# ---------------------------------------------------------------- TLC
def _tlc_cmd(module, cfg, meta, workers, extra, heap):
    return ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + SCRATCH, '-cp', TLA_CP, 'tlc2.TLC',
            '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg', '-workers', str(workers)] + list(extra) + [module + '.tla']


def _tlc_result(out, rc):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(out=out, rc=rc, generated=states, distinct=distinct)


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap='3g'):
    meta = tempfile.mkdtemp(prefix='tlc_', dir=SCRATCH)
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(_tlc_cmd(module, cfg, meta, workers, extra, heap), cwd=SPECS, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b'').decode('utf8', 'replace'), -1
    shutil.rmtree(meta, ignore_errors=True)
    return _tlc_result(out, rc)


class Design:
    """A model checking run of a design specification, in the background. expect_violation: name of the invariant a
    deliberately broken configuration has to violate (shows that the invariant is not vacuous)."""

    def __init__(self, module, cfg=None, workers=2, timeout=600, expect_violation=None, heap='3g', extra=()):
        self.module, self.cfg, self.expect, self.timeout = module, cfg or module + '.cfg', expect_violation, timeout
        self.meta = tempfile.mkdtemp(prefix='tlc_', dir=SCRATCH)
        self.f = open(os.path.join(self.meta, 'out.txt'), 'wb+')
        self.t0 = time.time()
        self.p = subprocess.Popen(_tlc_cmd(module, cfg, self.meta, workers, extra, heap), cwd=SPECS, stdout=self.f, stderr=subprocess.STDOUT)
        self.again = lambda: Design(module, cfg, workers, timeout, expect_violation, heap, extra).wait(last=True)

    def wait(self, last=False):
        try:
            return self._wait()
        except MachineryError:
            if last:
                raise
            return self.again()  # e.g. no memory left for the virtual machine

    def _wait(self):
        try:
            self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.f.seek(0)
        r = _tlc_result(self.f.read().decode('utf8', 'replace'), self.p.returncode)
        self.f.close()
        shutil.rmtree(self.meta, ignore_errors=True)
        if self.expect is None:
            if 'Model checking completed. No error has been found' not in r['out']:
                raise MachineryError('design model %s (%s) failed:\n%s' % (self.module, self.cfg, r['out'][-4000:]))
        elif not re.search(r'(Invariant|Action property|Temporal property|property) %s (is|was) violated|%s is violated' % (self.expect, self.expect), r['out']) \
                and not (self.expect == 'Liveness' and 'Temporal properties were violated' in r['out']):
            raise MachineryError('mutated model %s (%s) does not violate %s:\n%s' % (self.module, self.cfg, self.expect, r['out'][-3000:]))
        return r


def check_traces(module, traces, shards=None, timeout=700, cfg=None, _depth=0):
    """Validates encoded traces with a TLC trace specification. Every trace gets exactly one verdict:
    list of dict(ok, clause, at). The specification prints <<"VERDICT", index, ok, clause, position>>."""
    n = len(traces)
    if n == 0:
        return [], 0, 0
    lines = [t if isinstance(t, str) else json.dumps(t) for t in traces]
    shards = max(1, min(shards or NPROC, n))
    # balance by size
    order = sorted(range(n), key=lambda i: -len(lines[i]))
    buckets = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        buckets[k].append(i)
        load[k] += len(lines[i]) + 200
    verdicts = [None] * n
    tot = [0, 0]

    def one(k):
        if not buckets[k]:
            return None
        path = os.path.join(SCRATCH, 'tr_%s_%d_%s.ndjson' % (module, k, hashlib.md5(str(time.time()).encode()).hexdigest()[:8]))
        with open(path, 'w') as f:
            for i in buckets[k]:
                f.write(lines[i] + '\n')
        r = tlc(module, cfg, env=dict(TRACES=path), workers=1, timeout=timeout)
        if os.environ.get('VERIF_KEEP'):
            shutil.copy(path, os.environ['VERIF_KEEP'])
        os.remove(path)
        return r

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    errs = []
    for k, r in enumerate(rs):
        if r is None:
            continue
        tot[0] += r['distinct']
        tot[1] += r['generated']
        for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(TRUE|FALSE),\s*"([^"]*)",\s*(-?\d+)\s*>>', r['out']):
            j = int(m.group(1)) - 1
            verdicts[buckets[k][j]] = dict(ok=m.group(2) == 'TRUE', clause=m.group(3), at=int(m.group(4)))
        for m in re.finditer(r'"DIAG \[(\d+)\] (.*)"$', r['out'], re.M):
            j = int(m.group(1)) - 1
            verdicts[buckets[k][j]] = verdicts[buckets[k][j]] or dict(ok=False, clause='?', at=-1)
            verdicts[buckets[k][j]]['diag'] = m.group(2)[:2000]
        if any(verdicts[i] is None for i in buckets[k]):
            errs.append(r['out'][-3000:])
    if errs and _depth == 0:
        # traces the specification cannot even interpret: found by halving
        missing, found, end = [i for i in range(n) if verdicts[i] is None], [], time.time() + 150
        groups = [missing[k::2 * NPROC] for k in range(2 * NPROC) if missing[k::2 * NPROC]]

        def judge(g):
            try:
                return g, check_traces(module, [lines[i] for i in g], 1, timeout, cfg, 1)[0], None
            except MachineryError as e:
                return g, None, str(e)
        while groups and (time.time() < end or not found) and len(found) < 12:
            with ThreadPoolExecutor(NPROC) as ex:
                rs = list(ex.map(judge, groups[:NPROC]))
            groups = groups[NPROC:]
            for g, v, e in rs:
                if v is not None:
                    for i, x in zip(g, v):
                        verdicts[i] = x
                elif len(g) == 1:
                    verdicts[g[0]] = dict(ok=False, clause='uninterpretable', at=0, diag=e[-1500:])
                    found.append(g[0])
                else:
                    groups[:0] = [g[:len(g) // 2], g[len(g) // 2:]]
        if not found and any(v is None for v in verdicts):
            raise MachineryError('%d traces without verdict from %s:\n%s' % (sum(v is None for v in verdicts), module, errs[0]))
        for i in range(n):  # with a dozen found, the others are not looked at
            verdicts[i] = verdicts[i] or dict(ok=True, clause='', at=0)
    elif errs:
        raise MachineryError('%d traces without verdict from %s:\n%s' % (sum(v is None for v in verdicts), module, errs[0]))
    return verdicts, tot[0], tot[1]


def generate(module, num, depth, seed, cfg=None, mark='SCRIPT ', timeout=120):
    """Behaviours of a specification as scripts: TLC's simulator prints the operation history as JSON."""
    found = []
    for _ in range(3):  # e.g. no memory left for the virtual machine
        r = tlc(module, cfg, extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], timeout=timeout)
        found = list(re.finditer(r'^"%s(.*)"$' % mark, r['out'], re.M))
        if found:
            break
    out, seen = [], set()
    for m in found:
        try:
            h = json.loads(m.group(1).replace('\\"', '"'))
        except ValueError:
            continue
        key = json.dumps(h[:-1])
        if key not in seen:
            seen.add(key)
            out.append(h)
    if not out:
        raise MachineryError('no behaviours generated by %s:\n%s' % (module, r['out'][-2000:]))
    return out


# ---------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path))['findings']


# ---------------------------------------------------------------- a check run
class Check:
    """Collects what one run of a check did and produces the outcome."""

    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.violations, self.known, self.notes = [], [], [], [], []
        self.counters = {}
        self.replay, self.pending, self.timing = None, [], []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rng(self, tag=''):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, tag))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def design(self, module, cfg=None, **kw):
        """Starts model checking a design specification; finish() waits for the outcome."""
        if self.replay is None:
            self.pending.append(Design(module, cfg, **kw))

    def _collect_designs(self):
        for d in self.pending:
            r = d.wait()
            self.models.append(dict(module=d.module, cfg=d.cfg, distinct=r['distinct'], generated=r['generated'],
                                    **({'expected_violation': d.expect} if d.expect else {})))
            if not d.expect:
                self.states += r['distinct']
                self.transitions += r['generated']
        self.pending = []

    def scenarios(self, module, run, encode, scens, timeout=150, nproc=None, shards=None, cfg=None, tlc_timeout=700):
        """Runs the scenarios on the real code, encodes the recorded traces and validates them with TLC."""
        if self.replay is not None:
            if (self.replay.get('detail') or {}).get('module', module) != module:
                return [], []
            scens = [self.replay['scenario']]
        t0 = time.time()
        res = run_scenarios(run, scens, timeout=timeout, nproc=nproc)
        raw, idx = [], []
        for i, r in enumerate(res):
            if r is None:
                raise MachineryError('no result for scenario %d' % i)
            if r.get('skipped'):
                continue
            if r.get('hang'):
                self.violation(scens[i], 'did not terminate within %d s' % timeout, None)
            elif 'died' in r:
                self.violation(scens[i], 'process died (wait status %s)' % r['died'], None)
            elif not r['ok']:
                if os.environ.get('VERIF_DEBUG') or re.search(r'^(MemoryError|OSError: \[Errno 28\])', r['error']):
                    raise MachineryError('driver failed on %s\n%s' % (json.dumps(scens[i])[:1500], r['error']))
                self.violation(scens[i], 'unexpected failure: ' + r['error'][-1500:], None)
            else:
                raw.append(r['trace'])
                idx.append(i)
        t1 = time.time()
        enc, kept = [], []
        for i, t in zip(idx, raw):
            try:
                enc.append(encode(t))
                kept.append((i, t))
            except Exception:  # the encoders read everything that is observed on the unchanged tree
                self.violation(scens[i], 'unexpected observation: ' + traceback.format_exc()[-1500:], None)
        idx, raw = [i for i, _ in kept], [t for _, t in kept]
        if not enc:
            return [], []
        t2 = time.time()
        verdicts, st, gen = check_traces(module, enc, cfg=cfg, shards=shards, timeout=tlc_timeout)
        self.timing.append('%s: run %.1f s, encode %.1f s, tlc %.1f s' % (module, t1 - t0, t2 - t1, time.time() - t2))
        self.states += st
        self.transitions += gen
        self.traces += len(enc)
        for k, v in enumerate(verdicts):
            evs = raw[k].get('ops', []) if isinstance(raw[k], dict) else []
            self.events += len(evs)
            for e in evs:
                key = e.get('op', '?') if isinstance(e, dict) else '?'
                self.counters[key] = self.counters.get(key, 0) + 1
            if len(self.samples) < 3 and k % 7 == 0 and v['ok']:
                self.samples.append(json.loads(json.dumps(dict(scenario=scens[idx[k]], trace=_clip(raw[k])), default=_json_default)))
            if not v['ok']:
                self.violation(scens[idx[k]], '%s at event %d' % (v['clause'], v['at']),
                               dict(verdict=v, module=module, event=evs[v['at'] - 1] if 0 < v['at'] <= len(evs) else None, trace=raw[k]))
        return raw, verdicts

    def violation(self, scenario, what, detail):
        for f in known_findings():
            if f.get('status') == 'open' and f['property'] == self.prop and f.get('match') and isinstance(scenario, dict) \
                    and scenario.get('finding') == f['match']:
                self.known.append((f, what))
                return
        self.violations.append(dict(scenario=scenario, what=what, detail=detail))

    def finish(self):
        self._collect_designs()
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                impl_events=self.events, events_by_kind=self.counters, design_models=self.models,
                                samples=self.samples or ['none']),
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_json_default)
        for f, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            for v in self.violations[:5]:
                blob = json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier, **v), indent=1, default=_json_default)
                path = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.prop, hashlib.md5(blob.encode()).hexdigest()[:10]))
                with open(path, 'w') as f:
                    f.write(blob)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  %s' % v['what'])
                if v['detail'] and v['detail'].get('event') is not None:
                    print('  event: %s' % json.dumps(v['detail']['event'], default=_json_default)[:600])
                if v['detail'] and v['detail']['verdict'].get('diag'):
                    print('  expected: %s' % v['detail']['verdict']['diag'][:600])
            print('%d violation(s)' % len(self.violations))
            return 1
        print('%s %s: ok, %d model states, %d traces (%d events) validated in %.1f s' % (
            self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        print('  ' + '; '.join(self.timing))
        return 0


def _clip(o, n=6):
    if isinstance(o, dict):
        return {k: _clip(v, n) for k, v in o.items()}
    if isinstance(o, list):
        return [_clip(v, n) for v in o[:n]]
    return o
