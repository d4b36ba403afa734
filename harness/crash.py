"""Fault injection for saves: processes that die, are interrupted or get errors at chosen points."""
import json, os, resource, shutil, signal, sqlite3, sys, traceback
import core


class Interrupted(BaseException):
    pass


class Faults:
    """Counts the points a fault can hit; armed with a position it strikes there. kind: line (the process dies),
    state (the process dies, at the moments at which files have just changed), interrupt (an exception that is not an error is raised), audit (file operations fail), sql (statements fail),
    size / sizekill (the disk is full / the process dies in the middle of a write)."""

    def __init__(self, kind, wd):
        self.kind, self.wd, self.n, self.at, self.on, self.seen = kind, wd, 0, None, False, {}
        self.root = os.path.join(core.REPO, 'DRecPy') + os.sep
        self.files, self.changes = None, []
        if kind == 'audit':
            sys.addaudithook(self.audit)
        if kind == 'sql':
            self.patch_sqlite()

    def points(self):
        """The first and the last time each place is reached."""
        if self.kind == 'state':
            return self.changes
        return sorted(set(x for a in self.seen.values() for x in a))

    def hit(self, where=None):
        self.seen.setdefault(where, [self.n, 0])[1] = self.n
        self.n += 1
        return self.on and self.at is not None and self.n == self.at + 1

    def audit(self, event, args):
        if self.on and event in ('os.rename', 'os.remove', 'open', 'sqlite3.connect', 'os.truncate', 'os.link', 'shutil.copyfile', 'shutil.move') \
                and any(isinstance(a, str) and a.startswith(self.wd) for a in args[:2]) and self.hit((event, self.n)):
            raise OSError(28, 'No space left on device')

    def patch_sqlite(self):
        me, connect = self, sqlite3.connect

        class Cursor(sqlite3.Cursor):
            def _fail(self, text):
                if me.on and me.hit(text):
                    raise sqlite3.OperationalError('disk I/O error')

            def execute(self, *a):
                self._fail(a[0])
                return super().execute(*a)

            def executemany(self, *a):
                self._fail(a[0])
                return super().executemany(*a)

        class Connection(sqlite3.Connection):
            def cursor(self, *a, **k):
                return super().cursor(Cursor)

            def commit(self):
                if me.on and me.hit(('commit', me.n)):
                    raise sqlite3.OperationalError('disk I/O error')
                return super().commit()

        def patched(*a, **k):
            k.setdefault('factory', Connection)
            return connect(*a, **k)
        sqlite3.connect = patched

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if event == 'line' and self.hit((frame.f_code.co_filename, frame.f_lineno)):
            if self.kind == 'line':
                os._exit(9)
            self.on = False
            sys.settrace(None)
            raise Interrupted
        return self.trace

    def look(self):
        out = []
        for x in os.scandir(self.wd):
            st = x.stat()
            out.append((x.name, st.st_ino, st.st_size, st.st_mtime_ns))
        return sorted(out)

    def trace_state(self, frame, event, arg):
        if frame.f_code.co_filename == __file__:
            return None
        frame.f_trace_opcodes = True
        if event == 'opcode':
            self.n += 1
            if self.at is None:
                files = self.look()
                if files != self.files:
                    self.files = files
                    self.changes.append(self.n)
            elif self.n == self.at:
                os._exit(9)
        return self.trace_state

    def __enter__(self):
        self.n, self.on = 0, True
        if self.kind == 'state':
            self.files = self.look()
            sys._getframe().f_trace_opcodes = True  # tracing starts with opcode events only if they have been asked for
            sys.settrace(self.trace_state)
        if self.kind in ('line', 'interrupt'):
            sys.settrace(self.trace)
        if self.kind in ('size', 'sizekill') and self.at is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if self.kind == 'sizekill' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.at, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        self.on = False
        if self.kind in ('size', 'sizekill') and self.at is not None:
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))


def in_child(fn):
    """Runs fn(report) in a forked process; returns what it reported until it ended."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)

            def report(**k):
                os.write(w, (json.dumps(k) + '\n').encode())
            fn(report)
        except BaseException:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            try:
                os.write(w, (json.dumps(dict(broken_driver=traceback.format_exc()[-1500:])) + '\n').encode())
            except BaseException:
                pass
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        raise core.MachineryError('a save did not end')
    out = [json.loads(x) for x in data.decode().splitlines()]
    for o in out:
        if 'broken_driver' in o:
            raise core.MachineryError(o['broken_driver'])
    return out
