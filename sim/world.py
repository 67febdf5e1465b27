"""The simulated world: disk, clock, external programs, and every decision about them.

`install()` replaces the seams (open, os.*, time, datetime, sqlite3.connect, multiprocessing.Pool,
subprocess, ...) by wrappers *before* BibleOrgSys is imported. The wrappers are dormant (plain
pass-through) until a World is activated with `activate(world)`.

A World lives in one simulated process. Its decisions (which worker runs, which operation fails,
the listing order, the time) are a pure function of its config, so one config is one execution.
"""
import builtins, io, os, sys, errno, time, random, hashlib, types, stat as _stat
import datetime as _dtmod
import shutil, sqlite3, subprocess, tempfile

real = types.SimpleNamespace(
    open=builtins.open, io_open=io.open, FileIO=io.FileIO,
    listdir=os.listdir, scandir=os.scandir, stat=os.stat, lstat=os.lstat, mkdir=os.mkdir, rename=os.rename,
    replace=os.replace, remove=os.remove, unlink=os.unlink, rmdir=os.rmdir, symlink=os.symlink,
    link=os.link, chmod=os.chmod, utime=os.utime, truncate=os.truncate, os_open=os.open, os_write=os.write,
    chdir=os.chdir, getcwd=os.getcwd, fork=os.fork, kill=os.kill, system=os.system, _exit=os._exit,
    time=time.time, sleep=time.sleep, monotonic=time.monotonic, perf_counter=time.perf_counter,
    time_ns=time.time_ns, localtime=time.localtime, gmtime=time.gmtime, strftime=time.strftime,
    datetime=_dtmod.datetime, date=_dtmod.date, sqlite_connect=sqlite3.connect, Popen=subprocess.Popen,
    mkdtemp=tempfile.mkdtemp,
)

W = None            # the active World of this process (None: seams are dormant)
CRASH_EXIT = 77     # exit status of a simulated process crash


class HarnessError(Exception):
    """The simulator itself is wrong or was used wrongly: never a violation."""


ERR = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES, 'enoent': errno.ENOENT,
       'emfile': errno.EMFILE, 'edquot': errno.EDQUOT}

NETKINDS = ('refused', 'dns', 'timeout', 'reset', 'eof', 'status', 'html', 'corrupt', 'cut')    # carried out in net.py
READ_OPS = ('open-r', 'read', 'listdir')
WRITE_OPS = ('open-w', 'write', 'close-w', 'mkdir', 'rename', 'remove', 'rmdir', 'sql', 'sqlcommit', 'meta')


class World:
    """cfg keys: seed, prefix (number of random scheduling choices before all-zero; None = unlimited),
    order ('sorted'|'reverse'|'shuffle'), buf (buffer size or 0 = default), short (None or max bytes per raw
    read/write), t0 (start time), dt (seconds per operation), faults (list of dicts).
    A fault: kind (eio, enospc, eacces, enoent, emfile, crash, torn, kill, stall, pause), at (0-based index
    among matching operations) or frac, ops (list of op names or 'read'/'write'/'any'), path (substring of
    relative path or None), sticky (all later matching operations fail as well), actor (worker or None)."""

    def __init__(self, root, cfg=None, actor='main'):
        cfg = dict(cfg or {})
        self.cfg = cfg
        self.root = os.path.abspath(root)
        self.seed = cfg.get('seed', 0)
        self.rng = random.Random(f"sched:{self.seed}")
        self.prefix = cfg.get('prefix')
        self.nchoices = 0
        self.order = cfg.get('order', 'sorted')
        self.buf = cfg.get('buf', 0)
        self.short = cfg.get('short')
        self.t = float(cfg.get('t0', 1_700_000_000.0))
        self.dt = float(cfg.get('dt', 0.0005))
        self.mono0 = self.t
        self.setfaults(cfg.get('faults', []))
        self.bypath = None         # counts per operation and path, when somebody wants them
        self.actor = actor
        self.link = None           # set in workers: callable(kind, rel) -> (verdict, t)
        self.hash = hashlib.sha256()
        self.nops = 0
        self.opcounts = {}
        self.fired = {}
        self.log = [] if cfg.get('keeplog') else None
        self.mutations = []        # (op, relative or absolute path) of everything that changed the disk
        self.keepmut = cfg.get('keepmut', True)
        self.escapes = []          # attempted writes outside the simulated disk
        self.external = []         # attempted external programs
        self.listcount = {}
        self.ctx_switches = 0
        self.pool_log = []         # pools created
        self.allow = [os.path.abspath(p) for p in cfg.get('allow', [])]
        self.simroots = [self.root]
        self.readrel = cfg.get('readroots') or []   # extra roots (e.g. reference data) with read faults/order
        self.probes = {}

    # ---- decisions -------------------------------------------------------------------------------
    def choose(self, n, what=''):
        """One scheduling choice in range(n)."""
        if n <= 1: return 0
        k = self.nchoices
        self.nchoices += 1
        v = self.rng.randrange(n)
        if self.prefix is not None and k >= self.prefix: v = 0
        self.note(f"choose {what} {v}/{n}")
        return v

    def note(self, s):
        self.hash.update(s.encode('utf-8', 'surrogatepass') + b'\n')
        if self.log is not None: self.log.append(s)

    def setfaults(self, faults):
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f['_n'] = 0
            f['_fired'] = 0
            o = f.get('ops', 'any')
            f['_ops'] = READ_OPS if o == 'read' else WRITE_OPS if o == 'write' else None if o == 'any' else tuple(o)

    def decide(self, actor, kind, rel):
        """Called in the controlling process for every disk operation: returns a verdict or None."""
        self.nops += 1
        self.opcounts[kind] = self.opcounts.get(kind, 0) + 1
        if self.bypath is not None: self.bypath[kind + ' ' + rel] = self.bypath.get(kind + ' ' + rel, 0) + 1
        self.t += self.dt
        verdict = None
        for f in self.faults:
            if f['_ops'] is not None and kind not in f['_ops']: continue
            if f.get('path') and f['path'] not in rel: continue
            if f.get('notpath') and f['notpath'] in rel: continue
            if f.get('actor') is not None and f['actor'] != actor: continue
            n = f['_n']; f['_n'] += 1
            if n == f.get('at', 0) or (f.get('sticky') and n > f.get('at', 0) and n < f.get('until', 1 << 60)):
                verdict = (f['kind'], f.get('arg', 0.5))
                f['_fired'] += 1
                self.fired[f['kind']] = self.fired.get(f['kind'], 0) + 1
                break
        self.note(f"{actor} {kind} {rel} {verdict}")
        return verdict

    def op(self, kind, path):
        """Gate before every operation on the simulated disk; raises the injected error if there is one.
        Returns None or a ('torn', frac) verdict that the caller carries out."""
        rel = self.rel(path)
        if self.link is not None:
            verdict, self.t = self.link(kind, rel)
        else:
            verdict = self.decide(self.actor, kind, rel)
        if kind not in ('open-r', 'read', 'listdir', 'write', 'close-r') and self.keepmut:
            self.mutations.append((kind, rel))
        if verdict is None: return None
        k = verdict[0]
        if k in ERR:
            e = ERR[k]
            raise OSError(e, os.strerror(e), str(path))
        if k == 'crash':
            self.crash()
        if k == 'torn':
            if kind == 'write': return verdict
            self.crash()
        if k in NETKINDS: return verdict
        raise HarnessError(f"verdict {verdict} for {kind}")

    def crash(self):
        """The process dies here: nothing buffered survives, nothing else runs."""
        hook = self.cfg.get('_oncrash')
        if hook: hook(self)
        real._exit(CRASH_EXIT)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path)) if not isinstance(path, bytes) else path.decode()
        if p.startswith(self.root): return p[len(self.root):] or '/'
        return p

    def where(self, path):
        """'sim' | 'ext'"""
        if isinstance(path, int): return 'ext'
        p = os.path.abspath(os.fsdecode(path))
        for r in self.simroots:
            if p == r or p.startswith(r + '/'): return 'sim'
        return 'ext'

    def touch(self, path):
        """Give the entry (and its folder for directory changes) the simulated time."""
        try: real.utime(path, (self.t, self.t))
        except OSError: pass

    def ext_write(self, what, path):
        p = os.path.abspath(os.fsdecode(path))
        for a in self.allow:
            if p == a or p.startswith(a + '/'): return
        if p in ('/dev/null', '/dev/stdout', '/dev/stderr', '/dev/tty'): return
        self.escapes.append((what, p))
        self.note(f"ESCAPE {what} {p}")
        raise PermissionError(errno.EACCES, 'write outside the simulated disk', p)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def summary(self):
        return dict(hash=self.hash.hexdigest()[:20], ops=self.nops, opcounts=self.opcounts, fired=self.fired,
                    simtime=self.t - self.mono0, choices=self.nchoices, switches=self.ctx_switches,
                    escapes=self.escapes, external=self.external, mutations=self.mutations, probes=self.probes,
                    matched=[f['_n'] for f in self.faults], log=self.log)


# ------------------------------------------------------------------------------------------------ files
class SimRaw(io.RawIOBase):
    def __init__(self, w, path, mode, opener=None):
        self._w = w
        self._path = path
        writing = any(c in mode for c in 'wax+')
        self._writing = writing
        self._rel_hint = path
        creating = any(c in mode for c in 'wax')
        v = w.op('open-w' if writing else 'open-r', path)
        self._f = real.FileIO(path, mode, opener=opener) if opener else real.FileIO(path, mode)
        self.name = path
        self._mode = self._f.mode
        if creating: w.touch(path); w.touch(os.path.dirname(os.path.abspath(os.fsdecode(path))))

    mode = property(lambda self: self._mode)

    def readable(self): return self._f.readable()
    def writable(self): return self._f.writable()
    def seekable(self): return self._f.seekable()
    def fileno(self): return self._f.fileno()
    def isatty(self): return False
    def seek(self, pos, whence=0): return self._f.seek(pos, whence)
    def tell(self): return self._f.tell()

    def truncate(self, size=None):
        self._w.op('write', self._path)
        return self._f.truncate(size)

    def readinto(self, b):
        w = self._w
        w.op('read', self._path)
        m = memoryview(b)
        if w.short and len(m) > w.short: m = m[:w.short]
        return self._f.readinto(m)

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n: return bytes(out)
            out += b[:n]

    def write(self, b):
        w = self._w
        if W is not w: return len(b)        # late flush by the garbage collector after the run
        v = w.op('write', self._path)
        m = memoryview(b).cast('B')
        if v is not None:                   # torn: a part reaches the disk, then the process is gone
            self._f.write(m[:int(len(m) * v[1])])
            w.crash()
        if w.short and len(m) > w.short: m = m[:w.short]
        return self._f.write(m)

    def close(self):
        if self.closed: return
        try:
            super().close()
        finally:
            f = self._f
            try:
                if W is self._w:
                    try:
                        if self._writing: self._w.op('close-w', self._path)
                    finally:
                        f.close()
                        if self._writing: self._w.touch(self._path)
                else: f.close()
            finally:
                if not f.closed: f.close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None or isinstance(file, int) or (opener is not None):
        return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if w.where(file) != 'sim':
        if writing: w.ext_write('open-w', file)
        return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    # same argument rules as io.open
    if 'U' in mode: raise ValueError(f"invalid mode: '{mode}'")
    binary = 'b' in mode
    rawmode = ''.join(c for c in mode if c in 'rwxa') + ('+' if '+' in mode else '')
    if len([c for c in mode if c in 'rwxa']) != 1: raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None: raise ValueError("binary mode doesn't take an encoding argument")
    if binary and errors is not None: raise ValueError("binary mode doesn't take an errors argument")
    if binary and newline is not None: raise ValueError("binary mode doesn't take a newline argument")
    path = os.fspath(file)
    raw = SimRaw(w, path, rawmode)
    result = raw
    try:
        if buffering == 0:
            if binary: return raw
            raise ValueError("can't have unbuffered text I/O")
        line = buffering == 1 and not binary
        size = w.buf or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if '+' in mode: buf = io.BufferedRandom(raw, size)
        elif writing: buf = io.BufferedWriter(raw, size)
        else: buf = io.BufferedReader(raw, size)
        result = buf
        if binary: return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        if w.buf and writing: text._CHUNK_SIZE = w.buf       # what the text layer holds back
        result = text
        text.mode = mode
        return text
    except BaseException:
        result.close()
        raise


def _wrap_mut(name, kind, npaths=1):
    r = getattr(real, name)
    def f(*args, **kw):
        w = W
        if w is None or (args and isinstance(args[0], int)): return r(*args, **kw)
        paths = list(args[:npaths])
        if len(paths) < npaths: paths += [v for k, v in kw.items() if k in ('path', 'src', 'dst')]
        insim = [w.where(p) == 'sim' for p in paths]
        if not all(insim):
            for p, s in zip(paths, insim):
                if not s: w.ext_write(kind, p)
            if not any(insim): return r(*args, **kw)
        # an operation that must fail anyway (target missing / exists) fails naturally, unfaulted
        if kind in ('remove', 'rmdir') and not os.path.lexists(paths[0]): return r(*args, **kw)
        if kind == 'rename' and not os.path.lexists(paths[0]): return r(*args, **kw)
        if kind == 'mkdir' and os.path.lexists(paths[0]): return r(*args, **kw)
        if kind == 'rename':
            w.op(kind, paths[0])
            if w.keepmut: w.mutations.append(('rename-to', w.rel(paths[1])))
        else: w.op(kind, paths[0])
        out = r(*args, **kw)
        for p in paths:
            p = os.path.abspath(os.fsdecode(p))
            if kind == 'mkdir': w.touch(p)
            if kind != 'meta': w.touch(os.path.dirname(p))
        return out
    f.__name__ = name
    return f


def _permute(w, path, names):
    names = sorted(names)
    if w.order == 'reverse': names.reverse()
    elif w.order == 'shuffle':
        rel = w.rel(path)
        k = w.listcount.get(rel, 0)
        if w.cfg.get('relist'): w.listcount[rel] = k + 1   # a different order on every call
        random.Random(f"list:{w.seed}:{rel}:{k}").shuffle(names)
    return names


def _inscope(w, path):
    if path is None: path = '.'
    if isinstance(path, int): return False
    if w.where(path) == 'sim': return True
    p = os.path.abspath(os.fsdecode(path))
    return any(p.startswith(r) for r in w.readrel)


def sim_listdir(path=None):
    w = W
    if w is None or not _inscope(w, path): return real.listdir(path) if path is not None else real.listdir()
    p = '.' if path is None else path
    if os.path.isdir(p): w.op('listdir', p)
    return _permute(w, p, real.listdir(p))


class SimScandir:
    def __init__(self, it): self._it = iter(it)
    def __iter__(self): return self
    def __next__(self): return next(self._it)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): pass


def sim_scandir(path=None):
    w = W
    if w is None or not _inscope(w, path): return real.scandir(path) if path is not None else real.scandir()
    p = '.' if path is None else path
    if os.path.isdir(p): w.op('listdir', p)
    with real.scandir(p) as it: entries = {e.name: e for e in it}
    return SimScandir([entries[n] for n in _permute(w, p, entries)])


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W
    if w is not None and dir_fd is None and not isinstance(path, int):
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if w.where(path) == 'sim':
            if not (flags & os.O_DIRECTORY): w.op('open-w' if wr else 'open-r', path)
        elif wr: w.ext_write('open-w', path)
    return real.os_open(path, flags, mode, dir_fd=dir_fd)


def _st_override(w, path, st):
    tm = w.cfg.get('times')
    if not tm: return st
    p = os.path.abspath(os.fsdecode(path))
    for key, (m, c) in tm.items():
        if p.endswith(key):
            l = list(st)
            l[8] = int(m); l[9] = int(c)
            return os.stat_result(tuple(l[:10]) + (st.st_atime, float(m), float(c)) + tuple())
    return st


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    w = W
    if w is None or not w.cfg.get('times') or isinstance(path, int): return real.stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    st = real.stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return _st_override(w, path, st)


# ------------------------------------------------------------------------------------------------ clock
def sim_time(): return real.time() if W is None else _tick()
def _tick():
    W.t += 1e-6
    return W.t
def sim_time_ns(): return real.time_ns() if W is None else int(_tick() * 1e9)
def sim_monotonic(): return real.monotonic() if W is None else _tick() - W.mono0
def sim_perf(): return real.perf_counter() if W is None else _tick() - W.mono0
def sim_sleep(s):
    if W is None: return real.sleep(s)
    if s < 0: raise ValueError('sleep length must be non-negative')
    W.t += s
def sim_localtime(secs=None): return real.localtime(secs) if (W is None or secs is not None) else real.localtime(W.t)
def sim_gmtime(secs=None): return real.gmtime(secs) if (W is None or secs is not None) else real.gmtime(W.t)
class NoBind:
    """A callable that, like a built-in function, does not turn into a method when it is a class attribute."""
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*a)
def sim_strftime(fmt, t=None): return real.strftime(fmt, t) if t is not None else real.strftime(fmt, sim_localtime())


class _DTMeta(type):
    def __instancecheck__(cls, obj): return isinstance(obj, real.datetime)
    def __subclasscheck__(cls, sub): return issubclass(sub, real.datetime) if isinstance(sub, type) else False

class SimDatetime(real.datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None): return real.datetime.now(tz) if W is None else real.datetime.fromtimestamp(_tick(), tz)
    @classmethod
    def today(cls): return cls.now()
    @classmethod
    def utcnow(cls): return real.datetime.now(_dtmod.timezone.utc).replace(tzinfo=None) if W is None else real.datetime.fromtimestamp(_tick(), _dtmod.timezone.utc).replace(tzinfo=None)
    @classmethod
    def fromtimestamp(cls, *a, **k): return real.datetime.fromtimestamp(*a, **k)
    @classmethod
    def strptime(cls, *a): return real.datetime.strptime(*a)
    @classmethod
    def fromisoformat(cls, s): return real.datetime.fromisoformat(s)
    def __new__(cls, *a, **k): return real.datetime(*a, **k)

class _DMeta(type):
    def __instancecheck__(cls, obj): return isinstance(obj, real.date)
    def __subclasscheck__(cls, sub): return issubclass(sub, real.date) if isinstance(sub, type) else False

class SimDate(real.date, metaclass=_DMeta):
    @classmethod
    def today(cls): return real.date.today() if W is None else real.date.fromtimestamp(_tick())
    @classmethod
    def fromtimestamp(cls, t): return real.date.fromtimestamp(t)
    def __new__(cls, *a, **k): return real.date(*a, **k)


# ------------------------------------------------------------------------------------------------ sqlite
class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        _sqlgate(self.connection, sql)
        return super().execute(sql, *a)
    def executemany(self, sql, *a):
        _sqlgate(self.connection, sql)
        return super().executemany(sql, *a)
    def executescript(self, sql):
        _sqlgate(self.connection, sql)
        return super().executescript(sql)

class SimConnection(sqlite3.Connection):
    _simpath = None
    def cursor(self, factory=SimCursor): return super().cursor(factory)
    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)
    def commit(self):
        w = W
        if w is not None and self._simpath is not None:
            try: w.op('sqlcommit', self._simpath)
            except OSError as e: raise _sqlerr(e)
        r = super().commit()
        if w is not None and self._simpath is not None: w.touch(self._simpath)
        return r

def _sqlerr(e):
    return sqlite3.OperationalError('database or disk is full' if e.errno == errno.ENOSPC else 'disk I/O error')

def _sqlgate(conn, sql):
    w = W
    if w is None or getattr(conn, '_simpath', None) is None: return
    verb = sql.lstrip().split(None, 1)[0].upper() if sql.strip() else ''
    try: w.op('read' if verb in ('SELECT', 'PRAGMA') else 'sql', conn._simpath)
    except OSError as e: raise _sqlerr(e)

def sim_sqlite_connect(database, *a, **kw):
    w = W
    if w is None or str(database) == ':memory:': return real.sqlite_connect(database, *a, **kw)
    path = os.fsdecode(database)
    if w.where(path) == 'sim':
        new = not os.path.exists(path)
        try: w.op('open-w' if new else 'open-r', path)
        except OSError as e:
            raise sqlite3.OperationalError('unable to open database file')
        kw.setdefault('factory', SimConnection)
        c = real.sqlite_connect(database, *a, **kw)
        if isinstance(c, SimConnection): c._simpath = path
        return c
    if not os.path.exists(path): w.ext_write('open-w', path)
    return real.sqlite_connect(database, *a, **kw)


# ------------------------------------------------------------------------------------------------ external
class SimPopen(real.Popen):
    def __init__(self, args, *a, **k):
        if W is None: return super().__init__(args, *a, **k)
        W.external.append(str(args)[:200])
        W.note(f"external {str(args)[:60]}")
        raise FileNotFoundError(errno.ENOENT, 'no such program in the simulation', str(args)[:80])

def sim_system(cmd):
    if W is None: return real.system(cmd)
    W.external.append(str(cmd)[:200])
    return 127 << 8

def sim_kill(pid, sig):
    if W is None: return real.kill(pid, sig)
    W.external.append(f'kill {pid} {sig}')
    raise PermissionError(errno.EPERM, 'kill blocked in the simulation')


def install():
    """Put all seams in place (dormant). Call once, before BibleOrgSys is imported."""
    builtins.open = sim_open
    io.open = sim_open
    import bz2, lzma, tarfile, gzip
    for m in (bz2, lzma, tarfile, gzip):                # modules that took their own reference to open
        for n in ('_builtin_open', 'bltn_open'):
            if hasattr(m, n): setattr(m, n, sim_open)
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.stat = sim_stat
    os.open = sim_os_open
    os.mkdir = _wrap_mut('mkdir', 'mkdir')
    os.rename = _wrap_mut('rename', 'rename', 2)
    os.replace = _wrap_mut('replace', 'rename', 2)
    os.remove = _wrap_mut('remove', 'remove')
    os.unlink = _wrap_mut('unlink', 'remove')
    os.rmdir = _wrap_mut('rmdir', 'rmdir')
    os.symlink = _wrap_mut('symlink', 'meta', 2)
    os.link = _wrap_mut('link', 'meta', 2)
    os.chmod = _wrap_mut('chmod', 'meta')
    os.utime = _wrap_mut('utime', 'meta')
    os.truncate = _wrap_mut('truncate', 'write')
    os.system = sim_system
    os.kill = sim_kill
    time.time, time.sleep, time.monotonic, time.perf_counter, time.time_ns = sim_time, sim_sleep, sim_monotonic, sim_perf, sim_time_ns
    time.localtime, time.gmtime, time.strftime = NoBind(sim_localtime), NoBind(sim_gmtime), sim_strftime
    _dtmod.datetime = SimDatetime
    _dtmod.date = SimDate
    sqlite3.connect = sim_sqlite_connect
    subprocess.Popen = SimPopen
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    import tarfile, zipfile
    tarfile.bltn_open = sim_open
    os.getlogin = lambda: 'simuser'
    import getpass
    getpass.getuser = lambda: 'simuser'
    from . import pool
    pool.install()


def activate(w):
    global W
    W = w
    if w is not None:
        random.seed(w.seed)
        tempfile._name_sequence = _Names(w)
        tempfile.tempdir = os.path.join(w.root, 'run', 'systmp')       # in place of /tmp: a folder that everyone may use
        try: real.mkdir(tempfile.tempdir)
        except OSError: pass


class _Names:
    """Names of temporary files: repeatable, and different in programs that run at the same time."""
    def __init__(self, w): self.r = random.Random(f"names:{w.seed}:{w.actor}")
    def __iter__(self): return self
    def __next__(self): return '%08x' % self.r.randrange(1 << 32)
