"""Scenario side: simulated processes, outcomes, violations."""
import os, sys, json, traceback, hashlib, shutil, pickle, collections
from . import world as wm
from . import pool as pm
from .world import real, World, HarnessError, CRASH_EXIT


class Violation(Exception):
    def __init__(self, sig, msg, detail=''):
        self.sig, self.msg, self.detail = sig, msg, detail
        super().__init__(f"{sig}: {msg}")


class Skip(Exception):
    """The run cannot be set up on this tree (for example the exporter that makes the source fails): nothing is concluded."""


class Outcome:
    """What a simulated process came to: status ok | exc | crash | deadlock | died"""
    def __init__(self, d): self.__dict__.update(d)
    def __repr__(self): return f"<{self.status} {getattr(self,'exc',None)}>"
    @property
    def ok(self): return self.status == 'ok'
    def describe(self):
        if self.status == 'exc': return f"{self.exc}: {self.excmsg}"
        return self.status


class Ctx:
    def __init__(self, base):
        self.base = base
        self.run = os.path.join(base, 'run')
        self.home = os.path.join(base, 'home')
        self.h = hashlib.sha256()
        self.s = collections.Counter()
        self.fired = collections.Counter(); self.probes = collections.Counter(); self.opcounts = collections.Counter()
        self.simtime = 0.0
        self.nontrivial = False
        self.sample = None
        self.escapes = []

    def path(self, *p): return os.path.join(self.run, *p)

    def probe(self, name, n=1): self.probes[name] += n

    def note(self, s): self.h.update(str(s).encode('utf-8', 'surrogatepass') + b'\n')

    def stats(self):
        return dict(trace=self.h.hexdigest()[:20], ops=self.s['ops'], simtime=self.simtime, fired=dict(self.fired), switches=self.s['switches'],
                    choices=self.s['choices'], procs=self.s['procs'], probes=dict(self.probes), opcounts=dict(self.opcounts), nontrivial=bool(self.nontrivial), sample=self.sample)

    def fold(self, ws):
        self.h.update(ws['hash'].encode())
        self.s['ops'] += ws['ops']; self.s['switches'] += ws['switches']; self.s['choices'] += ws['choices']; self.s['procs'] += 1
        self.fired.update(ws['fired']); self.probes.update(ws['probes']); self.opcounts.update(ws['opcounts'])
        self.simtime += ws['simtime']

    # ---- one simulated process
    def settle(self, t0=1_700_000_000.0):
        """Give what was set up outside of the simulation times on the simulated clock (some hours before the start)."""
        import zlib
        now = real.time()                  # what was made by the harness just now (the simulated clocks are far from the real one)
        for dp, dn, fn in os.walk(self.run):
            for n in fn + dn:
                p = os.path.join(dp, n)
                try:
                    if now - 86400 < os.lstat(p).st_mtime < now + 86400:
                        t = t0 - 10000 - zlib.crc32(os.path.relpath(p, self.run).encode('utf-8', 'surrogateescape')) % 70000
                        real.utime(p, (t, t), follow_symlinks=False)
                except OSError: pass

    def spawn(self, fn, *args, cfg=None, cwd=None, other=False):
        self.settle((cfg or {}).get('t0', 1_700_000_000.0))
        if other: return self.spawn_other(fn, args, cfg, cwd)
        return self._spawn(fn, *args, cfg=cfg, cwd=cwd)

    def spawn_other(self, fn, args, cfg, cwd):
        """The same in an interpreter with another hash seed (the auxiliary zygote of this shard)."""
        import socket
        s = socket.socket(socket.AF_UNIX)
        s.connect(os.path.join(self.base, 'aux.sock'))
        fd = s.fileno()
        pm.send(fd, (fn.__module__, fn.__name__, args, cfg, cwd))
        d = pm.recv(fd)
        s.close()
        if d.get('harness'): raise HarnessError(d['harness'])
        if d.get('world'): self.fold(d['world'])
        return Outcome(d)

    def _spawn(self, fn, *args, cfg=None, cwd=None):
        """Run fn(*args) in a fresh simulated process (forked from the pristine state). Its World is built from cfg.
        Returns an Outcome. An injected crash really ends the process at that operation."""
        cfg = cfg or {}
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = real.fork()
        if pid == 0:
            os.close(r)
            try:
                os.environ['HOME'] = self.home
                real.chdir(cwd or self.path('cwd'))
                out = self._body(fn, args, cfg, w)
                pm.send(w, out)
            except BaseException:
                try: pm.send(w, dict(status='harness', detail=traceback.format_exc()))
                except BaseException: pass
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                real._exit(0)
        os.close(w)
        d = None
        summ = None
        try:
            while True:
                m = pm.recv(r)
                if m.get('status') == '_crash': summ = m['world']
                else: d = m
        except EOFError: pass
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if d is None:
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_EXIT:
                d = dict(status='crash', world=summ, value=None)
            else: d = dict(status='died', world=None, value=None, excmsg=f"wait status {st}", exc='died')
        if d['status'] == 'harness': raise HarnessError(d['detail'])
        if d.get('world'): self.fold(d['world'])
        return Outcome(d)

    def _body(self, fn, args, cfg, wfd):
        def oncrash(w): pm.send(wfd, dict(status='_crash', world=w.summary()))
        cfg = dict(cfg); cfg['_oncrash'] = oncrash
        w = World(self.base, cfg)
        wm.activate(w)
        try:
            try:
                v = fn(*args)
                d = dict(status='ok', value=v)
            except pm.SimDeadlock as e: d = dict(status='deadlock', value=None, excmsg=str(e), exc='SimDeadlock', tb=traceback.format_exc()[-3000:])
            except HarnessError: raise
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                d = dict(status='exc', value=None, exc=type(e).__name__, excmsg=str(e)[:500], tb=traceback.format_exc()[-5000:], errno=getattr(e, 'errno', None))
        finally: wm.activate(None)
        d['world'] = w.summary()
        try: pickle.dumps(d)
        except Exception as e: raise HarnessError(f"value of {fn} cannot be sent: {e}")
        return d

    # ---- several whole programs on one disk, interleaved by the scheduler
    def race(self, bodies, cfg=None):
        """bodies: list of (name, fn, args). All run as separate simulated processes; the World decides who moves."""
        w = World(self.base, cfg or {})
        sched = pm.Sched(w)
        outs = {}
        base = self
        for name, fn, args in bodies:
            k = pm.Worker(name)
            def body(agent, fn=fn, args=args):
                try:
                    os.environ['HOME'] = base.home
                    real.chdir(base.path('cwd'))
                    ww = World(base.base, {k2: v for k2, v in w.cfg.items() if k2 != 'faults'}, name)
                    ww.link = agent.link
                    wm.activate(ww)
                    agent.link('start', name)
                    try: d = dict(status='ok', value=fn(*args))
                    except (Exception, SystemExit) as e:
                        d = dict(status='exc', value=None, exc=type(e).__name__, excmsg=str(e)[:500], tb=traceback.format_exc()[-4000:])
                    wm.activate(None)
                    d['world'] = ww.summary()
                except EOFError: return
                except BaseException: d = dict(status='harness', detail=traceback.format_exc())
                pm.send(agent.wfd, ('end', d))
            k.fork(body, [fd for o in sched.workers for fd in o.fds()])
            sched.workers.append(k)
            m = k.await_msg()
            if m is None or m[0] != 'op': raise HarnessError(f"race {name}: {m}")
            k.pending = (m[1], m[2])
        while True:
            r = sched.runnable()
            if not r: break
            k = r[w.choose(len(r), 'who')]
            m = sched.step_op(k)
            if m is None or m[0] == 'killed':
                if k.pid: k.kill()
                outs[k.name] = Outcome(dict(status='crash', value=None, world=None)); k.dead = True
            elif m[0] == 'op': k.pending = (m[1], m[2])
            elif m[0] == 'crash':
                k.kill(); outs[k.name] = Outcome(dict(status='crash', value=None, world=None)); k.pending = None
            elif m[0] == 'end':
                if m[1]['status'] == 'harness': raise HarnessError(m[1]['detail'])
                outs[k.name] = Outcome(m[1]); k.reap(); k.dead = True
        for k in sched.workers:
            if not k.dead: k.kill()
        s = w.summary()
        self.fold(s)
        return outs, s


class Prop:
    """Base of the per-property scenario modules."""
    id = None
    needs_bos = True
    aux = False             # start a second interpreter with another hash seed per shard
    level = 'exploration'
    runs = dict(quick=160, thorough=4000)
    wall = dict(quick=150, thorough=3000)
    timeout = 120
    rule = ''
    real = ['BibleOrgSys (all modules of the working tree)', 'Python runtime buffering and text layers, zipfile, tarfile, sqlite3, pickle, xml parsers']
    stub = ['disk fault and scheduling layer over a scratch folder', 'clock', 'external programs (blocked)']
    assumptions = []
    def prepare(self): pass
    def gen(self, rng, i, tier): raise NotImplementedError
    def run(self, c, case): raise NotImplementedError
    def shrink(self, case): return shrink_default(case)


def shrink_default(case):
    """Generic shrinker over the conventional keys of a case."""
    # drop faults / ops / books
    for key in ('faults', 'ops', 'answers', 'queries', 'exporters'):
        L = case.get(key)
        if isinstance(L, list) and len(L) > 0:
            n = len(L)
            step = n // 2
            while step >= 1:
                for s in range(0, n, step):
                    if n - step < (0 if key == 'faults' else 1): continue
                    yield {**case, key: L[:s] + L[s + step:]}
                step //= 2
    b = case.get('bible')
    if isinstance(b, dict):
        from . import gen
        for nb in gen.shrink(b): yield {**case, 'bible': nb}
    w = case.get('world')
    if isinstance(w, dict):
        if w.get('prefix') is None: yield {**case, 'world': {**w, 'prefix': 0}}; yield {**case, 'world': {**w, 'prefix': 20}}
        elif w['prefix'] > 0:
            yield {**case, 'world': {**w, 'prefix': 0}}
            yield {**case, 'world': {**w, 'prefix': w['prefix'] // 2}}
            yield {**case, 'world': {**w, 'prefix': w['prefix'] - 1}}
        for k, v in (('short', None), ('buf', 0), ('order', 'sorted')):
            if w.get(k) not in (v, None): yield {**case, 'world': {**w, k: v}}
