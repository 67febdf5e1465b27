"""Simulated worker processes.

A worker is a forked copy of the process that creates the pool (as in the real pool: separate memory, same
starting state), but it never runs freely: at every disk operation it stops and asks the controller, and the
controller lets exactly one worker at a time proceed. Which one, and what happens to the operation, are World
decisions. Arguments, results and exceptions are pickled as multiprocessing.Pool does it.
"""
import os, sys, pickle, struct, signal, traceback, gc
import multiprocessing, multiprocessing.pool, multiprocessing.context
import concurrent.futures, concurrent.futures.process
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError, mapstar
from multiprocessing import TimeoutError as MPTimeoutError
from . import world as wm
from .world import real, HarnessError, CRASH_EXIT

RealPool = multiprocessing.Pool
RealExecutor = concurrent.futures.ProcessPoolExecutor
real_as_completed, real_futures_wait = concurrent.futures.as_completed, concurrent.futures.wait


class SimDeadlock(BaseException):
    """Nothing can ever run again, and no timeout is pending: the real program would hang here."""


def send(fd, obj):
    b = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    b = struct.pack('>Q', len(b)) + b
    m = memoryview(b)
    while m: m = m[real.os_write(fd, m):]

def _read(fd, n):
    out = bytearray()
    while len(out) < n:
        c = os.read(fd, min(1 << 20, n - len(out)))
        if not c: raise EOFError
        out += c
    return bytes(out)

def recv(fd):
    n = struct.unpack('>Q', _read(fd, 8))[0]
    return pickle.loads(_read(fd, n))


class Worker:
    """Controller-side handle of one simulated process."""
    def __init__(self, name): self.name = name; self.pid = None; self.pending = None; self.task = None; self.wake = None; self.dead = False; self.final = None

    def fork(self, body, closefds=()):
        """Start the process; `body(agent)` runs in it. It stops at once, waiting for its first grant."""
        a_r, a_w = os.pipe()     # controller -> worker
        b_r, b_w = os.pipe()     # worker -> controller
        sys.stdout.flush(); sys.stderr.flush()
        pid = real.fork()
        if pid == 0:
            code = 1
            try:
                os.close(a_w); os.close(b_r)
                for fd in closefds:
                    try: os.close(fd)
                    except OSError: pass
                agent = Agent(self.name, a_r, b_w)
                body(agent)
                code = 0
            except EOFError: code = 0       # controller is gone
            except BaseException:
                traceback.print_exc()
            finally:
                try: sys.stdout.flush(); sys.stderr.flush()
                except Exception: pass
                real._exit(code)
        os.close(a_r); os.close(b_w)
        self.pid, self.wfd, self.rfd = pid, a_w, b_r

    def fds(self): return [self.wfd, self.rfd]
    def send(self, msg): send(self.wfd, msg)

    def await_msg(self):
        """Let it run until it stops again. Returns its message, or None if it died."""
        try: return recv(self.rfd)
        except EOFError: return None

    def kill(self):
        if self.pid is None: return
        try: real.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.reap()

    def reap(self):
        if self.pid is None: return None
        try: _, st = os.waitpid(self.pid, 0)
        except ChildProcessError: st = 0
        for fd in (self.wfd, self.rfd):
            try: os.close(fd)
            except OSError: pass
        self.pid = None
        self.dead = True
        return st


class Agent:
    """Worker-side end."""
    def __init__(self, name, rfd, wfd):
        self.name, self.rfd, self.wfd = name, rfd, wfd
        w = wm.W
        if w is not None:
            w.actor = name
            w.link = self.link
            w.mutations = []; w.escapes = []; w.external = []; w.probes = {}
            w.listcount = {}

    def link(self, kind, rel):
        send(self.wfd, ('op', kind, rel))
        m = recv(self.rfd)
        if m[0] != 'go': raise EOFError
        return m[1], m[2]

    def report(self):
        w = wm.W
        r = (w.mutations, w.escapes, w.external, w.probes)
        w.mutations = []; w.escapes = []; w.external = []; w.probes = {}
        return r


class Job:
    def __init__(self, n): self.n = n; self.results = {}; self.error = None; self.left = n; self.result = None
    def done(self): return self.left == 0


class Sched:
    """Steps a set of workers; shared by the pool and by races between whole programs."""
    def __init__(self, w): self.w = w; self.workers = []; self.last = None

    def runnable(self):
        now = self.w.t
        return [k for k in self.workers if not k.dead and k.pending is not None and (k.wake is None or k.wake <= now)]

    def step_op(self, k):
        """Grant the pending operation of k and run it to its next stop. Returns the message."""
        w = self.w
        kind, rel = k.pending
        if self.last is not k and self.last is not None: w.ctx_switches += 1
        self.last = k
        verdict = w.decide(k.name, kind, rel)
        if verdict is not None:
            if verdict[0] == 'kill':
                k.pending = None
                k.kill()
                return ('killed',)
            if verdict[0] == 'stall':       # stopped for a (possibly infinite) simulated time
                k.wake = w.t + float(verdict[1])
                return ('stalled',)
            if verdict[0] == 'crash': return ('crash',)
        k.pending = None
        k.wake = None
        k.send(('go', verdict, w.t))
        return k.await_msg()


class SimPool:
    """Drop-in for multiprocessing.Pool under an active World."""
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.w = wm.W
        if self.w.link is not None: raise AssertionError('daemonic processes are not allowed to have children')
        n = processes or self.w.cfg.get('cpus', 4)
        if n < 1: raise ValueError("Number of processes must be at least 1")
        self._processes = n
        self._init = (initializer, initargs)
        self.sched = Sched(self.w)
        self.queue = []          # (job, index, payload)
        self.jobs = []
        self.closed = self.terminated = self.executor = False
        self.count = 0
        self.w.pool_log.append(n)
        gc.collect()
        for _ in range(n): self._spawn()

    # -- workers
    def _spawn(self):
        self.count += 1
        k = Worker(f"w{self.count}")
        fds = [fd for o in self.sched.workers if o.pid for fd in o.fds()]
        init = self._init
        def body(agent):
            if init[0] is not None: init[0](*init[1])
            while True:
                m = recv(agent.rfd)
                if m[0] != 'task': return
                try:
                    func, args, kw = pickle.loads(m[1])
                    res = (True, func(*args, **kw))
                except Exception as e:
                    res = (False, ExceptionWithTraceback(e, e.__traceback__))
                try: payload = pickle.dumps(res)
                except Exception as e:
                    payload = pickle.dumps((False, MaybeEncodingError(e, res[1])))
                send(agent.wfd, ('done', payload, agent.report()))
        k.fork(body, fds)
        k.idle = True
        self.sched.workers.append(k)

    def _check(self):
        if self.closed or self.terminated: raise ValueError("Pool not running")

    def _submit(self, calls):
        """calls: list of (func, args, kwargs) = one task each."""
        self._check()
        job = Job(len(calls))
        for i, c in enumerate(calls):
            try: payload = pickle.dumps(c)
            except Exception as e:
                job.results[i] = (False, e); job.left -= 1
                if job.error is None: job.error = e
                continue
            self.queue.append((job, i, payload))
        self.jobs.append(job)
        return job

    def _step(self):
        """Do one scheduling step. False if nothing can run at the current time."""
        w = self.w
        acts = [k for k in self.sched.workers if not k.dead and k.idle and self.queue] if self.queue else []
        acts = acts + self.sched.runnable()
        if not acts: return False
        k = acts[w.choose(len(acts), 'who')]
        if k.idle:
            job, i, payload = self.queue.pop(0)
            k.idle = False
            k.task = (job, i)
            w.note(f"start {k.name} task {i}")
            if self.sched.last is not k and self.sched.last is not None: w.ctx_switches += 1
            self.sched.last = k
            k.send(('task', payload))
            m = k.await_msg()
        else:
            m = self.sched.step_op(k)
        self._message(k, m)
        return True

    def _message(self, k, m):
        w = self.w
        if m is not None and m[0] == 'op':
            k.pending = (m[1], m[2]); return
        if m is not None and m[0] == 'stalled': return
        if m is not None and m[0] == 'crash':
            self._killall(); w.crash()
        if m is not None and m[0] == 'done':
            job, i = k.task
            k.task = None; k.idle = True; k.pending = None
            ok, val = pickle.loads(m[1])
            mut, esc, ext, prb = m[2]
            w.mutations += mut; w.escapes += esc; w.external += ext
            for p, c in prb.items(): w.probes[p] = w.probes.get(p, 0) + c
            w.note(f"done {k.name} task {i} {ok}")
            job.results[i] = (ok, val); job.left -= 1
            if not ok and job.error is None: job.error = val
            if job.result is not None: job.result._notify()
            return
        # the worker process is gone: its task is lost, and the pool replaces the worker
        w.note(f"lost {k.name}")
        k.dead = True
        if k.pid is not None: k.kill()
        if self.executor:       # a ProcessPoolExecutor gives up instead
            self.queue.clear(); self.closed = True
            for j in self.jobs:
                if not j.done():
                    j.error = concurrent.futures.process.BrokenProcessPool('A process in the process pool was terminated abruptly')
                    j.results = {i: (False, j.error) for i in range(j.n)}; j.left = 0
                    if j.result is not None: j.result._notify()
            return
        self._spawn()

    def _drive(self, done, deadline=None):
        """Run the workers until done() or the simulated deadline."""
        w = self.w
        while not done():
            if deadline is not None and w.t >= deadline: return False
            if self._step(): continue
            wakes = [k.wake for k in self.sched.workers if not k.dead and k.wake is not None and k.wake > w.t and k.wake != float('inf')]
            if deadline is not None: wakes.append(deadline)
            if not wakes:
                w.note('deadlock')
                raise SimDeadlock('no worker can make progress and there is no timeout')
            w.t = max(w.t, min(wakes))
        return True

    # -- API
    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra: chunksize += 1
        if not items: chunksize = 0
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)] if items else []

    def _map_async(self, func, iterable, mapper, chunksize, cb, ecb):
        chunks = self._chunks(iterable, chunksize)
        job = self._submit([(mapper, ((func, tuple(c)),), {}) for c in chunks])
        return SimResult(self, job, True, cb, ecb)

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, mapstar, chunksize, None, None).get()
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, mapstar, chunksize, callback, error_callback)
    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, multiprocessing.pool.starmapstar, chunksize, None, None).get()
    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, multiprocessing.pool.starmapstar, chunksize, callback, error_callback)
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return SimResult(self, self._submit([(func, tuple(args), dict(kwds))]), False, callback, error_callback)
    def apply(self, func, args=(), kwds={}): return self.apply_async(func, args, kwds).get()
    def imap(self, func, iterable, chunksize=1):
        return SimIter(self, self._submit([(func, (x,), {}) for x in iterable]), False)
    def imap_unordered(self, func, iterable, chunksize=1):
        return SimIter(self, self._submit([(func, (x,), {}) for x in iterable]), True)

    def close(self): self.closed = True
    def join(self):
        if not self.closed and not self.terminated: raise ValueError("Pool is still running")
        if not self.terminated:
            self._drive(lambda: all(j.done() for j in self.jobs))
            self._killall()
    def terminate(self):
        self.terminated = True
        self._killall()
    def _killall(self):
        for k in self.sched.workers:
            if not k.dead: k.kill()
    def __enter__(self):
        self._check()
        return self
    def __exit__(self, *a): self.terminate()
    def __del__(self):
        try: self._killall()
        except Exception: pass


class SimResult:
    def __init__(self, pool, job, many, cb, ecb): self.pool, self.job, self.many, self.cb, self.ecb, self.called = pool, job, many, cb, ecb, False; job.result = self; self._notify()
    def _notify(self):
        if self.job.done() and not self.called:
            self.called = True
            if self.job.error is None:
                if self.cb: self.cb(self._value())
            elif self.ecb: self.ecb(self.job.error)
    def _value(self):
        vals = [self.job.results[i][1] for i in range(self.job.n)]
        return [x for v in vals for x in v] if self.many else vals[0]
    def ready(self):
        # a poll: let the workers get on a little, as they would in parallel
        for _ in range(20):
            if self.job.done() or not self.pool._step(): break
        self._notify()
        return self.job.done()
    def successful(self):
        if not self.job.done(): raise ValueError(f"{self!r} not ready")
        return self.job.error is None
    def wait(self, timeout=None):
        w = self.pool.w
        self.pool._drive(self.job.done, None if timeout is None else w.t + timeout)
        self._notify()
    def get(self, timeout=None):
        self.wait(timeout)
        if not self.job.done(): raise MPTimeoutError
        if self.job.error is not None: raise self.job.error
        return self._value()


class SimIter:
    """What imap and imap_unordered return."""
    def __init__(self, pool, job, anyorder): self.pool, self.job, self.anyorder, self.given = pool, job, anyorder, []
    def __iter__(self): return self
    def next(self, timeout=None):
        J, G = self.job, self.given
        if len(G) == J.n: raise StopIteration
        ready = (lambda: len(J.results) > len(G)) if self.anyorder else (lambda: len(G) in J.results)
        if not self.pool._drive(ready, None if timeout is None else self.pool.w.t + timeout): raise MPTimeoutError
        i = next(i for i in J.results if i not in G) if self.anyorder else len(G)
        G.append(i)
        ok, v = J.results[i]
        if not ok: raise v
        return v
    __next__ = next


class SimFuture(concurrent.futures.Future):
    """A result of the simulated concurrent.futures.ProcessPoolExecutor: waiting for it lets the workers run."""
    pool = job = None
    def _settle(self, timeout=None):
        if self.done(): return
        if not self.pool._drive(self.job.done, None if timeout is None else self.pool.w.t + timeout): raise concurrent.futures.TimeoutError
        self._notify()
    def _notify(self):
        if self.job.done() and not super().done():
            ok, v = self.job.results[0]
            if ok: self.set_result(v)
            else: self.set_exception(v)
    def cancel(self): return False
    def done(self):
        if not super().done():
            for _ in range(20):
                if self.job.done() or not self.pool._step(): break
            self._notify()
        return super().done()
    def result(self, timeout=None): self._settle(timeout); return super().result(0)
    def exception(self, timeout=None): self._settle(timeout); return super().exception(0)


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None):
        self._pool = SimPool(max_workers, initializer, initargs); self._pool.executor = True
    def submit(self, fn, /, *args, **kwargs):
        f = SimFuture(); f.pool = self._pool
        f.job = self._pool._submit([(fn, args, kwargs)]); f.job.result = f; f._notify()
        return f
    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        end = None if timeout is None else self._pool.w.t + timeout
        return iter_results(fs, end)
    def shutdown(self, wait=True, *, cancel_futures=False):
        p = self._pool
        if cancel_futures: p.queue.clear()
        p.close()
        if wait and not cancel_futures: p.join()


def iter_results(fs, end):
    for f in fs: yield f.result(None if end is None else max(0, end - f.pool.w.t))


def Executor(*a, **k): return (RealExecutor if wm.W is None else SimExecutor)(*a, **k)


def as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not fs or not all(isinstance(f, SimFuture) for f in fs): yield from real_as_completed(fs, timeout); return
    p = fs[0].pool; end = None if timeout is None else p.w.t + timeout
    while fs:
        if not p._drive(lambda: any(f.job.done() for f in fs), end): raise concurrent.futures.TimeoutError
        for f in [f for f in fs if f.job.done()]: fs.remove(f); f._notify(); yield f


def futures_wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if not fs or not all(isinstance(f, SimFuture) for f in fs): return real_futures_wait(fs, timeout, return_when)
    p = fs[0].pool
    some = {concurrent.futures.ALL_COMPLETED: lambda: all(f.job.done() for f in fs), concurrent.futures.FIRST_COMPLETED: lambda: any(f.job.done() for f in fs),
            concurrent.futures.FIRST_EXCEPTION: lambda: any(f.job.error is not None for f in fs) or all(f.job.done() for f in fs)}[return_when]
    p._drive(some, None if timeout is None else p.w.t + timeout)
    for f in fs: f._notify()
    return concurrent.futures._base.DoneAndNotDoneFutures({f for f in fs if f.job.done()}, {f for f in fs if not f.job.done()})


def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
    if wm.W is None: return RealPool(processes, initializer, initargs, maxtasksperchild)
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def install():
    multiprocessing.Pool = Pool
    context_pool = multiprocessing.context.BaseContext.Pool
    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if wm.W is None: return context_pool(self, processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    multiprocessing.context.BaseContext.Pool = ctx_pool
    concurrent.futures.ProcessPoolExecutor = Executor
    concurrent.futures.as_completed, concurrent.futures.wait = as_completed, futures_wait
    multiprocessing.cpu_count = lambda: 4
    os.cpu_count = lambda: 4
