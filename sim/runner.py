"""Driver: seeded batches of simulated runs, minimisation, replay files, evidence.

  python -m sim.runner check  P01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
  python -m sim.runner replay FILE
  python -m sim.runner determinism P01 [--runs N]
Exit status: 0 held, 1 VIOLATION, 2 error of the check itself.
"""
import os, sys, json, time, random, subprocess, signal, select, hashlib, traceback, shutil, argparse, importlib, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BOSSIM_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NSHARDS = int(os.environ.get('BOSSIM_SHARDS', '8'))
HASHSEEDS = ['0', '1', '2', '3', '12345', '777', '31337', '4242424242'[:9]]
T0 = time.time()


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            p = os.path.join(d, 'bossim-%08d' % os.getpid())
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, 'probe'), 'w') as f: f.write('x')
            os.remove(os.path.join(p, 'probe'))
            return p
        except OSError: continue
    raise SystemExit(2)


def child_env(base, hashseed):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'VERIF_SEED', 'VERIF_TIER', 'BOSSIM_REPO', 'BOSSIM_SHARDS', 'BOSSIM_DEBUG')}
    env.update(HOME=os.path.join(base, 'home'), LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONHASHSEED=hashseed,
               PYTHONPATH=f"{VERIF}:{REPO}", PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80')
    return env


# ------------------------------------------------------------------------------------------- shard side
def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}").PROP


class Zygote:
    """A process that has imported BibleOrgSys (with dormant seams) and forks every run from that state."""
    def __init__(self, pid, base, aux=False):
        self.base = base
        os.makedirs(os.path.join(base, 'home'), exist_ok=True)
        os.makedirs(os.path.join(base, 'run'), exist_ok=True)
        self.logpath = os.path.join(base, 'auxlog' if aux else 'log')
        self.prop = load_prop(pid)
        from sim import world as wm
        wm.install()
        if self.prop.needs_bos:
            from sim import bos
            self.outfd = os.dup(1)
            fd = os.open(self.logpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            sys.stdout.flush()
            os.dup2(fd, 1)
            bos.boot()
            self.prop.prepare()
            sys.stdout.flush()
            os.dup2(self.outfd, 1)
        else: self.prop.prepare()
        self.home0 = os.path.join(base, 'home0')
        if not aux: shutil.copytree(os.path.join(base, 'home'), self.home0)
        import gc; gc.collect(); gc.freeze()

    def reset(self):
        for d in ('run', 'home'): shutil.rmtree(os.path.join(self.base, d), ignore_errors=True)
        os.makedirs(os.path.join(self.base, 'run', 'cwd'))
        shutil.copytree(self.home0, os.path.join(self.base, 'home'))

    def execute(self, case, timeout=120):
        """Run one case in a forked process. Returns its result record."""
        self.reset()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setsid()
                fd = os.open(self.logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1); os.dup2(fd, 2)
                res = self._run(case)
            except BaseException:
                res = dict(status='error', detail=traceback.format_exc())
            try:
                b = json.dumps(res, default=str).encode()
                m = memoryview(b)
                while m: m = m[os.write(w, m):]
            finally:
                sys.stdout.flush()
                os._exit(0)
        os.close(w)
        data = bytearray()
        end = time.time() + timeout
        timed_out = False
        while True:
            left = end - time.time()
            if left <= 0: timed_out = True; break
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                c = os.read(r, 1 << 20)
                if not c: break
                data += c
        os.close(r)
        try: os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        os.waitpid(pid, 0)
        if timed_out: return dict(status='timeout', detail=self.logtail())
        if not data: return dict(status='error', detail='run process died\n' + self.logtail())
        return json.loads(data)

    def logtail(self):
        try:
            with open(self.logpath, errors='replace') as f: return f.read()[-3000:]
        except OSError: return ''

    def _run(self, case):
        from sim import ctx as cm
        c = cm.Ctx(self.base)
        t = time.time()
        try:
            self.prop.run(c, case)
            res = dict(status='ok')
        except cm.Skip as e:
            c.probe('skipped-set-up'); c.nontrivial = False
            res = dict(status='ok', detail=str(e)[:2000])
        except cm.Violation as v:
            res = dict(status='violation', sig=v.sig, msg=v.msg, detail=str(v.detail)[:6000])
        res.update(c.stats())
        res['wall'] = time.time() - t
        if isinstance(case, dict): res['tag'] = str(case.get('fmt') or case.get('mode') or '')
        return res


def gen_case(prop, pid, seed, i, tier):
    case = prop.gen(random.Random(f"{pid}:{seed}:{i}"), i, tier)
    case['_i'] = i
    return case


def aux_main(a):
    """An interpreter with another hash seed: runs single simulated processes on request."""
    import socket
    from sim import ctx as cm, pool as pm
    z = Zygote(a.prop, a.base, aux=True)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(os.path.join(a.base, 'aux.sock'))
    srv.listen(4)
    print(json.dumps(dict(ready=1)), flush=True)
    fd = os.open(os.path.join(a.base, 'auxlog'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1); os.dup2(fd, 2)
    while True:
        con, _ = srv.accept()
        f = con.fileno()
        try:
            mod, name, args, cfg, cwd = pm.recv(f)
            os.ftruncate(fd, 0)
            c = cm.Ctx(a.base)
            o = c._spawn(getattr(importlib.import_module(mod), name), *args, cfg=cfg, cwd=cwd)
            pm.send(f, o.__dict__)
        except EOFError: pass
        except Exception: pm.send(f, dict(harness=traceback.format_exc()))
        con.close()


def shard_main(a):
    z = Zygote(a.prop, a.base)
    if z.prop.aux:
        hs = str(int(os.environ['PYTHONHASHSEED']) * 7 + 99)
        z.reset()
        ax = subprocess.Popen([PY, '-m', 'sim.runner', 'aux', a.prop, '--base', a.base], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, env=child_env(a.base, hs), cwd=VERIF, text=True)
        if not ax.stdout.readline(): raise SystemExit('aux interpreter did not start')
    print(json.dumps(dict(ready=time.time() - T0)), flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        if 'case' in req: case = req['case']
        else: case = gen_case(z.prop, a.prop, req['seed'], req['i'], req['tier'])
        res = z.execute(case, req.get('timeout', 120))
        res['case'] = case if res['status'] != 'ok' or req.get('want') else None
        res['i'] = req.get('i')
        print(json.dumps(res), flush=True)


class Shard:
    def __init__(self, pid, base, idx, hashseed=None):
        self.base = os.path.join(base, f"s{idx:02d}")
        os.makedirs(self.base, exist_ok=True)
        self.hashseed = hashseed if hashseed is not None else HASHSEEDS[idx % len(HASHSEEDS)]
        self.errpath = os.path.join(self.base, 'err')
        self.p = subprocess.Popen([PY, '-m', 'sim.runner', 'shard', pid, '--base', self.base], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(self.errpath, 'w'), env=child_env(self.base, self.hashseed), cwd=VERIF, text=True, start_new_session=True)
    def send(self, req): self.p.stdin.write(json.dumps(req) + '\n'); self.p.stdin.flush()
    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            with open(self.errpath, errors='replace') as f: raise RuntimeError('shard died: ' + f.read()[-4000:])
        return json.loads(line)
    def ask(self, req): self.send(req); return self.recv()
    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        try: self.p.wait(5)
        except Exception: pass


# ------------------------------------------------------------------------------------------- known findings
def known_findings(pid):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f: d = json.load(f)
    except FileNotFoundError: return []
    return [k for k in d.get('findings', []) if k['property'] == pid]

def match_known(known, res):
    for k in known:
        if k['sig'] == res.get('sig'): return k
    return None


# ------------------------------------------------------------------------------------------- minimise
def minimise(prop, shard, case, res, budget=60.0, tries=80):
    """Greedy: take any smaller case that still fails with the same signature."""
    start = time.time()
    best, bestres = case, res
    n = 0
    improved = True
    while improved and n < tries and time.time() - start < budget:
        improved = False
        for cand in prop.shrink(best):
            if n >= tries or time.time() - start > budget: break
            n += 1
            cand = json.loads(json.dumps(cand))
            r = shard.ask(dict(case=cand, timeout=60))
            if r['status'] == 'violation' and r['sig'] == bestres['sig']:
                best, bestres = cand, r
                improved = True
                break
    return best, bestres, n


def write_replay(pid, case, res, hashseed, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, signature=res.get('sig'), message=res.get('msg'), detail=res.get('detail'), hashseed=hashseed, case=case,
                trace_hash=res.get('trace'), faults_fired=res.get('fired'), shrink_tries=tries,
                how=f"/verif/check replay <this file>   (re-runs exactly this execution on {REPO}'s working tree)")
    b = json.dumps(body, indent=1, sort_keys=True, ensure_ascii=False)
    path = os.path.join(d, f"{pid}-{hashlib.sha256(b.encode()).hexdigest()[:12]}.json")
    with open(path, 'w') as f: f.write(b + '\n')
    return path


# ------------------------------------------------------------------------------------------- check
def check(a):
    pid = a.prop
    prop = load_prop(pid)
    tier, seed = a.tier, a.seed
    tmo = min(prop.timeout, 100) if tier == 'quick' else prop.timeout
    runs = a.runs or prop.runs[tier]
    wall = a.wall or prop.wall[tier]
    base = scratch_base()
    known = known_findings(pid)
    shards = []
    rc = 0
    violations, errors, knownhit, allsigs = [], [], {}, {}
    agg = Agg()
    try:
        nsh = min(NSHARDS, max(1, runs))
        shards = [Shard(pid, base, k) for k in range(nsh)]
        for s in shards: s.recv()
        startup = time.time() - T0
        nxt = {k: iter(range(k, runs, nsh)) for k in range(nsh)}
        busy = {}
        fdmap = {s.p.stdout.fileno(): k for k, s in enumerate(shards)}
        stop = False
        def feed(k):
            if stop or time.time() - T0 > wall: return
            try: i = next(nxt[k])
            except StopIteration: return
            shards[k].send(dict(seed=seed, i=i, tier=tier, want=i < 3, timeout=tmo))
            busy[k] = i
        for k in range(nsh): feed(k)
        while busy:
            rl, _, _ = select.select(list(fdmap), [], [], 600)
            if not rl: raise RuntimeError('no shard answered for 600 s')
            for fd in rl:
                k = fdmap[fd]
                if k not in busy: continue
                res = shards[k].recv()
                i = busy.pop(k)
                agg.add(res)
                if res['status'] == 'ok': pass
                elif res['status'] == 'violation':
                    kf = match_known(known, res)
                    if kf is not None: knownhit[kf['sig']] = knownhit.get(kf['sig'], 0) + 1
                    elif a.all:
                        if res['sig'] not in allsigs: print(f"ALL run {i} {res['sig']}: {res['msg'][:300]} | {(res.get('detail') or '')[-a.tail:]}", flush=True)
                        allsigs[res['sig']] = allsigs.get(res['sig'], 0) + 1
                    else:
                        violations.append((i, k, res)); stop = True
                elif res['status'] == 'timeout':
                    res.update(status='violation', sig=f"{pid}:hang", msg='an operation of the system never finishes')     # confirmed below with more time
                    violations.append((i, k, res)); stop = True
                else:
                    errors.append((i, res)); stop = True
                feed(k)
        if a.all:
            print(allsigs)
            for t, v in sorted(agg.tags.items()): print(f"  {t}: {v[0]} runs, {v[1]/v[0]:.2f} s, {v[2]//v[0]} ops, {dict(v[3])}")
        violations.sort(key=lambda v: v[0])
        for i, k, res in violations[:1]:
            case = res['case']
            # confirm in a fresh interpreter with the same hash seed
            s = Shard(pid, base, 50, shards[k].hashseed)
            s.recv()
            r = s.ask(dict(case=case, timeout=tmo * 2))
            if r['status'] == 'timeout' and res['sig'].endswith(':hang'): r = res
            if r['status'] == 'ok' and res['sig'].endswith(':hang'): s.close(); continue        # it was only slow
            if r['status'] != 'violation':
                errors.append((i, dict(detail=f"violation {res['sig']} did not reproduce in a fresh process: {res.get('msg')} -> {r['status']} {r.get('detail','')}")))
                s.close(); continue
            if r['sig'].endswith(':hang'): best, bres, n = case, r, 0
            else: best, bres, n = minimise(prop, s, case, r, budget=40 if tier == 'quick' else 300, tries=60 if tier == 'quick' else 400)
            s.close()
            path = write_replay(pid, best, bres, shards[k].hashseed, n)
            print(f"{pid}: {bres.get('sig')}: {bres.get('msg')}")
            print((bres.get('detail') or '')[:1500])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            rc = 1
        if rc == 0 and agg.n >= 20 and agg.probes.get('skipped-set-up', 0) * 2 > agg.n: errors.append((-1, dict(detail=f"more than half of the runs could not be set up: {agg.skipdetail}")))
        if rc == 0 and errors:
            for i, r in errors[:3]: print(f"{pid}: ERROR in run {i}: {r.get('detail')}", file=sys.stderr)
            rc = 2
        # every listed finding is exercised explicitly, so its line does not depend on the seed
        if rc == 0:
            for kf in known:
                hit = knownhit.get(kf['sig'], 0)
                if kf.get('case') is not None:
                    r = shards[0].ask(dict(case=kf['case'], timeout=prop.timeout))
                    if r['status'] == 'violation' and r['sig'] == kf['sig']: hit += 1
                    elif r['status'] == 'violation':
                        path = write_replay(pid, kf['case'], r, shards[0].hashseed, 0)
                        print(f"VIOLATION property={pid} replay={path}", flush=True); rc = 1
                    elif r['status'] == 'error': print(r.get('detail'), file=sys.stderr); rc = 2
                if hit: print(f"KNOWN-FINDING: property={pid} {kf['what']}")
        agg.write(pid, prop, tier, seed, len(violations), startup, knownhit, runs)
        print(f"{pid} {tier}: {agg.n} of {runs} runs, {len(agg.traces)} distinct, {agg.ops} operations, faults {dict(agg.fired)}, {time.time()-T0:.1f}s, rc={rc}", flush=True)
    finally:
        for s in shards: s.close()
        shutil.rmtree(base, ignore_errors=True)
    return rc


class Agg:
    def __init__(self):
        self.tags = {}; self.n = 0; self.ops = 0; self.simtime = 0.0; self.fired = collections.Counter(); self.traces = set(); self.nontrivial = set()
        self.switches = 0; self.choices = 0; self.procs = 0; self.crashes = 0; self.probes = collections.Counter(); self.samples = []
        self.opcounts = collections.Counter(); self.runwall = 0.0; self.statuses = collections.Counter(); self.t = time.time()
    def add(self, r):
        self.n += 1
        self.statuses[r['status']] += 1
        t = self.tags.setdefault(r.get('tag', ''), [0, 0, 0, collections.Counter()])
        t[0] += 1; t[1] += r.get('wall', 0); t[2] += r.get('ops', 0); t[3].update({k: 1 for k in r.get('probes', {})})
        if r.get('probes', {}).get('skipped-set-up'): self.skipdetail = r.get('detail')
        if 'trace' not in r: return
        self.ops += r['ops']; self.simtime += r['simtime']; self.fired.update(r['fired']); self.traces.add(r['trace'])
        self.switches += r['switches']; self.choices += r['choices']; self.procs += r['procs']; self.probes.update(r['probes'])
        self.opcounts.update(r['opcounts']); self.runwall += r['wall']
        if r['nontrivial']: self.nontrivial.add(r['trace'])
        if r.get('case') and len(self.samples) < 3:
            s = json.dumps(r['case'], ensure_ascii=False)
            self.samples.append(dict(run=r['i'], case=r['case'] if len(s) < 2500 else s[:2500] + '...', ops=r['ops'], fired=r['fired'], trace=r['trace'], note=r.get('sample')))
    def write(self, pid, prop, tier, seed, nviol, startup, knownhit, planned):
        wall = time.time() - T0
        cov = dict(evaluations=self.n, distinct_nontrivial=len(self.nontrivial), rule=prop.rule, samples=self.samples,
                   simulated_runs_per_hour=round(self.n * 3600 / max(wall - startup, 0.001)), seeds_per_hour=round(self.n * 3600 / max(wall - startup, 0.001)),
                   simulated_seconds=round(self.simtime, 3), simulated_processes=self.procs, disk_operations=self.ops, operations_by_kind=dict(self.opcounts),
                   faults_injected=dict(self.fired), scheduling_choices=self.choices, context_switches=self.switches,
                   distinct_executions=len(self.traces), distinct_measure='SHA-256 of the full event trace (every disk operation with actor, path and verdict, every scheduling choice)',
                   probes=dict(self.probes), outcomes=dict(self.statuses), runs_planned=planned, known_findings_hit=knownhit,
                   real_components=prop.real, stub_components=prop.stub)
        ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=prop.assumptions, wall_s=round(wall, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f"{pid}.json"), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False, default=str); f.write('\n')


def replay(a):
    with open(a.file) as f: d = json.load(f)
    pid = d['property']
    prop = load_prop(pid)
    base = scratch_base()
    s = None
    try:
        s = Shard(pid, base, 0, d.get('hashseed', '0'))
        s.recv()
        r = s.ask(dict(case=d['case'], timeout=prop.timeout * 2))
        if r['status'] == 'timeout': r.update(status='violation', sig=f'{pid}:hang', msg='never finishes')
        if r['status'] == 'violation':
            print(f"{pid}: {r.get('sig')}: {r.get('msg')}\n{r.get('detail')}")
            print(f"same signature: {r.get('sig') == d.get('signature')}  same event trace: {r.get('trace') == d.get('trace_hash')}")
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.file)}")
            return 1
        if r['status'] == 'error':
            print(r.get('detail'), file=sys.stderr)
            return 2
        print(f"{pid}: the replayed execution holds the property on this tree")
        return 0
    finally:
        if s: s.close()
        shutil.rmtree(base, ignore_errors=True)


def determinism(a):
    """Every run twice, in different interpreters at different worker counts, same hash seed; diff of the traces."""
    pid = a.prop
    base = scratch_base()
    bad = 0
    try:
        out = []
        for layout in (2, 3):
            shards = [Shard(pid, base, k + 10 * layout, hashseed=a.hashseed) for k in range(layout)]
            for s in shards: s.recv()
            res = {}
            runs = a.runs or 24
            import threading
            def work(k):
                for i in range(k, runs, layout): res[i] = shards[k].ask(dict(seed=a.seed, i=i, tier=a.tier, timeout=300))
            th = [threading.Thread(target=work, args=(k,)) for k in range(layout)]
            for t in th: t.start()
            for t in th: t.join()
            for s in shards: s.close()
            out.append(res)
        for i in sorted(out[0]):
            x, y = out[0][i], out[1][i]
            if (x['status'], x.get('trace'), x.get('ops')) != (y['status'], y.get('trace'), y.get('ops')):
                bad += 1
                print(f"{pid}: run {i} differs: {x['status']} {x.get('trace')} {x.get('ops')} / {y['status']} {y.get('trace')} {y.get('ops')}")
            if x['status'] == 'error': print(x['detail'])
        print(f"{pid}: {len(out[0])} runs twice, {bad} differ; statuses {collections.Counter(r['status'] for r in out[0].values())}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'shard', 'aux', 'determinism'])
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--base')
    ap.add_argument('--all', action='store_true', help='development: list every distinct violation instead of stopping at the first')
    ap.add_argument('--tail', type=int, default=300)
    ap.add_argument('--hashseed', default='0')
    a = ap.parse_args()
    a.file = a.prop
    signal.signal(signal.SIGPIPE, signal.SIG_DFL) if a.cmd == 'shard' else None
    if a.cmd == 'shard': return shard_main(a)
    if a.cmd == 'aux': return aux_main(a)
    try:
        return dict(check=check, replay=replay, determinism=determinism)[a.cmd](a)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
