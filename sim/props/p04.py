"""P04: read faults while loading never yield silently wrong text and never wedge it."""
import os, logging
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common

EXCL = ('ZEF', 'HAG', 'OSONG', 'USFX', 'VPL', 'FORGE')
NAMES = [n for n in fmt.ALL if n not in fmt.BROKEN]


class Appender(logging.Handler):
    """Collects serious log messages of this process and its workers in one file."""
    def __init__(self, path): self.path = path; super().__init__(logging.ERROR)
    def emit(self, r):
        try: t = r.getMessage()
        except Exception as e: t = f"{r.msg} {e}"
        fd = real.os_open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        real.os_write(fd, t.replace('\n', ' ').encode('utf-8', 'replace')[:300] + b'\n')
        os.close(fd)


def texts(B):
    d = {}
    for BBB, b in B.books.items():
        x = canon.book(b, idx=False)
        d[BBB] = dict(lines=x['lines'], raw=x.get('raw'))
    return d


def openload(f, name, folder, how, keep):
    if how == 'demand':
        B = f.open(folder)
        if hasattr(B, 'preload'): B.preload()
        for BBB in keep:
            try: B.loadBookIfNecessary(BBB) if keep.index(BBB) % 2 else B.loadBook(BBB)
            except Exception as e: logging.error(f"{BBB} {e}")
        return B
    B = f.open(folder)
    fmt.load(B)
    return B


def session(name, folder, procs, logpath, again, keep, reuse, how, tries=()):
    G = common.G()
    G.maxProcesses = procs
    root = logging.getLogger()
    h = Appender(logpath); root.addHandler(h); root.setLevel(logging.ERROR)
    f = fmt.ALL[name]
    out = {}
    B = None
    try:
        B = openload(f, name, folder, how, keep)
        out['first'] = texts(B)
        out['loadedAll'] = B.loadedAllBooks
    except (Exception, SystemExit) as e:
        import traceback
        out['err'] = f"{type(e).__name__}: {e}"[:300]
        out['tb'] = traceback.format_exc()[-1500:]
    out['matched'] = [x['_n'] for x in world.W.faults]
    out['pools1'] = len(world.W.pool_log)
    root.removeHandler(h)
    if again:
        world.W.faults.clear()
        if reuse and B is not None:
            # the same object, one book at a time
            r = {}
            for BBB in keep:
                try:
                    if BBB not in B: B.loadBookIfNecessary(BBB)
                except Exception: pass
            out['reused'] = texts(B)
        B2 = openload(f, name, folder, how, keep)
        out['again'] = canon.bible(B2)
        out['pools2'] = len(world.W.pool_log) - out['pools1']
        # more loads in the same program, each with its own faults
        good = texts(B2)
        out['tries'] = []
        for k, specs in enumerate(tries):
            path = f'{logpath}.{k}'
            h = Appender(path); root.addHandler(h)
            world.W.setfaults(specs)
            t = dict(kinds=','.join(sorted({f"{x['kind']} at {x['ops']} {x['at']}" for x in specs})))
            try: x = texts(openload(f, name, folder, how, keep))
            except (Exception, SystemExit) as e: t['err'] = f"{type(e).__name__}: {e}"[:300]
            else:
                t['extra'] = [b for b in x if b not in good]
                t['missing'] = [b for b in good if b not in x]
                t['diff'] = {b: canon.diff(good[b], x[b]) for b in x if b in good and x[b] != good[b]}
            t['fired'] = sum(x['_fired'] for x in world.W.faults)
            t['logged'] = os.path.exists(path)
            world.W.setfaults([])
            root.removeHandler(h)
            out['tries'].append(t)
        if tries:
            B3 = openload(f, name, folder, how, keep)
            out['final'] = canon.diff(out['again'], canon.bible(B3))
    return out


class P(Prop):
    id = 'P04'
    runs = dict(quick=600, thorough=80000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run loads one generated source in one of the formats, sequentially or with simulated workers, with read errors, missing files, failing listings or failing database calls at seeded operations (or a killed worker), '
            'then loads it again without faults in the same program. Non-trivial: a fault fired during the load. Distinct = distinct full event traces.')
    assumptions = ['A premature end of file that the operating system does not report is not a detectable fault for plain text files; short reads that may be continued are injected.',
                   'Faults are injected in the source only, not in the reference tables.']

    def gen(self, rng, i, tier):
        name = NAMES[i % len(NAMES)]
        if name in ('ESW', 'MYS', 'TWD') and rng.random() < .7: name = rng.choice(['USX', 'PKL', 'OSIS', 'MYB', 'USFM', 'UWN', 'PTX8'])     # slow to make
        f = fmt.ALL[name]
        small = rng.random() < .6
        bible = gen.make(rng, feats=f.feats if f.feats or name != 'OSIS' or rng.random() < .2 else ['fn', 'heads', 'unicode'], blanks=f.blanks, minbooks=1, maxbooks=3 if small else 6, books=fmt.NT if name in ('OSIS', 'USX') and rng.random() < .5 else None)
        procs = rng.choice([1, 1, 1, 2, 3]) if f.multi else 1
        how = 'demand' if f.multi and name not in ('OSIS', 'OBS') and rng.random() < .25 else 'load'
        def some(): return [one() for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
        def one():
            k = rng.choice(['eio', 'eio', 'eio', 'eacces', 'emfile', 'enoent'])
            ft = dict(kind=k, ops=rng.choice([['open-r'], ['read'], 'read', 'read', ['listdir'], ['sql'], 'any']), frac=round(rng.random() ** rng.choice([1, 1, 2]), 4), path='/run/src')
            if k == 'enoent': ft['ops'] = ['open-r']
            if rng.random() < .35: ft['sticky'] = True; ft['until'] = rng.choice([2, 4, 9, 1 << 20])
            if rng.random() < .25:
                b = rng.choice(bible['books'])['b']
                ft['path'] = '/run/src'; ft['sub'] = b
            if procs > 1 and rng.random() < .3: ft['actor'] = f"w{rng.randint(1, procs)}"
            if name in ('MYS', 'ESW', 'MYB', 'FORGE') and rng.random() < .6: ft['ops'] = ['sql']
            return ft
        faults = some()
        tries = [some() for _ in range(rng.choice([2, 4, 6]))]
        if procs > 1 and rng.random() < .05: how = 'load'; faults = [dict(kind='kill', ops='any', frac=round(rng.random(), 4), actor=f"w{rng.randint(1, procs)}")]; tries = []
        w = common.make_world(rng, short=rng.choice([None, None, None, None, 700]), buf=0)
        if procs == 1: w['prefix'] = 0
        return dict(fmt=name, bible=bible, procs=procs, faults=faults, tries=tries, reuse=rng.random() < .4, how=how, world=w)

    def run(self, c, case):
        name = case['fmt']
        f = fmt.ALL[name]
        folder = c.path('src')
        f.make(c, case['bible'], folder)
        w = dict(case['world'])
        log0, log1 = c.path('log0'), c.path('log1')
        how = case['how']
        keep = [b['b'] for b in case['bible']['books'] if not b.get('blank')] if name not in ('OSIS', 'OBS') else []
        def placed(ft):
            ft = dict(ft)
            sub = ft.pop('sub', None)
            if sub:         # one of the book's own files
                fs = []
                for dp, dn, fn in os.walk(folder):
                    fs += [os.path.relpath(os.path.join(dp, x), folder) for x in fn]
                fs = sorted(x for x in fs if sub.lower() in x.lower()) or sorted(fs)
                if fs: ft['path'] = '/run/src/' + fs[0] if len(fs) == 1 else '/run/src'
            return ft
        faults = [placed(ft) for ft in case['faults']]
        tries = [[placed(ft) for ft in t] for t in case.get('tries', ())]
        every = faults + [ft for t in tries for ft in t]
        # a clean run counts the operations each fault could hit, so that the chosen point exists
        ref = c.spawn(session, name, folder, 1, log0, True, keep, False, how, cfg=dict(w, prefix=0, faults=[dict({k: v for k, v in x.items() if k not in ('actor', 'sticky', 'until', 'frac')}, at=1 << 60) for x in every]))
        if not ref.ok or 'err' in ref.value:
            c.sample = ref.value.get('tb') if ref.value else ref.tb
            if os.environ.get('BOSSIM_DEBUG'): raise Violation('dbg:'+name, 'x', c.sample)
            c.probe('clean-load-fails '+name+str(ref.value and ref.value.get('err') or ref.describe())[:90]); return
        for ft, n in zip(every, ref.value['matched']):
            ft['at'] = int(ft.pop('frac') * n / (case['procs'] if ft.get('actor') else 1))
            if 'until' in ft: ft['until'] += ft['at']
        kill = any(x['kind'] == 'kill' for x in faults)
        o = c.spawn(session, name, folder, case['procs'], log1, True, keep, case['reuse'], how, tries, cfg=dict(w, faults=faults))
        fired = sum(o.world['fired'].values()) if o.world else 1
        c.nontrivial = bool(fired)
        kinds = ','.join(sorted({x['kind'] for x in faults}))
        if o.status in ('deadlock', 'died'):
            if kill: raise Violation(f'P04:killed-worker-wedges:{name}', 'a worker process that is killed while loading leaves the load waiting for ever', o.excmsg)
            raise Violation(f'P04:wedged:{name}', f"the load with faults ({kinds}) never ends", o.excmsg)
        if not o.ok: raise Violation(f'P04:retry-fails:{name}', f"after a load disturbed by {kinds} the same source no longer loads in the same program: {o.describe()}", o.tb)
        v, r = o.value, ref.value
        d = canon.diff(r['again'], v['again'])
        if d: raise Violation(f'P04:retry-differs:{name}', f"after a load disturbed by {kinds} ({v.get('err')}) the same source loads differently in the same program", d)
        if r['pools1'] and not fired and not v['pools1']: c.probe('no-pool')
        if case['procs'] > 1 and v['pools1'] and not v['pools2']: raise Violation('P04:flag', f"{name}: after a disturbed parallel load ({v.get('err')}) no worker processes are used any more")
        for which in ('first', 'reused'):
            if which not in v: continue
            for BBB, t in v[which].items():
                if BBB not in r['first']: raise Violation(f'P04:extra-book:{name}', f"under {kinds} a book {BBB} appears that the clean load does not have ({which})")
                d = canon.diff(r['first'][BBB], t)
                if d: raise Violation(f'P04:wrong-text:{name}', f"under {kinds} book {BBB} is present with other text than is on the disk ({which})", d)
        if 'err' in v: c.probe('load-raises')
        else:
            missing = [b for b in r['first'] if b not in v['first']]
            if missing:
                c.probe('book-left-out')
                L0 = real.open(log0, encoding='utf-8').read().split('\n') if os.path.exists(log0) else []
                L1 = real.open(log1, encoding='utf-8').read().split('\n') if os.path.exists(log1) else []
                if not [x for x in L1 if x not in L0]: raise Violation(f'P04:silent:{name}', f"under {kinds} the book(s) {missing} are left out without any error message in the log")
            else: c.probe('load-complete')
        for n, t in enumerate(v.get('tries', ())):
            where = f"under {t['kinds']} (disturbed load {n + 2} in one program)"
            if 'err' in t: c.probe('load-raises'); continue
            if t['extra']: raise Violation(f'P04:extra-book:{name}', f"{where} the books {t['extra']} appear that the clean load does not have")
            for BBB, d in t['diff'].items(): raise Violation(f'P04:wrong-text:{name}', f"{where} book {BBB} is present with other text than is on the disk", d)
            if t['missing']:
                c.probe('book-left-out')
                if not t['logged']: raise Violation(f'P04:silent:{name}', f"{where} the book(s) {t['missing']} are left out without any error message in the log")
            else: c.probe('load-complete')
        if v.get('final'): raise Violation(f'P04:retry-differs:{name}', f"after {len(v['tries']) + 1} disturbed loads the same source loads differently in the same program", v['final'])

    def shrink(self, case):
        t = case.get('tries') or []
        if t: yield dict(case, tries=[])
        for k in range(len(t)): yield dict(case, tries=t[:k] + t[k + 1:])
        yield from super().shrink(case)


PROP = P()
