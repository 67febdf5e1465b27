"""P09: exporting never alters the loaded Bible and is repeatable in any order."""
import os, re, shutil
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common, exporters as ex
from .p08 import FOLDERS

MASKS = ex.MASKS + (canon.MASKPICKLES, canon.MASKBIBLES, (rb"'genericBOS'\n'GENERIC'\n", b''))      # scratch of the exporters
ATTRS = ('settingsDict', 'suppliedMetadata', 'divisions', 'givenBookList', 'availableBBBs', 'ssfDict', 'versification', 'USFMVersion', 'encoding', 'sourceFolder', 'sourceFilepath')
SEVERAL = ['all', 'all']


def snap(B):
    d = canon.bible(B, extra=ATTRS)
    if 'discoveryResults' in B.__dict__: d['discovery'] = canon.plain(B.discoveryResults)
    return d


def session(name, folder, seq, discover, procs, watch):
    """seq: list of (exporter, output folder, fault active?). Returns what each export said and what it did to the Bible."""
    G = common.G()
    G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    if discover: B.discover()
    faults, world.W.faults = world.W.faults, []
    before = snap(B)
    out = []
    G.maxProcesses = procs
    for e, o, faulty in seq:
        os.makedirs(o, exist_ok=True)
        world.W.faults = faults if faulty else []
        err = r = None
        try: r = B.doAllExports(o) if e == 'all' else getattr(B, e)(o)
        except Exception as x:
            import traceback
            err = f"{type(x).__name__}: {x} {traceback.format_exc()[-900:]}"
        world.W.faults = []
        if isinstance(r, dict): r = {k: bool(v) if v is not None else None for k, v in r.items()}
        now = snap(B)
        if 'discovery' not in before and 'discovery' in now: before['discovery'] = now['discovery']
        out.append(dict(r=r if isinstance(r, dict) else bool(r), err=err, changed=canon.diff(before, now) if watch else '', cwd=os.getcwd(), flag=G.alreadyMultiprocessing))
        before = now
    return out


def alone(name, folder, exporters, discover, out):
    """One load; every exporter in its own copy of that program."""
    import pickle
    G = common.G()
    G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    if discover: B.discover()
    res = {}
    for e in exporters:
        r, w = os.pipe()
        pid = real.fork()
        if pid == 0:
            try:
                os.close(r)
                o = os.path.join(out, f'{e}0')
                os.makedirs(o, exist_ok=True)
                err = v = None
                try: v = B.doAllExports(o) if e == 'all' else getattr(B, e)(o)
                except Exception as x: err = f"{type(x).__name__}: {x}"
                v = {k: bool(y) if y is not None else None for k, y in v.items()} if isinstance(v, dict) else bool(v)
                with os.fdopen(w, 'wb') as f: pickle.dump(dict(r=v, err=err), f)
            finally: real._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f: res[e] = pickle.load(f)
        os.waitpid(pid, 0)
    return res


def tree(o):
    def norm(v):
        if isinstance(v, dict): return {re.sub(r'_\d{1,4}(\.SQLite3)', r'\1', os.path.basename(k) if k.startswith('dev/shm/') else k): norm(x) for k, x in v.items()}
        return v            # some archives hold their member under the path it had
    return norm(canon.tree(o, masks=MASKS, skip=ex.SKIP)) if os.path.isdir(o) else {}


class P(Prop):
    id = 'P09'
    runs = dict(quick=420, thorough=40000)
    wall = dict(quick=80, thorough=2400)
    timeout = 240
    rule = ('A run loads one generated Bible and makes a seeded sequence of exports (single exporters and all-formats exports, some repeated into the same or another folder, some cut short by write errors, killed workers left out), '
            'comparing the Bible after every export with the Bible before it and every fault-free output with the output of that exporter alone in a fresh program. Non-trivial: at least two exports. Distinct = distinct full event traces.')
    assumptions = ['The three very slow exports that have to be asked for (photo Bible, ODF, TeX) need external programs and are not run.',
                   'Scratch attributes that exporters keep in the Bible object are not part of the Bible.']

    def gen(self, rng, i, tier):
        name = rng.choice(['USFM', 'USFM', 'USFM', 'ESFM', 'USX', 'UWN', 'PTX8', 'OSIS', 'BCV', 'PKL'])
        bible = gen.make(rng, blanks=rng.random() < .1, nbooks=rng.choice([1, 1, 2, 3]), maxch=3, maxv=6, extra=["spiky"])
        n = rng.choice([2, 3, 3, 4, 5])
        names = [rng.choice(ex.NAMES) for _ in range(n)]
        names[0] = ex.NAMES[i % len(ex.NAMES)]
        rng.shuffle(names)
        if rng.random() < .25: names[rng.randrange(n)] = 'all'
        if rng.random() < .6: names.append(rng.choice(names))
        seq = []
        for k, e in enumerate(names):
            prev = [x[1] for x in seq if x[0] == e]
            seq.append([e, rng.choice(prev) if prev and rng.random() < .5 else k, rng.random() < .25 and k < len(names) - 1])
        faults = [dict(kind=rng.choice(['enospc', 'eio', 'eacces']), ops=rng.choice(['write', 'write', ['open-w'], ['close-w'], ['mkdir'], ['sql'], 'any']), at=int(rng.choice([3, 30, 200]) * rng.random()), path='/run/out', sticky=rng.random() < .4)]
        if name == 'PKL' and seq: pass
        return dict(fmt=name, bible=bible, seq=seq, discover=rng.random() < .5, faults=faults if any(x[2] for x in seq) else [], procs=rng.choice([1, 1, 2, 3]), world=common.make_world(rng, dt=0.0005))

    def shrink(self, case):
        for k in range(len(case['seq'])):
            if len(case['seq']) > 1:
                s = case['seq'][:k] + case['seq'][k + 1:]
                yield dict(case, seq=s)
        yield from super().shrink(case) if hasattr(super(), 'shrink') else ()

    def run(self, c, case):
        name = case['fmt']
        folder = c.path('src')
        fmt.ALL[name].make(c, case['bible'], folder)
        def run(seq, faults, procs, watch):
            o = c.spawn(session, name, folder, [(e, c.path('out', f'{e}{k}'), f) for e, k, f in seq], case['discover'], procs, watch, cfg=dict(case['world'], faults=faults))
            ts = {f'{e}{k}': tree(c.path('out', f'{e}{k}')) for e, k, f in seq}
            shutil.rmtree(c.path('out'), ignore_errors=True)
            return o, ts
        names = list(dict.fromkeys(x[0] for x in case['seq']))
        o = c.spawn(alone, name, folder, names, case['discover'], c.path('out'), cfg=dict(case['world'], prefix=0))
        if not o.ok and 'fmt.load' in (o.tb or ''): c.probe('source-does-not-load'); return
        if not o.ok: raise Violation('P09:dies', f"exporters alone: {o.describe()}", o.tb)
        refs = {e: (o.value[e], tree(c.path('out', f'{e}0'))) for e in names}
        shutil.rmtree(c.path('out'), ignore_errors=True)
        o, ts = run(case['seq'], case['faults'], case['procs'], True)
        if not o.ok: raise Violation('P09:dies', f"the session: {o.describe()}", o.tb)
        dirty = set()
        for k, ((e, kk, faulty), got) in enumerate(zip(case['seq'], o.value)):
            ref, rt = refs[e]
            before = ','.join(x[0] + ('!' if x[2] else '') for x in case['seq'][:k])
            if got['changed']: raise Violation(f"P09:alters:{e}", f"{e}{' (cut short)' if faulty else ''} after [{before}] changes the loaded {name} Bible{' and fails' if got['err'] or not got['r'] else ''}", got['changed'])
            if got['flag']: raise Violation(f"P09:flag:{e}", f"after {e} no more parallel work is allowed")
            if faulty: dirty.add(f'{e}{kk}'); continue
            if (got['r'], bool(got['err'])) != (ref['r'], bool(ref['err'])):
                d = {x: (ref['r'][x], got['r'][x]) for x in ref['r'] if ref['r'][x] != got['r'].get(x)} if isinstance(ref['r'], dict) and isinstance(got['r'], dict) else f"{ref['r']} {str(ref['err'])[:200]} -> {got['r']}"
                raise Violation(f"P09:result:{e}", f"{e} after [{before}] gives another result than alone: {d}", str(got['err']))
        for (e, kk, faulty) in case['seq']:
            key = f'{e}{kk}'
            if key in dirty or refs[e][0]['err'] or not refs[e][0]['r']: continue
            d = canon.diff(refs[e][1], ts[key])
            if d: raise Violation(f"P09:output:{e}", f"{e} in {[x[0] for x in case['seq']]} writes another output than alone", d)
        c.nontrivial = len(case['seq']) > 1


PROP = P()
