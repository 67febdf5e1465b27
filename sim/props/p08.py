"""P08: a reported export success means a complete output, whatever the disk does."""
import os, re, shutil
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common, exporters as ex

# flag of doAllExports -> start of its folder's name
FOLDERS = dict(Pickle='BOS_Bible_Object_Pickle', PickledBibleOutput='BOS_PickledBible', listOutput='BOS_Lists', BCVOutput='BOS_BCV_', pseudoUSFMExport='BOS_PseudoUSFM', USFM2Export='BOS_USFM2', USFM3Export='BOS_USFM3', ESFMExport='BOS_ESFM',
               textExport='BOS_PlainText', VPLExport='BOS_VersePerLine', markdownExport='BOS_Markdown', htmlExport='BOS_HTML5', BibleDoorExport='BOS_BibleDoor', EasyWorshipBibleExport='BOS_EasyWorship', USX2Export='BOS_USX2',
               USX3Export='BOS_USX3', USFXExport='BOS_USFX', OSISExport='BOS_OSIS', ZefExport='BOS_Zefania', HagExport='BOS_Haggai', OSExport='BOS_OpenSong', swExport='BOS_Sword_', tWExport='BOS_theWord', MySwExport='BOS_MySword',
               ESwExport='BOS_e-Sword', MyBExport='BOS_MyBible', SwSExport='BOS_SwordSearcher', DrExport='BOS_DrupalBible')
MASKS = ex.MASKS + (canon.MASKPICKLES,)


MANY = ex.NAMES + ['toBibleDoor', 'toHTML5', 'toBibleDoor']       # those with many kinds of files more often


def session(name, folder, exporter, out, procs, pre):
    G = common.G()
    G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    B.discover()
    G.maxProcesses = procs
    err = None; r = None
    try:
        if exporter == 'all': r = B.doAllExports(out)
        else: r = getattr(B, exporter)(out)
    except Exception as e:
        import traceback
        err = f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}"
    return dict(r={k: bool(v) if v is not None else None for k, v in r.items()} if isinstance(r, dict) else bool(r), err=err, matched=[f['_n'] for f in world.W.faults])


def session_one(name, folder, exporter, out, pre, faults):
    """One exporter: once without faults, then once for every attempt, each with its own faults."""
    import gc
    G = common.G()
    G.maxProcesses = 1
    W = world.W
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    B.discover()
    count = [dict({k: v for k, v in f.items() if k not in ('sticky', 'frac')}, at=1 << 60) for f in faults]
    count += [dict(x, ops='write') for x in count]         # where the export has no such operation

    def attempt(specs):
        if pre: os.makedirs(out)
        W.setfaults(specs)
        W.bypath = {}
        err = r = None
        try: r = getattr(B, exporter)(out)
        except Exception as e:
            import traceback
            err = f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}"
        gc.collect()
        N, fired = [f['_n'] for f in W.faults], sum(f['_fired'] for f in W.faults)
        W.setfaults([])
        bypath, W.bypath = W.bypath, None
        t = tree(out)
        shutil.rmtree(out, ignore_errors=True)
        return dict(r=bool(r), err=err, N=N, fired=fired, tree=t, bypath=bypath)

    ref = attempt(count)
    if ref['err'] or not ref['r']: return dict(ref=ref, tries=[])
    N, rt = ref['N'], ref['tree']
    groups = {}
    for k, f in enumerate(faults):
        g = {x: y for x, y in f.items() if x not in ('frac', 'file', 'try')}
        if 'file' in f:
            g['path'] = '/run/out/' + pick(rt, f['file'])
            ops = world.WRITE_OPS if g['ops'] == 'write' else g['ops']
            n = sum(ref['bypath'].get(f'{o} {g["path"]}', 0) for o in ops)
        else:
            n = N[k]
            if not n: n = N[k + len(faults)]; g['ops'] = 'write'
        if not n: continue
        g['at'] = min(n - 1, int(f['frac'] * n))
        groups.setdefault(f['try'], []).append(g)
    tries = []
    for g, specs in sorted(groups.items()):
        x = attempt(specs)
        x['kinds'] = ','.join(f"{f['kind']} at {f['ops']} {f['at']} of {f['path'][8:]}" + (' on' if f.get('sticky') else '') for f in specs)
        x['diff'] = canon.diff(rt, x.pop('tree'))
        tries.append(x)
    again = attempt([])
    return dict(ref=dict(ref, tree=None, bypath=None), tries=tries, again=dict(err=again['err'], r=again['r'], diff=canon.diff(rt, again['tree'])))


def tree(o):
    def norm(v):
        if isinstance(v, dict): return {re.sub(r'_\d{1,4}(\.SQLite3)', r'\1', k): norm(x) for k, x in v.items()}
        return v
    return norm(canon.tree(o, masks=MASKS, skip=ex.SKIP)) if os.path.isdir(o) else {}


def pick(t, frac):
    """One file of the output: first the kind of file, then which one."""
    kinds = {}
    for p in sorted(t):
        if not p.endswith('/'): kinds.setdefault(os.path.splitext(p)[1], []).append(p)
    if not kinds: return ''
    x = frac * len(kinds)
    files = kinds[sorted(kinds)[int(x)]]
    return files[int((x % 1) * len(files))]


def part(t, prefix): return {k: v for k, v in t.items() if k.startswith(prefix)}


class P(Prop):
    id = 'P08'
    runs = dict(quick=900, thorough=80000)
    wall = dict(quick=80, thorough=2400)
    timeout = 240
    rule = ('A run exports one generated Bible with one exporter, or to all formats (one at a time or with simulated workers), without faults and then with write, create, rename, close, database and full-disk errors at seeded '
            'operations of the output. Non-trivial: a fault fired. Distinct = distinct full event traces.')
    assumptions = ['Errors are reported by the operating system at the failing call; data that the system accepted and later loses without an error is not modelled.',
                   'Faults hit the output folder, not the source or the reference tables.']

    def gen(self, rng, i, tier):
        mode = 'all' if rng.random() < .2 else 'one'
        name = rng.choice(['USFM', 'USFM', 'USFM', 'USX', 'UWN'])
        bible = gen.make(rng, blanks=False, nbooks=rng.choice([1, 1, 1, 2, 2, 3]), maxch=3, maxv=5, extra=["spiky"])
        e = 'all' if mode == 'all' else MANY[i % len(MANY)]
        faults = []
        for k in range(rng.choice([1, 1, 1, 2]) if mode == 'all' else 6):
            at = k if k < 5 else 4
            k = rng.choice(['enospc', 'enospc', 'enospc', 'eio', 'eio', 'eacces', 'edquot', 'emfile'])
            ft = dict(kind=k, ops=rng.choice(['write', 'write', 'write', ['write'], ['open-w'], ['close-w'], ['mkdir'], ['rename'], ['remove'], ['sql'], ['sqlcommit'], 'any', 'read']), frac=round(rng.random() ** rng.choice([1, 1, .5]), 4), path='/run/out')
            if k == 'emfile': ft['ops'] = rng.choice([['open-w'], ['open-w', 'open-r']])
            if e in ('toESword', 'toMySword', 'toMyBible') and rng.random() < .6: ft['ops'] = rng.choice([['sql'], ['sqlcommit']])
            if rng.random() < .3: ft['sticky'] = True
            if mode == 'one': ft['try'] = at
            if mode == 'one' and rng.random() < .7:     # one file of the output can't be written (the first, the last or another operation on it)
                ft['file'] = rng.random()
                ft['ops'] = rng.choice(['write', ['write'], ['write'], ['write'], ['write'], ['close-w'], ['open-w']])
                ft['frac'] = rng.choice([0, 1, 1, 1, round(rng.random(), 4)])
                ft['sticky'] = rng.random() < (.7 if ft['frac'] == 0 else .2)
            if mode == 'all':
                ft['path'] = '/run/out/' + FOLDERS[rng.choice(list(FOLDERS))]
            faults.append(ft)
        return dict(mode=mode, fmt=name, bible=bible, exporter=e, faults=faults, procs=rng.choice([1, 1, 2, 3]) if mode == 'all' else 1, pre=rng.random() < .3 or mode == 'all',
                    world=common.make_world(rng, dt=0.0005, buf=rng.choice([0, 0, 64, 64, 256])))

    def run(self, c, case):
        name, e = case['fmt'], case['exporter']
        folder, out = c.path('src'), c.path('out')
        fmt.ALL[name].make(c, case['bible'], folder)
        w = dict(case['world'])
        if e != 'all':
            o = c.spawn(session_one, name, folder, e, out, case['pre'], case['faults'], cfg=w)
            if o.status == 'deadlock': raise Violation('P08:wedged', f"{e} never ends", o.excmsg)
            if not o.ok: raise Violation('P08:dies', f"{e}: {o.describe()}", o.tb)
            v = o.value
            if not v['tries']:
                c.probe('fails-without-faults' if v['ref']['err'] or not v['ref']['r'] else 'no-such-operation'); c.sample = str(v['ref'])[:600]; return
            for t in v['tries']:
                if t['fired']: c.nontrivial = True
                if t['err'] or not t['r']: c.probe('reported')
                elif t['diff']: raise Violation(f'P08:{e}', f"{e} reports success although its output is not complete ({t['kinds']})", t['diff'])
                else: c.probe('complete')
            a = v['again']
            if a['err'] or not a['r'] or a['diff']:
                raise Violation(f'P08:{e}-again', f"{e} doesn't export the same again once the disk works (after {[t['kinds'] for t in v['tries']]}): {a['err'] or a['r']}", a['diff'] or a['err'])
            return
        count = [dict({k: v for k, v in f.items() if k not in ('sticky', 'frac')}, at=1 << 60) for f in case['faults']]
        count += [dict(x, ops='write') for x in count]         # where the export has no such operation
        if case['pre']: os.makedirs(out)
        ref = c.spawn(session, name, folder, e, out, 1, case['pre'], cfg=dict(w, prefix=0, faults=count))
        rt = tree(out); shutil.rmtree(out, ignore_errors=True)
        if not ref.ok or ref.value['err'] or not ref.value['r']:
            c.probe('fails-without-faults'); c.sample = str(ref.describe() if not ref.ok else ref.value)[:600]; return
        faults, N = [], ref.value['matched']
        for k, f in enumerate(case['faults']):
            n, f = N[k], {x: y for x, y in f.items() if x not in ('frac', 'file')}
            if 'file' in case['faults'][k]:
                faults.append(dict(f, path='/run/out/' + pick(rt, case['faults'][k]['file'])))
                continue
            if not n: n = N[k + len(case['faults'])]; f['ops'] = 'write'
            if n: faults.append(dict(f, at=min(n - 1, int(case['faults'][k]['frac'] * n))))
        if not faults: c.probe('no-such-operation'); return
        if case['pre']: os.makedirs(out)
        o = c.spawn(session, name, folder, e, out, case['procs'], case['pre'], cfg=dict(w, faults=faults))
        t = tree(out)
        fired = sum(o.world['fired'].values()) if o.world else 0
        c.nontrivial = fired > 0
        kinds = ','.join(f"{f['kind']} at {f['ops']} {f['at']}" + (' on' if f.get('sticky') else '') for f in faults)
        if o.status == 'deadlock': raise Violation('P08:wedged', f"{e} with {kinds} never ends", o.excmsg)
        if not o.ok: raise Violation('P08:dies', f"{e} with {kinds}: {o.describe()}", o.tb)
        v = o.value;
        R, V = ref.value['r'], v['r']
        if v['err']: raise Violation('P08:all-raises', f"a disk fault in one export ends the whole export ({kinds}): {v['err'][:200]}", v['err'])
        if list(R) != list(V): raise Violation('P08:all-keys', f"results for {list(V)} instead of {list(R)}")
        for k in R:
            p = FOLDERS.get(k)
            if p is None: continue
            hit = any(f['path'].endswith(p) for f in faults)
            a, b = part(rt, p), part(t, p)
            if k == 'Pickle' and case['procs'] > 1: continue
            if not hit:
                if R[k] != V[k]: raise Violation(f'P08:all-other-flag', f"faults in {sorted({f['path'] for f in faults})} change the result of {k}: {R[k]} -> {V[k]}")
                d = canon.diff(a, b)
                if d: raise Violation(f'P08:all-other-files', f"faults in {sorted({f['path'] for f in faults})} change the output of {k}", d)
            elif V[k] and R[k]:
                d = canon.diff(a, b)
                if d: raise Violation(f'P08:{k}', f"{k} is reported as a success although its output is not complete ({kinds})", d)
            elif R[k]: c.probe('reported')


PROP = P()
