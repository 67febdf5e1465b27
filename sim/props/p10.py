"""P10: a saved Bible restores equal, or reports that it cannot."""
import os, shutil, zipfile, random
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common
from .p03 import answer

META = ('abbreviation', 'givenName', 'shortName', 'name', 'description', 'version')
DEEPER = ('settingsDict', 'suppliedMetadata', 'divisions', 'givenBookList', 'availableBBBs', 'ssfDict', 'sourceFolder', 'sourceFilepath', 'encoding')


def picture(B, form, queries):
    d = dict(order=list(B.books), meta={k: canon.plain(getattr(B, k, None)) for k in META}, books={})
    for k in ('BBBToNameDict', 'bookNameDict', 'combinedBookNameDict'): d[k] = canon.unorder(canon.plain(getattr(B, k, None)))
    for BBB, b in B.books.items():
        x = canon.book(b)
        if form in ('folder', 'zip'): x = {k: x[k] for k in ('BBB', 'lines', '_CVIndex') if k in x}
        d['books'][BBB] = x
    if form in ('object', 'objzip'):
        d['more'] = {k: canon.plain(getattr(B, k, None)) for k in DEEPER}
        d['discovery'] = canon.plain(getattr(B, 'discoveryResults', None))
    d['answers'] = [canon.plain(answer(B, q)) for q in queries if (q[1] if isinstance(q[1], str) else q[1][0]) in B.books]
    return d


def save_session(name, folder, form, out, queries, discover, export, level):
    G = common.G(); G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    if discover: B.discover()
    for b in B.books.values(): b.getVersificationIfNecessary()
    pic = picture(B, form, queries)
    if export:                          # an export before the saving (leaves its scratch behind)
        try: getattr(B, export)(os.path.join(os.path.dirname(os.path.dirname(out)), 'other'))
        except Exception: pass
    f, world.W.faults = world.W.faults, []
    os.makedirs(out, exist_ok=True)
    world.W.faults = f
    err = r = None
    try:
        if form in ('folder', 'zip'): r = B.toPickledBible(out, None, level, form == 'zip')
        elif form == 'objzip': r = B.toPickleObject(out)
        else: r = B.pickle('saved', out)
    except Exception as e: err = f"{type(e).__name__}: {e}"
    return dict(pic=pic, r=bool(r), err=err, matched=[x['_n'] for x in world.W.faults])



def restore_session(form, out, procs, via, queries):
    G = common.G(); G.maxProcesses = procs
    if form in ('object', 'objzip'):
        names = [x for x in sorted(os.listdir(out)) if x.endswith('.pickle')]
        if not names: raise FileNotFoundError(out)
        B = G.unpickleObject(names[0], out)
        return picture(B, form, queries)
    from BibleOrgSys.Formats import PickledBible as M
    src = out
    if form == 'zip':
        z = [x for x in sorted(os.listdir(out)) if x.endswith('.zip')]
        if not z: raise FileNotFoundError(out)
        src = os.path.join(out, z[0])
    if via == 'check':
        B = M.PickledBibleFileCheck(src, autoLoad=True, autoLoadBooks=True)
        if not hasattr(B, 'books'): raise RuntimeError(f"file check gives {B}")
    elif via == 'above':
        B = M.PickledBibleFileCheck(os.path.dirname(out), autoLoad=True, autoLoadBooks=True)
        if not hasattr(B, 'books'): raise RuntimeError(f"file check gives {B}")
    else:
        B = M.PickledBible(src)
        B.preload()
        if not B.preloadDone: raise RuntimeError('not restored (logged)')
        if via == 'books':
            for BBB in B.pickleVersionData['bookList']: B.loadBook(BBB)
        else: B.loadBooks()
    if not B.preloadDone and not B.books: raise RuntimeError('not restored (logged)')
    return picture(B, form, queries)


class P(Prop):
    id = 'P10'
    aux = True
    runs = dict(quick=900, thorough=100000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run saves one generated Bible (pickled Bible as a folder or zipped, or as one saved object) in one simulated process and restores it in another, with a crash or disk fault while saving (for the first time or over an older save), '
            'with files of the save cut short, changed, missing or taken from an older save, or with faults while restoring. Non-trivial: a fault or damage happened, or the clean restore was compared. Distinct = distinct full event traces.')
    assumptions = ['A single saved object carries no checksum: changed bytes are only tried on the pickled Bible (folder and zip).',
                   'The default data level; levels 2 and 3 are a known finding.']

    def gen(self, rng, i, tier):
        form = rng.choice(['folder', 'folder', 'zip', 'zip', 'object', 'objzip'])
        name = rng.choice(['USFM', 'USFM', 'ESFM', 'USX', 'PTX8', 'UWN', 'BCV'])
        bible = gen.make(rng, blanks=rng.random() < .1, nbooks=rng.choice([1, 2, 3, 4]), maxch=3, maxv=6, extra=["spiky"])
        v2 = dict(bible, seed=rng.randrange(1 << 30))
        if len(bible['books']) > 1 and rng.random() < .3: v2['books'] = bible['books'][:-1]
        how = rng.choice(['clean', 'crash', 'crash', 'fault', 'fault', 'damage', 'damage', 'damage', 'damage', 'readfault'])
        resave = rng.random() < .5
        d = dict(mode=how, form=form, fmt=name, bible=bible, v2=v2 if resave or rng.random() < .5 else None, resave=resave, discover=rng.random() < .5, procs=rng.choice([1, 1, 2, 3]),
                 export=rng.choice([None, None, None, 'toUSXXML', 'toText', 'toPickleObject', 'toOSISXML']) if how == 'clean' else None,
                 via=rng.choice(['class', 'class', 'books', 'check']), qseed=rng.randrange(1 << 30), world=common.make_world(rng, buf=rng.choice([0, 0, 64, 1024])))
        if how == 'clean' and form == 'folder' and rng.random() < .3: d['via'] = 'above'
        if how == 'crash': d['fault'] = dict(kind='crash', ops='any', frac=round(rng.random(), 5), path='/run/saves')
        if how == 'fault':
            d['fault'] = dict(kind=rng.choice(['enospc', 'enospc', 'eio', 'eacces']), ops=rng.choice(['write', 'write', ['open-w'], ['close-w'], ['remove'], 'any']), frac=round(rng.random(), 5), path='/run/saves')
            if rng.random() < .4: d['fault']['sticky'] = True
        if how == 'readfault': d['fault'] = dict(kind=rng.choice(['eio', 'eacces', 'emfile', 'kill' if d['procs'] > 1 else 'eio']), ops=rng.choice(['any', ['open-r'], ['read']]), frac=round(rng.random(), 5), path='/run/saves')
        if how == 'readfault' and d['fault']['kind'] == 'kill': d['fault']['kind'] = 'eio'
        if how == 'damage':
            k = rng.choice(['cut', 'cut', 'cut', 'edge', 'edge', 'flip', 'flip', 'zero', 'remove', 'old', 'empty'])
            if form in ('object', 'objzip') and k in ('flip', 'zero', 'old', 'edge'): k = 'cut'
            if form == 'zip' and k in ('old', 'edge'): k = 'cut'
            if k == 'old' and not d['v2']: k = 'edge'
            d['damage'] = dict(kind=k, file=rng.random(), where=rng.random(), bit=rng.randrange(8))
        return d

    def queries(self, case):
        r = random.Random(case['qseed'])
        Q = []
        for bk in case['bible']['books']:
            b = bk['b']
            Q.append(['nch', b]); Q.append(['name', b])
            for _ in range(4):
                ch = r.randint(1, len(bk['ch'])); v = r.randint(1, bk['ch'][ch - 1])
                Q.append(r.choice([['nv', b, str(ch)], ['text', [b, str(ch), str(v)], 'tuple', r.random() < .5, r.random() < .5], ['ctx', [b, str(ch), str(v)], 'tuple', True, False]]))
        return Q

    def run(self, c, case):
        form, Q = case['form'], self.queries(case)
        f1, f2, out = c.path('v1'), c.path('v2'), c.path('saves', 'out')
        fmt.ALL[case['fmt']].make(c, case['bible'], f1)
        if case['v2']: fmt.ALL[case['fmt']].make(c, case['v2'], f2)
        w = case['world']
        level = case.get('level', 1)
        pics = []
        if case['resave']:
            o = c.spawn(save_session, case['fmt'], f2, form, out, Q, case['discover'], None, level, cfg=dict(w, prefix=0))
            if not o.ok: c.probe('no-source'); return
            if o.value['err'] or not o.value['r']: raise Violation(f'P10:save:{form}', f"saving a {case['fmt']} Bible fails: {o.value}")
            pics.append(o.value['pic'])
        # the save that may go wrong; the fault-free reference first, elsewhere
        fl = case.get('fault')
        cnt = [dict({k: v for k, v in fl.items() if k not in ('frac', 'sticky')}, at=1 << 60)] if fl and case['mode'] in ('crash', 'fault') else []
        if case['resave']: shutil.copytree(out, c.path('keep'))
        o = c.spawn(save_session, case['fmt'], f1, form, out, Q, case['discover'], case['export'], level, cfg=dict(w, prefix=0, faults=cnt))
        if not o.ok: c.probe('no-source'); return
        if o.value['err'] or not o.value['r']: raise Violation(f'P10:save:{form}', f"saving a {case['fmt']} Bible fails: {o.value['err']}", str(o.value)[-500:])
        good = o.value['pic']
        faulted = False
        saved = True
        if cnt:
            n = o.value['matched'][0]
            if not n: c.probe('no-such-operation'); return
            shutil.rmtree(out)
            if case['resave']: shutil.move(c.path('keep'), out)
            o = c.spawn(save_session, case['fmt'], f1, form, out, Q, case['discover'], None, level, cfg=dict(w, faults=[dict({k: v for k, v in fl.items() if k != 'frac'}, at=min(n - 1, int(fl['frac'] * n)))]))
            if o.status == 'crash': saved = False
            elif not o.ok: raise Violation(f'P10:save-dies:{form}', f"saving with {fl['kind']}: {o.describe()}")
            else: saved = o.value['r'] and not o.value['err']
            faulted = True
        okpics = [good] + (pics if not saved else [])
        damaged = False
        if case['mode'] == 'damage': damaged = self.damage(c, case, out)
        rf = []
        if case['mode'] == 'readfault':
            o = c.spawn(restore_session, form, out, 1, case['via'], Q, cfg=dict(w, prefix=0, faults=[dict({k: v for k, v in fl.items() if k not in ('frac', 'sticky')}, at=1 << 60)]))
            rf = [dict({k: v for k, v in fl.items() if k != 'frac'}, at=int(fl['frac'] * 40))]
        c.nontrivial = True
        other = case['mode'] == 'clean' and case['procs'] == 1 and case['qseed'] % 4 == 0
        o = c.spawn(restore_session, form, out, case['procs'], case['via'], Q, cfg=dict(w, faults=rf), other=other)
        if o.status == 'deadlock': raise Violation(f'P10:wedged:{form}', f"restoring never ends", o.excmsg)
        what = case['mode'] + (f" ({fl['kind']})" if fl else '') + (f" ({case['damage']['kind']})" if case.get('damage') else '')
        fired = sum(o.world['fired'].values()) if o.world else 0
        if not o.ok:
            c.probe('reported')
            if saved and not damaged and not fired: raise Violation(f"P10:cannot-restore:{form}" + (f":level{level}" if level != 1 else ''), f"a {form} save that was reported as done ({what}) can't be restored ({case['via']}): {o.describe()}", getattr(o, 'tb', ''))
            return
        ds = [canon.diff(p, o.value) for p in okpics]
        if all(ds):
            raise Violation(f"P10:{'differs' if saved and not damaged and not fired else 'silent'}:{form}", f"{what}{' over an older save' if case['resave'] else ''}: the restored {case['fmt']} Bible differs from what was saved and nothing is reported", ds[0])
        c.probe('equal')

    def damage(self, c, case, out):
        d, form = case['damage'], case['form']
        if form == 'zip': names = [x for x in sorted(os.listdir(out)) if x.endswith('.zip')]
        else: names = [x for x in sorted(os.listdir(out)) if x.endswith('.pickle')]
        if not names: return False
        fn = names[min(len(names) - 1, int(d['file'] * len(names)))]
        p = os.path.join(out, fn)
        with real.open(p, 'rb') as f: data = f.read()
        k, n = d['kind'], len(data)
        if k == 'remove': real.remove(p); return True
        if k == 'empty': new = b''
        elif k == 'cut': new = data[:int(d['where'] * n)]
        elif k == 'edge':            # cut between two saved items
            import pickletools, io
            f = io.BytesIO(data); edges = [0]
            try:
                while f.tell() < n:
                    for _ in pickletools.genops(f): pass
                    edges.append(f.tell())
            except Exception: pass
            new = data[:edges[int(d['where'] * (len(edges) - 1))]]
        elif k == 'flip':
            at = int(d['where'] * n)
            new = data[:at] + bytes([data[at] ^ (1 << d['bit'])]) + data[at + 1:]
        elif k == 'zero':
            at = int(d['where'] * n)
            new = data[:at] + b'\0' * min(64, n - at) + data[at + 64:]
        elif k == 'old':             # the file of an older save
            o = c.spawn(save_session, case['fmt'], c.path('v2'), form, c.path('old'), [], False, None, 1, cfg=dict(case['world'], prefix=0))
            q = os.path.join(c.path('old'), fn)
            if not o.ok or not os.path.exists(q): return False
            with real.open(q, 'rb') as f: new = f.read()
        if new == data: return False
        with real.open(p, 'wb') as f: f.write(new)
        c.probe('damage-' + k)
        return True


PROP = P()
