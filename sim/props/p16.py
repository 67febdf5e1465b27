"""P16: reading is read-only, and writing stays where it was told to."""
import os, shutil, random, hashlib
from pathlib import Path
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common, exporters as ex

FORMATS = ['USFM', 'USFM', 'USFM2', 'ESFM', 'PTX7', 'PTX8', 'USX', 'BCV', 'OSIS', 'PKL', 'ZEF', 'HAG', 'OSONG', 'USFX', 'VPL', 'TWD', 'MYS', 'ESW', 'MYB', 'FORGE', 'DRU', 'UWN', 'OBS', 'SB', 'CSV', 'UNB', 'VV', 'YET', 'LEB', 'EW', 'GOB', 'PDB', 'SWD']


def snap(root, skip):
    """What is on the disk (outside the folders that may be written): kind, content, permissions, time of last change."""
    out = {}
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if os.path.join(dp, d) not in skip)
        for f in sorted(fn):
            p = os.path.join(dp, f)
            st = real.stat(p, follow_symlinks=False)
            with real.open(p, 'rb') as fh: h = hashlib.sha256(fh.read()).hexdigest()[:16]
            out[os.path.relpath(p, root)] = (h, st.st_size, oct(st.st_mode), st.st_mtime_ns)
        for d in dn: out[os.path.relpath(os.path.join(dp, d), root) + '/'] = oct(real.stat(os.path.join(dp, d)).st_mode)
    return out


def where(o, base, cwd):
    """The output folder argument of an operation, and the folder it names."""
    form, name = o[:2]
    p = os.path.join(base, name)
    if form == 'none': return None, None
    if form == 'rel': return os.path.relpath(p, cwd), p
    if form == 'slash': return p + '/', p
    if form == 'path': return Path(p), p
    return p, p


def session(name, folder, base, ops):
    """A program that does all sorts of things with a Bible; problems of one operation don't stop the next."""
    G = common.G()
    f = fmt.ALL[name]
    B = None
    log = []
    cwd = os.getcwd()
    for op in ops:
        k = op[0]
        try:
            if k == 'procs': G.maxProcesses = op[1]; continue
            if k == 'detect':
                from BibleOrgSys.UnknownBible import UnknownBible
                r = str(UnknownBible(folder).search(strictCheck=op[1], autoLoad=op[2], autoLoadAlways=op[3], autoLoadBooks=op[3]))[:60]
            elif k == 'load': B = f.open(folder); fmt.load(B); r = len(B.books)
            elif k == 'preload':
                B = f.open(folder)
                if hasattr(B, 'preload'): B.preload()
                r = 'preloaded'
            elif B is None: continue
            elif k == 'one': B.loadBookIfNecessary(op[1]); r = len(B.books)
            elif k == 'reload': B.reloadBook(op[1]); r = len(B.books)
            elif k == 'check': B.check(); r = len(str(B.getCheckResults()))
            elif k == 'discover': B.discover(); r = len(str(B.discoveryResults))
            elif k == 'section': B.makeSectionIndex(); r = 1
            elif k == 'find':
                o, s, rr = B.findText(dict(findText=op[1], wordMode='Any', caselessFlag=True)); r = len(rr)
            elif k == 'query':
                b, c, v = op[1]
                r = [len(str(x)) for x in (B.getVerseText((b, c, v, '')), B.getVerseDataList((b, c, v, '')), B.getContextVerseData((b, c, v, '')), B.getNumVerses(b, c), B.getAssumedBookName(b))]
            elif k == 'guess': r = B.guessXRefBBB(op[1])
            elif k == 'str': r = len(str(B)) + len(B.getBookList())
            else:
                arg, p = where(op[1], base, cwd)
                if p and op[1][2:] != ['new']:
                    f_, world.W.faults = world.W.faults, []
                    os.makedirs(p, exist_ok=True)
                    world.W.faults = f_
                if k == 'export': r = getattr(B, op[2])(arg) if arg is not None else getattr(B, op[2])()
                elif k == 'all': r = bool(B.doAllExports(arg, wantPhotoBible=False, wantODFs=False, wantPDFs=False))
                elif k == 'html': r = B.makeErrorHTML(arg) if arg else None
                elif k == 'extensive': r = B.doExtensiveChecks(arg)
                elif k == 'bcv': r = B.writeBOSBCVFiles(arg) if arg else None
                elif k == 'pickle': r = B.pickle(folderpath=arg) if arg else B.pickle()
                r = str(r)[:40]
            log.append([k, r])
        except world.HarnessError: raise
        except Exception as e: log.append([k, f"<{type(e).__name__} {str(e)[:100]}>"])
    return dict(log=log, data=[str(G.BOS_HOME_FOLDERPATH), str(G.BOS_DEFAULT_WRITEABLE_BASE_FOLDERPATH)])


class P(Prop):
    id = 'P16'
    runs = dict(quick=600, thorough=60000)
    wall = dict(quick=80, thorough=2400)
    timeout = 240
    rule = ('A run detects, loads, checks, searches, queries and exports one Bible in a seeded history (parallel or not, with read, write, worker and crash faults), with the source, the current folder and neighbours of every output folder watched: '
            'every mutating operation, in the main program and in its workers, must lie under the output folder given to that operation or the program\'s own data folder, and everything else on the disk must be as it was. '
            'Non-trivial: something was loaded or exported. Distinct = distinct full event traces.')
    assumptions = ["The external programs that the three optional exports need (photo Bible, ODF, TeX) are not run.", 'Access times are not looked at.']

    def gen(self, rng, i, tier):
        name = FORMATS[i % len(FORMATS)] if rng.random() < .5 else rng.choice(FORMATS)
        bible = gen.make(rng, nbooks=rng.choice([1, 2, 3]), maxch=2, maxv=4, extra=['spiky'])
        books = [b['b'] for b in bible['books']]
        folder = rng.choice(['src', 'src', 'My Bible', 'src.v1', 'Üb'])
        def out(k):
            n = rng.choice([f'out{k}', f'out{k}', 'out0', f'deep/er/out{k}', f'{folder}/Export', f'{folder}-out', f'out {k}', f'cwd/out{k}', f'neighbour/out{k}'])
            return [rng.choice(['str', 'str', 'path', 'slash', 'rel', 'rel'] + ['none'] * (rng.random() < .3)), n] + (['new'] if rng.random() < .15 else [])
        ops = []
        if rng.random() < .5: ops.append(['procs', rng.choice([1, 2, 3])])
        if rng.random() < .4: ops.append(['detect', rng.random() < .5, rng.random() < .5, rng.random() < .5])
        ops.append([rng.choice(['load', 'load', 'load', 'preload'])])
        for k in range(rng.choice([2, 4, 7])):
            x = rng.random()
            if x < .5: ops.append(['export', out(k), ex.NAMES[(i + k * 7) % len(ex.NAMES)] if rng.random() < .7 else rng.choice(ex.NAMES)])
            elif x < .54: ops.append(['all', out(k)])
            elif x < .6: ops.append([rng.choice(['html', 'extensive', 'bcv', 'pickle', 'pickle']), out(k)])
            else: ops.append(rng.choice([['check'], ['discover'], ['section'], ['find', 'the'], ['query', [rng.choice(books), '1', '1']], ['guess', 'Gen'], ['str'], ['one', rng.choice(books)], ['reload', rng.choice(books)], ['load'], ['detect', True, True, True], ['procs', rng.choice([1, 2])]]))
        faults = []
        if rng.random() < .5:
            faults.append(dict(kind=rng.choice(['eio', 'enospc', 'eacces', 'emfile', 'crash', 'kill', 'torn']), ops=rng.choice(['any', 'any', 'read', 'write', ['open-r'], ['open-w'], ['listdir'], ['close-w'], ['mkdir'], ['rename']]), frac=round(rng.random(), 4), path=rng.choice([None, '/' + folder, 'out']), sticky=rng.random() < .3))
            if faults[0]['kind'] == 'kill': faults[0]['actor'] = f'w{rng.randint(1, 2)}'; ops.insert(0, ['procs', 2])
            faults = [{k: v for k, v in f.items() if v is not None} for f in faults]
        return dict(fmt=name, folder=folder, bible=bible, ops=ops, fault=faults, ro=rng.random() < .2, world=common.make_world(rng, short=rng.choice([None, None, 7]) if False else None))

    def run(self, c, case):
        name, base = case['fmt'], c.path('w')
        folder = os.path.join(base, case['folder'])
        cwd = os.path.join(base, 'cwd')
        fmt.ALL[name].make(c, case['bible'], folder)
        for p, t in {'cwd/notes.txt': 'mine\n', 'cwd/BOSOutputFiles/keep.txt': 'mine\n', 'neighbour/a.usfm': '\\id GEN mine\n', 'neighbour/out0.zip': 'mine', 'out0.txt': 'mine\n', 'out0_old/x.txt': 'mine\n', 'out0.bak': 'mine', 'deep/x.bak': 'mine\n', 'Bible.txt': 'mine\n', 'deep/er/y.html': 'mine'}.items():
            os.makedirs(os.path.dirname(os.path.join(base, p)), exist_ok=True)
            with open(os.path.join(base, p), 'w') as f: f.write(t)
        r = random.Random(case['bible']['seed'])
        for dp, dn, fn in os.walk(base):
            for f in fn: os.utime(os.path.join(dp, f), (1.5e9 + r.randrange(10**8),) * 2)
        w = {k: v for k, v in case['world'].items() if v is not None}
        faults = []
        if case['fault']:
            f = {k: v for k, v in case['fault'][0].items() if k != 'frac'}
            copy = c.path('count')
            shutil.copytree(base, os.path.join(copy, 'w'))
            o = c.spawn(session, name, os.path.join(copy, 'w', case['folder']), os.path.join(copy, 'w'), case['ops'], cfg=dict(w, prefix=0, faults=[dict(f, at=1 << 60)]), cwd=os.path.join(copy, 'w', 'cwd'))
            n = o.world['matched'][0] if o.world else 0
            shutil.rmtree(copy)
            shutil.rmtree(c.home); shutil.copytree(c.home + '0', c.home)
            if n: faults = [dict(f, at=min(n - 1, int(case['fault'][0]['frac'] * n)))]
        outs = []
        for op in case['ops']:
            if len(op) > 1 and isinstance(op[1], list) and op[0] != 'query':
                p = where(op[1], base, cwd)[1]
                if p: outs.append(p)
        before = snap(base, outs)
        o = c.spawn(session, name, folder, base, case['ops'], cfg=dict(w, faults=faults), cwd=cwd)
        if o.status in ('exc', 'died'): raise Violation('P16:dies', f"{name}: {o.describe()}", getattr(o, 'tb', ''))
        c.probe(o.status)
        if o.ok:
            for k, r in o.value['log']: c.probe(k + (':' + str(r)[1:].split(' ')[0] if str(r).startswith('<') else ''))
            c.note(str(o.value['log']).replace(c.base, ''))
        ok = [x[len(c.base):] if x.startswith(c.base) else x for x in outs] + [c.home[len(c.base):], '/run/systmp']
        muts = o.world['mutations'] if o.world else []
        wr = 0
        for kind, rel in muts:
            if any(rel == p or rel.startswith(p + '/') for p in ok): wr += 1; continue
            if kind == 'mkdir' and any(p.startswith(rel + '/') for p in ok): continue      # on the way to an output folder
            raise Violation(f'P16:{kind}', f"{name} with {case['ops']}: {kind} of {rel}, which lies outside the output folders")
        c.nontrivial = bool(wr) or o.ok
        if o.world and o.world['escapes']: raise Violation('P16:escape', f"{name} with {case['ops']}: {o.world['escapes'][:3]}")
        if o.world and o.world['external']: c.probe('external')
        after = snap(base, outs)
        for p in outs:      # folders on the way to a new output folder
            d = os.path.dirname(p)
            while len(d) > len(base): k = os.path.relpath(d, base) + '/'; (k in before) or after.pop(k, None); d = os.path.dirname(d)
        if before != after:
            k = next(k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k))
            raise Violation('P16:changed', f"{name} with {case['ops']}: {k} was {before.get(k)}, now {after.get(k)}")


PROP = P()
