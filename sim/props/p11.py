"""P11: reference tables are the same whichever stored form they are loaded from."""
import os, re, shutil, random
from pathlib import Path
from ..ctx import Prop, Violation
from .. import canon, world
from ..world import real
from . import common, tables

T = tables.TABLES
EDITS = dict(codes=r'<expectedChapters>(\d+)</expectedChapters>', orders=r'<book id="\d+">(\w+)</book>\s*<book id="\d+">(\w+)</book>', names=r'<defaultAbbreviation>([^<]+)</defaultAbbreviation>', versif=r'<numVerses chapter="\d+">(\d+)</numVerses>',
             punct=r'<allowedVerseSuffixes>([^<]+)</allowedVerseSuffixes>', langs=r'id="(?:eng|fra|deu|grc|mbt|tpi|zho|lat|nld)"[^>]*?(?<!inverted_)name="([^"]+)"', usfm2=r'<nameEnglish>([^<]+)</nameEnglish>', usfm3=r'<nameEnglish>([^<]+)</nameEnglish>', orgs=r'<name>([^<]+)</name>')
ALLKEYS = dict(codes=['getExpectedChaptersList', 'getBookName', 'getOSISAbbreviation', 'getUSFMNumStr'], usfm2=['getMarkerEnglishName', 'toStandardMarker'], usfm3=['getMarkerEnglishName', 'toStandardMarker'])


def redirect(data):
    """Make the program's data folder be this one."""
    import importlib.resources as ir
    G = common.G()
    G.BOS_DATAFILES_FOLDERPATH = Path(data)
    G.BOS_DERIVED_DATAFILES_FOLDERPATH = Path(data) / 'DerivedFiles'
    files, open_text = ir.files, ir.open_text
    ir.files = lambda p: Path(data) if p == 'BibleOrgSys.DataFiles' else files(p)
    ir.open_text = lambda p, n, *a, **k: open(os.path.join(data, n), 'rt', encoding='utf-8') if p == 'BibleOrgSys.DataFiles' else open_text(p, n, *a, **k)
    tables.forget()


def matched(): return [x['_n'] for x in world.W.faults]


def generate_session(t, data, kinds):
    """A program that converts the original file to its generated forms."""
    redirect(data)
    f, world.W.faults = world.W.faults, []
    conv = tables.converter(t)
    world.W.faults = f
    done = {}
    base = os.path.join(data, 'DerivedFiles', T[t][3] + '_Tables.')
    for k in kinds:
        try:
            getattr(conv, 'pickle' if k == 'pickle' else 'exportDataToJSON')(base + k)
            done[k] = True
        except Exception as e: done[k] = f"{type(e).__name__}: {e}"
    return dict(done=done, matched=matched())


def load_session(todo, data, times, preloads):
    """A program that loads some tables, in some order and some number of times, and asks them."""
    redirect(data)
    G = common.G()
    for _ in range(preloads): G.preloadCommonData()
    out = {}
    objs = {}
    for t, Q in todo:
        try:
            for _ in range(times): objs[t] = tables.cls(t)().loadData()
            objs[t] = objs.get(t) or tables.cls(t)().loadData()
        except Exception as e: objs[t] = None; out[t] = ['!', type(e).__name__, str(e)[:200]]
    f, world.W.faults = world.W.faults, []
    for t, Q in todo:
        if objs[t] is not None: out[t] = ['ok', canon.unorder(tables.ask(t, objs[t], Q))]
    if preloads:
        out['markers'] = ['ok', [list(G.USFMParagraphMarkers), list(G.USFMCharacterMarkers), list(G.USFMAllExpandedCharacterMarkers), list(G.internal_SFMs_to_remove), len(G.loadedBibleBooksCodes), len(G.loadedUSFMMarkers)]]
    return dict(out=out, matched=[x['_n'] for x in f])

ORGSNEED = ['langs', 'orders', 'versif', 'punct', 'names']      # making the table of organisational systems from its original needs these


class P(Prop):
    id = 'P11'
    runs = dict(quick=900, thorough=100000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run puts one reference table\'s files (original XML, pickle, JSON) into some state in a scratch copy of the data folder -- as shipped, converted by the program\'s own converters (with a crash or disk fault part-way), out of date after an edit, cut short, '
            'missing, with any file times -- and loads it (with others, in some order, several times), comparing every answer with a load from the original alone. Non-trivial: a generated form was there or a fault fired. Distinct = distinct full event traces.')
    assumptions = ['File times are honest about which of two different contents is newer (a generated form older than an edit of its original has not got a later time).',
                   'Generated forms carry no checksum: damage is a cut-short, emptied or zero-filled rest, as crashes leave it.']

    def gen(self, rng, i, tier):
        t = rng.choice(sorted(T))
        mode = rng.choice(['shipped', 'shipped', 'made', 'made', 'stale', 'stale', 'cut', 'cut', 'crash', 'crash', 'fault', 'read'])
        d = dict(mode=mode, table=t, forms=rng.choice([['pickle'], ['json'], ['pickle', 'json']]), xml=rng.random() < .75, edit=None if rng.random() < .4 else rng.random(), qseed=rng.randrange(1 << 30), times=rng.choice([1, 1, 2, 3]),
                 others=rng.sample([x for x in sorted(T) if x != t], rng.choice([0, 0, 1, 2])), first=rng.random() < .5, preloads=rng.choice([0, 0, 0, 1, 2]), folder=rng.choice(['data', 'data', 'my.xml', 'json pickle']),
                 gap=rng.choice([.001, 1, 3600, 4e7]), ctime=rng.choice(['same', 'same', 'now']), world=common.make_world(rng, buf=rng.choice([0, 0, 64, 1024])))
        if mode == 'shipped': d['edit'] = None
        if mode == 'stale': d.update(xml=True, edit=rng.random(), some=rng.choice(['all', 'pickle']))
        if mode == 'crash': d['fault'] = dict(kind='crash', ops='any', frac=round(rng.random(), 5), path='DerivedFiles')
        if mode == 'fault': d['fault'] = dict(kind=rng.choice(['enospc', 'enospc', 'eio', 'eacces']), ops=rng.choice(['write', 'write', ['open-w'], ['close-w'], 'any']), frac=round(rng.random(), 5), path='DerivedFiles')
        if mode == 'read': d['fault'] = dict(kind=rng.choice(['eio', 'eacces', 'emfile']), ops=rng.choice(['any', ['open-r'], ['read']]), frac=round(rng.random(), 5), path='/run/')
        if mode == 'cut': d['damage'] = dict(kind=rng.choice(['cut', 'cut', 'empty', 'zeros', 'edge']), which=rng.choice(d['forms']), where=round(rng.random(), 5))
        if mode in ('crash', 'fault'): d['before'] = rng.choice(['none', 'none', 'old', 'old'])
        if d.get('before') == 'old': d['xml'] = True
        return d

    def questions(self, case):
        r = random.Random(case['qseed'])
        todo = []
        for t in [case['table']] + case['others']:
            Q = tables.questions(t, r, 60)
            for m in ALLKEYS.get(t, []): Q += [[m, f'#{i}'] for i in range(330)]
            if t == 'orgs': Q += [['getOrganisationalSystemValue', f'@{i}', 'name'] for i in range(160)]
            if t == 'langs': Q += [['getLanguageName', x] for x in ('eng', 'fra', 'deu', 'grc', 'mbt', 'tpi', 'zho', 'lat', 'nld')]
            todo.append((t, Q))
        if not case['first']: todo.reverse()
        return todo

    def install(self, data, ts, derived=True):
        src = os.path.join(common.REPO, 'BibleOrgSys', 'DataFiles')
        os.makedirs(os.path.join(data, 'DerivedFiles'), exist_ok=True)
        for t in ts:
            x = tables.xmlname(t)
            if os.path.isdir(os.path.join(src, x)): shutil.copytree(os.path.join(src, x), os.path.join(data, x))
            else: shutil.copyfile(os.path.join(src, x), os.path.join(data, x))
            for k in tables.BOTH if derived else ():
                y = os.path.join('DerivedFiles', f'{T[t][3]}_Tables.{k}')
                shutil.copyfile(os.path.join(src, y), os.path.join(data, y))

    def edit(self, data, t, frac):
        x = os.path.join(data, tables.xmlname(t))
        fs = sorted(os.path.join(x, f) for f in os.listdir(x) if f.lower().endswith('.xml')) if os.path.isdir(x) else [x]
        fn = fs[int(frac * 1000) % len(fs)]
        with open(fn, encoding='utf-8') as f: s = f.read()
        ms = list(re.finditer(EDITS[t], s))
        m = ms[int(frac * len(ms))]
        if t == 'orders': s = s[:m.start(1)] + m.group(2) + s[m.end(1):m.start(2)] + m.group(1) + s[m.end(2):]
        else: s = s[:m.start(1)] + (str(int(m.group(1)) + 1) if m.group(1).isdigit() else m.group(1) + 'q') + s[m.end(1):]
        with open(fn, 'w', encoding='utf-8') as f: f.write(s)

    def xmls(self, data, t):
        x = os.path.join(data, tables.xmlname(t))
        if os.path.isdir(x): return [os.path.join(x, f) for f in sorted(os.listdir(x)) if f.lower().endswith('.xml')]
        return [x] if os.path.exists(x) else []

    def run(self, c, case):
        t, mode, fl = case['table'], case['mode'], case.get('fault')
        todo = self.questions(case)
        pre = ['codes', 'usfm3'] if case['preloads'] else []
        ts = list(dict.fromkeys([t] + case['others'] + pre + (ORGSNEED + ['codes'] if 'orgs' in [t] + case['others'] else [])))
        w = case['world']
        data, ref = c.path(case['folder']), c.path('ref')
        derived = lambda k, d=data, t=t: os.path.join(d, 'DerivedFiles', f'{T[t][3]}_Tables.{k}')
        # the reference: everything from the originals alone
        self.install(ref, ts, derived=False)
        if case['edit'] is not None: self.edit(ref, t, case['edit'])
        o = c.spawn(load_session, todo, ref, 1, min(1, case['preloads']), cfg=dict(w, prefix=0, faults=[]))
        if not o.ok: raise Violation('P11:original-fails', f"loading {ts} from the original files fails: {o.describe()}", getattr(o, 'tb', ''))
        want = o.value['out']
        for x, a in want.items():
            if a[0] != 'ok': raise Violation(f'P11:original:{x}', f"the {x} table can't be loaded from its original file: {a[1:]}")
        # the state of the data folder
        self.install(data, ts)
        damaged, faulted = [], False
        other = mode in ('made', 'cut', 'crash', 'fault', 'read')      # generated forms made here, by the program's own converters
        if other or mode == 'stale':
            for k in tables.BOTH: os.remove(derived(k))
        stale = []
        if mode == 'stale' or (mode in ('crash', 'fault') and case['before'] == 'old'):
            if mode == 'stale' and case['some'] == 'pickle': kinds = ['pickle']
            else: kinds = case['forms']
            g = c.spawn(generate_session, t, data, kinds, cfg=dict(w, prefix=0, faults=[]))
            if not g.ok or any(v is not True for v in g.value['done'].values()): raise Violation(f'P11:convert:{t}', f"converting {t} fails: {g.value if g.ok else g.describe()}")
            if case['edit'] is not None: stale += kinds
        if case['edit'] is not None: self.edit(data, t, case['edit'])
        if mode == 'stale' and case['some'] == 'pickle': pass
        made = []
        kept = {}
        for k in stale:
            with open(derived(k), 'rb') as f: kept[k] = f.read()
        if other:
            cnt = [dict({k: v for k, v in fl.items() if k != 'frac'}, at=1 << 60)] if mode in ('crash', 'fault') else []
            if mode in ('crash', 'fault'):
                tmp = c.path('tmp')
                shutil.copytree(data, tmp)
                g = c.spawn(generate_session, t, tmp, case['forms'], cfg=dict(w, prefix=0, faults=cnt))
            else: g = c.spawn(generate_session, t, data, case['forms'], cfg=dict(w, prefix=0, faults=[]))
            if not g.ok or any(v is not True for v in g.value['done'].values()): raise Violation(f'P11:convert:{t}', f"converting {t} fails: {g.value if g.ok else g.describe()}")
            if mode in ('crash', 'fault'):
                n = g.value['matched'][0]
                if not n: c.probe('no-such-operation'); return
                g = c.spawn(generate_session, t, data, case['forms'], cfg=dict(w, faults=[dict({k: v for k, v in fl.items() if k != 'frac'}, at=min(n - 1, int(fl['frac'] * n)))]))
                if g.status == 'crash': done = {}
                elif not g.ok: raise Violation(f'P11:convert-dies:{t}', f"converting {t} with {fl['kind']}: {g.describe()}")
                else: done = g.value['done']
                damaged = [k for k in case['forms'] if done.get(k) is not True]
                made = [k for k in case['forms'] if done.get(k) is True]
                faulted = True
            else: made = list(case['forms'])
        if mode == 'cut':
            dm = case['damage']
            p = derived(dm['which'])
            with open(p, 'rb') as f: b = f.read()
            at = int(dm['where'] * (len(b) - 1))
            if dm['kind'] == 'edge': at = b.find(b'.}' if dm['which'] == 'json' else b'.\x80', 1) + 1 or len(b) - 1    # between two saved items, or all but the end
            new = b'' if dm['kind'] == 'empty' else b[:at] + (b'\0' * (len(b) - at) if dm['kind'] == 'zeros' else b'')
            with open(p, 'wb') as f: f.write(new)
            damaged = [dm['which']]; made = [k for k in made if k != dm['which']]
        if mode == 'shipped':
            made = list(case['forms'])
            for k in tables.BOTH:
                if k not in made: os.remove(derived(k))
        if not case['xml']:
            x = os.path.join(data, tables.xmlname(t))
            shutil.rmtree(x) if os.path.isdir(x) else os.remove(x)
        # the file times: the original at one moment, current forms at any other, old forms before
        tm = {}
        base = 1.6e9
        def put(p, m): tm[p[-60:]] = (m, m if case['ctime'] == 'same' else max(m, base + 5e7))
        r = random.Random(case['qseed'] + 1)
        for p in self.xmls(data, t): put(p, base - (r.random() * 1e6 if t in ('orders', 'names', 'versif', 'punct') else 0))
        if case['edit'] is not None and self.xmls(data, t): put(self.xmls(data, t)[int(case['edit'] * 1000) % len(self.xmls(data, t))], base)
        now = {}
        for k in tables.BOTH:
            if not os.path.exists(derived(k)): continue
            if k in kept:
                with open(derived(k), 'rb') as f: kept[k] = f.read() == kept[k]
            if kept.get(k): m = base - case['gap']; c.probe('stale-' + k)
            else: m = base + r.choice([-case['gap'], 0, case['gap'], case['gap']])
            put(derived(k), m); now[k] = m
        if case['ctime'] == 'now':      # everything was copied here, in any order
            for k, (m, _) in list(tm.items()): tm[k] = (m, base + 5e7 + r.randrange(3))
        orgsCurrent = True      # the other tables' generated forms are current or not by their times only
        for x in ts:
            if x == t: continue
            for p in self.xmls(data, x): tm[p[-60:]] = (base, base)
            new = r.random() < .7
            if x == 'orgs': orgsCurrent = new
            for k in tables.BOTH:
                p = os.path.join(data, 'DerivedFiles', f'{T[x][3]}_Tables.{k}')
                if os.path.exists(p): tm[p[-60:]] = (base + (1 if new else -1),) * 2
        c.nontrivial = bool(made or damaged or stale)
        # load it
        n = None
        rf = []
        if mode == 'read':
            o = c.spawn(load_session, todo, data, case['times'], case['preloads'], cfg=dict(w, prefix=0, times=tm, faults=[dict({k: v for k, v in fl.items() if k != 'frac'}, at=1 << 60)]))
            if o.ok and o.value['matched'][0]:
                n = o.value['matched'][0]
                rf = [dict({k: v for k, v in fl.items() if k != 'frac'}, at=min(n - 1, int(fl['frac'] * n)))]
        o = c.spawn(load_session, todo, data, case['times'], case['preloads'], cfg=dict(w, times=tm, faults=rf))
        fired = sum(o.world['fired'].values()) if o.world else 0
        state = f"{t}: {mode}, xml {'there' if case['xml'] else 'missing'}, current {made}, damaged {damaged}, out of date {[k for k in stale if k not in made and k not in damaged]}"
        if not o.ok:
            if (fired or damaged or not (case['xml'] or made)): c.probe('reported'); return
            if not case['xml'] and made == ['json'] and t not in tables.JSONREAD: c.probe('no-loadable-form'); return
            raise Violation(f'P11:cannot-load:{t}', f"{state}: {o.describe()}", getattr(o, 'tb', ''))
        got = o.value['out']
        for x in want:
            a = got.get(x)
            if a[0] != 'ok':
                if fired: c.probe('reported'); continue
                if x == t and (damaged or not (case['xml'] or [k for k in made if k == 'pickle' or t in tables.JSONREAD])): c.probe('reported'); continue
                if x == 'orgs' and t in ORGSNEED and not orgsCurrent and (damaged or not (case['xml'] or [k for k in made if k == 'pickle' or t in tables.JSONREAD])): c.probe('reported'); continue   # made afresh, which needs that table
                raise Violation(f'P11:cannot-load:{x}', f"{state}: the {x} table can't be loaded: {a[1:]}")
            ds = canon.diff(want[x][1], a[1])
            if ds: raise Violation(f"P11:{'differs' if x in (t, 'markers') else 'other'}:{x}", f"{state} (times {now}): the {x} table's answers differ from those of the original file", ds[:1500] if isinstance(ds, str) else str(ds)[:1500])
            c.probe('equal')


PROP = P()
