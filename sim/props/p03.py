"""P03: on-demand book access equals a full load, for every history of requests."""
import re
import os, shutil
from ..ctx import Prop, Violation
from .. import gen, fmt, canon
from ..world import real
from . import common

FORMATS = ['USFM', 'USFM2', 'ESFM', 'PTX7', 'PTX8', 'USX', 'BCV', 'OSIS', 'PKL', 'UWN', 'OBS', 'SB', 'GOB', 'MYS', 'ESW', 'MYB']
DIRTY = ('USFM', 'USFM2', 'ESFM', 'PTX7', 'PTX8')
EDIT = ['USFM', 'USFM2', 'ESFM', 'PTX7', 'PTX8', 'USX', 'BCV', 'OSIS', 'UWN']


def entries(r):
    if r is None: return None
    L, ctx = r if isinstance(r, tuple) else (r, None)
    return [[canon.entry(e) for e in L], list(ctx) if ctx is not None else None]


def ref_of(q, form):
    if form == 'key':
        from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
        return SimpleVerseKey(*q)
    return tuple(q)


def answer(B, q):
    """One query, its answer as plain data; an exception is an answer too."""
    k = q[0]
    try:
        if k == 'nch': return B.getNumChapters(q[1])
        if k == 'nv': return B.getNumVerses(q[1], q[2])
        if k == 'text': return B.getVerseText(ref_of(q[1], q[2]), fullTextFlag=q[3], includeNonCanonical=q[4])
        if k == 'list': return entries(B.getVerseDataList(ref_of(q[1], q[2])))
        if k == 'ctx': return entries(B.getContextVerseData(ref_of(q[1], q[2]), strict=q[3], complete=q[4]))
        if k == 'chap': return entries(B.getContextVerseData(tuple(q[1])))
        if k == 'range': return entries(B.getContextVerseDataRange(ref_of(q[1], q[3]), ref_of(q[2], q[3]), strict=q[4]))
        if k == 'name':
            B.loadBookIfNecessary(q[1])
            return [B.getAssumedBookName(q[1]), B.getLongTOCName(q[1]), B.getShortTOCName(q[1]), B.getBooknameAbbreviation(q[1]), q[1] in B]
        if k == 'find':
            o, s, r = B.findText(dict(q[1]))
            return [sorted(s['searchedBookList']), sorted(s['foundBookList']), sorted([str(x[0].getVerseKeyText())] + [str(y) for y in x[1:]] for x in r)]
        if k == 'versif':
            return canon.plain(B.books[q[1]].getVersification())
        if k == 'added':
            return canon.plain(B.books[q[1]].getAddedUnits())
    except Exception as e: return f"<{type(e).__name__} {str(e)[:200]}>"
    raise ValueError(k)


def put(src, dst):
    for dp, dn, fn in os.walk(src):
        rel = os.path.relpath(dp, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in sorted(fn):
            with real.open(os.path.join(dp, f), 'rb') as a: data = a.read()
            with real.open(os.path.join(dst, rel, f), 'wb') as b: b.write(data)


def step(B, op, folder, vfolders, procs):
    G = common.G()
    k = op[0]
    if k == 'load': B.loadBook(op[1])
    elif k == 'loadif': B.loadBookIfNecessary(op[1])
    elif k == 'all':
        G.maxProcesses = op[1]
        fmt.load(B)
        G.maxProcesses = 1
    elif k == 'edit': put(vfolders[op[2]], folder)
    elif k == 'reload': B.reloadBook(op[1])
    elif k == 'mark': B.bookNeedsReloading[op[1]] = True
    elif k == 'discover': B.discover()
    elif k == 'section': B.discover(); B.makeSectionIndex()
    elif k == 'check': B.check()
    else: return 'query'


def final(B):
    for b in B.books.values(): b.getVersificationIfNecessary()
    d = canon.bible(B)['books']
    for x in d.values(): x['errors'] = sorted(nowork(canon.unorder(x['errors'])[1:]), key=repr)
    return d


def nowork(x):
    """Without the name an error message gives the work: a second load of an SQLite Bible knows its title or
    abbreviation, where the first one only had the file name."""
    if isinstance(x, str): return re.sub(r' in .{0,60} Bible book$', ' in <work> Bible book', x)
    if isinstance(x, (list, tuple)): return [nowork(y) for y in x]
    return x


def session(name, folder, ops, vfolders):
    G = common.G(); G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    if name != 'OSIS': B.preload()
    out = []
    for op in ops:
        try:
            if step(B, op, folder, vfolders, 1) == 'query': out.append(answer(B, op))
            else: out.append('done')
        except Exception as e:
            import traceback
            out.append(f"<{type(e).__name__} {str(e)[:200]}>" if op[0] in ('load', 'loadif') else f"!<{type(e).__name__} {str(e)[:200]}> {traceback.format_exc()[-700:]}")
    return dict(out=out, books=final(B))


def fresh(name, folder, queries):
    """A full load; each query is answered in its own copy of that state."""
    import pickle
    G = common.G(); G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    out = []
    for q in queries:
        r, w = os.pipe()
        pid = real.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f: pickle.dump(answer(B, q), f)
            finally: real._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f: out.append(pickle.load(f))
        os.waitpid(pid, 0)
    return dict(out=out, books=final(B))


class P(Prop):
    id = 'P03'
    runs = dict(quick=420, thorough=40000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run is one preloaded Bible in one of 16 formats put through a seeded history of on-demand loads, full loads, edits on disk with reloads, re-indexing, checks and queries; every answer is compared with a '
            'fresh, complete load of the version that was loaded. Non-trivial: at least three queries were compared. Distinct = distinct full event traces.')
    assumptions = ['Edits replace the whole source file between operations, not during a read.']

    def gen(self, rng, i, tier):
        name = FORMATS[i % len(FORMATS)]
        f = fmt.ALL[name]
        bible = gen.make(rng, blanks=f.blanks, minbooks=1 if rng.random() < .1 else 2, maxbooks=6, extra=gen.DIRTY + ['spiky'] if name in DIRTY else ['spiky'], books=fmt.NT if name in ('OSIS', 'USX', 'TWD') and rng.random() < .7 else None)
        have = [b['b'] for b in bible['books'] if not b.get('blank')]
        chs = {b['b']: b['ch'] for b in bible['books']}
        if name == 'OBS': have = ['OBS']; chs = {'OBS': [2] * 50}
        ops = []
        loadedall = False
        version = {b: 0 for b in have}      # on disk
        nver = 0
        def cv(b, wild=.12):
            if rng.random() < wild: return [b, rng.choice(['0', '1', '99', '-1', str(len(chs[b]) + 1)]), rng.choice(['0', '1', '99', '2b', '3'])]
            c = rng.randrange(len(chs[b]))
            return [b, str(c + 1), str(rng.randint(1, chs[b][c])) if rng.random() < .85 else '0']
        for k in range(rng.choice([4, 8, 14, 22])):
            b = rng.choice(have) if rng.random() < .93 else rng.choice(['MAL', 'JUB', 'TOB', 'CO2'])
            if b not in chs: chs[b] = [5, 5]
            form = rng.choice(['tuple', 'tuple', 'key'])
            w = rng.random()
            if w < .07: ops.append(['load', b]) if name != 'OSIS' or b in have else None
            elif w < .12: ops.append(['loadif', b])
            elif w < .17: ops.append(['all', rng.choice([1, 1, 3])]); loadedall = True
            elif w < .19 and loadedall and name != 'OBS': ops.append([rng.choice(['discover', 'check', 'section'])])
            elif w < .33 and name in EDIT and b in have:
                nver += 1
                version[b] = nver
                ops.append(['edit', b, nver])
                how = rng.choice(['reload', 'reload', 'mark', 'mark', 'none'])
                if how != 'none':
                    if rng.random() < .3: ops.append(['nv', rng.choice(have), '1'])
                    ops.append([how, b])
            elif w < .41: ops.append(['nch', b])
            elif w < .50: ops.append(['nv', b, rng.choice(['1', '2', 1, '9', '0', '-1'])])
            elif w < .64: ops.append(['text', cv(b), form, rng.random() < .3, rng.random() < .7])
            elif w < .72: ops.append(['list', cv(b), form])
            elif w < .81: ops.append(['ctx', cv(b), form, rng.random() < .4, rng.random() < .4])
            elif w < .85: ops.append(['chap', [b, str(rng.randint(1, len(chs[b])))] if rng.random() < .9 else [b]])
            elif w < .91:
                a, z = cv(b, 0), cv(b, 0)
                if (int(z[1]), int(z[2])) < (int(a[1]), int(a[2])): a, z = z, a
                ops.append(['range', a, z, form, rng.random() < .9])
            elif w < .95: ops.append(['name', b])
            elif loadedall:
                t = rng.choice(['word', 'the', 'e', f"{rng.choice(have).lower()}1x1", 'light', 'Θεός', 'regex:w.r', 'King'])
                ops.append(['find', dict(findText=t, wordMode=rng.choice(['Any', 'Whole', 'Begins', 'EndsWord', 'EndsLine']), caselessFlag=rng.random() < .5, ignoreDiacriticsFlag=rng.random() < .2,
                                         includeIntroFlag=rng.random() < .7, includeMainTextFlag=rng.random() < .8, includeExtrasFlag=rng.random() < .4, contextLength=rng.choice([0, 10, 30]))])
        return dict(fmt=name, bible=bible, ops=ops, world=common.make_world(rng, short=rng.choice([None, None, 300])))

    def run(self, c, case):
        name = case['fmt']
        f = fmt.ALL[name]
        folder = c.path('src')
        f.make(c, case['bible'], folder)
        inspec = {b['b'] for b in case['bible']['books'] if not b.get('blank')} if name != 'OBS' else {'OBS'}
        ops = [o for o in case['ops'] if not (o[0] in ('edit', 'reload', 'mark') and o[1] not in inspec)]
        # model: which version of each book is on the disk, which is loaded
        disk = {b: 0 for b in inspec}; loaded = {}; marked = set()
        vfolders = {}; refs = {}; plan = []; kept = []
        for o in ops:
            k = o[0]
            if k == 'all' and any(disk[b] != loaded[b] and b not in marked for b in loaded): continue      # edited, but no reload was asked for: not specified
            kept.append(o)
            touch = []
            if k == 'edit':
                disk[o[1]] = o[2]
                vfolders[o[2]] = c.path(f"v{o[2]}")
                f.make(c, case['bible'], vfolders[o[2]], edits={b: v for b, v in disk.items() if v})
            elif k in ('load', 'loadif', 'nch', 'nv', 'name'): touch = [o[1]]
            elif k in ('text', 'list', 'ctx', 'chap'): touch = [o[1][0]]
            elif k == 'range': touch = [o[1][0]]
            elif k == 'all': touch = list(inspec)
            elif k == 'reload': touch = [o[1]]; marked.add(o[1])
            elif k == 'mark': marked.add(o[1])
            for b in touch:
                if b in inspec and (b not in loaded or b in marked): loaded[b] = disk[b]; marked.discard(b)
            if k == 'find' and not all(b in loaded for b in inspec): plan.append(None); continue
            if k in ('load', 'loadif', 'all', 'edit', 'reload', 'mark', 'discover', 'section', 'check'): plan.append(None); continue
            vm = tuple(sorted((b, loaded.get(b, 0)) for b in inspec))
            plan.append((vm, len(refs.setdefault(vm, []))))
            refs[vm].append(o)
        ops = kept
        final = tuple(sorted((b, loaded.get(b, 0)) for b in inspec))
        refs.setdefault(final, [])
        s = c.spawn(session, name, folder, ops, vfolders, cfg=dict(case['world']))
        if s.status == 'deadlock': raise Violation(f'P03:wedged:{name}', 'a history of requests never ends', s.excmsg)
        if not s.ok: raise Violation(f'P03:fails:{name}', f"a history of valid requests fails: {s.describe()}", s.tb)
        answers = {}
        books = None
        for vm, qs in refs.items():
            rf = c.path('ref')
            shutil.rmtree(rf, ignore_errors=True)
            f.make(c, case['bible'], rf, edits={b: v for b, v in vm if v})
            os.rename(folder, c.path('src_used')); os.rename(rf, folder)       # same path, so the same names
            r = c.spawn(fresh, name, folder, qs, cfg=dict(seed=1))
            shutil.rmtree(folder); os.rename(c.path('src_used'), folder)
            if not r.ok: c.probe('full-load-fails'); c.sample = f"{name}: {r.describe()}"; return
            answers[vm] = r.value['out']
            if vm == final: books = r.value['books']
        n = 0
        for o, got, p in zip(ops, s.value['out'], plan):
            if isinstance(got, str) and got.startswith('!'):
                raise Violation(f"P03:{o[0]}-fails:{name}", f"{o} fails where a fresh full load works", got)
            if p is None: continue
            want = answers[p[0]][p[1]]
            d = canon.diff(want, got)
            if d: raise Violation(f"P03:{o[0]}:{name}", f"{name}: {o} answered differently after this history than by a fresh complete load (reference first)", d)
            n += 1
        for b, pic in s.value['books'].items():
            if b not in books: raise Violation(f'P03:extra-book:{name}', f"book {b} is loaded but a full load does not have it")
            if any(o[0] in ('check', 'discover', 'section') for o in ops): pic['errors'] = books[b]['errors']       # those add to the list
            if not ('_SectionIndex' in pic and '_SectionIndex' in books[b]): pic.pop('_SectionIndex', 0); books[b].pop('_SectionIndex', 0)
            d = canon.diff(books[b], pic)
            if d: raise Violation(f"P03:book:{name}", f"{name}: book {b} differs from a fresh complete load (reference first)", d)
            n += 1
        c.probe('compared', n)
        for o in ops: c.probe('op-' + o[0])
        c.nontrivial = n >= 3
PROP = P()
