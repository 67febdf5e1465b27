"""P13: a Bible exported into a format that the library also reads comes back with the same books, chapters, verses and verse text."""
import os, re, shutil, tarfile, zipfile, zlib
from ..ctx import Prop, Violation
from .. import gen, fmt, world
from ..world import real
from . import common

ALL = list(gen.FEATS)
MARK = ('v~', 'p~', 'c~')


class U3(fmt.Exported):
    name = 'U3'; exported = 'toUSFM3'
    def open(self, f):
        from BibleOrgSys.Formats.USFMBible import USFMBible
        return USFMBible(f, givenName='Test')

class U2(fmt.Exported):
    name = 'U2'; exported = 'toUSFM2'; sub = ''
    def open(self, f):
        from BibleOrgSys.Formats.USFM2Bible import USFM2Bible
        return USFM2Bible(f, givenName='Test')


class U3N(U3):
    name = 'U3N'; kw = dict(removeVerseBridges=True)


class U2N(U2):
    name = 'U2N'; kw = dict(removeVerseBridges=True)


class X3(fmt.Exported):
    name = 'X3'; exported = 'toUSXXML'; sub = 'USX3Files'
    open = fmt.USX.open


# The formats, and which features of a text they carry: an export of a Bible with these comes back with the same verses.
# 'words': compared by their words (the importer sets its own spaces around character styles)
FORMATS = dict(
    U3=(U3(), ALL), U2=(U2(), ALL), U3N=(U3N(), ALL), U2N=(U2N(), ALL), USX=(fmt.ALL['USX'], ALL), X3=(X3(), ALL), BCV=(fmt.ALL['BCV'], ALL), OSIS=(fmt.ALL['OSIS'], ALL), PKL=(fmt.ALL['PKL'], ALL),
    DRU=(fmt.ALL['DRU'], ALL), OSONG=(fmt.ALL['OSONG'], ALL), HAG=(fmt.ALL['HAG'], ALL), ZEF=(fmt.ALL['ZEF'], ALL), USFX=(fmt.ALL['USFX'], ALL), FORGE=(fmt.ALL['FORGE'], ALL),
    TWD=(fmt.ALL['TWD'], ALL), EW=(fmt.ALL['EW'], ALL),
    MYS=(fmt.ALL['MYS'], ALL),
    ESW=(fmt.ALL['ESW'], ['fn', 'xr', 'words', 'unicode', 'intro', 'rem', 'punct', 'bridge', 'seg']),
    MYB=(fmt.ALL['MYB'], ['fn', 'xr', 'char', 'words', 'unicode', 'intro', 'rem', 'punct', 'bridge', 'seg']),
)
for k in ('ESFM', 'PTX7', 'PTX8', 'SB'): FORMATS[k] = (fmt.ALL[k], ALL)           # only read
for k in ('CSV', 'UNB', 'VV', 'YET', 'LEB', 'GOB', 'VPT') + tuple(fmt.FOREIGN): FORMATS[k] = (fmt.ALL.get(k) or fmt.FOREIGN[k], ['unicode', 'punct', 'bridge', 'seg', 'words'])
ONLY = ('ESFM', 'PTX7', 'PTX8', 'SB', 'CSV', 'UNB', 'VV', 'YET', 'LEB', 'GOB', 'VPT') + tuple(fmt.FOREIGN)
WORDS = ('USFX',)
CARRY = {k: ('s', 'is', 'ip', 'r', 'd', 'rem', 'fn', 'xr') for k in ('U3', 'U2', 'U3N', 'U2N', 'USX', 'X3', 'BCV', 'PKL', 'ESFM', 'PTX7', 'PTX8', 'SB')}
CARRY.update(OSIS=('s', 'ip', 'd'), USFX=('fn', 'xr'), ZEF=('fn',), TWD=('fn',), MYS=('fn',), MYB=('fn',), **{k: ('fn',) for k in fmt.FOREIGN})      # kinds of headings, introductions and notes that come back
NORICH = dict(ESW=('nest', 'fnn', 'qs', 'chx'), ZEF=('fnn',), OSIS=('qs',), TWD=('vp',), MYS=('vp',))      # what these formats don't carry (eSword shows bold text as such; The Word shows the printed verse number)
NORICH.update({k: gen.RICH for k in ('CSV', 'UNB', 'VV', 'YET', 'LEB', 'GOB', 'VPT') + tuple(fmt.FOREIGN)})
NOBRIDGES = ('U3N', 'U2N')        # the whole text of a bridge goes into its first verse, and the others are there without text
FIXED = ('TWD', 'MYS', 'ESW', 'MYB', 'EW')        # a fixed scheme of verses: no others can be exported
LABEL = re.compile(r'(<sup>)?\((\d+-\d+|\d+[ab])\)(</sup>)?')     # how such formats show a bridge (with its text in each of its verses) or a part of a verse
CLAMP = dict(PSA=[6, 12, 8, 8], ISA=[8, 8, 8, 6], MAL=[8, 8, 8, 6], HAG=[8, 8], JN3=[8], JDE=[8], OBA=[8], PHM=[8])
CHAIN = ('U3', 'U2', 'USX', 'X3', 'BCV', 'PKL')   # carry everything, so they can come before another export


def clean(s, words):
    return ' '.join(re.findall(r'[^\W_]+', s or '')) if words else re.sub(r'\s+', ' ', s or '').strip()


def plainer(s):
    """How EasyWorship writes quotation marks and dashes."""
    for a, b in ('“"', '”"', "‘'", "’'"): s = s.replace(a, b)
    return s.replace('–', '--').replace('—', '--')


def key(c, v):
    m = re.match(r'\d+', v or '')
    return c, m.group() if m else v


def verses(B):
    out = []
    for BBB, b in B.books.items():
        c, v = '-1', '0'
        for e in b._processedLines:
            m = e.getMarker(); t = e.getCleanText() or ''
            if m == 'c': c, v = t, '0'
            elif m == 'v': v = t; out.append((BBB, c, v, ''))
            elif m in MARK: out.append((BBB, c, v, t))
    return out


def aside(B):
    """Headings, introductions and notes, with the chapter and verse at which they stand (headings: only the chapter)."""
    out = []
    for BBB, b in B.books.items():
        c, v = '-1', '0'
        for e in b._processedLines:
            m = e.getMarker()
            if m == 'c': c, v = e.getCleanText(), '0'
            elif m == 'v': v = e.getCleanText()
            elif m in ('s', 's1', 'is', 'is1', 'ip', 'r', 'd', 'rem'): out.append((BBB, c, {'s1': 's', 'is1': 'is'}.get(m, m), clean(e.getCleanText(), True)))
            for x in e.getExtras() or ():
                if x.getType() in ('fn', 'xr'): out.append((BBB, *key(c, v), x.getType(), clean(x.cleanNoteText, True)))
    return out


def expect_aside(spec):
    out = []
    for bk in spec['books']:
        c, v = '-1', '0'
        for line in gen.book_plan(spec, bk)[0]:
            m, _, t = line[1:].partition(' ')
            if m == 'c': c, v = t, '0'
            elif m == 'v': v = t.split(' ')[0]
            elif m in ('s1', 'is1', 'ip', 'r', 'd', 'rem'): out.append((bk['b'], c, {'s1': 's', 'is1': 'is'}.get(m, m), clean(t, True)))
            for k, note in re.findall(r'\\([fx]) . (.*?)\\[fx]\*', t):
                out.append((bk['b'], *key(c, v), {'f': 'fn', 'x': 'xr'}[k], clean(re.sub(r'\\\+?[a-z]+(\* ?| )', lambda m: '' if not m.group().endswith('* ') else ' ', note), True)))
    return out


def opened(name, folder, procs):
    G = common.G()
    G.maxProcesses = procs
    B = FORMATS[name][0].open(folder)
    fmt.load(B)
    return B


def export(name, folder, how, e, out, times, procs):
    """Load a Bible and export it (the last time without faults); says what each try said."""
    if how is None:
        from BibleOrgSys.Formats.USFMBible import USFMBible
        common.G().maxProcesses = procs
        B = USFMBible(folder, givenName='Test', givenAbbreviation='TST')
        B.load()
    else: B = opened(how, folder, procs)
    common.G().maxProcesses = 1
    faults = world.W.faults
    said = []
    for k in range(times):
        world.W.faults = []
        os.makedirs(out, exist_ok=True)
        if k < times - 1: world.W.faults = faults
        try: said.append(bool(getattr(B, e)(out, **getattr(FORMATS.get(name, (None,))[0], 'kw', {}))))
        except Exception as x:
            import traceback
            said.append(f"{type(x).__name__}: {x} {traceback.format_exc()[-1500:]}")
    return dict(said=said, books=list(B.books))


def archives(out):
    """The archives must hold the files beside them (a collection all of them, x.zip the file x)."""
    bad, n = [], 0
    for d, _, fs in os.walk(out):
        for f in fs:
            base, e = os.path.splitext(f)
            if e not in ('.zip', '.gzip', '.bz2') or not (base.startswith('All') or base in fs): continue
            n += 1
            try:
                if e == '.zip':
                    with zipfile.ZipFile(os.path.join(d, f)) as z:
                        if z.testzip(): bad.append(f'{f} is damaged'); continue
                        have = {x: z.read(x) for x in z.namelist() if not x.endswith('/')}
                else:
                    with tarfile.open(os.path.join(d, f)) as z: have = {x.name: z.extractfile(x).read() for x in z.getmembers() if x.isfile()}
            except (zipfile.BadZipFile, tarfile.TarError, EOFError, zlib.error, OSError) as x:
                bad.append(f'{f} can not be read: {x}'); continue
            side = os.path.join(d, dict(AllWebFiles='Website', AllUSX2Files='USX2Files', AllUSX3Files='USX3Files').get(base, ''))
            want = {x: open(os.path.join(side, x), 'rb').read() for x in ([base] if base in fs else os.listdir(side)) if os.path.isfile(os.path.join(side, x)) and not x.endswith(('.zip', '.gzip', '.bz2'))}
            if set(have) != set(want): bad.append(f'{f} has {sorted(have)} instead of {sorted(want)}')
            else: bad += [f'{x} in {f} is not the file {x}' for x in have if have[x] != want[x]]
    return bad, n


def read(name, folder, procs):
    B = opened(name, folder, procs)
    return dict(books=list(B.books), verses=verses(B), aside=aside(B))


class P(Prop):
    id = 'P13'
    runs = dict(quick=930, thorough=40000)
    wall = dict(quick=75, thorough=2400)
    timeout = 240
    rule = ('A run exports one generated Bible (directly, or after it has been through one or two other formats) into a format that the library reads, with seeded folder listings, short writes and small buffers, sometimes after earlier tries that '
            'were crashed or met write errors, and reads it back in a fresh program, in one process or several; the books, verses and verse texts must be those that were generated. Formats that are only read are written by the generator. Non-trivial: always. Distinct = distinct full event traces.')
    assumptions = ['Each format is given only the features of a text which it can carry (books with a fixed number of verses get no verses beyond it, for example).',
                   'Headings, introductions and notes are compared for the formats that carry them (CARRY in the code), the layout is not; parts of a verse (3a, 3b) and bridges (3-4) count as their first verse number.',
                   'Exports in ESFM, VPL, Sword modules and the display formats (HTML, TeX and so on) are not one half of a pair of exporter and importer and are not read back.']

    def gen(self, rng, i, tier):
        name = list(FORMATS)[i % len(FORMATS)]
        can = FORMATS[name][1]
        feats = [x for x in can if rng.random() < rng.choice([.15, .45, .8])]
        bible = gen.make(rng, feats=feats, blanks=False, nbooks=rng.choice([1, 1, 2, 3, 5] if name != 'SWD' else [1, 3, 5, 5]), maxch=rng.choice([2, 4]), maxv=8)
        bible['plainnames'] = True
        for b in bible['books']:
            if rng.random() < .3: b["f"] = [x for x in can if rng.random() < .4]
            if name in FIXED and b['b'] in CLAMP: b['ch'] = [min(x, m) for x, m in zip(b['ch'], CLAMP[b['b']])]
            elif b['b'] in ('HAG',): b['ch'] = b['ch'][:2]
        if rng.random() < .45:
            rich = [x for x in gen.RICH if x not in NORICH.get(name, ()) and rng.random() < rng.choice([.2, .6])]
            for b in bible['books']: b['f'] = list(b['f']) + rich
        if name not in ('FORGE','VPT') and rng.random() < .3:       # (where [..] has no meaning of its own)
            for b in bible['books']: b['f'] = list(b['f']) + ['spiky']
        steps = [rng.choice(CHAIN) for _ in range(rng.choice([0, 0, 0, 1, 2]))] + [name]
        if name in ONLY: steps = [name]
        before = rng.choice(['none', 'none', 'none', 'crash', 'again', 'fault']) if name not in ONLY else 'none'
        fault = None
        if before in ('crash', 'fault'):
            fault = dict(kind=rng.choice(['crash', 'crash', 'torn']) if before == 'crash' else rng.choice(['eio', 'enospc', 'eacces']), ops=rng.choice(['write', 'write', 'any' if before == 'crash' else 'write', ['open-w'], ['close-w'], ['sql']]), at=int(rng.choice([2, 10, 60, 300]) * rng.random()), path='/run/out')
        ws = [common.make_world(rng, buf=rng.choice([0, 0, 64, 512]), short=rng.choice([None, None, 7, 100])) for _ in range(2)]
        return dict(fmt=name, bible=bible, steps=steps, before=before, fault=fault, procs=[rng.choice([1, 1, 2, 3]) for _ in range(2)], worlds=ws)

    def shrink(self, case):
        if case['before'] != 'none': yield dict(case, before='none', fault=None)
        if len(case['steps']) > 1:
            for k in range(len(case['steps']) - 1): yield dict(case, steps=case['steps'][:k] + case['steps'][k + 1:])
        if case['procs'] != [1, 1]: yield dict(case, procs=[1, 1])
        for w in gen.shrink(case['bible']): yield dict(case, bible=dict(w, plainnames=True))
        for k, b in enumerate(case['bible']['books']):
            for x in b['f']:
                bs = list(case['bible']['books']); bs[k] = dict(b, f=[y for y in b['f'] if y != x])
                yield dict(case, bible=dict(case['bible'], books=bs))

    def run(self, c, case):
        src = c.path('src')
        only = case['fmt'] in ONLY
        if only: FORMATS[case['fmt']][0].make(c, case['bible'], src)
        else: gen.write_usfm(src, case['bible'], 'usfm')
        have, wa, wb = None, *case['worlds']
        for n, st in enumerate(case['steps']):
            F = FORMATS[st][0]
            out = c.path(f'out{n}')
            last = n == len(case['steps']) - 1
            tag = f"{' > '.join(['USFM'] + case['steps'][:n + 1])}" if not only else st
            if only: break
            if last and case['before'] == 'crash':
                o = c.spawn(export, st, src, have, F.exported, out, 2, case['procs'][0], cfg=dict(wa, faults=[case['fault']]))
                if o.status == 'crash': c.probe('crashed-before')
                elif not o.ok: raise Violation(f'P13:export:{st}', f"{tag}: exporting: {o.describe()}", getattr(o, 'tb', ''))
            o = c.spawn(export, st, src, have, F.exported, out, 2 if last and case['before'] in ('again', 'fault') else 1, case['procs'][0], cfg=dict(wa, faults=[case['fault']] if last and case['before'] == 'fault' else []))
            if not o.ok: raise Violation(f'P13:export:{st}', f"{tag}: exporting: {o.describe()}", getattr(o, 'tb', ''))
            if o.value['said'][-1] is not True: raise Violation(f'P13:export:{st}', f"{tag}: {F.exported}: {str(o.value['said'][-1])[:300]}", str(o.value['said']))
            if o.world and o.world['fired']: c.probe('fault-before')
            bad, k = archives(out)
            if bad: raise Violation(f'P13:archive:{st}', f"{tag}: {bad[0]}", str(bad))
            c.probe('archives', k)
            nxt = c.path(f'in{n}')
            F.pick(out, nxt)
            src, have = nxt, st
        c.nontrivial = True
        c.probe('format-' + st); c.probe(f'steps-{len(case["steps"])}')
        o = c.spawn(read, st, src, case['procs'][1], cfg=wb)
        if not o.ok: raise Violation(f'P13:import:{st}', f"{tag}: reading it back: {o.describe()}", getattr(o, 'tb', ''))
        self.judge(case, st, tag, o.value)

    def judge(self, case, st, tag, got):
        words = st in WORDS
        plain = FORMATS[st][0].expect(case['bible']) if isinstance(FORMATS[st][0], fmt.Plain) else gen.plain_verses(case['bible'])
        exp = list(dict.fromkeys(x[0] for x in plain))
        if st == 'EW':      # always has 66 books
            none = {b for b in got['books'] if [x[1:] for x in got['verses'] if x[0] == b] == [('1', '1', ''), ('1', '1', 'Book not available')]}
            got = dict(books=[b for b in got['books'] if b not in none], verses=[v for v in got['verses'] if v[0] not in none])
        if st == 'SWD': got['books'] = [b for b in got['books'] if b in exp or b in {v[0] for v in got['verses']}]      # always has all the books of a testament
        if got['books'] != exp: raise Violation(f'P13:books:{st}', f"{tag}: the books come back as {got['books']} instead of {exp}")
        want, have, order = {}, {}, []
        for b, ch, lab, plain in plain:
            first = key(ch, lab)[1]
            for v in [first] if st not in FIXED + NOBRIDGES else [str(x) for x in range(int(lab.split('-')[0]), int(lab.split('-')[-1]) + 1)]:
                k = (b, ch, v)
                want[k] = clean(want.get(k, '') + ' ' + (plainer(plain) if st == 'EW' else plain if st not in NOBRIDGES or v == first else ''), words)
        for b, ch, v, t in got['verses']:
            k = (b,) + key(ch, v)
            if st in NOBRIDGES and '-' in v: raise Violation(f'P13:text:{st}', f"{tag}: {b} {ch}:{v} is still a bridge")
            if st in FIXED: t = LABEL.sub(' ', t)
            if st in ('TWD', 'MYS'): t = t.replace('•', ' ')        # how they show an item of a list
            if st == 'ESW': t = re.sub(r'<TS\d>.*?<Ts>', '', t)
            have[k] = clean(have.get(k, '') + ' ' + t, words)
            if k not in order: order.append(k)
        miss = [k for k in want if k not in have]
        if miss: raise Violation(f'P13:lost:{st}', f"{tag}: {len(miss)} of {len(want)} verses are lost: {miss[:4]}")
        extra = [k for k in have if k not in want and not (st in FIXED and have[k] in ('', '(-)', '-')) and (have[k] or k[2] != '0')]
        if extra: raise Violation(f'P13:extra:{st}', f"{tag}: {len(extra)} verses that were never there: {[(k, have[k][:60]) for k in extra[:3]]}")
        for k in want:
            if have[k] != want[k]: raise Violation(f'P13:text:{st}', f"{tag}: the text of {k[0]} {k[1]}:{k[2]} was {want[k]!r} and comes back as {have[k]!r}")
        if [k for k in order if k in want] != list(want): raise Violation(f'P13:order:{st}', f"{tag}: the verses come back in another order")
        if st in CARRY:
            w, h = expect_aside(case['bible']) if st not in fmt.FOREIGN else [x[:-1] + (clean(x[-1], True),) for x in FORMATS[st][0].notes], got['aside']
            kinds = CARRY[st]
            w, h = [[x[:-1] + (re.sub(r'^\d+ \d+ (?=.)', '', x[-1]),) for x in y if x[-2] in kinds] for y in (w, h)]
            if st in FIXED: w, h = [list({x[0::4] + x[3:]: x for x in reversed(y)}.values())[::-1] for y in (w, h)]
            if st == 'XHG': h = [x[:-1] + (x[-1].removeprefix('variant '),) for x in h]       # (its kind of note)
            if w != h:
                n = next((n for n, (x, y) in enumerate(zip(w, h)) if x != y), min(len(w), len(h)))
                raise Violation(f'P13:aside:{st}', f"{tag}: of the headings, introductions and notes {w[n:n + 2]} come back as {h[n:n + 2]} (number {n} of {len(w)}, {len(h)})")


PROP = P()
