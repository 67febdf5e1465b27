"""P19: searching finds exactly the occurrences that are in the text, whatever was done before."""
import copy, re
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from . import common
from .p03 import put, EDIT

FORMATS = ['USFM', 'USFM2', 'PTX8', 'USX', 'BCV', 'ESFM', 'OSIS', 'PTX7', 'PKL', 'ZEF', 'SB', 'UWN']
TEXT = ('USFM', 'USFM2', 'PTX7', 'PTX8', 'SB')        # written from the same USFM text
DEFAULTS = dict(wordMode='Any', caselessFlag=True, ignoreDiacriticsFlag=False, includeIntroFlag=True, includeMainTextFlag=True, includeMarkerTextFlag=False, includeExtrasFlag=False,
                contextLength=30, bookList='ALL', chapterList=None, markerList=None)


def dump(B):
    """What the Bible holds, as plain data."""
    return [(BBB, [(e.getMarker(), e.getOriginalMarker(), e.getCleanText(), e.getFullText(), [(x.getType(), x.getText()) for x in e.getExtras() or []]) for e in b]) for BBB, b in B.books.items()]


def session(name, folder, vfolders, out, procs, ops, start):
    import logging
    G = common.G(); G.maxProcesses = procs
    faults, world.W.faults = world.W.faults, []
    B = fmt.ALL[name].open(folder)
    if start == 'all': fmt.load(B)
    else:
        B.preload()
        for b in start:
            try: B.loadBookIfNecessary(b)
            except Exception: pass
    G.maxProcesses = 1
    res = []; state = None; dicts = {}
    for op in ops:
        k = op[0]
        r = None
        try:
            if k == 'find':
                d = dicts.setdefault(op[1], {})
                if op[2]: d.clear()
                d.update(copy.deepcopy(op[3]))
                before = dump(B)
                o, s, L = B.findText(d)
                r = dict(same=o is d, opts={x: copy.deepcopy(y) for x, y in o.items() if x not in ('parentWindow', 'parentBox', 'givenBible', 'currentBCV')}, searched=list(s['searchedBookList']), found=list(s['foundBookList']),
                         hits=[[x[0].getVerseKeyText()] + list(x[1:]) for x in L], held=None if before == state else before)
                state = before
                r['changed'] = canon.diff(before, dump(B))
            elif k == 'edit': put(vfolders[op[2]], folder)
            elif k == 'reload':
                if op[2]: world.W.faults = faults
                B.reloadBook(op[1])
            elif k == 'load': B.loadBookIfNecessary(op[1])
            elif k == 'discover': B.discover()
            elif k == 'check': B.check()
            elif k == 'section': B.discover(); B.makeSectionIndex()
            elif k == 'export': getattr(B, op[1])(out)
            elif k == 'text': B.getVerseText(tuple(op[1]))
        except Exception as e:
            import traceback
            r = f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}"
        finally: world.W.faults = []
        res.append(r)
    return dict(res=res, paras=list(G.USFMParagraphMarkers), accents=dict(G.ACCENT_DICT), standard={m: G.loadedUSFMMarkers.toStandardMarker(m) for m in MARKERS}, types=types())


def types():
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_EXTRA_TYPES, BOS_EXTRA_MARKERS
    return dict(zip(BOS_EXTRA_TYPES, BOS_EXTRA_MARKERS))


MARKERS = ['p', 'q', 'q2', 's', 's1', 'mt1', 'mt', 'm', 'toc1', 'ip', 'pi', 'd']


def search(held, o, env):
    """The reference: (books searched, books found, hits) for the complete options o."""
    find = o['findText']
    regex = find.lower().startswith('regex:')
    if regex: find = find[6:]
    acc = env['accents']
    def fold(s):
        """The text to compare, and where each of its characters (and the end) is in s."""
        if o['ignoreDiacriticsFlag']:
            P = [(y, i) for i, x in enumerate(s) for y in acc.get(x, x)]
            s, at = ''.join(y for y, i in P), [i for y, i in P] + [len(s)]
        else: at = list(range(len(s) + 1))
        if o['caselessFlag'] and not regex: s = s.lower()        # (the texts have no character whose lower case is longer)
        return s, at
    find = fold(find)[0]
    if regex: rx = re.compile(find, re.I if o['caselessFlag'] else 0)
    marks = [env['standard'][m] for m in o['markerList'] or []]
    searched, found, hits = [], [], []
    alpha = lambda s, i: 0 <= i < len(s) and s[i].isalpha()
    for BBB, lines in held:
        if not (o['bookList'] in (None, 'ALL') or BBB in o['bookList']): continue
        searched.append(BBB)
        C, V, para = '-1', '-1', None
        for marker, orig, clean, full, extras in lines:
            if marker[0] == '¬' or marker in ('headers', 'intro', 'chapters'): continue
            if marker == 'c': C, V = clean, '0'
            elif marker == 'v': V = clean
            elif C == '-1': V = str(int(V) + 1)
            if marks:
                if marker not in marks and not (marker in ('v~', 'p~') and para in marks):
                    if marker in env['paras']: para = marker
                    continue
            elif C == '-1' and not o['includeIntroFlag']: continue
            if marker in env['paras']: para = marker
            cl = o['chapterList']
            if not (cl is None or C in cl or int(C) in cl): continue
            t = full if o['includeExtrasFlag'] else clean
            if not o['includeMainTextFlag'] and not marks and C != '0' and (marker in ('v~', 'p~') or marker in env['paras']):
                t = ' '.join((f"\\{env['types'][ty]} " if o['includeMarkerTextFlag'] else '') + tx for ty, tx in extras) if o['includeExtrasFlag'] else ''
            if o['includeMarkerTextFlag']: t = f'\\{marker} {t}'
            if not t: continue
            s, at = fold(t)
            if regex: spans = [m.span() for m in rx.finditer(s)]
            else:
                spans = []; i = s.find(find)
                while i >= 0:
                    j = i + len(find); m = o['wordMode']
                    if not (m in ('Whole', 'Begins') and alpha(s, i - 1) or m in ('Whole', 'EndsWord') and alpha(s, j) or m == 'EndsLine' and j < len(s)): spans.append((i, j))
                    i = s.find(find, i + 1)
            for i, j in spans:
                i, j = at[i], at[j] if j == len(s) or j == i else at[j - 1] + 1
                n = o['contextLength']
                ctx = (t[max(0, i - n):i], t[j:j + n]) if n else (None, None)
                mid = [t[i:j]] if o['caselessFlag'] else []
                hits.append([f"{BBB}_{C}:{V.split('-')[0]}!{i}", orig, ctx[0], *mid, ctx[1]])
                if BBB not in found: found.append(BBB)
    return searched, found, hits


class P(Prop):
    id = 'P19'
    runs = dict(quick=1300, thorough=40000)
    wall = dict(quick=60, thorough=1800)
    rule = ('A run is one Bible in one of 12 formats, loaded at once (with or without worker processes) or book by book, put through a seeded history of searches - with fresh options or the ones of an earlier search - '
            'mixed with reloads of changed books (also failing ones), checks, indexing and exports; every search is compared with a reference search of the lines the Bible holds then, and searches for a word that '
            'is in one verse only with the text on the disk. Non-trivial: at least one search with an occurrence was compared. Distinct = distinct full event traces.')
    assumptions = ['The lines a Bible holds are taken from the Bible (P01, P04 and P13 compare them with the source); the reference search of these lines is independent of the program.',
                   'Searches for digits only and searches that begin in the middle of a marker are not generated.']

    def gen(self, rng, i, tier):
        name = FORMATS[i % len(FORMATS)]
        f = fmt.ALL[name]
        bible = gen.make(rng, blanks=f.blanks, maxbooks=5, minbooks=2, extra=['liga', 'spiky'], books=fmt.NT if name in ('OSIS', 'USX', 'ZEF') and rng.random() < .7 else None)
        have = [b['b'] for b in bible['books'] if not b.get('blank')]
        chs = {b['b']: b['ch'] for b in bible['books']}
        ops = []; nver = 0
        def tag():
            b = rng.choice(have); c = rng.randrange(len(chs[b]))
            return b, c + 1, rng.randint(1, chs[b][c])
        def opts(first):
            w = rng.random()
            if w < .25: b, c, v = tag(); t = f'{b.lower()}{c}x{v}'
            elif w < .33: b, c, v = tag(); t = rng.choice([f'{b.lower()}{c}x', 'x1', b.lower()])
            elif w < .45: t = 'regex:' + rng.choice(['w.r', 'W.r', r'\bthe\b', r'[aeiou]{2}', r'\S+x1', 'l(ight|and)', 'é', r'x\d+', r'\w+[.!?]$', 'AND', r'(?<=a)n'])
            elif w < .55: t = rng.choice(['Θεος', 'Θεός', 'e', 'E', 'ae', 'naïve', 'o', 'ñ', 'n', 'a', 'aa', 'coeur', 'manoeuv', 'œ', 'aeg', 'Æ', 'strasse', 'uv'])
            elif w < .65: t = rng.choice(['Note', 'or ', 'Gen 1', 'Heading', 'Introduction', 'Sub', 'book of', '\\p', '\\q'])
            else: t = rng.choice(['the', 'The', 'LIGHT', 'light', 'and', 'land', 'ea', 'man', 'woman', 'sea', 'said', 'child.', 'water,', 'in'])
            o = dict(findText=t)
            def maybe(k, p, vals):
                if rng.random() < p: o[k] = rng.choice(vals)
            maybe('wordMode', .5, ['Any', 'Whole', 'Begins', 'EndsWord', 'EndsLine'])
            if ' ' in t and not t.startswith('regex:') or rng.random() < .1: o['wordMode'] = 'Any'
            maybe('caselessFlag', .5, [True, False, False]); maybe('ignoreDiacriticsFlag', .35, [True, False]); maybe('includeIntroFlag', .4, [True, False])
            maybe('includeMainTextFlag', .35, [True, False, False]); maybe('includeMarkerTextFlag', .3, [True, False]); maybe('includeExtrasFlag', .5, [True, True, False])
            maybe('contextLength', .4, [0, 1, 10, 30, 200])
            if rng.random() < .3: o['bookList'] = rng.choice(['ALL', None, rng.sample(have, rng.randint(1, len(have)))])
            if rng.random() < .2:
                o['bookList'] = [rng.choice(have)]; n = len(chs[o['bookList'][0]])
                o['chapterList'] = rng.choice([None, [rng.randint(1, n)], [str(rng.randint(1, n))], [rng.randint(1, n), n], [-1], ['-1', 1]])
            elif rng.random() < .4: o['chapterList'] = None
            if rng.random() < .15:
                o.update(markerList=rng.sample(MARKERS, rng.randint(1, 3)), includeIntroFlag=False)
                if rng.random() < .3: o.update(includeMainTextFlag=False, includeMarkerTextFlag=False, includeExtrasFlag=False)
            elif rng.random() < .4: o['markerList'] = None
            return o
        for k in range(rng.choice([3, 6, 10, 16])):
            w = rng.random()
            if w < .72 or not ops: ops.append(['find', rng.randrange(2), rng.random() < .5, opts(not ops)])
            elif w < .84 and name in EDIT:
                b = rng.choice(have)
                if rng.random() < .75: nver += 1; ops.append(['edit', b, nver])
                ops.append(['reload', b, rng.random() < .25])
            elif w < .89: ops.append([rng.choice(['discover', 'check', 'section'])])
            elif w < .93: ops.append(['export', rng.choice(['toUSFM3', 'toText', 'toESwordBible', 'toHTML5', 'toMarkdown', 'toOSISXML'])])
            else: b, c, v = tag(); ops.append(['text', [b, str(c), str(v)]])
        start = 'all'
        if name in ('USFM', 'USFM2', 'USX', 'PTX8', 'BCV') and rng.random() < .25:
            start = rng.sample(have, rng.randint(1, len(have)))
            for b in have:
                if rng.random() < .3: ops.insert(rng.randrange(len(ops) + 1), ['load', b])
        ft = dict(kind=rng.choice(['eio', 'eacces', 'enoent', 'eio']), ops=rng.choice([['open-r'], ['read'], 'any']), at=rng.choice([0, 0, 1, 2, 5]), path='/run/src')
        return dict(fmt=name, bible=bible, start=start, procs=rng.choice([1, 3]), ops=ops, world=common.make_world(rng, faults=[ft]))

    def run(self, c, case):
        name = case['fmt']; f = fmt.ALL[name]; spec = case['bible']
        folder = c.path('src')
        f.make(c, spec, folder)
        have = {b['b'] for b in spec['books'] if not b.get('blank')}
        disk = dict.fromkeys(have, 0); vfolders = {}; ops = []
        for o in case['ops']:
            if o[0] in ('edit', 'reload', 'load') and o[1] not in have: continue
            if o[0] == 'edit':
                disk[o[1]] = o[2]
                vfolders[o[2]] = c.path(f'v{o[2]}')
                f.make(c, spec, vfolders[o[2]], edits={b: v for b, v in disk.items() if v})
            ops.append(o)
        start = case['start'] if case['start'] == 'all' else [b for b in case['start'] if b in have]
        s = c.spawn(session, name, folder, vfolders, c.path('out'), case['procs'], ops, start, cfg=dict(case['world']))
        if s.status == 'deadlock': raise Violation(f'P19:wedged:{name}', 'a history of searches never ends', s.excmsg)
        if not s.ok:
            raise Violation(f'P19:fails:{name}', f'a history of searches fails: {s.describe()}', s.tb)
        env = s.value
        held = None; prev = {}; n = 0
        disk = dict.fromkeys(have, 0); loaded = dict(disk) if start == 'all' else {b: 0 for b in start}; sure = True
        for o, r in zip(ops, env['res']):
            if o[0] == 'edit': disk[o[1]] = o[2]
            elif o[0] == 'load': loaded.setdefault(o[1], disk[o[1]])
            elif o[0] == 'reload':
                if r is None and not o[2]: loaded[o[1]] = disk[o[1]]
                else: loaded.pop(o[1], 0)
            if o[0] != 'find': c.probe('op-' + o[0]); continue
            q = {} if o[2] else dict(prev.get(o[1], {}))
            q.update(copy.deepcopy(o[3]))
            if isinstance(r, str): raise Violation('P19:fails', f"{name}: searching with {q} fails after {[x[0] for x in ops[:ops.index(o)]]}", r)
            full = {**DEFAULTS, **q}
            if r['held'] is not None: held = r['held']
            if r['changed']: raise Violation('P19:changes', f"{name}: searching with {q} changed the Bible", r['changed'])
            searched, found, hits = search(held, full, env)
            if r['hits'] != hits:
                lost = [h for h in hits if h not in r['hits']][:3]; extra = [h for h in r['hits'] if h not in hits][:3]
                raise Violation('P19:hits', f"{name}: searching with {q}: {len(r['hits'])} occurrences are reported, {len(hits)} are in the text; not reported {lost}, wrongly reported {extra}", str(ops)[:800])
            if r['searched'] != searched or r['found'] != found: raise Violation('P19:summary', f"{name}: searching with {q}: the summary says searched {r['searched']}, found in {r['found']}; right is {searched}, {found}")
            hist = list(q.get('findHistoryList', []))
            if q['findText'] in hist: hist.remove(q['findText'])
            hist.append(q['findText'])
            if r['opts'].get('findHistoryList') != hist: raise Violation('P19:history', f"{name}: after searching for {q['findText']!r} the history is {r['opts'].get('findHistoryList')}, right is {hist}")
            for k in DEFAULTS:
                v = full[k]
                if r['opts'].get(k) != v: raise Violation('P19:options', f"{name}: searching with {q} changed the option {k} to {r['opts'].get(k)!r}")
            full['findHistoryList'] = hist; prev[o[1]] = full
            n += bool(hits); c.probe('searches'); c.probe('occurrences', len(hits))
            # a word that only one verse has
            m = re.fullmatch(r'([a-z]{2}[a-z0-9])(\d+)x(\d+)', full['findText'])
            if m and name in TEXT and full['wordMode'] == 'Whole' and full['includeMainTextFlag'] and not full['markerList'] and not full['chapterList'] and full['bookList'] in (None, 'ALL') and full['caselessFlag'] and not full['includeExtrasFlag']:
                BBB = m.group(1).upper()
                bk = next((b for b in spec['books'] if b['b'] == BBB), None)
                if bk and BBB in loaded and 'words' not in bk['f']:
                    want = set()
                    for _b, ch, v, t in gen.book_plan(spec, bk, loaded[BBB])[1]:
                        if ch == m.group(2) and re.search(rf"(?<![a-z]){full['findText']}(?![a-z])", t.lower()): want.add(int(re.match(r'\d+', v).group()))
                    got = {int(re.match(r'\d+', h[0].split(':')[1]).group()) for h in r['hits'] if h[0].startswith(f'{BBB}_{m.group(2)}:')}
                    if got != want: raise Violation('P19:source', f"{name}: {full['findText']} is in {BBB} {m.group(2)}:{sorted(want)} on the disk, and is found in {sorted(got)}")
                    c.probe('compared-with-source')
        c.nontrivial = n >= 1
PROP = P()
