"""P20 What is shown is what is there: the reading editions hold every book, verse, heading and note once, in order, with its text.

The exports that are made to be read by people (HTML pages, plain text, Markdown, SwordSearcher/Forge text, listings, BibleDoor
pages) have no importer; each is read here with a small reader of its own and compared with the generated Bible.  The
collections (zip files) beside them must hold exactly the files beside them."""
import ast, json, os, re, zipfile
from html.parser import HTMLParser
from sim import gen, world
from sim.ctx import Prop, Violation
from sim.props import common, p13
from sim.props.p13 import clean, key, CHAIN


class Page(HTMLParser):
    """The verses, headings and notes of an HTML page."""
    H = {'mainTitle1': 'mt', 'sectionHeading1': 's', 'introductionSectionHeading1': 'is', 'introductionParagraph': 'ip', 'sectionCrossReference': 'r'}

    def __init__(self, s):
        super().__init__(convert_charrefs=True)
        self.stack, self.v, self.verses, self.aside, self.ids, self.links, self.refs, self.notes = [], ('-1', '0'), [], [], [], [], [], {}
        self.feed(s); self.close()

    VOID = ('br', 'meta', 'link', 'img', 'hr')

    def handle_starttag(self, tag, a):
        a = dict(a); cl = a.get('class', '')
        if 'id' in a: self.ids.append(a['id'])
        if tag == 'a' and cl != 'bookNav': self.links.append(a.get('href'))
        if re.match(r'(FNote|XRef)\d', a.get('id', '')): self.notes[a['id']] = ''
        if tag not in self.VOID: self.stack.append((tag, cl))
        m = re.fullmatch(r'C(\d+)V([^_]*)(_\d+)?', a.get('id', '')) if cl == 'verse' else None
        if m: self.v = m.groups()[:2]; self.verses.append([*self.v, ''])
        if cl == 'chapterStart': self.v = (re.sub(r'\D', '', a['id']), '0')
        if cl in ('footnoteLinkSymbol', 'xrefLinkSymbol'): self.aside.append([*key(*self.v), cl[0] == 'f' and 'fn' or 'xr', a.get('title', '')]); self.refs.append((a['href'][1:], a.get('title', '')))
        if cl in self.H: self.aside.append([self.v[0], self.H[cl], ''])
        if any(t in ('p', 'td') for t in (tag,)) and self.verses: self.verses[-1][2] += ' '

    def handle_endtag(self, tag):
        if any(t == tag for t, _ in self.stack):        # as a browser does
            while self.stack.pop()[0] != tag: pass

    def handle_data(self, d):
        cl = [c for _, c in self.stack]
        if any(c.endswith('LinkSymbol') for c in cl): return
        if any(c in self.H for c in cl): self.aside[-1][-1] += d
        if any(c in ('footnoteEntry', 'xrefEntry') for c in cl) and self.notes: self.notes[list(self.notes)[-1]] += d
        if 'verseText' in cl:
            if not self.verses: raise ValueError(f'text before the first verse: {d!r}')
            self.verses[-1][2] += d


def bom(s): return s[1:] if s.startswith('\ufeff') else s


def rd(p):
    with open(p, encoding='utf-8') as f: return f.read()


class Shown:
    words, aside = False, ()

    def names(self, bk, n): raise NotImplementedError


class HTML(Shown):
    exported = 'toHTML5'; aside = ('mt', 's', 'is', 'ip', 'r', 'fn', 'xr')

    def read(self, out, books):
        V, A = [], []
        for b in books:
            P = Page(rd(f'{out}/Website/{b}.html'))
            V += [(b, *v) for v in P.verses]; A += [(b, *a) for a in P.aside]
            dup = {i for i in P.ids if P.ids.count(i) > 1}
            if dup: raise ValueError(f'{b}.html has several elements with the id {sorted(dup)[:3]}')
            if [x for x, _ in P.refs] != [x for x, _ in P.refs if x in P.notes] or len(P.refs) != len(P.notes): raise ValueError(f'{b}.html has the notes {list(P.notes)[:6]}.. and links to {[x for x, _ in P.refs][:6]}..')
            for x, t in P.refs:
                if clean(t, True) != clean(P.notes[x], True): raise ValueError(f'{b}.html has {t!r} as a link to the note {P.notes[x]!r}')
            lost = [x for x in P.links if not x or x[0] == '#' and not {x[1:], x[1:] + 'a', x[1:] + 'b'} & set(P.ids) or x.split('#')[0].endswith('.html') and not os.path.exists(f"{out}/Website/{x.split('#')[0]}")]
            if lost: raise ValueError(f'{b}.html has links that lead nowhere: {lost[:3]}')
        pages = sorted(x[:-5] for x in os.listdir(f'{out}/Website') if x.endswith('.html'))
        index = rd(f'{out}/Website/index.html')
        for b in books:
            if f'{b}.html' not in index: raise ValueError(f'index.html does not lead to {b}.html')
        return [p for p in pages if p not in ('index', 'about')], V, A


class TXT(Shown):
    exported = 'toText'; pat = 'BOS-BibleWriter-{}.txt'; sub = ''; aside = ('mt',)

    def parse(self, b, s):
        V, c = [], None
        for line in s.split('\n'):
            if not line.strip() or line.startswith(('#', ' ' * 9)): continue
            m = re.fullmatch(r'Chapter (\d+)', line)
            if m: c = m.group(1); continue
            if c is None: continue
            m = re.match(r'(\S+) (.*)$', line)
            if self.head and not re.match(r'\d', line): continue
            if not m: raise ValueError(f'{b}: what is {line!r}')
            V.append((b, c, m.group(1), m.group(2)))
        return V
    head = False

    def titles(self, b, s):
        before = [x for x in s.partition('\nChapter ')[0].split('\n') if x.startswith(' ')]
        return [(b, '-1', 'mt', x.strip()) for x in before]

    def read(self, out, books):
        V, A = [], []
        for b in books:
            s = rd(f'{out}/{self.pat.format(b)}')
            if self.exported == 'toText' and rd(f'{out}/Without_ByteOrderMarker/{self.pat.format(b)}') != bom(s): raise ValueError(f'{b}: the two text files differ')
            V += self.parse(b, bom(s)); A += self.titles(b, bom(s))
        have = [x for x in sorted(os.listdir(out)) if x.endswith(self.pat[-4:].lstrip('}'))]
        return [re.sub('^' + self.pat.replace('{}', '(.*)') + '$', r'\1', x) for x in have], V, A


class MD(TXT):
    exported = 'toMarkdown'; pat = 'BOS-BibleWriter-{}.md'; words = True; head = True; aside = ('mt', 's')

    def titles(self, b, s):
        A, c = [], '-1'
        for x in s.split('\n'):
            if x.startswith('Chapter '): c = x[8:]
            m = re.match('#{1,3} ', x)
            if m and (m.end() == 2) == (c == '-1'): A.append((b, c, 'mt' if m.end() == 2 else 's', x[m.end():]))
        return A

    def parse(self, b, s): return super().parse(b, re.sub(r'\[(?:fn|xr)\w*\]\([^)]*\)', '', s))


class SWS(Shown):
    exported = 'toSwordSearcher'

    def read(self, out, books):
        V, seen = [], []
        for line in bom(rd(f'{out}/Bible.txt')).split('\n'):
            m = re.fullmatch(r'\$\$ (.+) (\d+):(\S+)', line)
            if m:
                if not seen or seen[-1] != m.group(1): seen.append(m.group(1))
                if len(seen) > len(books): raise ValueError(f'more books than there are: {seen}')
                V.append((books[len(seen) - 1], m.group(2), m.group(3), ''))
            elif line.strip() and not line.startswith(';'):
                V[-1] = V[-1][:3] + (V[-1][3] + ' ' + line,)
        return books[:len(seen)], V, []


class VPL(Shown):
    exported = 'toVPL'
    NAMES = {'GEN': 'Ge', 'MAT': 'Mt', 'JDE': 'Jude'}

    def read(self, out, books):
        V = []
        for b in books:
            n = self.NAMES.get(b, b)
            at = len(V)
            for line in bom(rd(f'{out}/Forge/BOS-BibleWriter-{n}.txt')).split('\n'):
                m = re.fullmatch(r'\$\$ (.+) (\d+):(\S+)', line)
                if m:
                    if m.group(1) != n: raise ValueError(f'{b} has {line!r}')
                    V.append((b, m.group(2), m.group(3), ''))
                elif line.strip() and not line.startswith('; '):
                    if len(V) == at: raise ValueError(f'{b}: text before the first verse: {line!r}')
                    V[-1] = V[-1][:3] + (V[-1][3] + ' ' + line.removeprefix('¶'),)
        back = {v: k for k, v in self.NAMES.items()}
        return [back.get(x, x) for x in (f[16:-4] for f in sorted(os.listdir(f'{out}/Forge')) if f.endswith('.txt'))], V, []


class PSF(Shown):
    exported = 'toPseudoUSFM'; aside = ('mt', 's', 'is', 'ip', 'r', 'd', 'rem')

    def read(self, out, books):
        V, A, got = [], [], []
        for x in sorted(os.listdir(out)):
            m = re.fullmatch(r'(\d+)_(\w+)_BibleWriter\.pSFM', x)
            if not m: continue
            b = m.group(2); got.append((int(m.group(1)), b)); c, v = '-1', '0'
            for line in bom(rd(f'{out}/{x}')).split('\n'):
                if not line.strip(): continue
                k, _, t = line.strip().partition(' = ')
                lit = []
                while t and t[0] in '\'"':
                    m = re.match(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"", t)
                    lit.append(ast.literal_eval(m.group())); t = t[m.end():].lstrip(' ')
                s = lit[-1] if lit else ''
                if k == 'c': c, v = s, '0'
                elif k == 'v': v = s; V.append((b, c, v, ''))
                elif k in p13.MARK: V.append((b, c, v, s))
                if k in ('mt1', 's1', 'is1', 'ip', 'r', 'd', 'rem'): A.append((b, c, k.rstrip('1'), s))
        return [b for _, b in sorted(got)], V, A


class DOOR(Shown):
    exported = 'toBibleDoor'; aside = ('mt', 's', 'is', 'ip', 'r', 'fn', 'xr')

    def read(self, out, books):
        codes = json.loads(rd(f'{out}/BySection.1.CHTML/BDCmprnDict.1.json'))
        index = json.loads(rd(f'{out}/BySection.1.CHTML/BD-BCV-CHTML-Index.1.json'))
        V, A, got = [], [], []
        for b in books:
            data = open(f'{out}/BySection.1.CHTML/BDBook.{b}.1.chtml', 'rb').read()
            at = 0
            for x in index:
                if x[0] != b: continue
                if x[-2] != at: raise ValueError(f'the index of {b} leaves out or repeats something: {x} after {at}')
                at += x[-1]
            if at != len(data): raise ValueError(f'the index of {b} covers {at} bytes of {len(data)}')
            s = self.expand(data.decode('utf-8'), codes)
            with zipfile.ZipFile(f'{out}/BySection.1.HTML.zip/BDBook.{b}.1.html.zip') as z:
                h = z.read(z.namelist()[0]).decode('utf-8')
            if h != s: raise ValueError(f'{b}: the compressed page is not the page')
            P = Page(h)
            V += [(b, *v) for v in P.verses]; A += [(b, *a) for a in P.aside]
        for x in index:
            if x[0] not in got: got.append(x[0])
        return got, V, A

    @staticmethod
    def expand(s, codes):
        for short, long in codes: s = s.replace(short, long)
        return s


SHOWN = dict(HTML=HTML(), TXT=TXT(), MD=MD(), SWS=SWS(), VPL=VPL(), PSF=PSF(), DOOR=DOOR())
ALL = p13.ALL


class P(Prop):
    id = 'P20'
    runs = dict(quick=500, thorough=20000)
    wall = dict(quick=60, thorough=1800)
    timeout = 240
    rule = ('A run exports one generated Bible (directly, or after it has been through another format) as HTML pages, plain text, Markdown, SwordSearcher text, a listing of its entries, or BibleDoor pages, with seeded folder listings, short writes and small '
            'buffers, sometimes after earlier tries that were crashed or met write errors; what the files hold, read with the checks\' own readers, must be the generated verses, headings and notes. Non-trivial: always. Distinct = distinct full event traces.')
    assumptions = ['What these editions do not show (a remark, or an introduction in plain text) is not looked for.', 'The layout (paragraphs, styles) is not compared.']

    def gen(self, rng, i, tier):
        name = list(SHOWN)[i % len(SHOWN)]
        feats = [x for x in ALL + gen.RICH if x != 'vp' and rng.random() < rng.choice([.15, .45, .8])]
        bible = gen.make(rng, feats=feats, blanks=False, nbooks=rng.choice([1, 1, 2, 3, 5]), maxch=rng.choice([2, 4]), maxv=8)
        bible['plainnames'] = True
        for b in bible['books']:
            b['f'] = feats if rng.random() < .7 else [x for x in feats if rng.random() < .4]
        if rng.random() < .3:
            for b in bible['books']: b['f'] = list(b['f']) + ['spiky']
        steps = [rng.choice(CHAIN) for _ in range(rng.choice([0, 0, 0, 1, 2]))] + [name]
        before = rng.choice(['none', 'none', 'none', 'crash', 'again', 'fault'])
        fault = None
        if before in ('crash', 'fault'):
            fault = dict(kind=rng.choice(['crash', 'crash', 'torn']) if before == 'crash' else rng.choice(['eio', 'enospc', 'eacces']), ops=rng.choice(['write', 'write', 'any' if before == 'crash' else 'write', ['open-w'], ['close-w']]), at=int(rng.choice([2, 10, 60, 300]) * rng.random()), path='/run/out')
        ws = [common.make_world(rng, buf=rng.choice([0, 0, 64, 512]), short=rng.choice([None, None, 7, 100])) for _ in range(2)]
        return dict(fmt=name, bible=bible, steps=steps, before=before, fault=fault, procs=[rng.choice([1, 1, 2, 3]) for _ in range(2)], worlds=ws)

    shrink = p13.P.shrink

    def run(self, c, case):
        src = c.path('src')
        gen.write_usfm(src, case['bible'], 'usfm')
        have, wa = None, case['worlds'][0]
        for n, st in enumerate(case['steps']):
            last = n == len(case['steps']) - 1
            F = SHOWN[st] if last else p13.FORMATS[st][0]
            out = c.path(f'out{n}')
            tag = f"{' > '.join(['USFM'] + case['steps'][:n + 1])}"
            if last and case['before'] == 'crash':
                o = c.spawn(p13.export, st, src, have, F.exported, out, 2, case['procs'][0], cfg=dict(wa, faults=[case['fault']]))
                if o.status == 'crash': c.probe('crashed-before')
                elif not o.ok: raise Violation(f'P20:export:{st}', f"{tag}: exporting: {o.describe()}", getattr(o, 'tb', ''))
            o = c.spawn(p13.export, st, src, have, F.exported, out, 2 if last and case['before'] in ('again', 'fault') else 1, case['procs'][0], cfg=dict(wa, faults=[case['fault']] if last and case['before'] == 'fault' else []))
            if not o.ok: raise Violation(f'P20:export:{st}', f"{tag}: exporting: {o.describe()}", getattr(o, 'tb', ''))
            if o.value['said'][-1] is not True: raise Violation(f'P20:export:{st}', f"{tag}: {F.exported}: {str(o.value['said'][-1])[:300]}", str(o.value['said']))
            if o.world and o.world['fired']: c.probe('fault-before')
            if last: break
            nxt = c.path(f'in{n}')
            F.pick(out, nxt)
            src, have = nxt, st
        c.nontrivial = True
        c.probe('format-' + st); c.probe(f'steps-{len(case["steps"])}')
        books = o.value['books']
        plain = gen.plain_verses(case['bible'])
        exp = list(dict.fromkeys(x[0] for x in plain))
        if sorted(books) != sorted(exp): raise Violation(f'P20:books:{st}', f"{tag}: the program has the books {books} instead of {exp}")
        try: got, verses, aside = F.read(out, books)
        except (ValueError, KeyError, IndexError, AttributeError, OSError, zipfile.BadZipFile) as e: raise Violation(f'P20:form:{st}', f"{tag}: {type(e).__name__}: {e}")
        if sorted(got) != sorted(exp) and case['before'] in ('none', 'again'): raise Violation(f'P20:books:{st}', f"{tag}: the books {exp} are shown as {got}")
        self.judge(case, st, tag, F, plain, verses, aside)
        bad, n = p13.archives(out)
        if bad: raise Violation(f'P20:archive:{st}', f"{tag}: {bad[0]}", str(bad))
        c.probe('archives', n)

    def judge(self, case, st, tag, F, plain, verses, aside):
        want, have, order = {}, {}, []
        for b, ch, lab, t in plain:
            k = (b,) + key(ch, lab)
            want[k] = clean(want.get(k, '') + ' ' + t, F.words)
        for b, ch, v, t in verses:
            k = (b,) + key(ch, v)
            have[k] = clean(have.get(k, '') + ' ' + t, F.words)
            if k not in order: order.append(k)
        miss = [k for k in want if k not in have]
        if miss: raise Violation(f'P20:lost:{st}', f"{tag}: {len(miss)} of {len(want)} verses are not shown: {miss[:4]}")
        extra = [k for k in have if k not in want and (have[k] or k[2] != '0')]
        if extra: raise Violation(f'P20:extra:{st}', f"{tag}: {len(extra)} verses that were never there: {[(k, have[k][:60]) for k in extra[:3]]}")
        for k in want:
            if have[k] != want[k]: raise Violation(f'P20:text:{st}', f"{tag}: the text of {k[0]} {k[1]}:{k[2]} is {want[k]!r} and is shown as {have[k]!r}")
        if sorted(k for k in order if k in want) != sorted(want) or [k for b in dict.fromkeys(k[0] for k in want) for k in order if k in want and k[0] == b] != list(want): raise Violation(f'P20:order:{st}', f"{tag}: the verses are shown in another order")
        if not F.aside: return
        w = [x for x in p13.expect_aside(case['bible']) if x[-2] in F.aside]
        w = [x for b in (k['b'] for k in case['bible']['books']) for x in sorted([(b, '-1', 'mt', gen.NAMES[b])] + [x for x in w if x[0] == b], key=lambda x: (x[1] != '-1', x[2] not in ('rem', 'mt'), x[2] == 'mt') if x[1] == '-1' else (True, True, False))]
        h = [tuple(x[:-1]) + (clean(x[-1], True),) for x in aside]
        w, h = [[x[:-1] + (re.sub(r'^\d+ \d+ (?=.)', '', x[-1]),) for x in y] for y in (w, h)]
        h = [x for b in dict.fromkeys(x[0] for x in w) for x in h if x[0] == b] + [x for x in h if x[0] not in {y[0] for y in w}]
        if w != h:
            n = next((n for n, (x, y) in enumerate(zip(w, h)) if x != y), min(len(w), len(h)))
            raise Violation(f'P20:aside:{st}', f"{tag}: of the headings, introductions and notes {w[n:n + 2]} are shown as {h[n:n + 2]} (number {n} of {len(w)}, {len(h)})")


PROP = P()
