"""Source formats: how to make a source of a format from a generated Bible, and how to open it."""
import os, random, re, shutil, glob
from . import gen
from .world import real, HarnessError
from .ctx import Skip

NT = ['MAT', 'MRK', 'LUK', 'JHN', 'ACT', 'ROM', 'CO1', 'PHM', 'JAM', 'JN3', 'JDE', 'REV']


def _write(p, t, enc='utf-8'):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with real.open(p, 'w', encoding=enc, newline='\n') as f: f.write(t)


class Fmt:
    name = None
    multi = True            # several books in several files, loaded by worker processes when allowed
    exported = None         # name of the exporter that produces the source
    blanks = False          # the format can have blank books
    feats = None            # restrict generator features
    minbooks = 1
    encs = False            # sources in other encodings
    def make(self, c, spec, folder, edits=None): raise NotImplementedError
    def open(self, folder): raise NotImplementedError
    def paths(self, folder): return folder


class USFMish(Fmt):
    blanks = True
    style = 'usfm'
    def make(self, c, spec, folder, edits=None):
        gen.write_usfm(folder, spec, self.style, edits)
        self.extra(spec, folder)
    def extra(self, spec, folder): pass

class USFM(USFMish):
    name = 'USFM'
    encs = True
    def open(self, folder, enc=None):
        from BibleOrgSys.Formats.USFMBible import USFMBible
        return USFMBible(folder, givenName='Test', givenAbbreviation='TST', encoding=enc)

class USFM2(USFMish):
    name = 'USFM2'; style = 'sfm'
    encs = True
    def open(self, folder, enc=None):
        from BibleOrgSys.Formats.USFM2Bible import USFM2Bible
        return USFM2Bible(folder, givenName='Test', givenAbbreviation='TST', encoding=enc)

class ESFM(USFMish):
    name = 'ESFM'; style = 'ESFM'
    def open(self, folder):
        from BibleOrgSys.Formats.ESFMBible import ESFMBible
        return ESFMBible(folder, givenName='Test', givenAbbreviation='TST')

class PTX7(USFMish):
    name = 'PTX7'; style = 'SFM'
    def extra(self, spec, folder):
        _write(os.path.join(folder, 'TST.ssf'), '<ScriptureText>\n  <BiblicalTermsListSetting>Major::BiblicalTerms.xml</BiblicalTermsListSetting>\n'
               '  <BooksPresent>1</BooksPresent>\n  <DefaultStylesheet>usfm.sty</DefaultStylesheet>\n  <Editable>T</Editable>\n  <Encoding>65001</Encoding>\n'
               '  <FileNameBookNameForm>41MAT</FileNameBookNameForm>\n  <FileNamePostPart>TST.SFM</FileNamePostPart>\n  <FileNamePrePart></FileNamePrePart>\n'
               '  <FullName>Test Bible</FullName>\n  <Language>English</Language>\n  <Name>TST</Name>\n  <Versification>4</Versification>\n</ScriptureText>\n')
    def open(self, folder):
        from BibleOrgSys.Formats.PTX7Bible import PTX7Bible
        return PTX7Bible(folder, givenName='Test', givenAbbreviation='TST')

class PTX8(USFMish):
    name = 'PTX8'; style = 'SFM'
    def extra(self, spec, folder):
        _write(os.path.join(folder, 'Settings.xml'), '<ScriptureText>\n  <StyleSheet>usfm.sty</StyleSheet>\n  <BooksPresent>1</BooksPresent>\n  <Encoding>65001</Encoding>\n'
               '  <FileNameBookNameForm>41MAT</FileNameBookNameForm>\n  <FileNamePostPart>TST.SFM</FileNamePostPart>\n'
               '  <FullName>Test Bible</FullName>\n  <Language>English</Language>\n  <Name>TST</Name>\n  <Versification>4</Versification>\n</ScriptureText>\n')
        _write(os.path.join(folder, 'license.json'), '{"a": "b"}\n')
    def open(self, folder):
        from BibleOrgSys.Formats.PTX8Bible import PTX8Bible
        return PTX8Bible(folder, givenName='Test', givenAbbreviation='TST')


def export_source(spec, tmp, out, call, edits=None):
    """In a fault-free simulated process: load the generated USFM and export it."""
    gen.write_usfm(tmp, spec, 'usfm', edits)
    from BibleOrgSys.Formats.USFMBible import USFMBible
    from BibleOrgSys import BibleOrgSysGlobals as G
    G.maxProcesses = 1
    B = USFMBible(tmp, givenName='Test', givenAbbreviation='TST')
    B.load()
    os.makedirs(out, exist_ok=True)
    r = getattr(B, call)(out)
    return dict(result=str(r), books=list(B.books))

class Exported(Fmt):
    sub = ''
    def make(self, c, spec, folder, edits=None):
        tmp = c.path('mk_usfm'); out = c.path('mk_out')
        for d in (tmp, out): shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(folder, ignore_errors=True)
        o = c.spawn(export_source, spec, tmp, out, self.exported, edits)
        if not o.ok: raise Skip(f"source for {self.name}: {o.describe()} {getattr(o, 'tb', '')}")
        self.pick(out, folder)
        for d in (tmp, out): shutil.rmtree(d, ignore_errors=True)
    def pick(self, out, folder):
        src = os.path.join(out, self.sub) if self.sub else out
        shutil.copytree(src, folder)
    def one(self, folder, pattern):
        m = sorted(f for f in os.listdir(folder) if f.endswith(pattern))
        if len(m) != 1: raise Skip(f"{self.name}: {os.listdir(folder)}")
        return m[0]

class USX(Exported):
    name = 'USX'; exported = 'toUSX2XML'; sub = 'USX2Files'
    def open(self, folder):
        from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
        return USXXMLBible(folder, givenName='Test', givenAbbreviation='TST')

class BCV(Exported):
    name = 'BCV'; exported = 'toBOSBCV'
    def open(self, folder):
        from BibleOrgSys.Formats.BCVBible import BCVBible
        return BCVBible(folder, givenName='Test', givenAbbreviation='TST')

OSISNAME = dict(GEN='Gen', EXO='Exod', RUT='Ruth', SA1='1Sam', PSA='Ps', PRO='Prov', SNG='Song', ISA='Isa', OBA='Obad', JNA='Jonah', HAG='Hag', MAL='Mal', MAT='Matt', MRK='Mark',
                LUK='Luke', JHN='John', ACT='Acts', ROM='Rom', CO1='1Cor', PHM='Phlm', JAM='Jas', JN3='3JN', JDE='Jude', REV='Rev')

class OSIS(Exported):
    name = 'OSIS'; exported = 'toOSISXML'
    def pick(self, out, folder):
        os.makedirs(folder)
        for f in sorted(os.listdir(out)):
            if f.endswith('.osis'): shutil.copy2(os.path.join(out, f), os.path.join(folder, OSISNAME.get(f[5:-5], f[5:-5]) + '.xml'))
    def open(self, folder):
        from BibleOrgSys.Formats.OSISXMLBible import OSISXMLBible
        return OSISXMLBible(folder, givenName='Test', givenAbbreviation='TST')

class PKL(Exported):
    name = 'PKL'; exported = 'toPickledBible'
    def open(self, folder):
        from BibleOrgSys.Formats.PickledBible import PickledBible
        return PickledBible(folder)

class ZEF(Exported):
    name = 'ZEF'; exported = 'toZefaniaXML'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.ZefaniaXMLBible import ZefaniaXMLBible
        return ZefaniaXMLBible(os.path.join(folder, 'Bible.zef'), 'Test')

class HAG(Exported):
    name = 'HAG'; exported = 'toHaggaiXML'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.HaggaiXMLBible import HaggaiXMLBible
        return HaggaiXMLBible(folder, 'Bible.hag')

class OSONG(Exported):
    name = 'OSONG'; exported = 'toOpenSongXML'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.OpenSongXMLBible import OpenSongXMLBible
        return OpenSongXMLBible(folder, 'Bible.osong')

class USFX(Exported):
    name = 'USFX'; exported = 'toUSFXXML'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.USFXXMLBible import USFXXMLBible
        return USFXXMLBible(folder, 'Test')

class VPL(Exported):
    name = 'VPL'; exported = 'toVPL'; multi = False
    def pick(self, out, folder):
        shutil.copytree(os.path.join(out, 'Forge'), folder)
    def open(self, folder):
        from BibleOrgSys.Formats.VPLBible import VPLBible
        return VPLBible(folder, 'TST')

class TWD(Exported):
    name = 'TWD'; exported = 'totheWord'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.theWordBible import theWordBible
        f = [x for x in sorted(os.listdir(folder)) if x.endswith(('.ont', '.nt', '.ot'))]
        return theWordBible(folder, f[0])

class MYS(Exported):
    name = 'MYS'; exported = 'toMySword'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.MySwordBible import MySwordBible
        return MySwordBible(folder, self.one(folder, '.mybible'))

class ESW(Exported):
    name = 'ESW'; exported = 'toESword'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.ESwordBible import ESwordBible
        return ESwordBible(folder, self.one(folder, '.bblx'))

class MYB(Exported):
    name = 'MYB'; exported = 'toMyBible'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.MyBibleBible import MyBibleBible
        return MyBibleBible(folder, self.one(folder, '.SQLite3'))

class FORGE(Exported):
    name = 'FORGE'; exported = 'toSwordSearcher'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.ForgeForSwordSearcherBible import ForgeForSwordSearcherBible
        return ForgeForSwordSearcherBible(folder, 'Bible')

class DRU(Exported):
    name = 'DRU'; exported = 'toDrupalBible'; multi = False
    def pick(self, out, folder):
        os.makedirs(folder); shutil.copy2(os.path.join(out, 'Bible.txt'), os.path.join(folder, 'Bible.bc'))
    def open(self, folder):
        from BibleOrgSys.Formats.DrupalBible import DrupalBible
        return DrupalBible(folder, 'Bible')

class UWN(Fmt):
    name = 'UWN'; minbooks = 1
    def make(self, c, spec, folder, edits=None):
        L = ['dublin_core:', "  conformsto: 'rc0.2'", "  identifier: 'tn'", "  title: 'Test Notes'", "  version: '1'", "  rights: 'CC BY-SA 4.0'", "  creator: 'Door43'", "  publisher: 'unfoldingWord'",
             "  language:", "    direction: 'ltr'", "    identifier: 'en'", "    title: 'English'", '', 'projects:']
        for bk in spec['books']:
            u = gen.BY[bk['b']][1].lower()
            L += ['  -', f"    title: '{gen.NAMES[bk['b']]}'", "    versification: 'ufw'", f"    identifier: '{u}'", f"    sort: {int(gen.BY[bk['b']][2])}", f"    path: './tn_{u.upper()}.tsv'", "    categories: [ 'bible-nt' ]"]
        _write(os.path.join(folder, 'manifest.yaml'), '\n'.join(L) + '\n')
        for bk in spec['books']:
            b = bk['b']; u = gen.BY[b][1]
            e = (edits or {}).get(b, 0)
            r = random.Random(f"uwn:{spec['seed']}:{b}:{e}")
            T = ['Reference\tID\tTags\tSupportReference\tQuote\tOccurrence\tNote', f"front:intro\ti{u[0].lower()}01\t\t\t\t0\t# Introduction to {gen.NAMES[b]}\\n\\nIntro {b.lower()} e{e}"]
            for ci, nv in enumerate(bk['ch'], 1):
                T.append(f"{ci}:intro\tj{ci:03d}\t\t\t\t0\t# {b} {ci} notes")
                for v in range(1, nv + 1):
                    for k in range(r.choice([0, 1, 1, 2])):
                        T.append(f"{ci}:{v}\ta{r.randrange(16**3):03x}\t\t{r.choice(['', 'rc://*/ta/man/translate/figs-' + r.choice(['metaphor', 'idiom'])])}\t{r.choice(['λόγος', 'θεός', 'καὶ'])}\t1\tNote {b.lower()}{ci}x{v} e{e} {r.choice(gen.WORDS)}")
            _write(os.path.join(folder, f"tn_{u}.tsv"), '\n'.join(T) + '\n')
    def open(self, folder):
        from BibleOrgSys.Formats.uWNotesBible import uWNotesBible
        return uWNotesBible(folder, givenName='Test Notes', givenAbbreviation='TN')

class OBS(Fmt):
    name = 'OBS'
    def make(self, c, spec, folder, edits=None):
        _write(os.path.join(folder, 'manifest.yaml'), "dublin_core:\n  conformsto: 'rc0.2'\n  identifier: 'obs'\n  title: 'Open Stories'\n  version: '1'\n  rights: 'CC'\n  creator: 'Door43'\n  publisher: 'uW'\n  language:\n    direction: 'ltr'\n    identifier: 'en'\n    title: 'English'\n\nprojects:\n"
               "  -\n    title: 'Open Bible Stories'\n    versification: 'ufw'\n    identifier: 'obs'\n    sort: 0\n    path: './content'\n    categories: []\n")
        e = max((edits or {'': 0}).values(), default=0)
        r = random.Random(f"obs:{spec['seed']}:{e}")
        for s in range(1, 51):
            T = [f"# {s}. Story {s} e{e}"]
            for v in range(r.randint(1, 2)):
                T += ['', f"![OBS Image](https://cdn.door43.org/obs/jpg/360px/obs-en-{s:02d}-{v+1:02d}.jpg)", '', f"Text s{s}p{v} {r.choice(gen.WORDS)} e{e}"]
            T += ['', f"_A story from: Genesis {s}_"]
            _write(os.path.join(folder, 'content', f"{s:02d}.md"), '\n'.join(T) + '\n')
    def open(self, folder):
        from BibleOrgSys.Formats.uWOBSBible import uWOBSBible
        return uWOBSBible(folder, givenName='Stories', givenAbbreviation='OBS')


class SB(Fmt):
    """A Scripture Burrito of USFM files."""
    name = 'SB'; mime = 'text/x-usfm'; end = 'usfm'
    def make(self, c, spec, folder, edits=None):
        import json
        tmp = c.path('mk_sb')
        shutil.rmtree(tmp, ignore_errors=True)
        self.texts(c, spec, tmp, edits)
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(os.path.join(folder, 'ingredients'))
        D = {}
        for f in sorted(os.listdir(tmp)):
            u = next((x[1] for x in gen.BOOKS if x[1] in (f[3:6].upper(), f[:3].upper())), None)
            if u is None: continue
            g = f"ingredients/{u}.{self.end}"
            shutil.copy2(os.path.join(tmp, f), os.path.join(folder, g))
            D[g] = dict(checksum=dict(md5='0'), mimeType=self.mime, size=1, scope={u: []})
        shutil.rmtree(tmp, ignore_errors=True)
        M = dict(format='scripture burrito', meta=dict(version='1.0.0', category='source', generator=dict(softwareName='gen', softwareVersion='1')),
                 idAuthorities=dict(dbl=dict(id='https://thedigitalbiblelibrary.org', name=dict(en='DBL'))), identification=dict(name=dict(en='Test Bible'), abbreviation=dict(en='TST')),
                 confidential=False, languages=[dict(tag='en', name=dict(en='English'))], type=dict(flavorType=dict(name='scripture', flavor=dict(name='textTranslation', usfmVersion='3.0'))),
                 copyright=dict(fullStatementPlain=dict(en='PD')), ingredients=D)
        _write(os.path.join(folder, 'metadata.json'), json.dumps(M, indent=1))
    def texts(self, c, spec, tmp, edits): gen.write_usfm(tmp, spec, 'usfm', edits)
    def open(self, folder):
        from BibleOrgSys.Formats.ScriptureBurritoBible import ScriptureBurritoBible
        return ScriptureBurritoBible(folder, givenName='Test')

class Plain(Fmt):
    """Formats with the text of the verses only (and a few things of their own)."""
    multi = False
    def plan(self, spec, edits=None):
        """The verses, and what the file(s) say: V is a list of (book, number, chapter, verse, text); E has the words of each verse."""
        V = []; E = {}
        for bk in spec['books']:
            if bk.get('blank'): continue
            b = bk['b']; n = int(gen.BY[b][2]); n -= n > 40
            for _b, ch, v, t in gen.book_plan(spec, bk, (edits or {}).get(b, 0))[1]:
                v = int(''.join(x for x in v.split('-')[0] if x.isdigit()))
                if (b, ch, v) not in E and t: E[b, ch, v] = t = t.replace('\n', ' ').replace('\t', ' '); V.append((b, n, ch, v, t))
        return V, E
    def make(self, c, spec, folder, edits=None):
        os.makedirs(folder, exist_ok=True)
        V, E = self.plan(spec, edits)
        self.put(folder, V, random.Random(f"plain:{spec['seed']}"), E)
    def put(self, folder, V, r, E): _write(os.path.join(folder, self.file), self.text(V, r, E))
    def expect(self, spec):
        """[(book, chapter, verse, text)] that a program must see."""
        V, E = self.plan(spec)
        self.text(V, random.Random(f"plain:{spec['seed']}"), E)
        return [(b, ch, str(v), t) for (b, ch, v), t in E.items()]

class CSV(Plain):
    name = 'CSV'; file = 'Test.csv'
    def text(self, V, r, E):
        sep = r.choice(',,|'); q = r.choice(['', '"']); k = r.choice([0, 1])
        if r.random() < .25: return ''.join(f'{gen.NAMES[b]} {ch}:{v}\t{t}\n' for b, n, ch, v, t in V)
        return f'{q}Book{q}{sep}{q}Chapter{q}{sep}{q}Verse{q}{sep}{q}Scripture{q}\n' + ''.join(sep.join(f'{q}{x}{q}' for x in ((gen.NAMES[b] if k else n), ch, v, t)) + '\n' for b, n, ch, v, t in V)
    def open(self, folder):
        from BibleOrgSys.Formats.CSVBible import CSVBible
        return CSVBible(folder, givenName='Test', givenAbbreviation='TST', encoding='utf-8')

class UNB(Plain):
    name = 'UNB'; file = 'Test_utf8.txt'
    def text(self, V, r, E):
        code = lambda n: f"{n:02d}{'O' if n < 40 else 'N'}"
        nine = r.random() < .6
        T = ['#THE UNBOUND BIBLE (www.unboundbible.org)', '#name\tTest Bible', '#filetype\tUnmapped-BCVS', '#copyright\tPD', '#abbreviation\t', '#language\ten', '#note\t', '#columns\torig_book_index']
        for k, (b, n, ch, v, t) in enumerate(V, 1):
            T.append('\t'.join([code(n), str(ch), str(v)] * (2 if nine else 1) + ['', str(k * 10)] + [t]))
        return '\n'.join(T) + '\n'
    def open(self, folder):
        from BibleOrgSys.Formats.UnboundBible import UnboundBible
        return UnboundBible(folder, 'Test')

def nested(V):
    """{book: {chapter: {verse: text}}} with a text for every verse up to the last one."""
    D = {}
    for b, n, ch, v, t in V: D.setdefault((b, n), {}).setdefault(ch, {})[v] = t
    return {k: {ch: [vs.get(v, '') for v in range(1, max(vs) + 1)] for ch, vs in chs.items()} for k, chs in D.items()}

class VV(Plain):
    name = 'VV'; file = 'Test.xml'
    AS = ('GEN', 'EXO', 'LEV', 'NUM', 'DEU', 'JOS', 'JDG', 'RUT', 'SA1', 'SA2')
    def text(self, V, r, E):
        from xml.sax.saxutils import escape
        # The importer counts the books (Genesis is always the first one), whatever they are called
        for old, new in zip(list(dict.fromkeys(x[0] for x in V)), self.AS):
            for k in [k for k in E if k[0] == old]: E[(new + '*',) + k[1:]] = E.pop(k)
        for k in list(E): E[(k[0][:-1],) + k[1:]] = E.pop(k)
        T = ['<?xml version="1.0" encoding="UTF-8"?>', '<bible>', '<fname>Test.xml</fname>', '<revision>1</revision>', '<title>Test Bible</title>', '<font>Arial</font>', '<copyright>PD</copyright>', '<sizefactor>1</sizefactor>']
        for b, chs in zip(('Genesis', 'Exodus', 'Leviticus', 'Numbers', 'Deuteronomy', 'Joshua', 'Judges', 'Ruth', '1 Samuel', '2 Samuel'), nested(V).values()):
            T.append(f'<b n="{b}">')
            for ch, vs in chs.items(): T += [f'<c n="{ch}">'] + [f'<v n="{v}">{escape(t)}</v>' for v, t in enumerate(vs, 1) if t] + ['</c>']
            T.append('</b>')
        return '\n'.join(T + ['</bible>']) + '\n'
    def open(self, folder):
        from BibleOrgSys.Formats.VerseViewXMLBible import VerseViewXMLBible
        return VerseViewXMLBible(folder, 'Test.xml')

class YET(Plain):
    name = 'YET'; file = 'Test.yet'
    def text(self, V, r, E):
        T = ['info\tshortName\tTST', 'info\tlongName\tTest Bible', 'info\tdescription\tA test', 'info\tlocale\ten']
        for b, n in dict.fromkeys((x[0], x[1]) for x in V): T.append(f'book_name\t{n}\t{gen.NAMES[b]}' + (f'\t{b}' if r.random() < .5 else ''))
        X = []
        for b, n, ch, v, t in V:
            k = r.random(); e = t
            if k < .1: t = '@@@^' + t
            elif k < .2: e = t + ' spoken end'; t = '@@' + t + ' @6spoken@5 end'
            elif k < .3: e = t + ' second line'; t = '@@@1' + t + '@2second line'
            elif k < .4: e = t + ' after'; t = '@@' + t + '@<f1@>@/ after'; X.append(f'footnote\t{n}\t{ch}\t{v}\t1\tnote {v} @9slanted@7')
            elif k < .5: t = '@@' + t + '@<x1@>@/'; X.append(f'xref\t{n}\t{ch}\t{v}\t1\t@<ta1234@>Gen 1:1@/')
            elif k < .6: X += [f'pericope\t{n}\t{ch}\t{v}\tHeading {ch}.{v}'] + ['parallel\tMat 1:1', 'parallel\tMrk 1:2'][:r.choice([0, 1, 2])]
            E[b, ch, v] = e
            T.append(f'verse\t{n}\t{ch}\t{v}\t{t}')
        return '\n'.join(T + X) + '\n'
    def open(self, folder):
        from BibleOrgSys.Formats.YETBible import YETBible
        return YETBible(folder, 'Test')

class LEB(Plain):
    name = 'LEB'; file = 'Test.xml'
    IDS = dict(GEN='Ge', EXO='Ex', RUT='Ru', SA1='1 Sa', PSA='Ps', PRO='Pr', SNG='So', ISA='Is', OBA='Ob', JNA='Jon', HAG='Hag', MAL='Mal', MAT='Mt', MRK='Mk', LUK='Lk', JHN='Jn', ACT='Ac', ROM='Ro', CO1='1 Co', PHM='Phm', JAM='Jas', JN3='3 Jn', JDE='Jud', REV='Re')
    def text(self, V, r, E):
        from xml.sax.saxutils import escape
        T = ['<?xml version="1.0" encoding="utf-8"?>', '<leb>', '<title>Test Bible</title>', '<license>PD</license>']
        for (b, n), chs in nested(V).items():
            i = self.IDS[b]
            T.append(f'<book id="{i}">')
            for ch, vs in chs.items():
                T.append(f'<chapter id="{i} {ch}">')
                open = False
                for v, t in enumerate(vs, 1):
                    if not t: continue
                    x = r.random()
                    if x < .15 and open: T[-1] += '</p>'; open = False
                    if x < .08: T.append(f'<pericope>Heading {ch}.{v}</pericope>')
                    if not open: T.append('<p>'); open = True
                    y = r.random()
                    E[b, ch, v] = t + (' and supplied words' if y < .1 else ' ⌊an idiom⌋ there' if y < .2 else ' with slanted words' if y < .3 else '')
                    t = escape(t)
                    if y < .1: t += ' and <supplied>supplied</supplied> words'
                    elif y < .2: t += ' <idiom-start/>an idiom<idiom-end/> there'
                    elif y < .3: t += ' with <i>slanted</i> words'
                    elif y < .4: t += f'<note>note {ch}.{v}</note>'
                    T[-1] += f'<verse-number id="{i} {ch}:{v}">{v}</verse-number> {t} '
                if open: T[-1] += '</p>'
                T.append('</chapter>')
            T.append('</book>')
        return '\n'.join(T + ['</leb>']) + '\n'
    def open(self, folder):
        from BibleOrgSys.Formats.LEBXMLBible import LEBXMLBible
        return LEBXMLBible(os.path.join(folder, 'Test.xml'), 'Test', 'TST')

class EW(Exported):
    name = 'EW'; exported = 'toEasyWorshipBible'; multi = False
    def open(self, folder):
        from BibleOrgSys.Formats.EasyWorshipBible import EasyWorshipBible
        return EasyWorshipBible(folder, self.one(folder, '.ewb'))

class GOB(Plain):
    name = 'GOB'; multi = True
    def text(self, V, r, E):
        for (b, n), chs in nested(V).items():
            for ch, vs in chs.items():
                for v in range(1, len(vs) + 1): E[b, ch, v] = E.pop((b, ch, v), '')
    def put(self, folder, V, r, E):
        import struct, zipfile
        D = nested(V)
        st = lambda t: bytes([len(t)]) + t.encode() + b'\0'
        I = struct.pack('<H', len(D)); F = {}
        for (b, n), chs in D.items():
            fn = f'{n:02d}-{gen.BY[b][1].upper()}TST.usfm'
            I += st(gen.NAMES[b]) + st(fn) + struct.pack('<HH', 1, len(chs))
            BI = b''; fileno = 0; texts = ['']
            for k, (ch, vs) in enumerate(chs.items()):
                if k and r.random() < .3: fileno += 1; texts.append('')
                vs = [(f'\x01[Heading {ch}.{v}]\x01 ' if t and r.random() < .1 else '') + t + ' ' for v, t in enumerate(vs, 1)]
                I += struct.pack('>I', len(''.join(vs))) + bytes([len(vs), fileno])
                for t in vs: BI += struct.pack('>H', len(t)); texts[fileno] += t
            F[f'{fn}/Index'] = BI
            for k, t in enumerate(texts):
                t = t.encode(); F[f'{fn}/{fn} {k}'] = struct.pack('>I', len(t)) + t
        p = os.path.join(folder, 'Test.jar')
        with real.open(p, 'wb') as f, zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
            def add(name, data): z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data)
            add('META-INF/MANIFEST.MF', 'Manifest-Version: 1.0\n'); add('GoBible.class', b'\xca\xfe\xba\xbe'); add('Bible Data/Index', I)
            for k, d in F.items(): add('Bible Data/' + k, d)
    def open(self, folder):
        from BibleOrgSys.Formats.GoBible import GoBible
        return GoBible(os.path.join(folder, 'Test.jar'), 'Test')

class VPT(Plain):
    """The text files that VPLBible reads (toVPL writes another format)."""
    name = 'VPT'; file = 'Test.txt'
    def text(self, V, r, E):
        kind = r.choice((1, 2, 3, 5))
        if kind == 5 and any(x[:3:2] == y[:3:2] and y[3] != x[3] + 1 for x, y in zip(V, V[1:])): kind = 1      # a number that doesn't follow is not taken for a verse's
        T = []
        if kind == 3: T += ['# language_name:        \tEnglish', '# closest ISO 639-3:    \teng', '# title:                \tTest Bible', '# copyright_short:      \tPD']
        if kind == 5: T += ['Test Bible', '', 'This Bible is in the Public Domain.']
        last = None
        for b, n, ch, v, t in V:
            x = r.random()
            if kind == 5:
                if last is None or last[0] != b: T += ['', '', gen.NAMES[b]]; last = (b, None)
                if last[1] != ch: T += ['', f'Chapter {ch}', '']; last = (b, ch)
                W = t.split(' ')
                k = r.randrange(1, len(W)) if len(W) > 1 and x < .4 else len(W)
                if k < len(W) and not W[k][:1].isalpha(): k = len(W)
                T.append(f"{v} {' '.join(W[:k])}")
                if k < len(W): T.append(' '.join(W[k:]))
                continue
            if x < .1: T_ = '¶ ' + t
            elif kind == 1 and x < .2: T_ = t + ' and [supplied] words'; E[b, ch, v] = t + ' and supplied words'
            elif kind == 1 and x < .3: T_ = t + ' <He said so>'; E[b, ch, v] = t + ' He said so'
            elif kind != 1 and x < .2: T_ = t + ' there , ( he ) said ;'; E[b, ch, v] = t + ' there, (he) said;'
            else: T_ = t
            T.append(f'{b} {ch}:{v} {T_}' if kind == 1 else f'{n:02d}{int(ch):03d}{v:03d}\t{T_}')
        return '\n'.join(T) + '\n'
    def open(self, folder):
        from BibleOrgSys.Formats.VPLBible import VPLBible
        return VPLBible(folder, 'Test', encoding='utf-8')


class Foreign(Plain):
    """XML formats as other programs write them, with styles, notes and line breaks of their own."""
    marks = ('i', 'n', 'br', 'w')
    def expect(self, spec):
        self.notes = []
        if self.multi: self.put('/nowhere', self.plan(spec)[0], random.Random(f"plain:{spec['seed']}"), {})
        return Plain.expect(self, spec)
    notes = []
    def verse(self, b, ch, v, t, r, E):
        """A verse as pieces [(kind, text)]: plain text, styled text, a note, a line break or a tagged word."""
        W = t.split(' ')
        if r.random() < .5 or not self.marks: return [('t', t)]
        out, at = [], 0
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(self.marks); n = at + r.choice([1, 1, 2, 3] if at else [0, 0, 1, 2, 3])
            if n > len(W) or (k in ('i', 'w') and n >= len(W)) or (k == 'br' and (not 0 < n < len(W))) or (k in ('n', 'br') and n == at == 0): break
            if W[at:n]: out.append(('t', ' '.join(W[at:n]) + ('' if k in ('n', 'br') else ' ')))
            if k in ('i', 'w'):
                m = n + (r.choice([1, 2]) if k == 'i' else 1)
                out.append((k, ' '.join(W[n:m]))); at = min(m, len(W))
            else:
                out.append((k, f'note {ch}.{v}')); at = n
                if k == 'n': self.notes.append((b, ch, str(v), 'fn', f'note {ch}.{v}'))
            if at < len(W) and k != 'br': W[at:at] = ['']      # (a space comes next)
        if W[at:]: out.append(('t', ' '.join(W[at:])))
        return out

    def body(self, D, r, E, book, chapter, verse, piece):
        T = []
        for (b, n), chs in D.items():
            T.append(book[0](b, n))
            for ch, vs in chs.items():
                T.append(chapter[0](b, ch))
                for v, t in enumerate(vs, 1):
                    if t: T.append(verse(b, ch, v, ''.join(piece(k, esc(x)) for k, x in self.verse(b, ch, v, t, r, E))))
                T.append(chapter[1])
            T.append(book[1])
        return '\n'.join(T)

def esc(t):
    from xml.sax.saxutils import escape
    return escape(t)

class XOS(Foreign):
    name = 'XOS'; file = 'Bible.osong'; marks = ('i',)
    def text(self, V, r, E):
        return '<?xml version="1.0" encoding="UTF-8"?>\n<bible>\n' + self.body(nested(V), r, E, (lambda b, n: f'<b n="{gen.NAMES[b]}">', '</b>'), (lambda b, ch: f'<c n="{ch}">', '</c>'),
            lambda b, ch, v, x: f'<v n="{v}">{x}</v>', lambda k, x: f'<i>{x}</i>' if k == 'i' else x) + '\n</bible>\n'
    def open(self, folder):
        from BibleOrgSys.Formats.OpenSongXMLBible import OpenSongXMLBible
        return OpenSongXMLBible(folder, 'Bible.osong')

class XZF(Foreign):
    name = 'XZF'; file = 'Bible.zef'
    def text(self, V, r, E):
        styles = ['fs="italic"', 'fs="divineName"', 'css="font-style:italic"', 'fs="bold"', 'id="cl:divineName"']
        piece = lambda k, x: f'<STYLE {r.choice(styles)}>{x}</STYLE>' if k == 'i' else f'<NOTE type="n-studynote">{x}</NOTE>' if k == 'n' else '<BR art="x-nl"/>' if k == 'br' else f'<gr str="1234">{x}</gr>' if k == 'w' else x
        return ('<?xml version="1.0" encoding="utf-8"?>\n<XMLBIBLE biblename="Test" type="x-bible" version="2.0.1.18">\n<INFORMATION><title>Test</title><identifier>TST</identifier><language>ENG</language></INFORMATION>\n'
            + self.body(nested(V), r, E, (lambda b, n: f'<BIBLEBOOK bnumber="{n}" bname="{gen.NAMES[b]}" bsname="{b}">', '</BIBLEBOOK>'), (lambda b, ch: f'<CHAPTER cnumber="{ch}">', '</CHAPTER>'),
            lambda b, ch, v, x: f'<VERS vnumber="{v}">{x}</VERS>', piece) + '\n</XMLBIBLE>\n')
    def open(self, folder):
        from BibleOrgSys.Formats.ZefaniaXMLBible import ZefaniaXMLBible
        return ZefaniaXMLBible(os.path.join(folder, 'Bible.zef'), 'Test')

class XHG(Foreign):
    name = 'XHG'; file = 'Bible.hag'; marks = ('i', 'n', 'br')
    def text(self, V, r, E):
        styles = ['super', 'emphasis']
        piece = lambda k, x: f'<STYLE fs="{r.choice(styles)}">{x}</STYLE>' if k == 'i' else (f'<NOTE type="variant">{x}</NOTE>' if r.random() < .5 else f'<NOTE>{x}</NOTE>') if k == 'n' else '<BR art="x-nl"/>' if k == 'br' else x
        def book(b, n): return f'<BIBLEBOOK bnumber="{n}" bname="{gen.NAMES[b]}" bsname="{b}">'
        return ('<?xml version="1.0" encoding="utf-8"?>\n<XMLBIBLE biblename="Test" status="v" revision="1">\n<INFORMATION><title>Test</title><identifier>TST</identifier><language>ENG</language></INFORMATION>\n'
            + self.body(nested(V), r, E, (book, '</BIBLEBOOK>'), (lambda b, ch: f'<CHAPTER cnumber="{ch}">\n<PARAGRAPH>', '</PARAGRAPH>\n</CHAPTER>'),
            lambda b, ch, v, x: ('</PARAGRAPH>\n<PARAGRAPH>' if v > 1 and r.random() < .2 else '') + f'<VERSE vnumber="{v}">{x}</VERSE>', piece) + '\n</XMLBIBLE>\n')
    def open(self, folder):
        from BibleOrgSys.Formats.HaggaiXMLBible import HaggaiXMLBible
        return HaggaiXMLBible(folder, 'Bible.hag')

class XOI(Foreign):
    name = 'XOI'; file = 'Bible.xml'; marks = ('i', 'n', 'w')
    def text(self, V, r, E):
        from BibleOrgSys import BibleOrgSysGlobals as G
        style = r.choice(['verses', 'verses in paragraphs', 'milestones', 'milestones'])
        par = style != 'verses'; style = style[0] == 'v'
        def piece(k, x):
            if k == 'i': return r.choice(['<hi type="italic">{}</hi>', '<transChange type="added">{}</transChange>', '<divineName>{}</divineName>', '<hi type="bold">{}</hi>']).format(x)
            return r.choice(['<note type="study">{}</note>', '<note type="variant">{}</note>', '<note>{}</note>', '<note type="explanation">{}</note>']).format(x) if k == 'n' else f'<w lemma="strong:G1234">{x}</w>' if k == 'w' else x
        os_ = lambda b: G.loadedBibleBooksCodes.getOSISAbbreviation(b)
        def verse(b, ch, v, x):
            i = f'{os_(b)}.{ch}.{v}'
            return f'<verse osisID="{i}">{x}</verse>' if style else f'<verse osisID="{i}" sID="{i}"/>{x}<verse eID="{i}"/>'
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<osis xmlns="http://www.bibletechnologies.net/2003/OSIS/namespace" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="http://www.bibletechnologies.net/2003/OSIS/namespace http://www.bibletechnologies.net/osisCore.2.1.1.xsd">\n'
            '<osisText osisIDWork="Test" osisRefWork="Bible" xml:lang="en">\n<header><work osisWork="Test"><title>Test</title><identifier type="OSIS">Test</identifier><refSystem>Bible</refSystem></work></header>\n'
            + self.body(nested(V), r, E, (lambda b, n: f'<div type="book" osisID="{os_(b)}">', '</div>'), (lambda b, ch: f'<chapter osisID="{os_(b)}.{ch}">' + ('<p>' if par else ''), ('</p>' if par else '') + '</chapter>'), verse, piece) + '\n</osisText>\n</osis>\n')
    def open(self, folder):
        from BibleOrgSys.Formats.OSISXMLBible import OSISXMLBible
        return OSISXMLBible(os.path.join(folder, 'Bible.xml'), givenName='Test', givenAbbreviation='TST')

class XUF(Foreign):
    name = 'XUF'; file = 'Test.usfx.xml'; marks = ('i', 'n', 'w')
    def text(self, V, r, E):
        piece = lambda k, x: r.choice(['<nd>{}</nd>', '<wj>{}</wj>', '<add>{}</add>', '<cs sfm="it">{}</cs>', '<qt>{}</qt>']).format(x) if k == 'i' else f'<f caller="+"><fr>1.1</fr><ft>{x}</ft></f>' if k == 'n' else f'<w s="G1234">{x}</w>' if k == 'w' else x
        def verse(b, ch, v, x): return r.choice(['', '', '</p>\n<q style="q" level="1">'.replace('<q style="q" level="1">', '<p>')] if v > 1 else ['']) + f'<v id="{v}"/>{x}<ve/>'
        return ('<?xml version="1.0" encoding="utf-8"?>\n<usfx xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="usfx.xsd">\n<languageCode>eng</languageCode>\n'
            + self.body(nested(V), r, E, (lambda b, n: f'<book id="{gen.BY[b][1]}"><id id="{gen.BY[b][1]}">Test</id><h>{gen.NAMES[b]}</h>', '</book>'), (lambda b, ch: f'<c id="{ch}"/>\n<p>', '</p>'), verse, piece) + '\n</usfx>\n')
    def open(self, folder):
        from BibleOrgSys.Formats.USFXXMLBible import USFXXMLBible
        return USFXXMLBible(folder, 'Test')

class XUX(Foreign):
    name = 'XUX'; multi = True; marks = ('i', 'n')
    def text(self, V, r, E): pass
    def put(self, folder, V, r, E):
        piece = lambda k, x: f'<char style="{r.choice(["nd", "wj", "add", "it", "qt"])}">{x}</char>' if k == 'i' else f'<note caller="+" style="f"><char style="fr" closed="false">1.1 </char><char style="ft" closed="false">{x}</char></note>' if k == 'n' else x
        how = r.choice('llsh')
        for (b, n), chs in nested(V).items():
            u = gen.BY[b][1]
            t = ('<?xml version="1.0" encoding="utf-8"?>\n<usx version="2.6">\n' + self.body({(b, n): chs}, r, E, (lambda b, n: f'<book code="{u}" style="id">- Test</book>\n<para style="h">{gen.NAMES[b]}</para>', ''),
                (lambda b, ch: f'<chapter number="{ch}" style="c" />\n<para style="p">', '</para>'), lambda b, ch, v, x: (r.choice(['', '', '</para>\n<para style="q1">', '</para>\n<para style="p">']) if v > 1 else '') + f'<verse number="{v}" style="v" />{x}', piece) + '\n</usx>\n')
            if folder != '/nowhere': _write(os.path.join(folder, {'l': f'{n:03d}{u}', 's': u, 'h': f'{n + (n > 39):02d}-{u}'}[how] + '.usx'), t)
    def open(self, folder):
        from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
        return USXXMLBible(folder, givenName='Test', givenAbbreviation='TST')


class PDB(Foreign):
    """Palm Bible+ files: a list of words, and the verses as numbers of words in 14 or 16 bits."""
    name = 'PDB'; marks = ('i', 'n', 'br'); multi = True
    def put(self, folder, V, r, E):
        import struct
        be = lambda f, *a: struct.pack('>' + f, *a)
        pad = lambda t, n: t.encode('latin-1', 'replace')[:n].ljust(n, b'\0')
        BOOK, CH, DESC, VS = range(4)
        B = []
        for (b, n), chs in nested(V).items():
            first, C = [BOOK] + gen.NAMES[b].split(), []
            if r.random() < .3: first += [DESC, 'About', b]
            for ch, vs in chs.items():
                L = []
                for v, t in enumerate(vs, 1):
                    t = re.sub(r'[^ -~\u00a1-\u00ac\u00ae-\u00ff\u2014]|[{}<>\\\\]', 'x', t).strip()
                    t = re.sub(r' ([.,:;?\]])', r'\1', t).replace('[ ', '[')
                    T = [CH] if v == 1 else []
                    if v == 1 and r.random() < .5: T += ['Chapter', str(ch)]
                    if v == 1 or (t and r.random() < .1): T += ([DESC, 'Heading', f'{ch}.{v}'] if r.random() < .5 else []) + [VS]
                    if t:
                        if (b, ch, v) in E: E[b, ch, v] = t
                        for k, x in self.verse(b, ch, v, t, r, E):
                            x = x.split()
                            for w in list(x):
                                m = re.fullmatch(r'(.*\w)([.,:;?])', w)
                                if m and r.random() < .6: i = x.index(w); x[i:i + 1] = m.groups()
                            q = f"\x0e{r.choice('iiirb')}\x0e"
                            T += dict(t=x, i=[q] + x + [q], n=['{'] + x + ['}'], br=['\n'])[k]
                    L.append(T)
                C.append(L)
            C[0][0] = first + C[0][0]
            B.append((b, n, C))
        code = lambda w: 0xffff - w if isinstance(w, int) else W[w]
        byt = lambda w: w.replace('\u2014', '\x97').encode('latin-1')
        words = sorted({w for _, _, C in B for L in C for T in L for w in T if isinstance(w, str)}, key=lambda w: (len(w), w))
        W = {w: k for k, w in enumerate(words, 1)}
        pairs = {}
        for _, _, C in B:
            for L in C:
                for T in L:
                    for p in zip(T, T[1:]): pairs[p] = pairs.get(p, 0) + 1
        pairs = [p for p in pairs if pairs[p] > 1][:r.choice([0, 5, 300])]
        P = {p: len(words) + k for k, p in enumerate(pairs, 1)}
        groups = {}
        for w in words: groups.setdefault(len(w), []).append(byt(w))
        I = be('H', len(groups) + bool(P)) + b''.join(be('HHBB', n, len(ws), 0, 0) for n, ws in groups.items()) + (be('HHBB', 4, len(P), 1, 0) if P else b'')
        data = b''.join(w for ws in groups.values() for w in ws) + b''.join(be('HH', code(a), code(c)) for a, c in P)
        size = r.choice([4096, 1024, 200, 64])
        cut = lambda d: [d[i:i + size] for i in range(0, len(d), size)]
        R = [None, I] + cut(data)
        shifted = r.random() < .6 and len(words) + len(P) < 0x3ff0
        meta = b''
        for b, n, C in B:
            def enc(T):
                out, i = [], 0
                while i < len(T):
                    if tuple(T[i:i + 2]) in P and r.random() < .9: out.append(P[tuple(T[i:i + 2])]); i += 2
                    else: out.append(code(T[i])); i += 1
                return out
            toks, perch, perv, nv, acc = [], [], [], [], 0
            for L in C:
                perch.append(len(toks)); at = 0
                for T in L: x = enc(T); toks += x; at += len(x); perv.append(at)
                acc += len(L); nv.append(acc)
            bits = ''.join(f'{x & 0x3fff:014b}' for x in toks) if shifted else ''.join(f'{x:016b}' for x in toks)
            bits += '0' * (-len(bits) % 16)
            recs = cut(int(bits, 2).to_bytes(len(bits) // 8, 'big'))
            num = n * 10 if n < 17 else 190 if n == 17 else n * 10 + 40 if n < 23 else n * 10 + 60 if n < 26 else n * 10 + 70
            meta += be('HHH', num, len(R), len(recs)) + pad(b.title(), 8) + pad(gen.NAMES[b], 32)
            R += [be('H', len(C)) + b''.join(be('H', x) for x in nv) + b''.join(be('I', x) for x in perch) + b''.join(be('H', x) for x in perv)] + recs
        R[0] = pad('TST', 16) + pad('Test Bible', 128) + b' ' + be('BHHH', 0 if shifted else 2, 1, len(cut(data)), len(B)) + meta
        H = pad('Test', 32) + be('hhIIIIII', 0, 1, 0, 0, 0, 0, 0, 0) + b'bibl' + b'PPBL' + be('IIH', 0, 0, len(R))
        at = len(H) + 8 * len(R)
        for x in R: H += be('IBBBB', at, 0, 0, 0, 0); at += len(x)
        if folder == '/nowhere': return
        with real.open(os.path.join(folder, 'Test.PDB'), 'wb') as f: f.write(H + b''.join(R))
    def expect(self, spec):
        self.notes = []
        V, E = self.plan(spec)
        self.put('/nowhere', V, random.Random(f"plain:{spec['seed']}"), E)
        return [(b, ch, str(v), t) for (b, ch, v), t in E.items()]
    def open(self, folder):
        from BibleOrgSys.Formats.PalmDBBible import PalmDBBible
        return PalmDBBible(folder, 'Test')

KJV = '''GEN 31 25 24 26 32 22 24 22 29 32 32 20 18 24 21 16 27 33 38 18 34 24 20 67 34 35 46 22 35 43 55 32 20 31 29 43 36 30 23 23 57 38 34 34 28 34 31 22 33 26, EXO 22 25 22 31 23 30 25 32 35 29 10 51 22 31 27 36 16 27 25 26 36 31 33 18 40 37 21 43 46 38 18 35 23 35 35 38 29 31 43 38, LEV 17 16 17 35 19 30 38 36 24 20 47 8 59 57 33 34 16 30 37 27 24 33 44 23 55 46 34, NUM 54 34 51 49 31 27 89 26 23 36 35 16 33 45 41 50 13 32 22 29 35 41 30 25 18 65 23 31 40 16 54 42 56 29 34 13, DEU 46 37 29 49 33 25 26 20 29 22 32 32 18 29 23 22 20 22 21 20 23 30 25 22 19 19 26 68 29 20 30 52 29 12, JOS 18 24 17 24 15 27 26 35 27 43 23 24 33 15 63 10 18 28 51 9 45 34 16 33, JDG 36 23 31 24 31 40 25 35 57 18 40 15 25 20 20 31 13 31 30 48 25, \
RUT 22 23 18 22, SA1 28 36 21 22 12 21 17 22 27 27 15 25 23 52 35 23 58 30 24 42 15 23 29 22 44 25 12 25 11 31 13, SA2 27 32 39 12 25 23 29 18 13 19 27 31 39 33 37 23 29 33 43 26 22 51 39 25, KI1 53 46 28 34 18 38 51 66 28 29 43 33 34 31 34 34 24 46 21 43 29 53, KI2 18 25 27 44 27 33 20 29 37 36 21 21 25 29 38 20 41 37 37 21 26 20 37 20 30, CH1 54 55 24 43 26 81 40 40 44 14 47 40 14 17 29 43 27 17 19 8 30 19 32 31 31 32 34 21 30, CH2 17 18 17 22 14 42 22 18 31 19 23 16 22 15 19 14 19 34 11 37 20 12 21 27 28 23 9 27 36 27 21 33 25 33 27 23, EZR 11 70 13 24 17 22 28 36 15 44, NEH 11 20 32 23 19 19 73 18 38 39 36 47 31, EST 22 23 15 17 14 14 10 17 32 3, JOB 22 13 26 21 27 30 21 22 35 22 20 25 28 22 35 22 16 21 29 29 34 30 17 25 6 14 23 28 25 31 40 22 33 37 16 33 24 41 30 24 34 17, \
PSA 6 12 8 8 12 10 17 9 20 18 7 8 6 7 5 11 15 50 14 9 13 31 6 10 22 12 14 9 11 12 24 11 22 22 28 12 40 22 13 17 13 11 5 26 17 11 9 14 20 23 19 9 6 7 23 13 11 11 17 12 8 12 11 10 13 20 7 35 36 5 24 20 28 23 10 12 20 72 13 19 16 8 18 12 13 17 7 18 52 17 16 15 5 23 11 13 12 9 9 5 8 28 22 35 45 48 43 13 31 7 10 10 9 8 18 19 2 29 176 7 8 9 4 8 5 6 5 6 8 8 3 18 3 3 21 26 9 8 24 13 10 7 12 15 21 10 20 14 9 6, PRO 33 22 35 27 23 35 27 36 18 32 31 28 25 35 33 33 28 24 29 30 31 29 35 34 28 28 27 28 27 33 31, ECC 18 26 22 16 20 12 29 17 18 20 10 14, SNG 17 17 11 16 16 13 13 14, ISA 31 22 26 6 30 13 25 22 21 34 16 6 22 32 9 14 14 7 25 6 17 25 18 23 12 21 13 29 24 33 9 20 24 17 10 22 38 22 8 31 29 25 28 28 25 13 15 22 26 11 23 15 12 17 13 12 21 14 21 22 11 12 19 12 25 24, \
JER 19 37 25 31 31 30 34 22 26 25 23 17 27 22 21 21 27 23 15 18 14 30 40 10 38 24 22 17 32 24 40 44 26 22 19 32 21 28 18 16 18 22 13 30 5 28 7 47 39 46 64 34, LAM 22 22 66 22 22, EZE 28 10 27 17 17 14 27 18 11 22 25 28 23 23 8 63 24 32 14 49 32 31 49 27 17 21 36 26 21 26 18 32 33 31 15 38 28 23 29 49 26 20 27 31 25 24 23 35, DAN 21 49 30 37 31 28 28 27 27 21 45 13, HOS 11 23 5 19 15 11 16 14 17 15 12 14 16 9, JOL 20 32 21, AMO 15 16 15 13 27 14 17 14 15, OBA 21, JNA 17 10 10 11, MIC 16 13 12 13 15 16 20, NAH 15 13 19, HAB 17 20 19, ZEP 18 15 20, HAG 15 23, ZEC 21 13 10 14 11 15 14 23 17 12 17 14 9 21, MAL 14 17 18 6, MAT 25 23 17 25 48 34 29 34 38 42 30 50 58 36 39 28 27 35 30 34 46 46 39 51 46 75 66 20, \
MRK 45 28 35 41 43 56 37 38 50 52 33 44 37 72 47 20, LUK 80 52 38 44 39 49 50 56 62 42 54 59 35 35 32 31 37 43 48 47 38 71 56 53, JHN 51 25 36 54 47 71 53 59 41 42 57 50 38 31 27 33 26 40 42 31 25, ACT 26 47 26 37 42 15 60 40 43 48 30 25 52 28 41 40 34 28 41 38 40 30 35 27 27 32 44 31, ROM 32 29 31 25 21 23 25 39 33 21 36 21 14 23 33 27, CO1 31 16 23 21 13 20 40 13 27 33 34 31 13 40 58 24, CO2 24 17 18 18 21 18 16 24 15 18 33 21 14, GAL 24 21 29 31 26 18, EPH 23 22 21 32 33 24, PHP 30 30 21 23, COL 29 23 25 18, TH1 10 20 13 18 28, TH2 12 17 18, TI1 20 15 16 16 25 21, TI2 18 26 17 22, TIT 16 15 15, PHM 25, HEB 14 18 19 16 14 20 28 13 28 39 40 29 25, JAM 27 26 18 17 20, PE1 25 25 22 19 14, PE2 21 22 18, \
JN1 10 29 24 21 21, JN2 13, JN3 14, JDE 25, REV 20 29 22 11 14 17 17 13 21 11 19 17 18 20 8 21 18 24 21 15 27 21'''

class SWD(Foreign):
    """Modules of the Sword project: an index of all verses of a testament, and their words in a file or in compressed blocks."""
    name = 'SWD'; multi = True; marks = ('i', 'n', 'w', 'br')
    kjv = [(x.split()[0], [int(n) for n in x.split()[1:]]) for x in KJV.replace(', ', ',').split(',')]
    def plan(self, spec, edits=None):
        V, E = Plain.plan(self, spec, edits)
        m = dict(self.kjv)
        V = [x for x in V if x[0] in m and int(x[2]) <= len(m[x[0]]) and x[3] <= m[x[0]][int(x[2]) - 1]]
        return V, {k: E[k] for k in E if k in {(x[0], x[2], x[3]) for x in V}}
    def put(self, folder, V, r, E):
        import struct, zlib
        source = r.choice(['OSIS'] * 5 + ['ThML', 'ThML', 'GBF', 'GBF', 'Plain', None])
        packed = source == 'GBF' or source != 'Plain' and r.random() < .6
        block = r.choice(['BOOK', 'CHAPTER'])
        small = r.random() < .3
        tags = r.random() < .5
        def piece(k, x):
            if source == 'OSIS':
                if k == 'i': return r.choice(['<hi type="italic">{}</hi>', '<transChange type="added">{}</transChange>', '<divineName>{}</divineName>', '<hi type="bold">{}</hi>', '<q who="Jesus">{}</q>']).format(x)
                if k == 'n': return r.choice(['<note type="study">{}</note>', '<note>{}</note>']).format(x)
                if k == 'w': return f'<w lemma="strong:G1234">{x}</w>'
                if k == 'br': return r.choice(['<lb/>', '<milestone type="line"/>', '<lb type="x-begin-paragraph"/>', '<milestone type="x-extra-p"/>'])
            if source == 'GBF': return dict(i=f'<FI>{x}<Fi>', n=f'<RF>{x}<Rf>', w=f'{x}<WG1234>', br=r.choice(['<CM>', '\n'])).get(k, x)
            if source == 'ThML':
                if k == 'i': return r.choice(['<i>{}</i>', '<b>{}</b>', '<font color="#ff0000">{}</font>']).format(x)
                return dict(n=f'<note>{x}</note>', br=r.choice(['<br />', '<br/>'])).get(k, x)
            return x
        D = {(b, ch, v): t for b, _n, ch, v, t in V}
        raw = {}
        keep, self.marks = self.marks, SWD.marks if source in ('OSIS', 'GBF', 'ThML') else ()
        for (b, ch, v), t in D.items():
            if source != 'Plain': t = re.sub(r'[<>&]', 'x', t)
            if (b, ch, v) in E: E[b, ch, v] = t
            x = ''.join(piece(k, y) for k, y in self.verse(b, ch, v, t, r, E))
            if source == 'OSIS' and tags: x = f'<verse osisID="{b}.{ch}.{v}">{x}</verse>'
            raw[b, int(ch), v] = x.encode('utf-8')
        self.marks = keep
        F = {}
        for test, books in (('ot', self.kjv[:39]), ('nt', self.kjv[39:])):
            if not any(b in dict(books) for b, *_ in D) and r.random() < .6: continue
            I = [None, None]
            for b, ns in books:
                I.append((b, 0, 0))
                for ch, n in enumerate(ns, 1): I += [(b, ch, v) for v in range(n + 1)]
            if not packed:
                data, vss = bytearray(b'\n' * r.choice([0, 0, 7])), b''
                for k in I:
                    x = raw.get(k, b'')
                    vss += struct.pack('<Ih', len(data) if x else 0, len(x)); data += x + (r.choice([b'', b'\n']) if x else b'')
                F[test], F[test + '.vss'] = bytes(data), vss
            else:
                blocks, at, zv, sparse = {}, None, [], r.random() < .8
                for k in I:
                    u = k and ((k[0],) if block == 'BOOK' else k[:2])
                    x = raw.get(k, b'')
                    if u not in blocks and (x or not sparse and r.random() < .5): blocks[u] = bytearray(b'\n' * r.choice([1, 1, 9]))
                    if x: zv.append((u, len(blocks[u]), len(x))); blocks[u] += x + r.choice([b'', b'\n'])
                    else: zv.append((u, 0, 0))
                if not blocks: blocks[None] = bytearray(b'\n')
                at, data, idx = {u: n for n, u in enumerate(blocks)}, b'', b''
                for u, x in blocks.items():
                    c = zlib.compress(bytes(x)); idx += struct.pack('<III', len(data), len(c), len(x)); data += c
                L = 'b' if block == 'BOOK' else 'c'
                F[f'{test}.{L}zz'], F[f'{test}.{L}zs'] = data, idx
                F[f'{test}.{L}zv'] = b''.join(struct.pack('<iih', at.get(u, 0), o, n) for u, o, n in zv)
        kind = 'ztext' if packed else 'rawtext'
        C = ['[TST]', f'DataPath=./modules/texts/{kind}/tst/', f'ModDrv={"zText" if packed else "RawText"}', 'Encoding=UTF-8', 'Lang=en', 'Description=Test Bible', 'Version=1.0']
        if source: C.append(f'SourceType={source}')
        if packed: C += [f'BlockType={block}', 'CompressType=ZIP']
        if small: C.append('InstallSize=%d' % sum(map(len, F.values())))
        if r.random() < .5: C.append('Versification=KJV')
        if folder == '/nowhere': return
        d = os.path.join(folder, 'modules/texts', kind, 'tst'); os.makedirs(d)
        for n, x in F.items():
            with real.open(os.path.join(d, n), 'wb') as f: f.write(x)
        _write(os.path.join(folder, 'mods.d', 'tst.conf'), '\n'.join(C) + '\n')
    expect = PDB.expect
    def open(self, folder):
        from BibleOrgSys.Formats.SwordBible import SwordBible
        return SwordBible(folder, 'tst')

ALL = {k.name: k() for k in (USFM, USFM2, ESFM, PTX7, PTX8, USX, BCV, OSIS, PKL, ZEF, HAG, OSONG, USFX, VPL, TWD, MYS, ESW, MYB, FORGE, DRU, UWN, OBS, SB, CSV, UNB, VV, YET, LEB, EW, GOB, VPT, PDB, SWD)}
FOREIGN = {k.name: k() for k in (XOS, XZF, XHG, XOI, XUF, XUX, PDB, SWD)}
BROKEN = ('ZEF', 'HAG', 'OSONG', 'USFX', 'VPL', 'FORGE')
MULTI = [k for k, v in ALL.items() if v.multi]
SINGLE = [k for k, v in ALL.items() if not v.multi]


def load(B):
    """Load everything, the way the format offers it."""
    if hasattr(type(B), 'preload') and type(B).__name__ in ('MySwordBible', 'MyBibleBible', 'ESwordBible'): B.preload()
    if hasattr(B, 'loadBooks') and not hasattr(type(B), 'load'): B.loadBooks()
    else: B.load()
    for b in getattr(B, 'books', {}).values():
        if not getattr(b, '_processedFlag', True): b.processLines()       # (some formats wait until it's needed)
    return B
