"""Seeded Bibles. A bible spec is small JSON; its text is a pure function of the spec."""
import random, os
from .world import real

BOOKS = [('GEN','GEN','01'),('EXO','EXO','02'),('RUT','RUT','08'),('SA1','1SA','09'),('PSA','PSA','19'),('PRO','PRO','20'),('SNG','SNG','22'),('ISA','ISA','23'),
         ('OBA','OBA','31'),('JNA','JON','32'),('HAG','HAG','37'),('MAL','MAL','39'),('MAT','MAT','41'),('MRK','MRK','42'),('LUK','LUK','43'),('JHN','JHN','44'),
         ('ACT','ACT','45'),('ROM','ROM','46'),('CO1','1CO','47'),('PHM','PHM','58'),('JAM','JAS','60'),('JN3','3JN','65'),('JDE','JUD','66'),('REV','REV','67')]
BY = {b[0]: b for b in BOOKS}
NAMES = dict(GEN='Genesis', EXO='Exodus', RUT='Ruth', SA1='1 Samuel', PSA='Psalms', PRO='Proverbs', SNG='Song of Songs', ISA='Isaiah', OBA='Obadiah', JNA='Jonah', HAG='Haggai',
             MAL='Malachi', MAT='Matthew', MRK='Mark', LUK='Luke', JHN='John', ACT='Acts', ROM='Romans', CO1='1 Corinthians', PHM='Philemon', JAM='James', JN3='3 John', JDE='Jude', REV='Revelation')
WORDS = ('in the beginning was a word and light over water then king said go to city house bread wine people land river stone '
         'heaven earth spirit day night man woman child servant voice mountain sea fire lamb tree garden path gate wall').split()
UWORDS = ['naïve', 'Élie', 'Θεός', 'λόγος', 'אֱלֹהִים', 'Господь', '神', 'ñandú', 'q̓ʷay', 'Iṣhāq', '“quoted”', '‘single’', 'em—dash', 'e–n', 'ʻokina', 'sláinte', 'Ḥāran']
SWORDS = ['"said"', '&', "it's", '100%', '[sic]', '(maybe)', '1/2', '3:16', '🙂', '𐤀𐤁', "'tis", '…', 'x=y', '#1', '%s', 'e\u0301te\u0301', 'ישׁ\u200f', '@home', '$5', 'a;b', '¿qué?', '—', '1,000', 'A.B.', 'x^2']      # words with signs that mean something in some format
LWORDS = ['Ælfric', 'cœur', 'þing', 'straße', 'manœuvre', 'Ægypt']     # letters that are two without their accents
FEATS = ['fn', 'xr', 'char', 'poetry', 'heads', 'unicode', 'bridge', 'intro', 'paras', 'cont', 'words', 'rem', 'seg', 'desc', 'punct']


# sources with mistakes in them, and aligned texts (only where asked for)
CHX = ['bd', 'bdit', 'sc', 'tl', 'pn', 'ord', 'sls', 'k', 'no', 'sup', 'dc', 'sig']
RICH = ['nest', 'fnx', 'fnn', 'vp', 'qs', 'late', 'chx']         # markers inside markers, notes with several parts, printed verse numbers, Selah
DIRTY = ['odd', 'dup', 'unclosed', 'nlw', 'empty', 'bare', 'nestw', 'uw']


def make(rng, nbooks=None, feats=None, blanks=True, maxch=4, maxv=8, books=None, minbooks=1, maxbooks=9, extra=(), encodings=()):
    n = nbooks or rng.choice([minbooks, 2, 3, 3, 4, 5, 6, maxbooks])
    n = max(minbooks, n)
    pool = books or [b[0] for b in BOOKS]
    order = [b[0] for b in BOOKS]
    chosen = sorted(rng.sample(pool, min(n, len(pool))), key=order.index)
    out = []
    for b in chosen:
        nch = rng.randint(1, maxch)
        if b in ('OBA', 'PHM', 'JN3', 'JDE'): nch = 1
        f = feats if feats is not None else [x for x in FEATS if rng.random() < 0.45]
        out.append(dict(b=b, ch=[rng.randint(1, maxv) for _ in range(nch)], f=list(f)))
    if blanks and len(out) > 2 and rng.random() < 0.5:
        out[rng.randrange(len(out))]['blank'] = rng.choice(['empty', 'empty', 'nl'])
    spec = dict(seed=rng.randrange(1 << 30), books=out)
    if extra and rng.random() < .6:
        xs = rng.sample(list(extra), min(len(extra), rng.choice([1, 1, 2, 3])))
        for b in out: b['f'] += [x for x in xs if rng.random() < .7]
    if extra and rng.random() < .35:
        xs = [x for x in RICH if rng.random() < .5]
        for b in out: b['f'] += [x for x in xs if rng.random() < .8 and x not in b['f']]
    if encodings and rng.random() < .3: spec['enc'] = rng.choice(list(encodings))
    return spec


def dirty(L, f, r, tag):
    out = []
    for line in L:
        if line.startswith('\\v '):
            if 'uw' in f and r.random() < .8:
                v, t = line[3:].split(' ', 1)
                if '\\' not in t:
                    ws = t.split(' ')
                    al = lambda w: f'\\zaln-s |x-strong="H{r.randint(1, 9999):04d}" x-lemma="x" x-morph="He,R" x-occurrence="1" x-occurrences="1" x-content="y"\\*\\w {w}|x-occurrence="1" x-occurrences="1"\\w*\\zaln-e\\*'
                    out.append(f'\\v {v} ' + al(ws[0]))
                    out += [al(w) if r.random() < .6 else f'\\w {w}|x-occurrence="1" x-occurrences="1"\\w*' for w in ws[1:]]
                    continue
            out.append(line)
            if 'odd' in f and r.random() < .5: out.append('\\zq odd line')
            if 'dup' in f and r.random() < .15: out.append(line)
            if 'unclosed' in f and r.random() < .15: out[-1] += '\\f + \\fr 1.1 \\ft never closed'
            if 'nlw' in f and r.random() < .3: out.append('\\w next|lemma="next"\\w* more words.')
            if 'nestw' in f and r.random() < .3: out[-1] += ' \\add more \\nd Lord\\add* things'
            if 'empty' in f and r.random() < .3: out[-1] = ' '.join(out[-1].split(' ')[:2]) if out[-1].startswith('\\v ') else out[-1]
            if 'bare' in f and r.random() < .2: out.append('a line without any marker')
        else: out.append(line)
    return out


def shrink(spec):
    B = spec['books']
    n = len(B)
    if n > 1:
        h = n // 2
        if h > 1 or n > 2:
            yield {**spec, 'books': B[:h]}
            yield {**spec, 'books': B[h:]}
        for i in range(n): yield {**spec, 'books': B[:i] + B[i + 1:]}
    for i, b in enumerate(B):
        if len(b['ch']) > 1: yield {**spec, 'books': B[:i] + [{**b, 'ch': b['ch'][:1]}] + B[i + 1:]}
        if b['f']: yield {**spec, 'books': B[:i] + [{**b, 'f': []}] + B[i + 1:]}
        if max(b['ch']) > 1: yield {**spec, 'books': B[:i] + [{**b, 'ch': [max(1, c // 2) for c in b['ch']]}] + B[i + 1:]}
        if b['f']:
            for k in range(len(b['f'])): yield {**spec, 'books': B[:i] + [{**b, 'f': b['f'][:k] + b['f'][k + 1:]}] + B[i + 1:]}


class Verse:
    """Abstract content of one verse."""
    __slots__ = ('b', 'c', 'v', 'words', 'usfm')


def sentence(r, tag, f, lo=2, hi=9):
    n = r.randint(lo, hi)
    ws = [r.choice(SWORDS) if 'spiky' in f and r.random() < 0.25 else r.choice(LWORDS) if 'liga' in f and r.random() < 0.25 else r.choice(UWORDS) if 'unicode' in f and r.random() < 0.25 else r.choice(WORDS) for _ in range(n)]
    ws.insert(r.randrange(len(ws) + 1), tag)
    s = ' '.join(ws)
    if 'punct' in f and n > 3: s = s.replace(' ', ', ', 1)
    return s[0].upper() + s[1:] + r.choice(['.', '.', '?', '!', ',', ';'])


def book_plan(spec, bk, edit=0):
    """List of (c, v_label, plain text, usfm lines) plus header lines. `edit` changes every text (a new version of the book)."""
    b = bk['b']
    f = bk['f']
    r = random.Random(f"book:{spec['seed']}:{b}:{edit}")
    _, usfm, num = BY[b]
    name = NAMES[b]
    L = [f"\\id {usfm} Test text {b}{' edit%d' % edit if edit else ''}"]
    if 'rem' in f: L.append(f"\\rem Remark for {b}")
    if 'intro' not in f or r.random() < 0.7: L.append(f"\\h {name}")
    L += [f"\\toc1 {name if spec.get('plainnames') else 'The book of ' + name}", f"\\toc2 {name}", f"\\toc3 {usfm.title()}", f"\\mt1 {name}"]
    if 'intro' in f: L += [f"\\is1 Introduction to {name}", f"\\ip Intro text of {b} with some words.", "\\ip Second intro paragraph."]
    verses = []
    chapters = list(bk['ch'])
    if edit:        # a new version may have other numbers of verses and chapters
        r2 = random.Random(f"shape:{spec['seed']}:{b}:{edit}")
        chapters = [max(1, n + r2.choice([0, 0, -1, 1, 2])) for n in chapters]
        if r2.random() < .25 and b not in ('OBA', 'PHM', 'JN3', 'JDE'):
            if len(chapters) > 1 and r2.random() < .5: chapters.pop()
            else: chapters.append(2)
    for ci, nv in enumerate(chapters, 1):
        L.append(f"\\c {ci}")
        if 'heads' in f and r.random() < 0.8:
            L.append(f"\\s1 Heading {b} {ci}")
            if r.random() < 0.4: L.append("\\r (Matthew 1.1; Mark 2.3)")
        if 'desc' in f and b == 'PSA': L.append(f"\\d A psalm of Asaph {ci}")
        para = '\\p'
        if 'poetry' in f and r.random() < 0.5: para = '\\q1'
        elif 'paras' in f: para = r.choice(['\\p', '\\m', '\\pi1', '\\nb', '\\li1'])
        L.append(para)
        v = 1
        while v <= nv:
            lab = str(v)
            nxt = v + 1
            if 'bridge' in f and v < nv and r.random() < 0.2:
                lab = f"{v}-{v+1}"; nxt = v + 2
            e = f"e{edit}" if edit else ''
            tag = f"{b.lower()}{ci}x{v}{e}"
            s = sentence(r, tag, f)
            plain = s
            u = s
            if 'char' in f and r.random() < 0.5:
                m = r.choice(['add', 'nd', 'wj', 'bk', 'qt', 'em', 'it'] if 'chx' not in f else CHX)
                ws = u.split(' ')
                k = r.randrange(len(ws))
                w0 = ws[k].rstrip('.,;?!')
                if w0: ws[k] = f"\\{m} {w0}\\{m}*" + ws[k][len(w0):]
                u = ' '.join(ws)
            if 'words' in f and r.random() < 0.3 and '\\' not in u:
                ws = u.split(' ')
                w0 = ws[0].rstrip('.,;?!')
                if w0 and '"' not in w0: ws[0] = f"\\w {w0}|lemma=\"{w0.lower()}\" strong=\"G{r.randint(1,5000):04d}\"\\w*" + ws[0][len(w0):]
                u = ' '.join(ws)
            if 'nest' in f and r.random() < 0.4 and '\\' not in u and u.count(' ') >= 3:
                ws = u.split(' ')
                k = r.randrange(len(ws) - 2)
                m, m2 = r.choice([('add', 'nd'), ('wj', 'add'), ('qt', 'nd'), ('wj', 'qt')])
                ws[k], ws[k + 1], ws[k + 2] = f'\\{m} {ws[k]}', f'\\+{m2} {ws[k + 1]}\\+{m2}*', f'{ws[k + 2]}\\{m}*'
                u = ' '.join(ws)
            if 'qs' in f and r.random() < 0.2:
                u, s = u + ' \\qs Selah.\\qs*', s + ' Selah.'
                plain = s
            if 'vp' in f and r.random() < 0.2: u = f'\\vp {v}c\\vp* ' + u
            if 'fnx' in f and r.random() < 0.4:
                w1, w2 = r.choice(WORDS), r.choice(WORDS)
                u += r.choice([f"\\f + \\fr {ci}.{v} \\fq {w1} \\ft Note {tag}: or {w2}\\f*", f"\\f + \\fr {ci}.{v} \\ft Note {tag}: or \\fqa {w1} \\ft and {w2}\\f*", f"\\f + \\fr {ci}.{v} \\fk {w1} \\ft Note {tag}\\f*\\f + \\fr {ci}.{v} \\ft Second {tag}\\f*"])
                if r.random() < .4: u += f"\\x - \\xo {ci}.{v} \\xt Gen 1.{r.randint(1,9)}\\x*"
            if 'fnn' in f and r.random() < 0.3: u += f"\\f + \\fr {ci}.{v} \\ft Note {tag}: the \\+nd Lord\\+nd* is {r.choice(WORDS)}\\f*"
            if 'fn' in f and r.random() < 0.4:
                p = len(u) if r.random() < 0.5 else (u.find(' ') if u.find(' ') > 0 and u.split(' ')[0].find('\\') < 0 else len(u))
                u = u[:p] + f"\\f + \\fr {ci}.{v} \\ft Note {tag}: or {r.choice(SWORDS) if 'spiky' in f and r.random() < .4 else r.choice(WORDS)}\\f*" + u[p:]
            if 'xr' in f and r.random() < 0.4:
                u = u + f"\\x - \\xo {ci}.{v} \\xt Gen 1.{r.randint(1,9)}; Mat 2.{r.randint(1,9)}\\x*"
            if 'seg' in f and r.random() < 0.1 and '-' not in lab and nxt <= nv:
                L.append(f"\\v {v}a {u}")
                s2 = sentence(r, tag + 'seg', f)
                L.append(f"\\v {v}b {s2}")
                plain = s + ' ' + s2
            else: L.append(f"\\v {lab} {u}")
            if 'cont' in f and r.random() < 0.3:
                s2 = sentence(r, tag + 'cc', f)
                L.append(('\\q2 ' if para == '\\q1' else '\\p ') + s2)
                plain += ' ' + s2
            elif para == '\\q1' and r.random() < 0.5:
                s2 = sentence(r, tag + 'qq', f)
                L.append('\\q2 ' + s2)
                plain += ' ' + s2
            verses.append((b, str(ci), lab, plain))
            v = nxt
            if v <= nv:
                if 'heads' in f and r.random() < 0.12: L += [f"\\s1 Sub {b} {ci}.{v}", para]
                elif 'paras' in f and r.random() < 0.3:
                    if r.random() < 0.3: L.append('\\b')
                    para = r.choice(['\\p', '\\m', '\\pi1'])
                    L.append(para)
                elif para == '\\q1': L.append(para)
        if 'late' in f and r.random() < .4: L.append(f'\\rem Late remark {b} {ci}')
    if 'late' in f: L.append('\\mte The end')
    if any(x in f for x in DIRTY): L = dirty(L, f, random.Random(f"dirty:{spec['seed']}:{b}:{edit}"), b)
    return L, verses


def usfm_text(spec, bk, edit=0):
    if bk.get('blank') == 'empty': return ''
    if bk.get('blank') == 'nl': return '\n'
    return '\n'.join(book_plan(spec, bk, edit)[0]) + '\n'


def plain_verses(spec, edit=0):
    out = []
    for bk in spec['books']:
        if bk.get('blank'): continue
        out += book_plan(spec, bk, edit)[1]
    return out


def fname(b, style='usfm', abbr='TST'):
    _, usfm, num = BY[b]
    if style == 'usfm': return f"{num}-{usfm}.usfm"
    if style == 'sfm': return f"{num}{usfm}{abbr}.SFM"
    if style == 'esfm': return f"{abbr}{num}{usfm}.ESFM"
    return f"{num}{usfm}{abbr}.{style}"


def write_usfm(folder, spec, style='usfm', edits=None, encoding=None, nl='\n'):
    """Write source files outside of the simulation (fault-free set-up)."""
    os.makedirs(folder, exist_ok=True)
    encoding = encoding or spec.get('enc') or 'utf-8'
    for bk in spec['books']:
        t = usfm_text(spec, bk, (edits or {}).get(bk['b'], 0))
        with real.open(os.path.join(folder, fname(bk['b'], style)), 'w', encoding=encoding, errors='replace', newline=nl) as f: f.write(t)
