"""P05: find-and-replace on source files is exact and loses no text on a crash."""
import os, re
from ..ctx import Prop, Violation
from .. import gen, fmt, canon
from ..world import real
from . import common


def session(name, folder, opts, answers, loaded):
    G = common.G(); G.maxProcesses = 1
    B = fmt.ALL[name].open(folder)
    if loaded == 'all': fmt.load(B)
    elif loaded == 'preload': B.preload()
    if name == 'USFM2': from BibleOrgSys.Formats.USFM2Bible import findReplaceText
    else: from BibleOrgSys.Formats.USFMBible import findReplaceText
    seen = []
    it = iter(answers)
    def confirm(ref, before, found, after, willbe, undos):
        a = next(it, 'N')
        seen.append([ref, before, found, after, willbe, undos, a])
        return a
    o, r = findReplaceText(B, dict(opts), confirm)
    pics = None
    if loaded == 'all':
        for b in list(B.books): B.loadBookIfNecessary(b)
        pics = canon.bible(B, errors=False)['books']
    return dict(seen=seen, result=r, history=[o.get('findHistoryList'), o.get('replaceHistoryList')], pics=pics)


def fresh(name, folder):
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    return canon.bible(B, errors=False)['books']


def read(p):
    with real.open(p, 'rb') as f: return f.read()


def norm(data): return data.replace(b'\r\n', b'\n')


def model(texts, order, opts, answers):
    """What the documentation promises, computed from the texts alone."""
    find, repl, mode = opts['findText'], opts['replaceText'], opts.get('wordMode', 'Any')
    bl = opts.get('bookList', 'ALL')
    rx = re.compile(find[6:]) if find.lower().startswith('regex:') else None
    n = opts.get('contextLength', 60)
    it = iter(answers)
    all_ = stop = undo = False
    seen, out, nrep, replaced = [], dict(texts), 0, []
    searched = []
    for b in order:
        if bl not in (None, 'ALL') and b not in bl: continue
        t = texts[b]; ix = 0
        searched.append(b)
        while True:
            if rx:
                m = rx.search(t, ix)
                if not m: break
                s, e = m.span(); new = rx.sub(repl, t[s:e], count=1)
            else:
                s = t.find(find, ix)
                if s < 0: break
                e = s + len(find); new = repl
                left = s == 0 or not t[s - 1].isalpha(); right = e >= len(t) or not t[e].isalpha()
                if (mode == 'Whole' and not (left and right)) or (mode == 'Begins' and not left) or (mode == 'EndsWord' and not right): ix = s + 1; continue
            if not all_:
                a = next(it, 'N')
                cb = t[max(0, s - n):s] if n else None; ca = t[e:e + n] if n else None
                seen.append([b, cb, t[s:e], ca, (cb or '') + new + (ca or ''), nrep > 0, a])
                if a == 'A': all_ = True
                elif a == 'S': stop = True; break
                elif a == 'U': undo = True; break
            if all_ or a == 'Y':
                t = t[:s] + new + t[e:]; ix = s + len(new); nrep += 1
                if b not in replaced: replaced.append(b)
                out[b] = t
            else: ix = s + 1
        if stop: break
        if undo: out = dict(texts); nrep = 0; replaced = []; break
    return dict(seen=seen, texts=out, n=nrep, replaced=replaced, searched=searched, aborted=stop or undo)


class P(Prop):
    id = 'P05'
    runs = dict(quick=3000, thorough=100000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run is one find-and-replace with seeded options and answers over a generated USFM, USFM2, Paratext 7 or Paratext 8 folder, without faults or with a crash, full disk, write or read error at a seeded operation; '
            'non-trivial: at least one replacement was confirmed or a fault fired. Distinct = distinct full event traces.')
    assumptions = ['Texts are compared with line endings normalised: replaced files are written with Windows line ends by design.', 'Without backups a crash may lose the file that is being written (the property does not claim otherwise).']

    def gen(self, rng, i, tier):
        name = ['USFM', 'USFM', 'USFM2', 'PTX7', 'PTX8'][i % 5]
        bible = gen.make(rng, minbooks=1, maxbooks=5, maxch=3, maxv=6)
        have = [b['b'] for b in bible['books']]
        find = rng.choice([rng.choice(gen.WORDS), rng.choice(gen.WORDS), 'a', 'e', 'the', rng.choice(have).lower() + '1x', '1x1', '\\p', '\\v 2', rng.choice(gen.UWORDS), 'nosuchtext', 'aa', '\\f*', 'Test text',
                           'regex:w[ao]t?.r', 'regex:[a-z]+1x\\d', 'regex:\\\\v (\\d) ', 'regex:light|fire', 'Regex:M(\\d)', '. ', '\n\\p\n'])
        rx = find.lower().startswith('regex:')
        repl = rng.choice(['', 'X', 'replacement', find if not rx else 'Z', 'Ωmega', find + find if not rx else 'q', 'two\nlines', 'a']) if not rx else rng.choice(['', 'R', 'ab', 'wound'])
        if rx and '(' in find and rng.random() < .6: repl = r'<\1>'
        opts = dict(findText=find, replaceText=repl)
        if rng.random() < .6: opts['replaceHistoryList'] = rng.choice([[], ['old'], [repl, 'old']])
        if rng.random() < .6: opts['findHistoryList'] = rng.choice([[], ['old', find]])
        if rng.random() < .5 and ' ' not in find and not rx: opts['wordMode'] = rng.choice(['Any', 'Whole', 'Begins', 'EndsWord'])
        if rng.random() < .4: opts['bookList'] = rng.choice(['ALL', None, rng.sample(have, rng.randint(1, len(have))), [rng.choice(have)], ['JUB'], rng.choice(have)])
        if rng.random() < .4: opts['contextLength'] = rng.choice([0, 1, 15, 60, 5000])
        if rng.random() < .4: opts['doBackups'] = rng.random() < .7
        ans = [rng.choice('YYYN') for _ in range(rng.choice([0, 1, 3, 8, 20]))]
        if rng.random() < .6: ans.append(rng.choice('AASU'))
        faults = []
        if rng.random() < .45:
            faults = [dict(kind=rng.choice(['crash', 'crash', 'crash', 'torn', 'enospc', 'eio', 'eacces']), ops='write', path='/run/src/', at=rng.randrange(rng.choice([3, 8, 20])), sticky=rng.random() < .3)]
            if rng.random() < .2: faults = [dict(kind=rng.choice(['eio', 'eacces', 'emfile']), ops='read', path='/run/src/', at=rng.randrange(rng.choice([4, 30])))]
        return dict(fmt=name, bible=bible, opts=opts, answers=ans, faults=faults, loaded=rng.choice([None, 'preload', 'all']), bak=rng.choice([0, 0, 0, 3, 5]), nl=rng.choice(['\n', '\n', '\r\n']), bom=rng.random() < .15,
                    world=common.make_world(rng, short=rng.choice([None, None, 64, 1000])))

    def run(self, c, case):
        name, opts = case['fmt'], case['opts']
        f = fmt.ALL[name]
        folder = c.path('src')
        f.make(c, case['bible'], folder)
        files, texts, raw = {}, {}, {}
        for bk in case['bible']['books']:
            p = os.path.join(folder, gen.fname(bk['b'], f.style))
            data = read(p).replace(b'\n', case['nl'].encode())
            if case['bom'] and data: data = b'\xef\xbb\xbf' + data
            with real.open(p, 'wb') as fh: fh.write(data)
            files[bk['b']] = os.path.basename(p); raw[bk['b']] = data
            texts[bk['b']] = norm(data).decode()
            for k in range(case['bak']):
                with real.open(p + '.bak' + ('' if k == 0 else str(k + 1)), 'wb') as fh: fh.write(f"older {k} {bk['b']}".encode())
        before = {x: read(os.path.join(folder, x)) for x in os.listdir(folder)}
        o = c.spawn(session, name, folder, opts, case['answers'], case['loaded'], cfg=dict(case['world'], faults=case['faults']))
        after = {x: read(os.path.join(folder, x)) for x in os.listdir(folder)}
        fired = bool(o.world and o.world['fired']) or o.status == 'crash'
        backups = opts.get('doBackups', True)
        order = o.value['result']['searchedBookList'] if o.ok else list(files)
        bl = opts.get('bookList', 'ALL')
        m = model(texts, [b for b in (list(order) + [x for x in files if x not in order])], opts, case['answers'])
        if not o.ok and not fired: raise Violation(f"P05:fails:{name}", f"a fault-free find-and-replace fails: {o.describe()}", o.tb)
        if o.ok:
            r = o.value['result']
            if set(r['searchedBookList']) - set(files): raise Violation('P05:searched', f"searched books that do not exist {r['searchedBookList']}")
            want = [b for b in files if bl in (None, 'ALL') or b in bl]
            if not m['aborted'] and set(r['searchedBookList']) != set(want): raise Violation('P05:searched', f"searched {r['searchedBookList']} rather than {want}")
            if o.value['seen'] != m['seen']:
                d = canon.diff(m['seen'], o.value['seen'])
                raise Violation('P05:asked', 'the questions put to the user differ from the occurrences in the files (expected first)', d)
            if r['numReplaces'] != m['n'] or r['replacedBookList'] != m['replaced']: raise Violation('P05:counts', f"reported {r['numReplaces']} in {r['replacedBookList']}, but {m['n']} in {m['replaced']} were confirmed")
            if bool(r['aborted']) != m['aborted']: raise Violation('P05:aborted', f"aborted is reported {r['aborted']}")
            if o.value['history'][0][-1] != opts['findText'] or (o.value['history'][1] or [None])[-1] != opts['replaceText']: raise Violation('P05:history', f"{o.value['history']}")
            c.probe('replaced', m['n'])
        # what is on the disk
        own = {b: norm(after[fn]).decode(errors='replace') if fn in after else None for b, fn in files.items()}
        for b, fn in files.items():
            baks = [after[x] for x in after if x.startswith(fn + '.bak')]
            if o.ok:
                if b in m['replaced']:
                    if own[b] != m['texts'][b]: raise Violation('P05:text', f"{fn} does not hold the text with exactly the confirmed replacements", canon.diff(m['texts'][b], own[b]))
                    if backups and after.get(fn + '.bak') != raw[b]: raise Violation('P05:backup', f"{fn}.bak does not hold the text from before the replacement")
                elif after.get(fn) != raw[b]: raise Violation('P05:untouched', f"{fn} was changed although nothing was confirmed in it")
                if (not backups or b not in m['replaced']) and {x for x in after if x.startswith(fn + '.bak')} != {x for x in before if x.startswith(fn + '.bak')}: raise Violation('P05:stray-backup', f"backups of {fn} appeared or vanished")
            else:
                whole = own[b] in (texts[b], m['texts'][b]) and own[b] is not None
                if not whole and backups and not any(norm(x).decode(errors='replace') in (texts[b], m['texts'][b]) for x in baks): raise Violation('P05:lost', f"after {o.describe()} the text of {fn} is whole neither under its own name nor under its backup name", str({x: len(v) for x, v in after.items()}))
                if b not in m['replaced'] and after.get(fn) != raw[b]: raise Violation('P05:untouched', f"after {o.describe()}: {fn} was changed although nothing was confirmed in it")
            if backups and case['bak']:
                older = {f"older {k} {b}".encode() for k in range(min(case['bak'], 4))}
                if older - set(baks): raise Violation('P05:older-backup', f"{fn}: an older backup that should have been kept is gone")
        new = set(after) - set(before) - {fn + '.bak' + s for fn in files.values() for s in ('', '2', '3', '4', '5', '6')}
        if new: raise Violation('P05:stray', f"files appeared: {sorted(new)}")
        for x in before:
            if x not in files.values() and '.bak' not in x and after.get(x) != before[x]: raise Violation('P05:other', f"{x} was changed")
        if o.ok and o.value['pics'] is not None and not fired:
            r = c.spawn(fresh, name, folder, cfg=dict(seed=1))
            if r.ok:
                d = canon.diff({b: r.value.get(b) for b in o.value['pics']}, o.value['pics'])
                if d: raise Violation(f'P05:reload:{name}', 'after the replacement the loaded Bible does not give the text now on the disk', d)
                c.probe('reload-compared')
            else: c.probe('reload-fails')
        c.nontrivial = fired or m['n'] > 0
PROP = P()
