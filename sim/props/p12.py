"""P12: shared lookup objects answer independently of what was asked before."""
import os, random, pickle, copy
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common, tables

BOSES = ['GENERIC-KJV-66-ENG', 'GENERIC-KJV-66-ENG', 'GENERIC-KJV-80-ENG', 'GENERIC-KJV-81-ENG', 'RSV', 'RSV52', 'KJV-1611', 'NIV', 'GENERIC-ENG', 'GENERIC-80-RUS', 'MBT-2010', 'NLT-1996', 'BHS', 'NET', 'Vulgate', 'LXX', 'NoSuchBOS']
ORDERS = ['EuropeanBible', 'EthiopianProtestantBible', 'LutheranBible', 'ModernJewish', 'Septuagint', 'SynodalBible', 'KJVwithApocrypha', 'VulgateBible', 'NoSuch']
VERSIFS = ['KJV', 'Original', 'Septuagint', 'Vulgate', 'RSV52', 'Luther', 'RussianOrthodox', 'NIV84', 'NRSV', 'Catholic', 'NoSuch']
PUNCTS = ['English', 'English_brief', 'Matigsalug', 'NoSuch']
NAMES = ['eng_traditional', 'eng_extensive', 'eng_deuterocanon', 'deu_traditional', 'fra_traditional', 'mbt', 'rus_traditional', 'NoSuch']
BOOKS = ['GEN', 'EXO', 'RUT', 'SA1', 'SA2', 'EST', 'PSA', 'ISA', 'DAN', 'OBA', 'TOB', 'BAR', 'MAT', 'MRK', 'JHN', 'ACT', 'JN1', 'JN3', 'JDE', 'REV', 'LAO', 'XXX']
BNAMES = ['Gen', 'Genesis', 'Exod', 'Ruth', 'Ru', '1 Sam', '1Sam', 'I Samuel', '2 Sam.', 'Ps', 'Psalm', 'Psalms', 'Isa', 'Dan', 'Obad', 'Tob', 'Mat', 'Matt.', 'Mt', 'Mk', 'Mark', 'Jn', 'John', 'Jo', 'J', '1 John', '3 Jn', 'Jude', 'Jud', 'Rev', 'Acts', 'Xyz', '', 'GEN', 'REV', 'Song', 'Prov', 'Hab', 'Phil', 'Phlm', 'E', 'M']


def refstring(r):
    n = lambda m=40: str(r.choice([1, 1, 2, 3, r.randint(1, m), r.randint(1, 200)]))
    def one():
        k = r.random()
        sep = r.choice([':', ':', ':', '.', ',', ' : '])
        cv = n(20) if k < .15 else n(20) + sep + n() + (r.choice(['', '', '', 'a', 'b', 'x']) if k < .8 else '-' + n() if k < .9 else '–' + n(20) + sep + n())
        for _ in range(r.choice([0, 0, 0, 1, 2])): cv += r.choice([',', ', ', '; ', ';']) + r.choice([n(), n(20) + sep + n(), n() + '-' + n()])
        return r.choice(BNAMES) + r.choice([' ', ' ', ' ', '', '_', '. ', '  ']) + cv
    s = one()
    for _ in range(r.choice([0, 0, 0, 1, 2])): s += r.choice(['; ', ';', ', ', ' and ', '–']) + one()
    if r.random() < .1: s = r.choice([' ' + s, s + ' ', s + '.', s[:len(s) // 2], s + ' (LXX)', '(' + s + ')', s.upper(), s.replace(' ', '')])
    return s


def bcvstring(r):
    B = lambda: r.choice(BOOKS)
    cv = lambda: f"{r.randint(1, 40)}:{r.randint(1, 50)}{r.choice(['', '', '', 'a', '!3'])}"
    k = r.randrange(9)
    s = f"{B()}{r.choice('___ ')}{cv()}"
    if k == 1: s += f",{r.randint(1, 60)}"
    if k == 2: s += f"-{r.randint(1, 60)}"
    if k == 3: s += f"-{B()}_{cv()}"
    if k == 4: s += f"; {r.randint(1, 20)}:{r.randint(1, 9)}"
    if k == 5: s += f"; {B()}_{cv()}"
    if k == 6: s += f"–{cv()}"
    if k == 7: s = r.choice(['Gen.1.1', 'John.3.16', 'Gen.1.1-Gen.1.5', 'Matt.5.3', 'x', 'GEN', 'GEN_1', 'GEN 1', '1Sam.3.4'])
    return s


def questions(r, n, bnames):
    """[who, how, *arguments]; every 'who' is one kept object."""
    Q = []
    whos = []
    for _ in range(r.choice([3, 5, 8])):
        k = r.choice(['table', 'table', 'order', 'versif', 'punct', 'names', 'bos', 'bos', 'bos', 'list', 'list', 'single', 'singles', 'anchor', 'key', 'key', 'bible', 'bible', 'blist', 'style'])
        inst = r.randrange(2)
        if k == 'table': w = [k, r.choice(['codes', 'codes', 'names', 'usfm3', 'usfm2', 'langs', 'orgs', 'orders', 'versif', 'punct']), inst]
        elif k == 'order': w = [k, r.choice(ORDERS), inst]
        elif k == 'versif': w = [k, r.choice(VERSIFS), inst]
        elif k == 'punct': w = [k, r.choice(PUNCTS), inst]
        elif k == 'names': w = [k, r.choice(NAMES), inst, r.choice([None, sorted(r.sample(BOOKS[:-1], r.choice([3, 8, 20])))])]
        elif k in ('bos', 'list', 'single', 'singles'): w = [k, r.choice(BOSES if k == 'bos' else BOSES[:8]), inst]
        elif k == 'blist': w = [k, 'GENERIC-ENG', inst]
        elif k == 'anchor': w = [k, r.choice(BOOKS[:-1]), str(r.randint(1, 9)), str(r.randint(1, 20)), inst]
        else: w = [k, '', inst]
        whos.append(w)
        if r.random() < .4 and k in ('bos', 'versif', 'names', 'list'):       # another of the same kind
            w2 = list(w); w2[1] = r.choice(dict(bos=BOSES, versif=VERSIFS, names=NAMES, list=BOSES[:8])[k]); whos.append(w2)
    while len(Q) < n:
        if Q and r.random() < .3: Q.append(list(r.choice(Q))); continue
        w = r.choice(whos)
        k = w[0]
        B, C, V = r.choice(BOOKS), str(r.choice([1, 1, 2, 3, r.randint(0, 160)])), str(r.choice([1, 2, 5, r.randint(0, 180)]))
        q = lambda *a: Q.append([w] + list(a))
        if k == 'table':
            m = tables.questions(w[1], r, 6); r.shuffle(m); q('ask', m[0])
        elif k == 'order':
            q(*r.choice([['numBooks'], ['containsBook', B], ['getBookOrderPosition', B], ['getBookAtOrderPosition', r.randint(0, 90)], ['getBookOrderList'], ['getPreviousBookCode', B], ['getNextBookCode', B], ['correctlyOrdered', B, r.choice(BOOKS)]]))
        elif k == 'versif' or k == 'bos' and r.random() < .5:
            q(*r.choice([['getNumChapters', B], ['isSingleChapterBook', B], ['getNumVerses', B, C], ['getNumVersesList', B], ['getTotalNumVerses', B], ['getOmittedVerseList', B], ['getOmittedVerseList', B, True], ['isOmittedVerse', ('t', B, C, V, '')], ['isValidBCVRef', ('t', B, C, V, ''), f'{B} {C}:{V}'],
                         ['isValidBCVRef', ('t', B, C, V, 'a'), f'{B} {C}:{V}', True], ['expandCVRange', ('t', B, C, V, ''), ('t', r.choice([B, B, r.choice(BOOKS)]), str(int(C) + r.choice([0, 1])), str(int(V) + 2), ''), 'text'] + ([('o', r.choice(ORDERS[:4]))] if r.random() < .5 else []), ['numAvailableBooks'], ['__contains__', B]]))
        elif k == 'punct': q(*r.choice([['getPunctuationDict'], ['getAvailablePunctuationValueNames'], ['getPunctuationValue', r.choice(['bookChapterSeparator', 'verseSeparator', 'nothing'])]]))
        elif k == 'names': q(*r.choice([['getBookName', B], ['getBookAbbreviation', B], ['getBBBFromText', r.choice(BNAMES)], ['getBBBFromText', r.choice(BNAMES)], ['getDivisionAbbreviation', r.choice(['OT', 'NT', 'Old Testament', 'Law', 'x'])], ['getDivisionBooklist', r.choice(['OT', 'NT', 'Gospels'])]]))
        elif k == 'bos':
            q(*r.choice([['getBookList'], ['containsBook', B], ['getFirstBookCode'], ['getPreviousBookCode', B], ['getNextBookCode', B], ['getAlternativeBBBIfNecessary', B], ['getNumVersesList', B, True], ['getAbsoluteVerseNumber', B, C, V], ['getAbsoluteVerseNumber', B, C, V], ['convertAbsoluteVerseNumber', r.choice([1, 30, r.randint(1, 40000)])],
                         ['getMoreBasicTypes'], ['getOrganisationalSystemValue', r.choice(['punctuationSystem', 'includesBooks', 'languageCode', 'nothing'])], ['getBookName', B], ['getBookAbbreviation', B], ['getBBBFromText', r.choice(BNAMES)], ['getOrganisationalSystemType'], ['getBookOrderList'], ['getPunctuationDict']]))
        elif k in ('list', 'blist'):
            s = refstring(r)
            if r.random() < .35:
                if r.random() < .5: s = f"{r.choice(BNAMES)} {r.randint(1, 9)}:{r.randint(1, 12)}{r.choice('-–')}{r.randint(3, 20)}{r.choice(['', '; 3:4', ',25'])}"
                q('chain', 'parseReferenceString', s, [r.choice([['getReferenceList', True], ['getReferenceList', False], ['getReferenceList'], ['getOSISRefList'], ['getOSISRefList'], ['containsReference', B, C, V]]) for _ in range(r.choice([2, 3, 5]))])
                continue
            q(*r.choice([['parse', s], ['parse', s], ['parse', s, 'GEN_1:1'], ['parse+', s, 'getReferenceList', True], ['parse+', s, 'getReferenceList', False], ['parse+', s, 'getOSISRefList'], ['parse+', s, 'containsReference', B, C, V], ['getFirstReference', s], ['getFirstReference', s, 'EXO_3:4'], ['parseToOSIS', s],
                         ['parseOSISReferenceString', s], ['makeReferenceString', [B, C, V, '']], ['makeReferenceString', [B, C, V, ''], 'here']]))
        elif k in ('single', 'singles'): q('parse', refstring(r))
        elif k == 'anchor':
            if r.random() < .3:
                q('chain', 'parseAnchorString', f"{C}:{V}{r.choice(['', '-' + str(int(V) + 3), ',9'])}", [r.choice([['getReferenceList', True], ['getReferenceList', False]]) for _ in range(r.choice([2, 3, 4]))])
                continue
            s = r.choice(['{}:{}', '{}.{}', '{}:{}-' + V, '{}', '{}:{}a', '{}:{} ', '{}:{},' + V]).format(C, V); q(*r.choice([['matchesAnchorString', s], ['parseAnchorString', s], ['parseAnchorString', s, 'loc']]))
        elif k == 'key': q(r.choice(['SimpleVerseKey', 'SimpleVersesKey', 'VerseRangeKey', 'FlexibleVersesKey']), bcvstring(r), r.random() < .3)
        elif k == 'bible':
            nm = r.choice(bnames + BNAMES[:-5]) or 'x'
            nm = r.choice([nm, nm, nm[:3], nm[:2], nm.lower(), nm.upper(), nm[:1] + nm[-1:]])
            q(*r.choice([['guessXRefBBB', nm], ['guessXRefBBB', nm], ['getAssumedBookName', B], ['getLongTOCName', B], ['getShortTOCName', B], ['getBooknameAbbreviation', B], ['getNumChapters', B], ['getNumVerses', B, C], ['isSingleChapterBook', B], ['getContext', ('k', B, C, V)], ['getVerseText', ('k', B, C, V)]]))
        elif k == 'style': q(*r.choice([['getTKStyleDict', r.choice(['c', 'v', 'p', 'q1', 'zz'])], ['getValue', r.choice(['c', 'v', 'p', 'zz']), r.choice(['font', 'justify', 'x'])], ['getTKStyles'], ['__len__']]))
    return Q


SYS = ('orders', 'versif', 'punct', 'names', 'orgs')
LOADS = dict(order=['orders'], versif=['versif'], punct=['punct'], names=['names'], bos=SYS, list=SYS, single=SYS, singles=SYS, blist=SYS)


def make(w, B):
    k = w[0]
    if k == 'table': return tables.cls(w[1])().loadData()
    from BibleOrgSys.Reference import BibleBookOrders, BibleVersificationSystems, BiblePunctuationSystems, BibleBooksNames, BibleOrganisationalSystems, BibleReferences, BibleStylesheets
    if k == 'order': return BibleBookOrders.BibleBookOrderSystem(w[1])
    if k == 'versif': return BibleVersificationSystems.BibleVersificationSystem(w[1])
    if k == 'punct': return BiblePunctuationSystems.BiblePunctuationSystem(w[1])
    if k == 'names': return BibleBooksNames.BibleBooksNamesSystem(w[1], w[3])
    bos = BibleOrganisationalSystems.BibleOrganisationalSystem
    if k == 'bos': return bos(w[1])
    if k == 'list': return BibleReferences.BibleReferenceList(bos(w[1]))
    if k == 'blist': return BibleReferences.BibleReferenceList(bos(w[1]), B)
    if k == 'single': return BibleReferences.BibleSingleReference(bos(w[1]))
    if k == 'singles': return BibleReferences.BibleSingleReferences(bos(w[1]))
    if k == 'anchor': return BibleReferences.BibleAnchorReference(w[1], w[2], w[3])
    if k == 'style': return BibleStylesheets.BibleStylesheet().loadDefault()
    if k == 'bible': return B
    return None


def answer(o, q, fresh=None):
    w, how, a = q[0], q[1], q[2:]
    if how == 'ask': return tables.answer(w[1], o, a[0], tables.keys(w[1], o), tables.names(w[1], o))
    from BibleOrgSys.Reference import VerseReferences as VR
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    def arg(x):
        if isinstance(x, (tuple, list)) and x[:1] and x[0] in ('t', 'k', 'o'): return tuple(x[1:]) if x[0] == 't' else VR.SimpleVerseKey(*x[1:]) if x[0] == 'k' else BibleBookOrderSystem(x[1])
        return tuple(x) if isinstance(x, list) else x
    if w[0] == 'key':
        def f():
            k = getattr(VR, how)(*(a[0].replace(' ', '_').replace(':', '_').split('_')[:3] if how == 'SimpleVerseKey' and not a[1] else [a[0]]), **(dict(OSIS=True) if a[1] else {}))
            return [k.getShortText(), k.getVerseKeyText(), [str(x) for x in k.getIncludedVerses()]]
        return tables.tryit(f)
    def f():
        if how == 'chain':      # several things asked of one parsed list
            def get(o, g): return tables.tryit(lambda: copy.deepcopy(getattr(o, g[0])(*g[1:])))
            if fresh is None:
                getattr(o, a[0])(a[1])
                return [get(o, g) for g in a[2]]
            out = []
            for g in a[2]:
                o2 = fresh()
                getattr(o2, a[0])(a[1])
                out.append(get(o2, g))
            return out
        if how == 'parse+':
            r = o.parseReferenceString(a[0])
            return [r, getattr(o, a[1])(*a[2:])]
        if how == 'parse': return o.parseReferenceString(*a)
        return getattr(o, how)(*[arg(x) for x in a])
    return tables.tryit(f)


def session(folder, Q, sample):
    """A program with one of each object, asked everything in order; and, before that, copies of it that are asked one question each."""
    G = common.G()
    G.maxProcesses = 1
    B = None
    if any(q[0][0] in ('bible', 'blist') for q in Q):
        B = fmt.ALL['USFM'].open(folder)
        fmt.load(B)
        B.discover()
    for q in Q:
        for t in [q[0][1]] if q[0][0] == 'table' else LOADS.get(q[0][0], ()): tables.cls(t)().loadData()
    f, world.W.faults = world.W.faults, []
    want = {}
    for i in sample:
        r, w = os.pipe()
        pid = real.fork()
        if pid == 0:
            try:
                os.close(r)
                try: v = ['ok', answer(make(Q[i][0], B), Q[i], lambda: make(Q[i][0], B))]
                except Exception as x: v = ['!', type(x).__name__]
                with os.fdopen(w, 'wb') as fh: pickle.dump(v, fh)
            finally: real._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fh: want[i] = pickle.load(fh)
        os.waitpid(pid, 0)
    objs, got = {}, {}
    learnt = {a: copy.deepcopy(getattr(B, a)) for a in ('reverseDict', 'bookAbbrevDict', 'guesses') if hasattr(B, a)}
    for i, q in enumerate(Q):
        k = repr(q[0])
        try:
            if q[0][0] == 'blist':          # what the Bible has learnt is another matter: only the parser is kept
                for a, x in learnt.items(): setattr(B, a, copy.deepcopy(x))
            if k not in objs: objs[k] = make(q[0], B)
            v = ['ok', answer(objs[k], q)]
        except Exception as x: v = ['!', type(x).__name__]
        if i in want: got[i] = v
    return dict(want=want, got=got)


class P(Prop):
    id = 'P12'
    runs = dict(quick=700, thorough=60000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run makes a seeded history of questions to kept lookup objects (reference tables, book-order/versification/punctuation/names/organisational systems, reference parsers, verse keys, a loaded Bible), valid and invalid, on several instances, '
            'and compares a sample of the answers with those of fresh objects in copies of the program that were asked nothing else. Non-trivial: the compared answers include at least one that is not an error. Distinct = distinct full event traces.')
    assumptions = ["guessXRefBBB may resolve an abbreviation that was ambiguous by what it has learnt since (documented in its code); an answer it gave at first may not change.", 'Callers do not change the lists and dictionaries that are returned to them.']

    def gen(self, rng, i, tier):
        bible = gen.make(rng, nbooks=rng.choice([2, 3, 5]), maxch=2, maxv=4)
        n = rng.choice([12, 30, 60, 120])
        r = random.Random(rng.randrange(1 << 30))
        Q = questions(r, n, ['Genesis', 'First John', 'Ruth', 'Book of Ruth', 'Mark', 'Jonah', 'John'])
        sample = set(r.sample(range(len(Q)), min(len(Q), rng.choice([6, 12, 20]))))
        return dict(bible=bible, queries=[[q, i in sample] for i, q in enumerate(Q)], world=common.make_world(rng))

    def run(self, c, case):
        folder = c.path('src')
        fmt.ALL['USFM'].make(c, case['bible'], folder)
        Q = [q for q, _ in case['queries']]
        sample = [i for i, (_, x) in enumerate(case['queries']) if x]
        o = c.spawn(session, folder, Q, sample, cfg=dict(case['world'], prefix=0))
        if not o.ok: raise Violation('P12:dies', f"asking the questions fails: {o.describe()}", getattr(o, 'tb', ''))
        w, g = o.value['want'], o.value['got']
        c.note(g)
        for i in sample:
            a, b = w[i], g[i]
            c.probe(Q[i][0][0] + ('' if a[0] == 'ok' and not (isinstance(a[1], list) and a[1][:1] == ['!']) else '-error'))
            if a[0] == 'ok': c.nontrivial = True
            if canon.diff(a, b):
                if Q[i][1] == 'guessXRefBBB' and a == ['ok', None]: c.probe('learnt'); continue
                raise Violation(f"P12:{Q[i][0][0]}:{Q[i][1] if Q[i][1] != 'ask' else Q[i][2][0]}", f"question {i} of {len(Q)}, {Q[i]}: a fresh object's answer is not that of the kept one", canon.diff(a, b)[:800])


PROP = P()
