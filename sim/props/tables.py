"""The reference tables: where they live, how to load a fresh one, and what can be asked of them (shared by P11 and P12)."""
import sys, os, random
from .. import canon

# name: (module, class, load method of its converter, file name base, folder of XML files or None)
TABLES = dict(
    codes=('BibleBooksCodes', 'BibleBooksCodes', 'loadAndValidate', 'BibleBooksCodes', None),
    orders=('BibleBookOrders', 'BibleBookOrderSystems', 'loadSystems', 'BibleBookOrders', 'BookOrders'),
    names=('BibleBooksNames', 'BibleBooksNamesSystems', 'loadSystems', 'BibleBooksNames', 'BookNames'),
    versif=('BibleVersificationSystems', 'BibleVersificationSystems', 'loadSystems', 'BibleVersificationSystems', 'VersificationSystems'),
    punct=('BiblePunctuationSystems', 'BiblePunctuationSystems', 'loadSystems', 'BiblePunctuationSystems', 'PunctuationSystems'),
    langs=('ISO_639_3_Languages', 'ISO_639_3_Languages', 'loadAndValidate', 'iso_639_3_Languages', None),
    usfm2=('USFM2Markers', 'USFM2Markers', 'loadAndValidate', 'USFM2Markers', None),
    usfm3=('USFM3Markers', 'USFM3Markers', 'loadAndValidate', 'USFM3Markers', None),
    orgs=('BibleOrganisationalSystems', 'BibleOrganisationalSystems', 'loadAndValidate', 'BibleOrganisationalSystems', None),
)
XML = dict(langs='iso_639_3.xml')
BOTH = ('pickle', 'json')
JSONREAD = ('codes', 'orders', 'names', 'versif', 'punct')      # tables that can be loaded from their JSON form


def xmlname(t): return XML.get(t) or (TABLES[t][4] if TABLES[t][4] else TABLES[t][3] + '.xml')


def forget():
    """Forget every loaded reference table (as in a new program): their modules are imported again."""
    for m in list(sys.modules):
        if m.startswith('BibleOrgSys.Reference'): del sys.modules[m]


def cls(t):
    import importlib
    return getattr(importlib.import_module('BibleOrgSys.Reference.' + TABLES[t][0]), TABLES[t][1])


def converter(t):
    import importlib
    n = TABLES[t][0] + 'Converter'
    c = getattr(importlib.import_module('BibleOrgSys.Reference.Converters.' + n), n)()
    getattr(c, TABLES[t][2])()
    return c


def tryit(f, *a, **k):
    try: return canon.plain(f(*a, **k))
    except (AssertionError, KeyError, ValueError, TypeError, IndexError, AttributeError, NameError) as e: return ['!', type(e).__name__]


TEXTS = ['Genesis', 'gen', 'GN', 'Ge', '1 Samuel', '1Sam', 'I Sam', '2 kgs', 'Psalm', 'Ps', 'Song of Songs', 'Sng', 'Mat', 'Mt', 'Matthew', 'John', '1 John', 'Jud', 'Jude', 'Judges', 'Jdg', 'Revelation', 'Rev', 'Apocalypse', 'Phil', 'Phm',
         'Philemon', 'Ma', 'Esther', 'Esg', 'Tobit', 'Bel', '3 Macc', '4Esd', 'Laodiceans', 'Xyz', 'Genèse', 'Génesis', 'Mateo', 'Juan', '1 Mbt', 'Hinagdanan', 'Te Kenehi', 'Acts', 'Ac', 'Rom', 'Lam', 'Ez', 'Ezr', 'Ezk', 'Hab', 'Hag', '']


def questions(t, r, k=120):
    """Questions, as lists of JSON values; index questions '#3' mean 'the third key of the table'."""
    Q = []
    def q(*a): Q.append(list(a))
    n = lambda m=10000: '#%d' % r.randrange(m)
    if t == 'codes':
        for _ in range(k):
            m = r.choice(['isValidBBB', 'getReferenceNumber', 'getCCELNumber', 'getShortAbbreviation', 'getSBLAbbreviation', 'getOSISAbbreviation', 'getSwordAbbreviation', 'getUSFMAbbreviation', 'getUSFMNumStr', 'getUSXNumStr', 'getUnboundBibleCode',
                          'getBibleditNumStr', 'getLogosNumStr', 'getNETBibleAbbreviation', 'getDrupalBibleAbbreviation', 'getByzantineAbbreviation', 'getExpectedChaptersList', 'getMaxChapters', 'isSingleChapterBook', 'isChapterVerseBook',
                          'getPossibleAlternativeBooksCodes', 'getTypicalSection', 'continuesThroughChapters', 'getBookName', 'getEnglishName_NR', 'getEnglishNameList_NR', 'isOldTestament_NR', 'isNewTestament_NR', 'isDeuterocanon_NR'])
            q(m, r.choice([n(), n(), n(80), 'XXX']))
        for _ in range(k // 3):
            q('getBBBFromText', r.choice(TEXTS[:-1]))
            q(r.choice(['getBBBFromShortAbbreviation', 'getBBBFromOSISAbbreviation', 'getBBBFromUSFMAbbreviation', 'getBBBFromUnboundBibleCode', 'getBBBFromDrupalBibleCode']), r.choice(['Ge', 'Gen', '1Sam', 'GEN', '01O', 'Exod', 'Mat', 'MAT', '40N', 'Rev', 'xyz', 'Tob', 'MRK', 'Jas']))
            q('getBBBFromReferenceNumber', r.randint(0, 120))
        for m in ('getAllReferenceAbbreviations', 'getSequenceList', 'getSingleChapterBooksList', 'getOSISSingleChapterBooksList', 'getAllOSISBooksCodes', 'getAllUSFMBooksCodes', 'getAllUSFMBooksCodeNumberTriples', 'getAllUSXBooksCodeNumberTriples', 'getAllBibleditBooksCodeNumberTriples'): q(m)
        q('hasPsalmTitle', 'PSA', str(r.randint(1, 150))); q('getSequenceList', r.sample(['REV', 'GEN', 'MAT', 'PSA', 'TOB', 'JHN'], 4))
        q('sortBCVReferences', [['MAT', '1', '2'], ['GEN', '3', '4'], ['GEN', '1', '31']]); q('__len__')
    elif t in ('orders', 'versif', 'punct', 'names'):
        sysname = {'orders': 'BookOrder', 'versif': 'Versification', 'punct': 'Punctuation', 'names': 'BooksNames'}[t]
        q(f'getAvailable{sysname}SystemNames'); q('__len__')
        for i in range(26): q(f'get{sysname}System', f'@{i}')
        q(f'get{sysname}System', 'NoSuchSystem')
        for _ in range(k // 4):
            s = f'@{r.randrange(26)}'
            if t == 'orders': q(r.choice(['numBooks', 'getBookOrderList']), s); q('containsBook', s, n())
            elif t == 'versif':
                q('isValidVersificationSystemName', s)
            elif t == 'names':
                q('getBBBFromText', r.choice(TEXTS[:-1]))
                if _ < 4: q('getBooksNamesSystem', s, r.sample(['GEN', 'EXO', 'PSA', 'SA1', 'SA2', 'MAT', 'MRK', 'JHN', 'JN1', 'JN2', 'REV'], 6))
        if t == 'names': q('getAvailableLanguageCodes')
    elif t == 'langs':
        q('__len__')
        for _ in range(k): q(r.choice(['isValidLanguageCode', 'getLanguageName', 'getScope', 'getType', 'getPart1Code', 'getPart2Code']), r.choice(['eng', 'fra', 'deu', 'hbo', 'grc', 'mbt', 'xxx', 'abc', 'tpi', 'arb', 'zho', 'swh', 'lat', 'nld', 'ind', 'qqq']))
        for _ in range(12): q(r.choice(['getLanguageCode', 'getNameMatches']), r.choice(['English', 'french', 'Matig', 'Tok Pisin', 'Greek', 'hebrew', 'Zulu', 'nothing like this', 'Manobo']))
    elif t in ('usfm2', 'usfm3'):
        for _ in range(k):
            q(r.choice(['isValidMarker', 'isNewlineMarker', 'isInternalMarker', 'isNoteMarker', 'isDeprecatedMarker', 'isCompulsoryMarker', 'isNumberableMarker', 'isNestingMarker', 'isPrinted', 'getMarkerClosureType', 'getMarkerContentType', 'toRawMarker',
                        'toStandardMarker', 'markerOccursIn', 'getMarkerEnglishName', 'getMarkerDescription']), r.choice([n(), n(), n(), 's1', 'q2', 'toca1', 'zz']))
        q('getOccursInList'); q('getInternalMarkersList'); q('getNoteMarkersList'); q('getTypicalNoteSets'); q('__len__')
        for o in ('Combined', 'CombinedOnly', 'Numbered', 'CanonicalText'): q('getNewlineMarkersList', o)
        for a in range(16): q('getCharacterMarkersList', bool(a & 1), bool(a & 2), bool(a & 4), bool(a & 8))
        q('getMarkerListFromText', 'He said \\wj I am\\wj* the \\nd Lord\\nd* \\f + \\ft note\\f*.')
    elif t == 'orgs':
        q('getAvailableOrganisationalSystemNames'); q('getAvailableOrganisationalSystemNames', True); q('__len__')
        for _ in range(k // 2):
            s = f'@{r.randrange(400)}'
            q('getOrganisationalSystem', s)
            q('getOrganisationalSystemValue', s, r.choice(['bookOrderSystem', 'versificationSystem', 'punctuationSystem', 'booksNamesSystem', 'languageCode', 'usesText', 'completenessCode', 'title', 'abbreviation']))
    return Q


def keys(t, o):
    """The keys that '#n' and '@n' stand for (sorted, so that they do not depend on the order of the table)."""
    if t == 'codes': return sorted(o.getAllReferenceAbbreviations())
    if t == 'orders': return ['GEN', 'EXO', 'PSA', 'MAT', 'JHN', 'REV', 'TOB', 'SIR', 'CH2', 'FRT']
    if t in ('usfm2', 'usfm3'): return sorted(o.getNewlineMarkersList('Combined') + o.getInternalMarkersList() + o.getNoteMarkersList())
    return ['x']


def names(t, o):
    f = dict(orders='getAvailableBookOrderSystemNames', versif='getAvailableVersificationSystemNames', punct='getAvailablePunctuationSystemNames', names='getAvailableBooksNamesSystemNames', orgs='getAvailableOrganisationalSystemNames').get(t)
    return sorted(str(x) for x in getattr(o, f)()) if f else ['x']


def answer(t, o, q, K, N):
    a = [(K[int(x[1:]) % len(K)] if x[:1] == '#' and x[1:].isdigit() else N[int(x[1:]) % len(N)] if x[:1] == '@' and x[1:].isdigit() else x) if isinstance(x, str) else x for x in q[1:]]
    return [q[0], a, tryit(getattr(o, q[0]), *a)]


def ask(t, o, Q):
    K, N = keys(t, o), names(t, o)
    return [answer(t, o, q, K, N) for q in Q]
