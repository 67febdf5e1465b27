"""Canonical, comparable pictures of Bibles and output trees."""
import os, hashlib, zipfile, io, re, types
from .world import real


MASKBIBLES = ('bibles', 'by picture')     # in masks: a pickled Bible counts as the Bible it holds (no scratch attributes)
MASKPICKLES = ('pickles', 'by value')     # in masks: compare pickled objects by value, not by bytes


def entry(e):
    x = e.getExtras() if hasattr(e, 'getExtras') else None
    ex = None
    if x is not None and len(x):
        ex = []
        for i in x:
            ex.append((i.getType(), i.getIndex(), i.getText(), i.getCleanText()))
    return (e.getMarker(), e.getOriginalMarker(), e.getText(), e.getCleanText(), e.getFullText() if hasattr(e, 'getFullText') else None, ex)


def plain(o, depth=0, seen=None):
    """Stable nested picture of simple data; objects by class name and attributes."""
    if o is None or isinstance(o, (str, int, float, bool, bytes)): return o
    if depth > 12: return '...'
    if isinstance(o, dict): return ['dict'] + [[plain(k, depth + 1), plain(v, depth + 1)] for k, v in o.items()]
    if isinstance(o, (list, tuple)): return [plain(v, depth + 1) for v in o]
    if isinstance(o, (set, frozenset)): return ['set'] + sorted((plain(v, depth + 1) for v in o), key=repr)
    if isinstance(o, os.PathLike): return 'path:' + os.fspath(o)
    return f"<{type(o).__name__}>"


def deep(o, path=None):
    """Everything reachable through attributes and containers, as nested lists; sharing does not matter, cycles are marked."""
    if o is None or isinstance(o, (str, int, float, bool, bytes)): return o
    path = path or []
    for n, p in enumerate(path):
        if p is o: return ['cycle', len(path) - n]
    path = path + [o]
    t = type(o).__name__
    if isinstance(o, dict): return [t] + [[deep(k, path), deep(v, path)] for k, v in o.items() if not (isinstance(k, str) and k.startswith(('_BibleWriter__output', 'referenceList')))]       # scratch of the exporters
    if isinstance(o, (list, tuple)): return [t] + [deep(v, path) for v in o] + ([deep(vars(o), path)] if getattr(o, '__dict__', None) else [])
    if isinstance(o, (set, frozenset)): return [t] + sorted((deep(v, path) for v in o), key=repr)
    if isinstance(o, os.PathLike): return 'path:' + os.fspath(o)
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)): return ['function', getattr(o, '__name__', t)]
    if getattr(o, '__dict__', None) is not None: return [t, deep(vars(o), path)]
    if hasattr(o, '__slots__'): return [t] + [[k, deep(getattr(o, k, None), path)] for k in o.__slots__]
    return f"<{t}>"


def unorder(o):
    """Dict order removed (for results whose dict order is not promised)."""
    if isinstance(o, list):
        if o and o[0] == 'dict': return ['dict'] + sorted(([unorder(k), unorder(v)] for k, v in o[1:]), key=repr)
        return [unorder(x) for x in o]
    return o


def index(ix):
    out = []
    for key, e in ix.items():
        try: rec = (e.getEntryIndex(), e.getEntryCount(), tuple(e.getContextList()) if hasattr(e, 'getContextList') else None)
        except AttributeError:
            d = getattr(e, '__dict__', None)
            rec = plain(d) if d else plain(tuple(e) if isinstance(e, tuple) else repr(e))
        out.append((tuple(key) if isinstance(key, tuple) else key, plain(rec)))
    return out


def book(b, idx=True):
    d = {}
    d['BBB'] = b.BBB
    d['lines'] = [entry(e) for e in getattr(b, '_processedLines', [])]
    if not d['lines']: d['raw'] = [tuple(x) if isinstance(x, tuple) else x for x in getattr(b, '_rawLines', [])]
    d['errors'] = plain(getattr(b, 'checkResultsDictionary', None))
    for a in ('longTOCName', 'shortTOCName', 'booknameAbbreviation', 'assumedBookName', 'maxChapter', 'haveTriedIndexing' if False else 'maxChapter'):
        d[a] = getattr(b, a, None)
    if idx:
        for a in ('_CVIndex', '_SectionIndex'):
            ix = getattr(b, a, None)
            if ix is not None:
                try: d[a] = index(ix)
                except Exception as e: d[a] = f"<unreadable {type(e).__name__}>"
    if hasattr(b, 'pagesDict' if False else 'chapterLabel'): d['chapterLabel'] = b.chapterLabel
    return d


def bible(B, idx=True, errors=True, extra=()):
    d = {'order': list(B.books.keys()), 'books': {BBB: book(x, idx) for BBB, x in B.books.items()}}
    for a in ('name', 'abbreviation', 'BBBToNameDict', 'bookNameDict', 'combinedBookNameDict') + tuple(extra):
        d[a] = plain(getattr(B, a, None))
    if errors: d['errorDict'] = plain(getattr(B, 'errorDictionary', None)); d['loadErrors'] = plain(getattr(B, 'loadErrors', None))
    return d


def diff(a, b, path=''):
    """First difference between two canonical pictures, as text ('' if equal)."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))): return f"{path}: {str(a)[:200]!r} vs {str(b)[:200]!r}"
    if isinstance(a, dict):
        if list(a) != list(b):
            if set(a) != set(b): return f"{path}: only first {sorted(map(str, set(a)-set(b)))[:8]} only second {sorted(map(str, set(b)-set(a)))[:8]}"
            return f"{path}: order {list(a)[:12]} vs {list(b)[:12]}"
        for k in a:
            r = diff(a[k], b[k], f"{path}/{k}")
            if r: return r
        return ''
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r: return r
        if len(a) != len(b): return f"{path}: length {len(a)} vs {len(b)}; extra {str((a if len(a)>len(b) else b)[min(len(a),len(b))])[:200]}"
        return ''
    if a != b:
        if isinstance(a, str) and len(a) > 150:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return f"{path}: differ at {k}: {a[max(0,k-40):k+80]!r} vs {b[max(0,k-40):k+80]!r}"
        return f"{path}: {str(a)[:200]!r} vs {str(b)[:200]!r}"
    return ''


def tree(folder, masks=(), content=True, skip=()):
    """Relative path -> content picture of every file below folder (zip files by members)."""
    out = {}
    for dp, dn, fn in os.walk(folder):
        dn.sort()
        for d in dn:
            rel = os.path.relpath(os.path.join(dp, d), folder)
            out[rel + '/'] = 'dir'
        for f in sorted(fn):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, folder)
            if any(re.search(s, rel) for s in skip): continue
            with real.open(p, 'rb') as fh: data = fh.read()
            out[rel] = content_of(rel, data, masks) if content else len(data)
    return dict(sorted(out.items()))


def content_of(rel, data, masks=()):
    if data[:4] == b'PK\x03\x04':
        try:
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                if z.testzip() is not None: return 'BADZIP'
                return {'zip': {n: content_of(n, z.read(n), masks) for n in sorted(z.namelist())}}
        except Exception as e: return f"BADZIP {type(e).__name__}"
    if data[:3] == b'BZh' or data[:2] == b'\x1f\x8b':
        import tarfile
        try:
            with tarfile.open(fileobj=io.BytesIO(data)) as t:
                return {'tar': {m.name: content_of(m.name, t.extractfile(m).read(), masks) if m.isfile() else 'dir' for m in sorted(t.getmembers(), key=lambda m: m.name)}}
        except tarfile.ReadError:
            import gzip
            try: return {'gz': content_of(rel, gzip.decompress(data), masks)}
            except Exception as e: return f"BADARCHIVE {type(e).__name__}"
        except Exception as e: return f"BADARCHIVE {type(e).__name__}"
    if data[:15] == b'SQLite format 3': return sqlite(data)
    if rel.endswith(('BibleVersion.pickle', 'BibleInfo.pickle')): return repr_pickles(data, masks)
    if rel.endswith('.pickle') and MASKPICKLES in masks:
        import pickle
        try:
            o = pickle.loads(data)
            data = repr(bible(o) if MASKBIBLES in masks and hasattr(o, 'books') else deep(o)).encode('utf-8', 'surrogatepass')
        except Exception as e: return f"BADPICKLE {type(e).__name__} {e}"
    for pat, rep in (m for m in masks if m is not MASKPICKLES and m is not MASKBIBLES): data = re.sub(pat, rep, data)
    if os.environ.get('BOSSIM_DEBUG') == 'content': return data.decode('utf-8', 'backslashreplace')
    return hashlib.sha256(data).hexdigest()[:16] + f":{len(data)}"


def sqlite(data):
    import sqlite3
    c = sqlite3.Connection(':memory:')
    try:
        c.deserialize(data)
        if c.execute('PRAGMA integrity_check').fetchone()[0] != 'ok': return 'BADSQLITE'
        if os.environ.get('BOSSIM_DEBUG') == 'content': return {'sqlite': '\n'.join(c.iterdump())}
        return {'sqlite': hashlib.sha256('\n'.join(c.iterdump()).encode('utf-8', 'surrogatepass')).hexdigest()[:16]}
    except Exception as e: return f"BADSQLITE {type(e).__name__}"
    finally: c.close()


def repr_pickles(data, masks):
    """A file of consecutive pickles of simple values, readably."""
    import pickle
    f = io.BytesIO(data)
    out = []
    try:
        while f.tell() < len(data): out.append(repr(plain(pickle.load(f))))
    except Exception as e: out.append(f"<{type(e).__name__}>")
    b = '\n'.join(out).encode('utf-8', 'surrogatepass')
    for pat, rep in (m for m in masks if m is not MASKPICKLES and m is not MASKBIBLES): b = re.sub(pat, rep, b)
    return b.decode('utf-8', 'surrogatepass')
