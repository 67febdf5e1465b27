"""P14: downloads of Bibles from online services are all-or-nothing and retryable."""
import os, io, time, random, tempfile, zipfile, zlib
from datetime import datetime, timezone
from pathlib import Path
from ..ctx import Prop, Violation
from .. import net, world, gen, fmt, canon
from ..world import real
from . import common

T0 = 1_700_000_000
ZIPTYPE = dict(cat='application/zip', dcs='application/octet-stream')
ZONES = ['UTC0', 'XXX-12', 'XXX+8', 'XXX-5:45', 'XXX+3']
HOSTS = dict(cat='cdn.door43.org', dcs='git.door43.org')


def dcsname(b):
    nn = int(gen.BY[b][2])
    return f'{nn:02}-{gen.BY[b][1]}.usfm'

def edition_spec(r, e):
    E = r['editions'][e]
    return {**r['spec'], 'books': [b for b in r['spec']['books'] if b['b'] in E['books']]}, {b: E['edits'].get(b, 0) for b in E['books']}

def files_of(r, e):
    """{name: bytes} of an edition's folder."""
    spec, edits = edition_spec(r, e)
    out = {dcsname(b['b']): gen.usfm_text(spec, b, edits[b['b']]).encode('utf-8') for b in spec['books']}
    q = random.Random(f"{r['spec']['seed']}:{e}")
    out['LICENSE.md'] = b'# License\n' + b'Some words about it. ' * q.randint(0, 400)
    if q.random() < .7: out['manifest.yaml'] = ('---\ndublin_core:\n  version: %r\n' % str(e)).encode()
    if q.random() < .3: out['media.bin'] = q.randbytes(q.choice([0, 500, 20000]))
    return out

def issued(r, e): return T0 + sum(x['after'] for x in r['editions'][:e + 1])

def top(r): return f"{r['lang']}_{r['id']}"

def zipped(r, e):
    b = io.BytesIO()
    q = random.Random(f"zip:{r['spec']['seed']}:{e}")
    F = list(files_of(r, e).items())
    q.shuffle(F)
    with zipfile.ZipFile(b, 'w', q.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])) as z:
        if q.random() < .5: z.writestr(zipfile.ZipInfo(top(r) + '/', (2020, 1, 1, 0, 0, 0)), b'')
        for n, d in F:
            i = zipfile.ZipInfo(f'{top(r)}/{n}', (2020, 1, 1, 0, 0, 0)); i.compress_type = z.compression; i.external_attr = 0o644 << 16
            z.writestr(i, d)
    return b.getvalue()

def catalog(r, e):
    t = datetime.fromtimestamp(issued(r, e), timezone.utc)
    if r['kind'] == 'cat':
        url = f"https://{HOSTS['cat']}/{r['lang']}/{r['id']}/v{e if r['versioned'] else 1}/{r['id']}.zip"
        return dict(language=r['lang'], title=r['title'], identifier=r['id'], issued=t.strftime('%Y-%m-%dT%H:%M:%S+00:00'),
                    formats=[dict(format='text/markdown', size=1, url='https://none/'), dict(format='application/zip; type=bundle content=text/usfm3 conformsto=rc0.2', size=len(zipped(r, e)), url=url)])
    return dict(html_url=f"https://{HOSTS['dcs']}/{r['org']}/{top(r)}", full_name=f"{r['org']}/{top(r)}", name=top(r), updated_at=t.strftime('%Y-%m-%dT%H:%M:%SZ'))

def handler(R, state):
    def h(method, target):
        p = target.partition('?')[0]
        for i, r in enumerate(R):
            e = state[i]
            d = catalog(r, e)
            if r['kind'] == 'cat':
                if p == d['formats'][1]['url'].split('/', 3)[3].join(['/', '']): return 200, ZIPTYPE['cat'], zipped(r, e)
            else:
                base = '/' + d['html_url'].split('/', 3)[3]
                if p == base + '/archive/master.zip': return 200, ZIPTYPE['dcs'], zipped(r, e)
                if p.startswith(base + '/raw/branch/master/'):
                    f = files_of(r, e).get(p.rsplit('/', 1)[1])
                    if f is not None: return 200, 'text/plain; charset=utf-8', f
        return 404, 'text/html', b'Not found'
    return h


def pic(B): return {BBB: [canon.plain(x) for x in canon.book(b, idx=False)['lines']] for BBB, b in B.books.items()}

def short(p): return zlib.crc32(repr(sorted(p.items())).encode('utf-8', 'surrogatepass'))

def reference(case, src):
    """What each edition is when it is just read from a folder."""
    from BibleOrgSys.Formats.USFMBible import USFMBible
    out = []
    for i, r in enumerate(case['resources']):
        L = []
        for e in range(len(r['editions'])):
            B = USFMBible(os.path.join(src, str(i), str(e), top(r)), givenName='x')
            if r['kind'] == 'dcs': B.uWencoded = True
            fmt.load(B)
            L.append({BBB: short({BBB: x}) for BBB, x in pic(B).items()})
        out.append(L)
    return out


def session(case, ops, state, cached, refs, dl, tmp):
    """state: current edition of each resource; cached: the resources whose current edition was got without a fault."""
    w = world.W
    f, w.faults = w.faults, []
    R = case['resources']
    state, cached = list(state), set(cached)
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    common.G().DEFAULT_WRITEABLE_DOWNLOADED_RESOURCES_FOLDERPATH = Path(dl)
    from BibleOrgSys.Online import Door43OnlineCatalog as C, Door43ContentServiceOnline as D
    site = {k: net.Site('http', handler(R, state)) for k in HOSTS}
    net.start({HOSTS[k]: site[k] for k in HOSTS})
    w.faults = f
    log = []
    for n, op in enumerate(ops):
        k = op[0]
        if k == 'wait': w.t += op[1]; continue
        if k == 'zone': os.environ['TZ'] = op[1]; time.tzset(); continue
        i = op[1]
        r = R[i]
        def bad(sig, msg): return dict(bad=('P14:' + sig, f"step {n} {op[:3]} {r['kind']} edition {state[i]}: {msg}"), log=log, state=state, cached=sorted(cached))
        if k == 'update':
            if state[i] + 1 < len(r['editions']): state[i] += 1; cached.discard(i)
            continue
        want = refs[i][state[i]]
        before = len(site[r['kind']].log)
        err = B = None
        w.setfaults(op[-1])
        if k == 'get':
            try: B = C.Door43CatalogBible(catalog(r, state[i])) if r['kind'] == 'cat' else D.DCSBible(catalog(r, state[i]), downloadAllBooks=True)
            except Exception as e: err = f"{type(e).__name__}: {e}"
            fired = sum(x['_fired'] for x in w.faults)
            w.setfaults([])
            got = None
            if err is None and hasattr(B, 'books') and hasattr(B, 'sourceFolder'):
                try: fmt.load(B); got = {BBB: short({BBB: x}) for BBB, x in pic(B).items()}
                except Exception as e: err = f"loading: {type(e).__name__}: {e}"
            asked = len(site[r['kind']].log) - before
            log.append(f"get {err and err.split(':')[0]} {got is not None} {fired} {asked}")
            if not fired:
                if got is None: return bad('fails', f"nothing is wrong with the service or the disk, but it fails: {err}")
                if got != want: return bad('other', f"isn't what is served now: {describe(got, want, refs[i])}")
                if i in cached and asked: return bad('again', 'an up-to-date Bible was downloaded again')
                cached.add(i)
            else:
                if got is not None and got not in refs[i]: return bad('partial', f"after a fault it is neither refused nor complete: {describe(got, want, refs[i])}")
                if err and err.startswith('loading'): return bad('partial', f"after a fault the Bible is given but can't be loaded: {err}")
                if got != want: cached.discard(i)
        else:
            try:
                B = D.DCSBible(catalog(r, state[i]))
                for BBB in op[2]: B.loadBookIfNecessary(BBB)
            except Exception as e: err = f"{type(e).__name__}: {e}"
            fired = sum(x['_fired'] for x in w.faults)
            w.setfaults([])
            log.append(f"book {err and err.split(':')[0]} {fired}")
            if err and not fired: return bad('fails', f"nothing is wrong with the service or the disk, but it fails: {err}")
            for again in (0, 1):
                if B is None: break
                if again:
                    if not fired: break
                    try:
                        for BBB in op[2]: B.loadBookIfNecessary(BBB)
                    except Exception as e: return bad('fails', f"the fault ({err}) is over but it still fails: {type(e).__name__}: {e}")
                got = {BBB: short({BBB: x}) for BBB, x in pic(B).items()}
                for BBB in op[2]:
                    if BBB in got and got[BBB] != want.get(BBB): return bad('other', f"{BBB} isn't what is served now ({err}; {fired} faults; {'after trying again' if again else ''}): {describe(got, want, refs[i])}")
                    if BBB not in got and BBB in want and (again or not fired): return bad('fails', f"{BBB} isn't there {'although it is tried again after the fault' if again else ''}")
                if set(got) - set(op[2]): return bad('other', f"{sorted(set(got) - set(op[2]))} got in as well")
    return dict(bad=None, log=log, state=state, cached=sorted(cached))


def describe(got, want, eds):
    if got in eds: return f"it is edition {eds.index(got)}"
    return ', '.join([f"{b} is missing" for b in want if b not in got] + [f"{b} is too much" for b in got if b not in want] + [f"{b} differs" + (f" (it is edition {[n for n, x in enumerate(eds) if x.get(b) == got[b]]}'s)" if any(x.get(b) == got[b] for x in eds) else '') for b in got if b in want and got[b] != want[b]])[:250]


class P(Prop):
    def prepare(self): import requests, urllib3.connection      # (not the code under test: only to save time)
    id = 'P14'
    runs = dict(quick=700, thorough=50000)
    wall = dict(quick=60, thorough=2400)
    rule = ('A run is a few programs, one after the other (with various clocks and time zones), that get Bibles from two simulated services (one as catalogued zip files, the other as repositories: entire or book by book) while new editions are issued, with network and disk faults or a crash at chosen operations; or two programs at the same time. '
            'What is given is compared with the served edition as read straight from a folder. Non-trivial: a fault or crash happened. Distinct = distinct full event traces.')
    real = Prop.real + ['requests/urllib3/http.client over simulated sockets', 'zipfile']
    stub = Prop.stub + ['HTTP servers', 'network sockets', 'TLS']
    assumptions = ['The services have different time stamps for different editions (at least 10 s apart), as the catalogue gives them.',
                   'Single books are fetched as plain text without any checksum, so bytes altered in transit or shortened by the server itself are only tried for zip files.',
                   'With two programs at the same time only what a later program gets is judged.']

    def fault(self, rng, r, whole):
        kinds = ['crash', 'crash', 'torn', 'enospc', 'enospc', 'eio', 'eacces', 'refused', 'dns', 'timeout', 'reset', 'eof', 'eof', 'status', 'html']
        if whole: kinds += ['corrupt', 'corrupt', 'cut', 'cut']
        kind = rng.choice(kinds)
        d = dict(kind=kind, at=rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30]), arg=round(rng.random() * (1 if whole else .6), 3))
        if kind in net.NETKINDS:
            d['path'] = '/net/'
            d['ops'] = {'refused': ['connect'], 'dns': ['connect'], 'timeout': [rng.choice(['connect', 'recv', 'http'])], 'reset': [rng.choice(['connect', 'send', 'recv', 'http'])], 'eof': [rng.choice(['recv', 'recv', 'http'])]}.get(kind, ['http'])
            if 'recv' not in d['ops']: d['at'] = rng.choice([0, 0, 0, 1]) if not whole else 0
        elif kind in ('crash', 'torn'): d['ops'] = 'any' if kind == 'crash' else ['write']; d['path'] = rng.choice(['', '/run/dl']) if kind == 'crash' else '/run/dl'
        else:
            d['ops'] = rng.choice([['write'], ['write'], ['open-w'], ['close-w'], ['rename'], ['mkdir'], ['meta'], ['remove', 'rmdir'], 'any' if whole else ['write', 'rename']]); d['path'] = rng.choice(['/run/dl', '/run/dl', '/run/dl', '/run/tmp'])
            if rng.random() < .4: d['sticky'] = True
        return d

    def gen(self, rng, i, tier):
        R = []
        for n in range(rng.choice([1, 1, 2, 3])):
            spec = gen.make(rng, maxch=2, maxv=5, minbooks=1, maxbooks=6, blanks=False, extra=['uw'] if rng.random() < .3 else ())
            names = [b['b'] for b in spec['books']]
            eds, edits = [], {}
            for e in range(rng.choice([1, 2, 2, 3])):
                bs = [b for b in names if rng.random() < .8] or names[:1]
                if e:
                    for b in names:
                        if rng.random() < .6: edits[b] = e
                eds.append(dict(books=bs, edits=dict(edits), after=rng.choice([10, 3600, 86400, 2592000])))
            while True:
                r = dict(kind=rng.choice(['cat', 'dcs', 'dcs']), spec=spec, editions=eds, lang=rng.choice(['en', 'en', 'es-419']), id=rng.choice(['ulb', 'ulb', 'udb']), org=rng.choice(['unfoldingWord', 'Door43-Catalog']), versioned=rng.random() < .5)
                r['title'] = {'ulb': 'Unlocked Literal Bible', 'udb': 'Unlocked Dynamic Bible'}[r['id']]
                if not any(q['kind'] == r['kind'] and q['lang'] == r['lang'] and q['id'] == r['id'] and (q['org'] == r['org'] or r['kind'] == 'cat') for q in R): break
            R.append(r)
        case = dict(resources=R)
        S = []
        for s in range(rng.randint(1, 4)):
            ops = [['zone', rng.choice(ZONES)]]
            for _ in range(rng.randint(1, 4)):
                x = rng.randrange(len(R))
                q = rng.random()
                if q < .22: ops.append(['update', x])
                elif q < .3: ops.append(['wait', rng.choice([1, 60, 86400, 2592000])])
                elif R[x]['kind'] == 'dcs' and rng.random() < .3:
                    names = [b['b'] for b in R[x]['spec']['books']]
                    ops.append(['book', x, rng.sample(names, rng.randint(1, min(3, len(names)))), [self.fault(rng, R[x], False)] if rng.random() < .6 else []])
                else: ops.append(['get', x, [self.fault(rng, R[x], True)] if rng.random() < .6 else []])
            S.append(dict(ops=ops, t0=T0 + rng.choice([-2_592_000, -80_000, -30, 0, 30, 7200, 80_000, 2_592_000, 31_536_000])))
        case['sessions'] = S
        if rng.random() < .1: case['race'] = True
        case['world'] = common.make_world(rng, mss=rng.choice([1448, 1448, 300, 4096]), chunked=rng.choice([0, 0, 500, 5000]), buf=rng.choice([0, 0, 64, 1024]))
        return case

    def shrink(self, case):
        S = case['sessions']
        for k in range(len(S)):
            if len(S) > 1: yield {**case, 'sessions': S[:k] + S[k + 1:]}
            o = S[k]['ops']
            put = lambda ops: {**case, 'sessions': S[:k] + [{**S[k], 'ops': ops}] + S[k + 1:]}
            for j in range(len(o)):
                yield put(o[:j] + o[j + 1:])
                if o[j][0] in ('get', 'book') and o[j][-1]: yield put(o[:j] + [o[j][:-1] + [[]]] + o[j + 1:])
                if o[j][0] == 'book' and len(o[j][2]) > 1:
                    for m in range(len(o[j][2])): yield put(o[:j] + [[*o[j][:2], o[j][2][:m] + o[j][2][m + 1:], o[j][3]]] + o[j + 1:])
                if o[j][0] == 'zone' and o[j][1] != 'UTC0': yield put(o[:j] + [['zone', 'UTC0']] + o[j + 1:])
            if S[k]['t0'] != T0: yield {**case, 'sessions': S[:k] + [{**S[k], 't0': T0}] + S[k + 1:]}
        R = case['resources']
        for k, r in enumerate(R):
            for sp in gen.shrink(r['spec']):
                names = [b['b'] for b in sp['books']]
                eds = [{**e, 'books': [b for b in e['books'] if b in names]} for e in r['editions']]
                if all(e['books'] for e in eds): yield {**case, 'resources': R[:k] + [{**r, 'spec': sp, 'editions': eds}] + R[k + 1:]}
            if len(r['editions']) > 1: yield {**case, 'resources': R[:k] + [{**r, 'editions': r['editions'][:-1]}] + R[k + 1:]}
        for k, v in (('mss', 1448), ('chunked', 0), ('buf', 0), ('order', 'sorted')):
            if case['world'].get(k) != v: yield {**case, 'world': {**case['world'], k: v}}

    def run(self, c, case):
        dl, tmp, src = c.path('dl'), c.path('tmp'), c.path('src')
        R = case['resources']
        for i, r in enumerate(R):
            for e in range(len(r['editions'])):
                d = os.path.join(src, str(i), str(e), top(r))
                os.makedirs(d)
                for n, b in files_of(r, e).items():
                    with real.open(os.path.join(d, n), 'wb') as f: f.write(b)
        o = c.spawn(reference, case, src, cfg=dict(seed=1))
        if not o.ok: raise Violation('P14:reference', f"the editions can't be read from their folders: {o.describe()}", getattr(o, 'tb', ''))
        refs = o.value
        state, cached = [0] * len(R), []
        def judge(o, ops, what):
            if o.status in ('exc', 'died', 'deadlock'): raise Violation('P14:dies', f"{what}: {o.describe()}", getattr(o, 'tb', ''))
            if o.ok:
                c.note(o.value['log'])
                if o.value['bad']: raise Violation(o.value['bad'][0], f"{what}: {o.value['bad'][1]}", str(ops)[-1500:])
                for x in o.value['log']: c.probe(' '.join(x.split()[:3]))
        for n, S in enumerate(case['sessions']):
            ops = S['ops']
            cfg = dict(case['world'], t0=S['t0'], seed=case['world']['seed'] + n)
            if case.get('race') and n == len(case['sessions']) - 1:
                a = [[*x[:-1], []] for x in ops if x[0] in ('get', 'book')]
                if a:
                    c.race([('one', session, (case, a, state, [], refs, dl, tmp)), ('two', session, (case, list(reversed(a)), state, [], refs, dl, tmp))], cfg=cfg)
                    c.nontrivial = True; c.probe('race')
                    cached = []
                continue
            o = c.spawn(session, case, ops, state, cached, refs, dl, tmp, cfg=cfg)
            judge(o, ops, f'program {n + 1}')
            if o.world and sum(o.world['fired'].values()): c.nontrivial = True
            if o.ok: state, cached = o.value['state'], o.value['cached']
            else:
                c.probe('crash'); cached = []
                for x in ops:          # the services go on (all updates of that program count)
                    if x[0] == 'update' and state[x[1]] + 1 < len(R[x[1]]['editions']): state[x[1]] += 1
        fin = []
        for i in range(len(R)): fin += [['get', i, []], ['get', i, []]]
        o = c.spawn(session, case, fin, state, cached, refs, dl, tmp, cfg=dict(case['world'], t0=case['sessions'][-1]['t0'] + 100000))
        judge(o, fin, 'the last program (without faults)')


PROP = P()
