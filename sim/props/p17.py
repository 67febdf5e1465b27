"""P17: verse caches for online sources are transparent and bounded."""
import os, json, random
from collections import OrderedDict
from urllib.parse import urlsplit, parse_qs
from ..ctx import Prop, Violation
from .. import net, world
from ..world import real
from . import common

HOST = '4.dbt.io'
BOOKS = {'Gen': 'GEN', 'Exod': 'EXO', 'Ruth': 'RUT', 'Ps': 'PSA', 'Matt': 'MAT', 'John': 'JHN', 'Rom': 'ROM', 'Jude': 'JDE', 'Rev': 'REV'}
NETOPS = dict(refused='connect', dns='connect', timeout=('connect', 'recv', 'http'), reset=('connect', 'send', 'recv', 'http'), eof=('recv', 'http'), status='http', html='http', cut='http')


class Service:
    """The Bible Brain service: texts by (dam, book, chapter, verse), in an edition that can be replaced."""
    def __init__(self, seed): self.seed, self.edition = seed, 0
    def text(self, dam, book, c, v):
        r = random.Random(f"{self.seed}:{self.edition}:{dam}:{book}:{c}:{v}")
        words = [r.choice(['word', 'λόγος', 'דבר', 'llama', 'ça', '“so”', 'he said,', '—', 'x1', '2:3']) for _ in range(r.randint(1, 30))]
        return r.choice(['', ' ', '\n']) + f"{dam} {book} {c}:{v} " + ' '.join(words) + r.choice(['', '  ', '\n\t'])
    def handler(self, method, target):
        u = urlsplit(target)
        q = {k: x[0] for k, x in parse_qs(u.query).items()}
        if u.path == '/api/apiversion': j = {'Version': '2.13.1'}
        elif u.path == '/library/book':
            j = [dict(dam_id=q['dam_id'] + ('O' if i < 4 else 'N'), book_id=o, book_name=o, book_order=i + 1, number_of_chapters='150', chapters='1,2,3') for i, o in enumerate(BOOKS)]
        elif u.path == '/text/verse':
            dam, b, c, v = q['dam_id'], q['book_id'], q['chapter_id'], q['verse_start']
            if dam[-3:] != '2ET' or b not in BOOKS: j = []
            else: j = [dict(book_name=b, book_id=b, book_order='1', chapter_id=c, chapter_title=f'Chapter {c}', verse_id=v, verse_text=self.text(dam[:6], b, c, v), paragraph_number=str(1 + int(v) // 4))]
        else: return 404, 'text/html', b'?'
        return 200, 'application/json', json.dumps(j, ensure_ascii=self.seed % 2 == 0).encode('utf-8')


def session(seed, dams, ops):
    with real.open('BibleBrainKey.txt', 'wt') as f: f.write('0123456789abcdef')
    svc = Service(seed)
    site = net.Site('http', svc.handler)
    net.start({HOST: site})
    from BibleOrgSys.Online import GenericOnlineBible as GM, BibleBrainOnline as M
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
    limit = getattr(GM, 'MAX_CACHED_VERSES', 100)
    bibles, models = {}, {}
    log = []
    w = world.W
    for n, op in enumerate(ops):
        k = op[0]
        def bad(sig, msg): return dict(bad=('P17:' + sig, f"step {n} {op}: {msg}"), log=log)
        if k == 'update': svc.edition += 1; continue
        d = op[1]
        if d not in bibles and k != 'put':
            w.setfaults(op[4] if k == 'ask' and n % 3 == 0 else [])
            try: bibles[d], models[d] = M.BibleBrainBible(dams[d]), OrderedDict()
            except Exception as e:
                if not w.fired and not w.faults: raise
                log.append(f'offline {type(e).__name__}'); w.setfaults([])
                bibles[d], models[d] = M.BibleBrainBible(dams[d]), OrderedDict()      # the service is back
            if sorted(bibles[d].books) != sorted(BOOKS.values()): return bad('books', f"the Bible has the books {list(bibles[d].books)}")
        if k == 'put':                        # the generic cache, used directly
            if d not in bibles: bibles[d], models[d] = GM.GenericOnlineBible(), OrderedDict()
        B, model = bibles[d], models[d]
        osis, c, v = op[2]
        key = SimpleVerseKey(BOOKS.get(osis, osis), str(c), str(v))
        mk = (osis, c, v)
        want = svc.text(dams[d], osis, c, v).strip()
        if k in ('put', 'get'):
            hit = B.getCachedVerseDataList(key) if hasattr(B, 'getCachedVerseDataList') else None
            if mk in model:
                model.move_to_end(mk)
                if hit != model[mk]: return bad('other', f"{mk} was put in the cache (use {list(model)[::-1].index(mk) + 1} of {limit}) but it gives {str(hit)[:100]}")
            elif hit is not None: return bad('evict', f"{mk} isn't among the {limit} last used, but the cache gives {str(hit)[:100]}")
            if k == 'put':
                data = [('v', 'v', str(v), str(v), []), ('v~', 'v~', want, want, [])]
                B.cacheVerse(key, data)
                model[mk] = list(data); model.move_to_end(mk)
        else:
            before = len(site.log)
            w.setfaults(op[4])
            err = None
            try:
                ans = B.getVerseDataList(key) if not op[3] else B.getContextVerseData(key)
                if op[3]: ans, context = ans
            except Exception as e: err, ans = f"{type(e).__name__}: {e}", None
            fired = sum(f['_fired'] for f in w.faults)
            w.setfaults([])
            asked = len(site.log) - before
            if osis not in BOOKS:
                if ans: return bad('other', f"the service doesn't have that book, but it gives {str(ans)[:100]}")
                log.append('nobook'); continue
            if mk in model:
                log.append('hit')
                if asked: return bad('forgot', f"it is among the {limit} last used ({list(model)[::-1].index(mk) + 1}) but is asked for again")
                if err: return bad('fails', f"a cached passage fails: {err}")
                if ans != model[mk]: return bad('other', f"cached {str(model[mk])[:150]} but the answer is {str(ans)[:150]}")
                model.move_to_end(mk)
            else:
                if not asked and not fired: return bad('evict', f"not among the {limit} last used, but it isn't asked for; the answer is {str(ans)[:100]} {err or ''}")
                if err or not ans:
                    log.append('failed' + str(bool(err)))
                    if not fired: return bad('fails', f"nothing is wrong with the service, but the answer is {ans} {err}")
                else:
                    log.append('miss')
                    try: got = [(x[0], x[2]) for x in ans]
                    except Exception: got = ans
                    if ('v', str(v)) not in got or ('v~', want) not in got or sum(1 for g in got if g[0] == 'v~') != 1 or any(g[0] == 'c#' and g[1] != str(c) for g in got):
                        return bad('other', f"the service has {want[:120]!r} but the answer is {str(ans)[:200]}")
                    model[mk] = list(ans)
        while len(model) > limit: model.popitem(last=False)
        cache = getattr(B, 'cache', None)
        if cache is not None and len(cache) > limit: return bad('unbounded', f"the cache has {len(cache)} entries")
    return dict(bad=None, log=log, counts={k: sum(1 for x in log if x.startswith(k)) for k in ('hit', 'miss', 'failed', 'offline', 'nobook')})


class P(Prop):
    def prepare(self): import requests, urllib3.connection      # (not the code under test: only to save time)
    id = 'P17'
    runs = dict(quick=500, thorough=60000)
    wall = dict(quick=50, thorough=1800)
    rule = ('A run is one program with up to three online Bibles that asks for up to 420 verses (and puts verses in the generic cache) over more keys than the cache holds, with network faults at individual requests and service updates between them; '
            'the requests the simulated service receives and every answer are compared with a least-recently-used model. Non-trivial: at least one request met a fault or the cache went over its limit. Distinct = distinct full event traces.')
    real = Prop.real + ['requests, urllib3 and http.client over simulated sockets']
    stub = Prop.stub + ['the Bible Brain service', 'network sockets', 'TLS']
    assumptions = ['The service answers with the documented JSON; answers that are altered in transit without breaking the JSON are not tried (nothing could tell).',
                   'Verses that the service does not have are not asked for.']

    def gen(self, rng, i, tier):
        nk = rng.choice([8, 30, 99, 100, 101, 110, 130, 160])
        keys = []
        while len(keys) < nk:
            k = (rng.choice(list(BOOKS)), rng.choice([1, 1, 2, 11, 12, 111]), rng.choice([1, 1, 2, 3, 11, 12, 21, 111]))
            if k not in keys: keys.append(k)
        dams = rng.sample(['ENGESV', 'ENGKJV', 'SPNBDA', 'ENGNLV'], 3)
        nd = rng.choice([1, 1, 1, 2, 2, 3])
        ops, pos = [], 0
        pf = rng.choice([0, .02, .1, .3])
        style = rng.choice(['random', 'scan', 'scan', 'hot', 'hot'])
        direct = rng.random() < .2
        for n in range(rng.choice([60, 150, 260, 420])):
            if style == 'scan' and rng.random() < .9: k = keys[pos % nk]; pos += 1
            elif style == 'hot' and rng.random() < .4: k = keys[rng.randrange(min(nk, 7))]
            elif style == 'hot': k = keys[pos % nk]; pos += 1
            else: k = rng.choice(keys)
            r = rng.random()
            if r < .01: ops.append(['update'])
            if r > .99: k = (rng.choice(['1Chr', 'XXA']), 1, 1) if not direct else k
            if k[0] not in BOOKS: k = ('LUK', k[1], k[2])
            d = rng.randrange(nd)
            if direct: ops.append([rng.choice(['put', 'put', 'get']) if n > 2 else 'put', d, list(k)]); continue
            f = []
            if rng.random() < pf:
                kind = rng.choice(list(NETOPS))
                o = NETOPS[kind]
                f = [dict(kind=kind, ops=[o] if isinstance(o, str) else [rng.choice(o)], at=rng.choice([0, 0, 0, 1, 2]), arg=round(rng.random() * .98, 3))]
            ops.append(['ask', d, list(k), rng.random() < .3, f])
        if direct:                           # every Bible starts with a put
            seen = set()
            for o in ops:
                if o[0] == 'update': continue
                if o[1] not in seen: o[0] = 'put'; seen.add(o[1])
        return dict(dams=dams, ops=ops, seed=rng.randrange(1 << 20), world=common.make_world(rng, mss=rng.choice([1448, 1448, 200, 37]), chunked=rng.choice([0, 0, 16, 500]), netbuf=rng.choice([0, 0, 64])))

    def run(self, c, case):
        ops = [[o[0], o[1], tuple(o[2])] + o[3:] if o[0] != 'update' else o for o in case['ops']]
        o = c.spawn(session, case['seed'], case['dams'], ops, cfg=case['world'])
        if not o.ok: raise Violation('P17:dies', f"{o.describe()}", getattr(o, 'tb', ''))
        v = o.value
        if v['bad']: raise Violation(*v['bad'])
        c.note(v['log'])
        for k, n in v['counts'].items(): c.probe(k, n)
        c.nontrivial = bool(v['counts']['failed'] or v['counts']['offline'] or v['counts']['miss'] > 100 or not v['log'])


PROP = P()
