"""P15: installing a Sword module is reported done only when it is complete."""
import os, io, gzip, tarfile, random, tempfile
from ..ctx import Prop, Violation
from .. import net, world
from ..world import real
from . import common

NAMES = ['AraNT', 'BohVer', 'ChiB5', 'DutSVV', 'EngWEB', 'FinPR', 'GerLut', 'HunKar']


class Repo:
    """One module repository: what it serves in its present edition. modules: {name: edition}"""
    def __init__(self, seed, name, host, folder, names):
        self.seed, self.name, self.host, self.folder = seed, name, host, folder
        self.modules = {n: 0 for n in names}
    def rng(self, *k): return random.Random(f"{self.seed}:{self.name}:{k}")
    def confname(self, m): return m.lower()
    def datapath(self, m): return ('modules/texts/ztext/' if len(m) % 2 else 'modules/comments/rawcom/') + m.lower() + '/'
    def fields(self, m, e):
        r = self.rng('conf', m, e)
        f = [('DataPath', './' + self.datapath(m)[:-1 if r.random() < .3 else None]), ('ModDrv', 'zText'), ('Encoding', 'UTF-8'), ('Lang', m[:2].lower()), ('Version', f'1.{e}'),
             ('Description', f'{m} from {self.name}'), ('About', 'x' * r.randint(1, 3000) + ' done')]
        return f
    def conf(self, m, e):
        return (f'[{m}]\n' + ''.join(f'{a}={b}\n' for a, b in self.fields(m, e))).encode('latin-1')
    def files(self, m, e):
        r = self.rng('files', m, e)
        r0 = self.rng('names', m)
        names = r0.sample(['ot.bzs', 'ot.bzv', 'ot.bzz', 'nt.bzs', 'nt.bzv', 'nt.bzz', 'README.txt'], r0.randint(2, 6))
        return {n: r.randbytes(r.choice([0, 1, 60, 700, 3000, 9000, 20000])) for n in names}
    def index(self):
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as z, tarfile.open(fileobj=z, mode='w') as t:
            d = tarfile.TarInfo('mods.d'); d.type = tarfile.DIRTYPE; d.mode = 0o755; d.mtime = 1_600_000_000; t.addfile(d)
            for m, e in self.modules.items():
                data = self.conf(m, e)
                i = tarfile.TarInfo(f'mods.d/{self.confname(m)}.conf'); i.size = len(data); i.mtime = 1_600_000_000; t.addfile(i, io.BytesIO(data))
        return b.getvalue()
    def tree(self):
        f = self.folder or '/'
        t = {f + 'mods.d.tar.gz': self.index()}
        for m, e in self.modules.items():
            t[f'{f}mods.d/{self.confname(m)}.conf'] = self.conf(m, e)
            for n, b in self.files(m, e).items(): t[f + self.datapath(m) + n] = b
        return t
    def update(self, how, x):
        names = sorted(self.modules)
        if how == 'new' and len(names) < len(NAMES): self.modules[[n for n in NAMES if n not in names][int(x * (len(NAMES) - len(names)))]] = 0
        elif names:
            n = names[int(x * len(names))]
            if how == 'gone' and len(names) > 1: del self.modules[n]
            else: self.modules[n] += 1


def repos_of(case): return [Repo(case['seed'], *r) for r in case['repos']]

def complete(install, repo, m, e):
    """Is the edition e of the module completely on the disk?"""
    def same(p, b):
        try:
            with real.open(p, 'rb') as f: return f.read() == b
        except OSError: return False
    return same(os.path.join(install, 'mods.d', repo.confname(m) + '.conf'), repo.conf(m, e)) and all(same(os.path.join(install, repo.datapath(m), n), b) for n, b in repo.files(m, e).items())

def broken(install, repos, editions):
    """Modules that are listed as installed but aren't any complete edition."""
    try: L = sorted(os.listdir(os.path.join(install, 'mods.d')))
    except OSError: return []
    out = []
    for f in L:
        if not f.endswith('.conf'): continue
        ok = any(complete(install, r, m, e) for r in repos for m in NAMES if r.confname(m) + '.conf' == f for e in range(editions + 1))
        if not ok: out.append(f)
    return out


def listing(am):
    """{module: sorted [(repo, conf name, fields)]}"""
    out = {}
    for n, x in am.items(): out[n] = sorted((t[0], t[1], sorted((k, str(v)) for k, v in t[2].items())) for t in (x if isinstance(x, list) else [x]))
    return out

def expected(repos):
    out = {}
    for r in repos:
        for m, e in r.modules.items(): out.setdefault(m, []).append((r.name, r.confname(m), sorted([('Name', m)] + [(a, b) for a, b in r.fields(m, e)])))
    return {m: sorted(x) for m, x in out.items()}


def session(case, ops, history, install, tmp):
    w = world.W
    f, w.faults = w.faults, []
    repos = repos_of(case)
    for i, how, x in history: repos[i].update(how, x)
    sites = {}
    def serve():
        for h in {r.host for r in repos}:
            t = {}
            for r in repos:
                if r.host == h: t.update(r.tree())
            if h not in sites: sites[h] = net.Site('ftp', tree=t, shuffle=random.Random(case['seed']).shuffle)
            else: sites[h].tree = t
    serve()
    net.start(sites)
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    from BibleOrgSys.Online.SwordInstallManager import SwordInstallManager
    im = SwordInstallManager()
    im.setUserDisclaimerConfirmed()
    im.clearSources()
    for r in repos: im.addSource(r.name, 'FTP', r.host, r.folder)
    im.currentInstallFolderpath = install
    w.faults = f
    known = None                   # what the listing was at the last refresh that worked
    log, installs = [], []
    byname = {r.name: r for r in repos}
    for n, op in enumerate(ops):
        k = op[0]
        def bad(sig, msg, detail=''): return dict(bad=('P15:' + sig, f"step {n} {op}: {msg}", detail), log=log)
        if k == 'update':
            repos[op[1]].update(op[2], op[3]); serve(); continue
        if k == 'choose': im.currentRepoName = repos[op[1]].name; continue
        chosen = im.currentRepoName
        if k == 'refresh' and not op[1] and (known is None or any(t[0] == chosen for x in known.values() for t in x)): op = [k, True, op[-1]]     # only to add another repository
        w.setfaults(op[-1])
        err = ret = None
        try:
            if k == 'refresh': ret = im.refreshRemoteSource(clearFirst=op[1])
            elif k == 'all': ret = im.refreshAllRemoteSources()
            else: ret = im.installModule(op[1])
        except Exception as e: err = f"{type(e).__name__}: {e}"
        fired = sum(x['_fired'] for x in w.faults)
        w.setfaults([])
        log.append(f"{k} {ret} {err and err.split(':')[0]} {fired}")
        if im.currentRepoName != chosen: return bad('chosen', f"the chosen repository was {chosen!r} and is {im.currentRepoName!r} afterwards ({err})")
        now = listing(im.availableModules)
        if k in ('refresh', 'all'):
            if k == 'refresh':
                base = {} if op[1] else (known or {})
                exp = {m: list(x) for m, x in base.items()}
                for m, x in expected([byname[chosen]]).items(): exp[m] = sorted(exp.get(m, []) + x)
            else: exp = expected(repos)
            if not err and ret is not False and (k == 'refresh' or not fired):
                if now != exp: return bad('listing', f"the refresh is reported done{' in spite of a fault' if fired else ''} but the listing isn't what is served: {diff(now, exp)}")
                known = now
            elif not fired: return bad('refresh-fails', f"refreshing fails without any fault: {ret} {err}")
            else:
                known = None
                if k == 'all':
                    hurt = [r.name for r in repos if any(x.get('path', '').startswith('/net/' + r.host) for x in op[-1])]
                    disk = not all(x.get('path', '').startswith('/net/') for x in op[-1])
                    for r in repos:
                        mine = {m: [t for t in x if t[0] == r.name] for m, x in now.items() if any(t[0] == r.name for t in x)}
                        full = expected([r])
                        if mine and mine != full: return bad('partial', f"{r.name} is listed in part: {diff(mine, full)}")
                        if not mine and full and r.name not in hurt and not disk: return bad('others', f"{r.name} isn't listed because {hurt} had a fault ({err})")
        else:
            m = op[1]
            cur = byname.get(chosen)
            b = broken(install, repos, case['updates'])
            if b: return bad('half-installed', f"{'reported done' if ret else 'after a failure'} ({err or ret}), {b} is listed as installed but isn't complete")
            if ret:
                if m not in cur.modules: return bad('unknown', 'installed a module that is not served there')
                if not complete(install, cur, m, cur.modules[m]): return bad('incomplete', f"reported done{' in spite of a fault' if fired else ''} but the module isn't what {chosen} serves")
                installs.append(m)
            elif not fired and cur is not None and m in cur.modules and any(t[0] == chosen for t in now.get(m, [])):
                return bad('install-fails', f"installing {m} from {chosen} fails without any fault: {ret} {err}; it is listed in {[t[0] for t in now[m]]}")
    return dict(bad=None, log=log, installs=installs)


def diff(a, b):
    L = []
    for m in sorted(set(a) | set(b)):
        if a.get(m) != b.get(m): L.append(f"{m}: {[t[:2] for t in a.get(m, [])]} instead of {[t[:2] for t in b.get(m, [])]}" + ('' if [t[:2] for t in a.get(m, [])] != [t[:2] for t in b.get(m, [])] else ' (other contents)'))
    return '; '.join(L)[:300]


class P(Prop):
    id = 'P15'
    runs = dict(quick=1500, thorough=100000)
    wall = dict(quick=60, thorough=2400)
    rule = ('A run is a few programs, one after the other, that refresh module lists and install Sword modules from up to four simulated FTP repositories (several of which may serve the same module, and which are updated in between), with network and disk faults or a crash at chosen operations; '
            'or two programs that do so at the same time. Listings, reported results and the install folder are compared with what the repositories serve; at the end everything is repeated without faults and must be complete. Non-trivial: a fault or crash happened. Distinct = distinct full event traces.')
    real = Prop.real + ['ftplib over simulated sockets']
    stub = Prop.stub + ['FTP servers', 'network sockets']
    assumptions = ['FTP carries no checksums: bytes altered in transit are not tried, nor files that the repository itself holds in part.',
                   'A module counts as listed as installed when its .conf file is in mods.d.',
                   'Files of an older edition that the newer one no longer has may stay.']

    def fault(self, rng, case, inst):
        kind = rng.choice(['crash', 'crash', 'torn', 'enospc', 'enospc', 'eio', 'eacces', 'refused', 'timeout', 'reset', 'reset', 'eof', 'eof', 'eof', 'status'])
        d = dict(kind=kind, at=rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 40, 60]), arg=round(rng.random(), 3))
        if kind in net.NETKINDS:
            h = rng.choice([r[1] for r in case['repos']])
            d['path'] = '/net/' + h if kind != 'eof' or rng.random() < .5 else '/net/' + rng.choice([h, h + '/data', 'data'])
            d['ops'] = {'refused': ['connect'], 'timeout': [rng.choice(['connect', 'recv', 'ftp'])], 'reset': [rng.choice(['connect', 'send', 'recv', 'ftp'])], 'eof': ['recv'], 'status': ['ftp']}[kind]
        elif kind in ('crash', 'torn'): d['ops'] = 'any' if kind == 'crash' or rng.random() < .3 else ['write']; d['path'] = rng.choice(['', '/run/inst', '/run/inst', '/run/inst'])
        else:
            d['ops'] = rng.choice([['write'], ['write', 'close-w'], ['close-w'], ['open-w'], 'write', 'any']); d['path'] = rng.choice(['/run/inst', '/run/inst', '/run/tmp'])
            if d['ops'] == 'any' and rng.random() < .5: d['ops'] = ['rename', 'remove', 'mkdir']
            if rng.random() < .4: d['sticky'] = True
        return d

    def gen(self, rng, i, tier):
        case = dict(seed=rng.randrange(1 << 20), repos=[])
        nr = rng.choice([1, 2, 2, 3, 4])
        for n in range(nr):
            host = f'ftp{rng.randrange(nr)}.example.org'
            case['repos'].append([f'Repo {n}', host, rng.choice(['/pub/sword/raw/', f'/r{n}/']) if not any(r[1] == host for r in case['repos']) else f'/other{n}/', rng.sample(NAMES, rng.randint(1, 4))])
        for r in case['repos']:
            if sum(1 for q in case['repos'] if q[1] == r[1]) == 1 and rng.random() < .15: r[2] = ''
        if rng.random() < .1 and nr > 1: case['race'] = True
        S = []
        up = 0
        for s in range(rng.randint(1, 3)):
            cur = rng.randrange(nr)
            ops = [['choose', cur], rng.choice([['refresh', True], ['all']]) + [[self.fault(rng, case, False)] if rng.random() < .2 else []]]
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                if r < .15: cur = rng.randrange(nr); ops.append(['choose', cur])
                elif r < .3: ops.append(rng.choice([['refresh', True], ['refresh', False], ['all'], ['all']]) + [[self.fault(rng, case, False)] if rng.random() < .4 else []])
                elif r < .4: ops.append(['update', rng.randrange(nr), rng.choice(['change', 'change', 'change', 'new', 'gone']), round(rng.random() * .99, 3)]); up += 1
                else: ops.append(['install', rng.choice(case['repos'][cur][3]), [self.fault(rng, case, True)] if rng.random() < .6 else []])
            S.append(ops)
        case['sessions'], case['updates'] = S, up
        case['world'] = common.make_world(rng, mss=rng.choice([1448, 1448, 300, 64]), buf=rng.choice([0, 0, 64, 1024]))
        return case

    def shrink(self, case):
        S = case['sessions']
        for k in range(len(S)):
            if len(S) > 1: yield {**case, 'sessions': S[:k] + S[k + 1:]}
            for j in range(len(S[k])):
                yield {**case, 'sessions': S[:k] + [S[k][:j] + S[k][j + 1:]] + S[k + 1:]}
                if S[k][j][0] in ('refresh', 'all', 'install') and S[k][j][-1]: yield {**case, 'sessions': S[:k] + [S[k][:j] + [S[k][j][:-1] + [[]]] + S[k][j + 1:]] + S[k + 1:]}
        for k in range(len(case['repos'])):
            L = case['repos'][k]
            if len(L[3]) > 1:
                for j in range(len(L[3])): yield {**case, 'repos': case['repos'][:k] + [L[:3] + [L[3][:j] + L[3][j + 1:]]] + case['repos'][k + 1:]}
        for k, v in (('mss', 1448), ('buf', 0), ('order', 'sorted')):
            if case['world'].get(k) != v: yield {**case, 'world': {**case['world'], k: v}}

    def run(self, c, case):
        install, tmp = c.path('inst'), c.path('tmp')
        w = case['world']
        history, tried = [], []
        repos = repos_of(case)
        def judge(o, ops, what):
            if o.status in ('exc', 'died', 'deadlock'): raise Violation('P15:dies', f"{what}: {o.describe()}", getattr(o, 'tb', ''))
            if o.ok:
                c.note(o.value['log'])
                if o.value['bad']: raise Violation(*o.value['bad'])
            b = broken(install, repos_of(case), case['updates'])
            if b: raise Violation('P15:half-installed', f"{what} ({o.status}): {b} is listed as installed but isn't complete", str(ops)[-1500:])
        if case.get('race'):
            a, b = (case['sessions'] * 2)[:2]
            a, b = ([x if x[0] != 'install' and x[0] != 'update' else None for x in s] for s in (a, b))
            a, b = ([[*x[:-1], []] if x[0] != 'choose' else x for x in s if x] for s in (a, b))
            outs, s = c.race([('one', session, (case, a, [], install, tmp)), ('two', session, (case, b, [], install, tmp))], cfg=w)
            for k, o in outs.items(): judge(o, a if k == 'one' else b, f'two programs at the same time ({k})')
            c.nontrivial = True; c.probe('race')
            return
        for n, ops in enumerate(case['sessions']):
            o = c.spawn(session, case, ops, history, install, tmp, cfg=w)
            judge(o, ops, f'program {n + 1}')
            if o.world and sum(o.world['fired'].values()): c.nontrivial = True
            if o.status == 'crash': c.probe('crash')
            else:
                for x in o.value['log']: c.probe(' '.join(x.split()[:2]))
            # updates that came before a crash count as well (the repositories don't crash)
            history += [op[1:] for op in ops if op[0] == 'update']
            tried += [(op[1]) for op in ops if op[0] == 'install']
        repos = repos_of(case)
        for i, how, x in history: repos[i].update(how, x)
        fin = []
        for i, r in enumerate(repos):
            L = [m for m in dict.fromkeys(tried) if m in r.modules]
            if L: fin += [['choose', i], ['refresh', True, []]] + [['install', m, []] for m in L]
        if fin:
            o = c.spawn(session, case, fin, history, install, tmp, cfg=dict(w, faults=[]))
            judge(o, fin, 'the repetition without faults')
            c.probe('repeated')


PROP = P()
