"""P02: results do not depend on listing order, hash seed, clock, file times, current folder."""
import os, re
from ..ctx import Prop, Violation
from .. import gen, fmt, canon
from ..world import real
from . import common, exporters as ex


def session(name, folder, deep, exps, out, detect):
    G = common.G()
    G.maxProcesses = 1
    f = fmt.ALL[name]
    d = {}
    if detect:
        from BibleOrgSys.UnknownBible import UnknownBible
        u = UnknownBible(folder)
        d['detected'] = str(u.search())
        d['detected2'] = str(u.search(strictCheck=False))
    B = f.open(folder)
    fmt.load(B)
    d['bible'] = canon.bible(B)
    d['settings'] = canon.plain(getattr(B, 'settingsDict', None))
    d['supplied'] = canon.plain(getattr(B, 'suppliedMetadata', None))
    if deep: d['deep'] = common.deep_picture(B)
    for e in exps:
        try: r = str(ex.call(B, e, os.path.join(out, e)))
        except Exception as x: r = f"<{type(x).__name__} {x}>"
        d['export ' + e] = [r, canon.tree(os.path.join(out, e), masks=ex.MASKS, skip=ex.SKIP) if os.path.isdir(os.path.join(out, e)) else None]
    return d


class P(Prop):
    id = 'P02'
    aux = True
    runs = dict(quick=400, thorough=40000)
    wall = dict(quick=80, thorough=2400)
    rule = ('A run is one generated source, detected, loaded, checked and exported in two simulated environments that differ in listing order, hash seed, clock, clock speed, file times and current folder; '
            'non-trivial when both sessions completed. Distinct = distinct full event traces.')
    assumptions = ['Dates, times and time stamps inside the exports are masked by pattern before the comparison.']

    def gen(self, rng, i, tier):
        names = [n for n in fmt.ALL if n not in fmt.BROKEN]
        name = names[i % len(names)]
        f = fmt.ALL[name]
        bible = gen.make(rng, blanks=f.blanks, minbooks=1 if rng.random() < .15 else 2, maxbooks=7, extra=['spiky'], books=fmt.NT if name in ('OSIS', 'USX', 'TWD') and rng.random() < .7 else None)
        t0 = 1_700_000_000
        wa = dict(seed=1, order=rng.choice(['sorted', 'shuffle']), t0=t0, dt=0.0005)
        wb = dict(seed=rng.randrange(1 << 30), order=rng.choice(['reverse', 'shuffle', 'shuffle']), relist=True, t0=rng.choice([t0, 946_684_800, 1_000_000_000, 1_709_164_799, 2_100_000_000, 3_900_000_000]), dt=rng.choice([0.0005, 0.0005, 3.0, -2.0, 900.0]))
        return dict(fmt=name, bible=bible, deep=rng.random() < .6, detect=rng.random() < .4, exporters=rng.sample([x for x in ex.NAMES if x != 'toPickleObject'], rng.choice([0, 1, 2, 3, 5])), wa=wa, wb=wb,
                    clutter=rng.randrange(1, 1 << 30) if f.multi and rng.random() < .3 else 0, hash=rng.random() < .75, cwd=rng.random() < .5, times=rng.choice([None, 'old', 'future', 'mixed']), tseed=rng.randrange(1 << 30))

    def settimes(self, folder, how, seed):
        import random
        r = random.Random(seed)
        n = 0
        for dp, dn, fn in os.walk(folder):
            for f in sorted(fn):
                t = {'old': 315_600_000 + n, 'future': 5_000_000_000 - n, 'mixed': r.randrange(1_000_000_000, 2_000_000_000)}[how]
                real.utime(os.path.join(dp, f), (t, t)); n += 1

    def clutter(self, folder, seed, spec):
        """Files that a real project folder also holds: copies, drafts, notes, other languages, subfolders."""
        import random
        r = random.Random(seed)
        src = sorted(f for f in os.listdir(folder) if os.path.isfile(os.path.join(folder, f)))
        if not src: return
        def put(name, data):
            p = os.path.join(folder, name)
            if os.path.exists(p): return
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with real.open(p, 'wb') as f: f.write(data)
        for k in range(r.randint(1, 4)):
            f = r.choice(src)
            with real.open(os.path.join(folder, f), 'rb') as fh: data = fh.read()
            stem, ext = os.path.splitext(f)
            w = r.randrange(8)
            if w == 0: put(f"{stem}_draft{ext}", data[:len(data) // 2])
            elif w == 1: put(f"copy of {f}", data)
            elif w == 2: put(f"old/{f}", data)
            elif w == 3: put('README.txt', b'Notes about GEN and 41MAT\n')
            elif w == 4: put(f"{stem}XYZ{ext}", data)
            elif w == 5: put('notes.html', b'<html></html>')
            elif w == 6: put(f"{f}~", data)
            elif w == 7: put(f"{f}.bak", data)

    def run(self, c, case):
        name = case['fmt']
        folder, out = c.path('src'), c.path('out')
        fmt.ALL[name].make(c, case['bible'], folder)
        import shutil
        os.makedirs(c.path('elsewhere', 'deep'))
        res = []
        if case.get('clutter'): self.clutter(folder, case['clutter'], case['bible'])
        for k, w in enumerate((case['wa'], case['wb'])):
            if k and case['times']: self.settimes(folder, case['times'], case['tseed'])
            res.append(c.spawn(session, name, folder, case['deep'], case['exporters'], out, case['detect'], cfg=dict(w), cwd=c.path('elsewhere', 'deep') if k and case['cwd'] else None, other=bool(k and case['hash'])))
            shutil.rmtree(out, ignore_errors=True)
        a, b = res
        if a.ok != b.ok:
            o = b if a.ok else a
            raise Violation(f'P02:only-one:{name}', f"the session works in one environment and fails in the other: {o.describe()}", o.tb)
        if not a.ok:
            if a.describe() != b.describe(): raise Violation(f'P02:fails-differently:{name}', f"{a.describe()} / {b.describe()}")
            c.probe('both-fail'); c.sample = a.describe(); return
        for part in a.value:
            d = canon.diff(a.value[part], b.value[part])
            if d: raise Violation(f"P02:{part}" + ('' if part.startswith('export') else f":{name}"), f"{name}: '{part}' differs between two environments", d)
        c.nontrivial = True
        c.probe('compared-parts', len(a.value))

    def shrink(self, case):
        from ..ctx import shrink_default
        for k, v in (('clutter', 0), ('hash', False), ('cwd', False), ('times', None), ('deep', False), ('detect', False)):
            if case[k] != v: yield {**case, k: v}
        for w in ({**case['wb'], 't0': case['wa']['t0'], 'dt': case['wa']['dt']}, {**case['wb'], 'order': case['wa']['order']}):
            if w != case['wb']: yield {**case, 'wb': w}
        L = case['exporters']
        for e in L:
            yield {**case, 'exporters': [x for x in L if x != e]}
            if len(L) > 1: yield {**case, 'exporters': [e]}
        yield from (x for x in shrink_default({**case, 'exporters': None}) for x in [{**x, 'exporters': L}])
PROP = P()
