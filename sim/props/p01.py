"""P01: parallel loading == sequential loading."""
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from . import common

FEATS = {'BCV': ['fn', 'xr', 'char', 'poetry', 'heads', 'unicode', 'paras', 'cont', 'words', 'punct']}

NAMES = [x for x in fmt.MULTI if x not in ('PDB', 'SWD')]       # those that are loaded in parallel
DIRTY = ('USFM', 'USFM2', 'ESFM', 'PTX7', 'PTX8')


def session(name, folder, procs, pre, deep, again, enc=None):
    G = common.G()
    G.maxProcesses = procs
    f = fmt.ALL[name]
    op = (lambda: f.open(folder, enc)) if enc else (lambda: f.open(folder))
    B = op()
    for i, BBB in enumerate(pre):
        if not i: B.preload()
        B.loadBook(BBB)
    fmt.load(B)
    def pic(B):
        d = canon.bible(B)
        d['containers'] = all(b.containerBibleObject is B for b in B.books.values())
        d['loadedAll'] = B.loadedAllBooks
        d['aname'] = B.getAName()
        d['settings'] = canon.plain(getattr(B, 'settingsDict', None))
        return d
    out = [pic(B)]
    if deep: out[0]['deep'] = common.deep_picture(B)
    pools = [len(world.W.pool_log)]
    if again:
        B2 = op()
        fmt.load(B2)
        out.append(pic(B2))
        pools.append(len(world.W.pool_log) - pools[0])
    return dict(pics=out, pools=pools)


def failing(name, folder, folder2, procs):
    """A load that fails part-way, then another one in the same program."""
    G = common.G()
    G.maxProcesses = procs
    f = fmt.ALL[name]
    err = None
    try:
        B = f.open(folder); fmt.load(B)
    except Exception as e: err = type(e).__name__
    before = len(world.W.pool_log)
    B = f.open(folder2); fmt.load(B)
    return dict(err=err, pic=canon.bible(B), pools=len(world.W.pool_log) - before)


class P(Prop):
    id = 'P01'
    runs = dict(quick=1000, thorough=60000)
    wall = dict(quick=75, thorough=2400)
    rule = ('A run is one generated multi-book source in one of 13 formats, loaded sequentially and with 2-6 simulated workers under a seeded schedule; it counts as non-trivial '
            'if the worker pool was really used with at least two context switches. Distinct = distinct full event traces.')
    assumptions = ['Workers are forked copies stepped at every disk operation; pre-emption inside pure computation is irrelevant because workers share no memory.']

    def gen(self, rng, i, tier):
        name = NAMES[i % len(NAMES)]
        f = fmt.ALL[name]
        bible = gen.make(rng, feats=None, blanks=f.blanks, minbooks=1 if rng.random() < .15 else 2, maxbooks=12 if tier == 'thorough' else 8,
                         extra=gen.DIRTY + ['spiky'] if name in DIRTY else ['spiky'], encodings=('latin-1', 'cp1252', 'utf-16') if f.encs else (),
                         books=fmt.NT if name in ('OSIS', 'USX') and rng.random() < .5 else None)
        real = [b['b'] for b in bible['books'] if not b.get('blank')]
        pre = []
        if name not in ('OSIS', 'OBS') and rng.random() < 0.3 and real:
            pre = rng.sample(real, min(len(real), rng.choice([1, 1, 2])))
        mode = 'fail' if rng.random() < 0.12 and name != 'OBS' and not bible.get('enc') else 'plain'
        w = common.make_world(rng, short=rng.choice([None, None, None, 700]))
        return dict(fmt=name, bible=bible, procs=rng.choice([2, 2, 3, 4, 6]), pre=pre, deep=rng.random() < 0.5, again=rng.random() < 0.25, mode=mode, world=w,
                    fault=dict(kind=rng.choice(['eio', 'eacces', 'emfile']), ops='read', at=rng.randrange(2, 40), sticky=True))

    def run(self, c, case):
        name = case['fmt']
        f = fmt.ALL[name]
        folder = c.path('src')
        f.make(c, case['bible'], folder)
        bbbs = {b['b'] for b in case['bible']['books'] if not b.get('blank')}
        pre = [b for b in case['pre'] if b in bbbs]
        w = case['world']
        if case['mode'] == 'fail':
            # reading the source fails part-way; the program must be able to load another source in parallel afterwards
            f2 = c.path('src2')
            f.make(c, case['bible'], f2)
            ref = c.spawn(failing, name, f2, f2, 1, cfg=dict(w))
            o = c.spawn(failing, name, folder, f2, case['procs'], cfg=dict(w, faults=[dict(case['fault'], path='/run/src/')]))
            if not ref.ok: return
            if o.status == 'deadlock': raise Violation(f'P01:wedged:{name}', 'a load with read errors in the workers never ends', o.excmsg)
            if not o.ok: raise Violation(f'P01:after-failure:{name}', f"after a failed parallel load the next load of an intact source fails: {o.describe()}", o.tb)
            ref2 = c.spawn(failing, name, f2, f2, case['procs'], cfg=dict(w))
            if ref2.ok and ref2.value['pools'] and not o.value['pools']: raise Violation('P01:flag-after-failure', f"{name}: after a parallel load that failed ({o.value['err']}) the program can no longer use worker processes")
            d = canon.diff(ref.value['pic'], o.value['pic'])
            if d: raise Violation(f'P01:after-failure-differs:{name}', 'the load after a failed load gives a different Bible', d)
            c.nontrivial = bool(o.value['err'])
            c.probe('failed-load' if o.value['err'] else 'fault-missed')
            return
        seq = c.spawn(session, name, folder, 1, pre, case['deep'], case['again'], case['bible'].get('enc'), cfg=dict(w, prefix=0))
        par = c.spawn(session, name, folder, case['procs'], pre, case['deep'], case['again'], case['bible'].get('enc'), cfg=dict(w))
        if not seq.ok:
            c.probe('seq-fails')
            c.sample = f"sequential: {seq.describe()}"
            if par.ok: raise Violation(f'P01:only-parallel:{name}', f"the source loads in parallel but not one book at a time: {seq.describe()}", seq.tb)
            return
        if par.status == 'deadlock': raise Violation(f'P01:wedged:{name}', 'the parallel load never ends', par.excmsg)
        if not par.ok: raise Violation(f'P01:parallel-fails:{name}', f"the source loads sequentially but the parallel load fails: {par.describe()}", par.tb)
        for k, (a, b) in enumerate(zip(seq.value['pics'], par.value['pics'])):
            d = canon.diff(a, b)
            if d: raise Violation(f"P01:differs:{name}", f"the parallel load differs from the sequential one ({'second' if k else 'first'} load)", d)
        pl = par.value['pools']
        if len(pl) == 2 and pl[0] and not pl[1] and not pre: raise Violation('P01:flag', f"{name}: after a parallel load the program can no longer use worker processes")
        if pl[0] and c.s['switches'] > 1: c.nontrivial = True
        c.probe('pool-used' if pl[0] else 'pool-unused')
        if pre: c.probe('on-demand-first')
        if any(b.get('blank') for b in case['bible']['books']): c.probe('blank-book')

    def shrink(self, case):
        from ..ctx import shrink_default
        yield from shrink_default(case)
        for k, v in (('pre', []), ('deep', False), ('again', False), ('procs', 2)):
            if case[k] != v: yield {**case, k: v}
PROP = P()
