"""P07: exporting in parallel equals exporting in turn, in bounded time."""
import os, re, shutil
from ..ctx import Prop, Violation
from .. import gen, fmt, canon, world
from ..world import real
from . import common, exporters as ex

SKIP = ex.SKIP
# the parts of the whole export whose processes are exporters run by the pool


def tree(o):
    # writeMyBibleBook deliberately adds a random number to its file name in a worker process
    def norm(v):
        if isinstance(v, dict): return {re.sub(r'_\d{1,4}(\.SQLite3)', r'\1', k): norm(x) for k, x in v.items()}
        return v
    return norm(canon.tree(o, masks=ex.MASKS + (canon.MASKPICKLES,), skip=SKIP)) if os.path.isdir(o) else None


def flags(r):
    return {k: (v if isinstance(v, (bool, int, type(None))) else repr(v)) for k, v in r.items()} if isinstance(r, dict) else repr(r)


def session(name, folder, procs, outs, loadprocs):
    G = common.G()
    G.maxProcesses = loadprocs
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    G.maxProcesses = procs
    res = []
    for k, out in enumerate(outs):
        if k: world.W.faults.clear()
        os.makedirs(out)
        n0, t0, ops0 = len(world.W.pool_log), world.W.t, world.W.nops
        err = None
        try: r = flags(B.doAllExports(out))
        except Exception as e:
            import traceback
            r = None; err = f"{type(e).__name__}: {e} {traceback.format_exc()[-1200:]}"
        res.append(dict(flags=r, err=err, pools=len(world.W.pool_log) - n0, t=world.W.t - t0, ops=world.W.nops - ops0))
    return dict(res=res, nbooks=len(B.books))


class P(Prop):
    id = 'P07'
    runs = dict(quick=260, thorough=20000)
    wall = dict(quick=80, thorough=2400)
    timeout = 240
    rule = ('A run exports one generated Bible to all formats one at a time and with 2-6 simulated workers under a seeded schedule, with workers that stall (for a while or for ever) or die at seeded operations in part of the runs, '
            'and then exports again in the same program. Non-trivial: the worker pool was really used with at least two context switches. Distinct = distinct full event traces.')
    assumptions = ['The three very slow exports that have to be asked for (photo Bible, ODF, TeX) need external programs and are not run.']

    def gen(self, rng, i, tier):
        name = rng.choice(['USFM', 'USFM', 'USFM', 'ESFM', 'USX', 'UWN', 'PTX8'])
        bible = gen.make(rng, blanks=rng.random() < .1, minbooks=1, maxbooks=4 if tier == 'thorough' else 3, maxch=3, maxv=6, nbooks=rng.choice([1, 1, 2, 2, 3]), extra=["spiky"])
        w = common.make_world(rng, dt=0.0005)
        fault = None
        r = rng.random()
        procs = rng.choice([2, 2, 3, 4, 6])
        if r < .25: fault = dict(kind='stall', arg=rng.choice([1e9, 1e9, 200.0, 20.0, 3.0]))
        elif r < .5: fault = dict(kind='kill')
        if fault: fault.update(ops='any', frac=round(rng.random(), 4), actor=f"w{rng.randint(1, procs)}")
        return dict(fmt=name, bible=bible, procs=procs, fault=fault, again=rng.random() < .5 or bool(fault), world=w)

    def run(self, c, case):
        name = case['fmt']
        folder, o1, o2 = c.path('src'), c.path('out1'), c.path('out2')
        fmt.ALL[name].make(c, case['bible'], folder)
        outs = [o1, o2] if case['again'] else [o1]
        def trees():
            r = [tree(o) for o in outs]
            for o in outs: shutil.rmtree(o, ignore_errors=True)
            return r
        seq = c.spawn(session, name, folder, 1, outs, 1, cfg=dict(case['world'], prefix=0))
        if not seq.ok or any(r['err'] for r in seq.value['res']):
            c.probe('sequential-fails'); c.sample = seq.describe() if not seq.ok else str(seq.value['res'])[:800]
            return
        st = trees()
        fl = case['fault']
        faults = []
        if fl:
            n = seq.value['res'][0]['ops']
            faults = [dict({k: v for k, v in fl.items() if k != 'frac'}, at=int(fl['frac'] * n / case['procs']))]
        par = c.spawn(session, name, folder, case['procs'], outs, 1, cfg=dict(case['world'], faults=faults))
        pt = trees()
        fired = sum(par.world['fired'].values()) if par.world else 0
        if par.status == 'deadlock': raise Violation('P07:wedged', f"the parallel export never ends ({fl and fl['kind']})", par.excmsg)
        if not par.ok: raise Violation('P07:fails', f"the parallel session fails: {par.describe()}", par.tb)
        limit = max(60, 6 * par.value['nbooks'])
        for k, (s, p) in enumerate(zip(seq.value['res'], par.value['res'])):
            which = 'second' if k else 'first'
            hit = fired and not k
            if p['err']: raise Violation(f"P07:no-verdict:{which if fired else 'plain'}", f"the {which} parallel export raises instead of giving a verdict ({fl and fl['kind']}): {p['err'][:200]}", p['err'])
            if not p['pools']:
                if s['flags'] is not None and name != 'MYB': raise Violation('P07:flag', f"the {which} export no longer uses worker processes")
            slack = 10 + 0.002 * p['ops']
            if p['t'] > limit + slack: raise Violation('P07:late', f"the {which} export took {p['t']:.1f} simulated seconds; its limit is {limit}")
            if list(p['flags']) != list(s['flags']): raise Violation('P07:keys', f"{which}: results for {list(p['flags'])} instead of {list(s['flags'])}")
            quiet = not hit or (fl['kind'] == 'stall' and fl['arg'] < 30)
            if quiet:
                if p['flags'] != s['flags']:
                    d = {x: (s['flags'][x], p['flags'][x]) for x in s['flags'] if s['flags'][x] != p['flags'][x]}
                    raise Violation('P07:flags', f"{which} export: success flags differ from those of the sequential export: {d}")
                d = canon.diff(st[k], pt[k])
                if d: raise Violation('P07:files', f"{which} export: the files differ from those of the sequential export", d)
            else:
                c.probe('timed-out' if p['t'] >= limit else 'disturbed-complete')
                bad = [x for x in s['flags'] if s['flags'][x] is True and not p['flags'][x] and x != 'Pickle']
                # an exporter whose complete output is there has finished
                if bad: raise Violation('P07:finished-as-failed', f"after a {fl['kind']} exporters are reported as failed: {bad}")
                wrong = [x for x in s['flags'] if s['flags'][x] is None and p['flags'][x] is not None]
                if wrong: raise Violation('P07:not-asked', f"results for exports that were not asked for: {wrong}")
                # files of exporters that nothing happened to are whole: every file present is either equal or belongs to at most `procs` folders
                tops = {}
                for rel, v in pt[k].items():
                    if st[k].get(rel) != v: tops.setdefault(rel.split('/')[0], rel)
                # a chunk of the dead worker and the chunks cut off at the time limit may be incomplete; the files they left may not be alien
                alien = [rel for rel in pt[k] if rel not in st[k] and not rel.endswith('-journal')]
                if alien: raise Violation('P07:alien', f"files that the sequential export does not make: {alien[:5]}")
        c.nontrivial = par.value['res'][0]['pools'] > 0 and c.s['switches'] > 1


PROP = P()
