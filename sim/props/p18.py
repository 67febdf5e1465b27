"""P18: first start and logging survive crashes, full disks and races."""
import os, io, re, sys
from ..ctx import Prop, Violation
from ..world import real
from . import common
from .p06 import slots, model

APP = 'BibleOrgSysData'


def start(home, prog, msg, logfolder):
    """One start of a program: the real start-up code of the module, its log, one message."""
    import importlib.util, logging
    from pathlib import Path
    os.environ['HOME'] = home
    root = logging.getLogger()
    for h in list(root.handlers): root.removeHandler(h)
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        spec = importlib.util.spec_from_file_location('BibleOrgSys.BibleOrgSysGlobals', common.G().__file__)
        M = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(M)
        v = dict(settings={s: dict(M.settingsData.items(s, raw=True)) for s in M.settingsData.sections()},
                 base=str(M.BOS_DEFAULT_WRITEABLE_BASE_FOLDERPATH), out=str(M.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH), logs=str(M.DEFAULT_WRITEABLE_LOG_FOLDERPATH),
                 homef=str(M.BOS_HOME_FOLDERPATH), got={s: {k: M.settingsData.get(s, k) for k in M.settingsData[s]} for s in M.settingsData.sections()})
        if prog:
            if isinstance(prog, str):
                M.setup(prog, '1.0', loggingFolderpath=Path(logfolder) if logfolder else None)
                root.setLevel(logging.INFO)
                logging.error(msg)
                for h in root.handlers: h.flush()
            else:
                root.setLevel(logging.INFO)
                p, h = M.addLogfile(prog[0], Path(logfolder) if logfolder else None)
                logging.error(msg)
                h.flush()
                M.removeLogfile(h)
    finally: sys.stdout = out
    return v


def expected_ini(user):
    """Section -> values that must still be there."""
    return user


USER = [
    ('# my settings\n\n[Default]\nOutputBaseFolder = {base}/\n', 'custom'),
    ('[Default]\nOutputBaseFolder = {base}/\nFavourite = Überraschung “x”\n\n[Extra]\nWindowSize = 800x600\nCaseKept = Yes\n', 'custom'),
    ('[Extra]\nWindowSize = 800x600\n', None),
    ('# only a comment\n', None),
]


def ini_parse(text):
    """An independent reader of the simple settings format."""
    d = {}; sec = None
    for ln in text.split('\n'):
        s = ln.strip()
        if not s or s[0] in '#;': continue
        if s.startswith('['):
            if not s.endswith(']'): raise ValueError(f"bad section line {ln!r}")
            sec = s[1:-1]; d.setdefault(sec, {})
        else:
            if sec is None or '=' not in s: raise ValueError(f"bad line {ln!r}")
            k, v = s.split('=', 1)
            d[sec][k.strip()] = v.strip().replace('%%', '%')
    return d


class P(Prop):
    id = 'P18'
    runs = dict(quick=1200, thorough=60000)
    wall = dict(quick=75, thorough=1500)
    rule = ('A run is a history of 1-5 starts of the real start-up code (module start-up, settings, log set-up) on one home folder, alone or two at a time under the scheduler, with crashes, torn writes and disk errors '
            'at seeded operations, and a fault-free start after every disturbed one. Non-trivial: a fault fired or two starts were interleaved. Distinct = distinct full event traces.')
    assumptions = ['A rename is atomic with respect to a crash; file data written before it survives a process crash.']

    def gen(self, rng, i, tier):
        steps = []
        for k in range(rng.choice([1, 2, 3, 4, 5])):
            w = rng.random()
            fault = None
            if rng.random() < .55:
                fault = dict(kind=rng.choice(['crash', 'crash', 'crash', 'torn', 'enospc', 'eio', 'eacces', 'emfile']), ops=rng.choice(['write', 'write', 'any']), at=rng.randrange(0, rng.choice([3, 8, 20])), path='/run/h/')
                if fault['kind'] in ('torn',): fault['ops'] = ['write']; fault['at'] = rng.randrange(0, 3)
                if fault['kind'] == 'enospc' and rng.random() < .5: fault['sticky'] = True
            prog = rng.choice([None, 'Prog', 'Prog', 'Prog', ['Proj']])
            lf = rng.choice([None, None, 'sub'])
            if w < .3:
                p2 = rng.choice([None, 'Other', ['Proj2']])
                if fault: fault['actor'] = rng.choice(['A', 'B'])
                if fault and fault['kind'] == 'torn': fault['kind'] = 'crash'
                steps.append(['race', prog, p2, lf, fault])
            else: steps.append(['start', prog, lf, fault])
        return dict(home=rng.choice(['home', 'My Home', 'höme', '100% home', 'a=b', 'x']), missing=rng.random() < .06, user=rng.choice([None, None, None, 0, 1, 2, 3]), pre=rng.choice(['none', 'none', 'data', 'both']),
                    steps=steps, world=common.make_world(rng, buf=rng.choice([0, 0, 1, 16, 64])))

    def run(self, c, case):
        h = c.path('h', case['home'])
        os.makedirs(c.path('h')); os.makedirs(c.path('cwd'), exist_ok=True)
        if not case['missing']: os.makedirs(h)
        hb = c.path('cwd') if case['missing'] else h
        # the fault paths say /run/h/ : let them reach the replacement too
        data = os.path.join(hb, APP); sett = os.path.join(data, 'BOSSettings'); ini = os.path.join(sett, 'BibleOrgSys.ini')
        user = None; base = data
        if case['user'] is not None:
            os.makedirs(sett)
            custom = os.path.join(c.path('h'), 'Custöm base')
            text, b = USER[case['user']]
            user = text.format(base=custom)
            if b: base = custom
            with real.open(ini, 'wb') as f: f.write(user.encode('utf-8'))
        elif case['pre'] != 'none': os.makedirs(sett if case['pre'] == 'both' else data)
        want = {'Default': {'OutputBaseFolder': data + '/'}}
        if user:
            for s, d in ini_parse(user).items(): want.setdefault(s, {}).update(d)
        num = 0

        def good(o, what, racing=False):
            if not o.ok: raise Violation('P18:start-fails', f"{what}: a start without any fault fails: {o.describe()}", o.tb or '')
            v = o.value
            if v['settings'] != want and v['got'] != want: raise Violation('P18:settings', f"{what}: the settings in use are not the user's or the default ones", f"want {want}\ngot {v['settings']} / {v['got']}")
            if v['got'] != want: raise Violation('P18:settings', f"{what}: the settings in use are not the user's or the default ones", f"want {want}\ngot {v['got']}")
            if v['homef'] != data or v['base'] != base.rstrip('/') or v['out'] != os.path.join(base, 'BOSOutputFiles') or v['logs'] != os.path.join(base, 'BOSLogs'):
                raise Violation('P18:folders', f"{what}: wrong folders {v}", f"base {base} data {data}")

        def disk(what):
            if not os.path.isfile(ini): raise Violation('P18:no-settings', f"{what}: there is no settings file")
            with real.open(ini, 'rb') as f: t = f.read()
            if user is not None:
                if t != user.encode('utf-8'): raise Violation('P18:user-settings', f"{what}: the user's settings file was changed", t.decode('utf-8', 'replace'))
            else:
                try: got = ini_parse(t.decode('utf-8'))
                except ValueError as e: raise Violation('P18:ini-malformed', f"{what}: the settings file is malformed: {e}", t.decode('utf-8', 'replace'))
                if got != want: raise Violation('P18:ini-values', f"{what}: the settings file does not hold the settings", t.decode('utf-8', 'replace'))

        def logname(p): return (p if isinstance(p, str) else p[0]) + '_log.txt'

        def logdir(lf): return os.path.join(c.path('h'), lf, 'logs') if lf else os.path.join(base, 'BOSLogs')

        def logcheck(o, p, lf, before, msg, what, fault):
            if not p: return
            after = slots(logdir(lf), logname(p), '.bak') if os.path.isdir(logdir(lf)) else {}
            w = model(before, 4)
            if o.ok and not fault:
                if (0 not in after or msg.encode() not in after[0]): raise Violation('P18:log-missing', f"{what}: the new log does not hold the new message", str(after))
                if set(re.findall(rb'message <\w+>', before.get(0, b''))) & set(re.findall(rb'message <\w+>', after.get(0, b''))): raise Violation('P18:log-appended', f"{what}: the new log still holds the previous one")
                after.pop(0, None); w.pop(0, None)
                if after != w: raise Violation('P18:log-backup', f"{what}: the previous logs were not kept as its backups", f"before {before}\nwant {w}\ngot {after}")
            else:
                kept = b'\0'.join(after.values())   # a look at the disk that failed may make the new log go on in the previous one; nothing may be lost
                lost = [x for x in w.values() if x not in kept]
                if lost: raise Violation('P18:log-lost', f"{what}: interrupted, and a previous log is gone", f"{lost}")

        def before(p, lf): return slots(logdir(lf), logname(p), '.bak') if p and os.path.isdir(logdir(lf)) else {}

        for k, st in enumerate(case['steps']):
            fault = st[-1]
            what = f"step {k} {st[:-1]} {fault and fault['kind']}"
            num += 1
            cfg = dict(case['world'], faults=[fault] if fault else [], t0=1.7e9 + 3600 * k)
            if st[0] == 'start':
                prog, lf = st[1], st[2]
                b = before(prog, lf)
                o = c.spawn(start, h, prog, f"message <{num}>", logdir(lf) if lf else None, cfg=cfg)
                fired = sum(o.world['fired'].values()) if o.world else 1
                if not fired: good(o, what); disk(what)
                else: c.nontrivial = True; c.probe('disturbed-' + o.status)
                if o.ok and fired:
                    if o.value['got'] != want and user is not None and o.value['settings'] != want:
                        c.probe('settings-unreadable')
                logcheck(o, prog, lf, b, f"message <{num}>", what, bool(fired))
            else:
                p1, p2, lf = st[1:4]
                b1, b2 = before(p1, lf), before(p2, lf)
                outs, s = c.race([('A', start, (h, p1, f"message <{num}>", logdir(lf) if lf else None)), ('B', start, (h, p2, f"message <{num}b>", logdir(lf) if lf else None))], cfg=cfg)
                c.nontrivial = True
                fired = sum(s['fired'].values())
                for nme, p, b, m in (('A', p1, b1, f"message <{num}>"), ('B', p2, b2, f"message <{num}b>")):
                    o = outs[nme]
                    hit = fired and fault['actor'] == nme
                    if not hit: good(o, f"{what}: program {nme}")
                    logcheck(o, p, lf, b, m, f"{what}: program {nme}", bool(hit))
                if not fired: disk(what)
            if fired:
                o = c.spawn(start, h, None, '', None, cfg=dict(case['world'], faults=[]))
                good(o, what + ', the next start'); disk(what + ', the next start')
            elif st[0] == 'race': disk(what)
            if user is not None:
                with real.open(ini, 'rb') as f: t = f.read()
                if t != user.encode('utf-8'): raise Violation('P18:user-settings', f"{what}: the user's settings file was changed", t.decode('utf-8', 'replace'))
        # nothing else turns up beside the data folder
        extra = [f for f in os.listdir(hb) if f != APP]
        if extra: raise Violation('P18:stray', f"files beside the data folder: {extra}")


PROP = P()
