"""P06: rotating backups never lose the newest versions, across any history or crash."""
import os
from ..ctx import Prop, Violation
from ..world import real
from . import common


def backup(path, n, ext, form, cwd):
    G = common.G()
    from pathlib import Path
    if form == 'rel': os.chdir(cwd); path = os.path.relpath(path, cwd)
    p = Path(path) if form == 'path' else path
    a = [p]
    if n is not None: a.append(n)
    if ext is not None:
        if n is None: G.backupAnyExistingFile(p, extension=ext)
        else: G.backupAnyExistingFile(p, n, ext)
    elif n is not None and form == 'kw': G.backupAnyExistingFile(p, numBackups=n)
    else: G.backupAnyExistingFile(*a)
    return True


def log(folder, name, msg, how):
    import logging
    G = common.G()
    if how == 'setup':
        root = logging.getLogger()
        for h in list(root.handlers): root.removeHandler(h)
        G.setupLoggingToFile(name, '1.0', folder)
        root.setLevel(logging.INFO)
        logging.error(msg)
        for h in root.handlers: h.flush()
    else:
        root = logging.getLogger(); root.setLevel(logging.INFO)
        p, h = G.addLogfile(name, folder)
        logging.error(msg)
        h.flush()
        G.removeLogfile(h)
    return True


def slots(folder, name, ext):
    """Slot number (0 = the file itself) -> content."""
    d = {}
    for f in os.listdir(folder):
        if f == name: d[0] = f
        elif f == name + ext: d[1] = f
        elif f.startswith(name + ext) and f[len(name + ext):].isdigit() and f[len(name + ext)] != '0': d[int(f[len(name + ext):])] = f
    out = {}
    for k, f in d.items():
        with real.open(os.path.join(folder, f), 'rb') as fh: out[k] = fh.read()
    return out


def model(s, n):
    """The slots after a complete backup of the file with n backups wanted."""
    if 0 not in s or n < 1: return dict(s)
    free = next((k for k in range(1, n) if k not in s), n)
    out = dict(s)
    for k in range(free, 0, -1): out[k] = s[k - 1]
    del out[0]
    return out


class P(Prop):
    id = 'P06'
    runs = dict(quick=2500, thorough=150000)
    wall = dict(quick=60, thorough=1500)
    rule = ('A run is a history of 3-14 saves, deletions, backups and log starts on one file, with crashes and file errors injected at seeded operations of the backups; every state is compared with a slot model. '
            'Non-trivial: at least two backups of an existing file happened. Distinct = distinct full event traces.')
    assumptions = ['A rename is atomic with respect to a crash.']

    def gen(self, rng, i, tier):
        mode = rng.choice(['backup', 'backup', 'backup', 'log'])
        N = rng.choice([1, 2, 3, 4, 5, 5, 9, 11])
        ext = rng.choice([None, None, '.bak', 'bak', 'old', '.backup'])
        ops = []
        for k in range(rng.choice([3, 6, 10, 14])):
            w = rng.random()
            fault = None
            if rng.random() < .3: fault = dict(kind=rng.choice(['crash', 'crash', 'eio', 'eacces', 'enospc']), ops='write' if mode == 'log' else ['remove', 'rename'], at=rng.randrange(0, rng.choice([2, 5, 12])), path='/run/d/')
            if w < .12: ops.append(['delete'])
            elif w < .3 and mode == 'backup': ops.append(['save'])
            elif mode == 'log': ops.append(['log', rng.choice(['add', 'add', 'setup']), fault])
            else:
                ops.append(['save']) if rng.random() < .8 else None
                ops.append(['backup', N if rng.random() < .8 else rng.choice([1, 2, 3, 4, 6]), rng.choice(['str', 'path', 'kw', 'rel']), fault])
        return dict(mode=mode, N=N, ext=ext, ops=ops, name=rng.choice(['41-MAT.usfm', 'x', 'My file.txt', 'a.b.c', 'notes.bakery']), world=common.make_world(rng))

    def run(self, c, case):
        d = c.path('d')
        os.makedirs(d)
        name = case['name'] if case['mode'] == 'backup' else 'Prog_log.txt'
        ext = case['ext'] if case['mode'] == 'backup' else '.bak'
        E = '.bak' if ext is None else ext if ext.startswith('.') else '.' + ext
        if case['mode'] == 'log': E = '.bak'
        others = {'other.txt': b'o1', name + '~': b'o2', name + E + 'x': b'o3', 'x' + name: b'o4', name + '.tmp': b'o5', (name + '.bak' if E != '.bak' else name + '.old'): b'o6', name + E + '0': b'o7'}
        for f, t in others.items():
            with real.open(os.path.join(d, f), 'wb') as fh: fh.write(t)
        p = os.path.join(d, name)
        ver = 0; nback = 0
        for k, op in enumerate(case['ops']):
            before = slots(d, name, E)
            if op[0] == 'save':
                ver += 1
                with real.open(p, 'wb') as fh: fh.write(b'version %d\n' % ver * (1 + ver % 3))
                continue
            if op[0] == 'delete':
                if os.path.exists(p): os.remove(p)
                continue
            fault = op[-1]
            cfg = dict(case['world'], faults=[fault] if fault else [])
            if op[0] == 'backup':
                n = op[1]
                o = c.spawn(backup, p, n, ext, op[2], d, cfg=cfg)
            else:
                n = 4
                ver += 1
                o = c.spawn(log, d, 'Prog', f"message {ver}", op[1], cfg=cfg)
            after = slots(d, name, E)
            want = model(before, n)
            if op[0] == 'log' and o.ok:
                if 0 not in after or f"message {ver}".encode() not in after[0]:
                    if not fault: raise Violation('P06:log-missing', f"step {k}: the new log does not hold the new message", str(after))
                elif before.get(0) and before[0] in after[0]: raise Violation('P06:log-appended', f"step {k}: the new log still holds the previous one")
                if fault is None or o.ok: after.pop(0, None); want.pop(0, None)
            if not fault and not o.ok: raise Violation('P06:fails', f"step {k} {op}: {o.describe()}", o.tb)
            if o.ok and not o.world['fired'] or (o.ok and op[0] == 'backup'):
                if after != want:
                    raise Violation('P06:rotation', f"step {k} {op[:3]} with slots {sorted(before)}: after the backup slot contents are wrong", f"before {before}\nwant {want}\ngot {after}")
            else:
                c.probe('interrupted-' + o.status)
                lost = set(want.values()) - set(after.values())
                if op[0] == 'log': lost -= {b for b in lost if before.get(0) is None}
                if lost: raise Violation('P06:lost', f"step {k} {op[:3]} interrupted ({o.describe()}): versions that should have been kept are gone", f"lost {lost}\nbefore {before}\nafter {after}")
                alien = {v for s, v in after.items() if not (op[0] == 'log' and s == 0)} - set(before.values())
                if alien: raise Violation('P06:damaged', f"step {k} {op[:3]} interrupted: a file holds something that was never saved", f"{alien}")
            for f, t in others.items():
                q = os.path.join(d, f)
                if not os.path.exists(q) or real.open(q, 'rb').read() != t: raise Violation('P06:other-file', f"step {k} {op[:3]}: the unrelated file {f!r} was changed or removed")
            extra = [f for f in os.listdir(d) if f not in others and f != name and not (f.startswith(name + E))]
            if extra: raise Violation('P06:stray', f"step {k} {op[:3]}: unexpected files {extra}")
            if 0 in before: nback += 1
            else: c.probe('missing-file')
        c.nontrivial = nback >= 2
PROP = P()
