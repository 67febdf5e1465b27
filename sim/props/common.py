"""Shared pieces of the scenarios (run inside simulated processes unless noted)."""
import os, random
from .. import gen, fmt, canon

REPO = os.environ.get("BOSSIM_REPO", "/repo")

def G():
    from BibleOrgSys import BibleOrgSysGlobals
    return BibleOrgSysGlobals

def setprocs(n): G().maxProcesses = n

DISC_SKIP = ()

def deep_picture(B, check=True):
    """Discovery results, section index, check results."""
    d = {}
    B.discover()
    d['discovery'] = canon.plain(B.discoveryResults)
    try:
        B.makeSectionIndex()
        d['section'] = {k: canon.index(v) for k, v in B.sectionIndex.items()}
    except Exception as e: d['section'] = f"<{type(e).__name__}>"
    if check:
        try:
            B.check()
            d['check'] = canon.unorder(canon.plain(B.getCheckResults()))
        except Exception as e: d['check'] = f"<{type(e).__name__} {e}>"
    return d

def make_world(rng, **kw):
    w = dict(seed=rng.randrange(1 << 30), order=rng.choice(['sorted', 'reverse', 'shuffle', 'shuffle']))
    w.update(kw)
    return w
