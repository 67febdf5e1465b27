"""Importing BibleOrgSys (after the seams are installed) and small conveniences around it."""
import os, sys, logging, io
G = None

def boot(preload=True):
    global G
    import warnings
    warnings.simplefilter('ignore')
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.CRITICAL + 10)
    from BibleOrgSys import BibleOrgSysGlobals as G_
    G = G_
    G.verbosityLevel = 0
    if preload: G.preloadCommonData()
    G.maxProcesses = 1
    G.alreadyMultiprocessing = False
