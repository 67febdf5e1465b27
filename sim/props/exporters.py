"""The exporters of BibleWriter and how their outputs are compared."""
import os

ALL = ['toPickleObject', 'toPickledBible', 'toBOSJSONBible', 'makeLists', 'toBOSBCV', 'toPseudoUSFM', 'toUSFM2', 'toUSFM3', 'toESFM', 'toText', 'toVPL', 'toMarkdown', 'toHTML5', 'toBibleDoor',
       'toEasyWorshipBible', 'toUSX2XML', 'toUSXXML', 'toUSFXXML', 'toOSISXML', 'toZefaniaXML', 'toHaggaiXML', 'toOpenSongXML', 'toSwordModule', 'totheWord', 'toMySword', 'toESword', 'toMyBible',
       'toSwordSearcher', 'toDrupalBible', 'toPhotoBible', 'toODF', 'toTeX']
NAMES = [n for n in ALL if n not in ('toPhotoBible', 'toODF', 'toTeX')]

MASKS = ((rb'\b\d\d-[A-Z][a-z]{2}-\d{4}\b', b'<date>'), (rb'\b[0-9a-f]{64}\b', b'<digest>'), (rb'\d{4}-\d\d-\d\d([ T]\d\d:\d\d(:\d\d(\.\d+)?)?)?', b'<date>'), (rb'publish\.date=\d{4}', b'<year>'), (rb'("BDHeader\.json": )"[0-9a-f]{32}"', rb'\1<md5>'))
SKIP = (r'-journal$', )      # the rest of an unfinished SQLite transaction holds random bytes

def call(B, name, folder):
    os.makedirs(folder, exist_ok=True)
    return getattr(B, name)(folder)
