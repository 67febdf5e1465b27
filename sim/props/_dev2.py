"""Developer scratch: which exporters fail for which features (not a check)."""
from sim.ctx import Prop, Violation
from sim import gen, fmt, canon
from . import exporters
def do(spec, folder, out):
    import traceback
    gen.write_usfm(folder, spec, 'usfm', None)
    B = fmt.ALL['USFM'].open(folder); fmt.load(B)
    r = {}
    for n in exporters.NAMES:
        try: x = exporters.call(B, n, out + '/' + n); r[n] = 'ok' if x is True else repr(x)[:60]
        except Exception as e: r[n] = f"{type(e).__name__} {e} @ {traceback.format_exc().strip().splitlines()[-3].strip()}"[:200]
    import xml.etree.ElementTree as ET, os
    for dp,dn,fn in os.walk(out):
        for x in fn:
            if x.lower().endswith(('.osis','.xml','.usx','.zef','.hag','.osong','.opensong','.usfx')):
                try: ET.parse(os.path.join(dp,x))
                except Exception as e:
                    L=int(str(e).split('line ')[1].split(',')[0]) if 'line ' in str(e) else 0
                    r['xml '+os.path.relpath(os.path.join(dp,x),out).split('/')[0]] = str(e)[:20]; r['xmltext']= open(os.path.join(dp,x)).read().split('\n')[max(0,L-3):L+1] if 'OSIS' in dp else ''
    return r
class P(Prop):
    id='DEV2'; runs=dict(quick=60,thorough=22)
    def gen(self, rng, i, tier):
        f = [gen.FEATS[i % len(gen.FEATS)]] if i < 2*len(gen.FEATS) else None
        return dict(f=f, bible=gen.make(rng, nbooks=2 , blanks=False, feats=f))
    def run(self, c, case):
        o=c.spawn(do, case['bible'], c.path('src'), c.path('out'))
        if not o.ok: raise Violation('dev:load', str(case['f']), o.tb)
        for k, v in o.value.items():
            if v != 'ok': c.probe(f"{k} {v}")
        bad = {k: v for k, v in o.value.items() if v != 'ok'}
        import json
        open('/tmp/dev2.txt', 'a').write(json.dumps([case['f'] or [b['f'] for b in case['bible']['books']], bad]) + '\n')
PROP=P()
