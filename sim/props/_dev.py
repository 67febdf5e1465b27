"""Developer scratch: which formats work at all (not a check)."""
from sim.ctx import Prop, Violation
from sim import gen, fmt, canon
def do(name, folder):
    B = fmt.ALL[name].open(folder)
    fmt.load(B)
    return dict(books=list(B.books), lines={b: len(x._processedLines) for b,x in B.books.items()}, canon=len(str(canon.bible(B))))
class P(Prop):
    id='DEV'; runs=dict(quick=22,thorough=22)
    def gen(self, rng, i, tier):
        return dict(fmt=list(fmt.ALL)[i % len(fmt.ALL)], bible=gen.make(rng, nbooks=3, blanks=False, books=fmt.NT))
    def run(self, c, case):
        f=fmt.ALL[case['fmt']]
        f.make(c, case['bible'], c.path('src'))
        o=c.spawn(do, case['fmt'], c.path('src'))
        c.sample=f"{case['fmt']}: {o.status} {o.value if o.ok else o.tb[-1500:]}"
        import os
        open('/tmp/dev-%s'%case['fmt'],'w').write(c.sample+'\n'+str(os.listdir(c.path('src')))[:300]+'\n')
PROP=P()
