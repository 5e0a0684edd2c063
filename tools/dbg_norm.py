# usage: ob.py ID CASE [substr]: norm debugging
import sys,time
sys.path.insert(0,'/verif')
from qedv import run, ir, norm
from qedv.exec import *
from qedv.prove import *
drv='/verif/drivers/%s.cpp'%sys.argv[1]
d=run.directives(drv)
prog=ir.Program([drv]+[ir.REPO+'/Source/'+s for s in d['sources']],d['flags'])
stride={}
sys.setrecursionlimit(100000)
while 1:
    x=Exec(prog,'case_'+sys.argv[2]); x.stride=stride; x.deadline=1e18
    try:
        x.call(prog.fns['case_'+sys.argv[2]],[],State()); break
    except Restart: x.stride; stride=x.stride
def desc(n,r,lim=400):
    def at(i):
        k=n.atoms[i]
        if k[0]=='var': return show(k[1])[:40]
        return '%s#%d'%(k[0],i)
    def poly(p): return ' + '.join('%s*%s'%(c,'*'.join('%s^%d'%(at(a),e) for a,e in m)) for m,c in list(p.items())[:12])+' [%d terms]'%len(p)
    return poly(r.n)[:lim*3]+'  /  '+' ; '.join('(%s)^%d'%(poly(dict(f))[:lim],e) for f,e in r.d.items())
if __name__=='__main__':
  for o in x.obs:
    if o.goal is TRUE or (len(sys.argv)>3 and sys.argv[3] not in o.name): continue
    print(o.name,o.where)
    f=Facts(o.hyps); n=norm_for(f)
    g=lift(o.goal)
    while 1:
        c=outer_ite(g)
        if c is None: break
        dd=f.decide(c,800)
        print('cond',show(c)[:100],dd)
        if dd is None: dd=int(sys.argv[4]) if len(sys.argv)>4 else 1; f=Facts(f.lst+[c if dd else not_(c)]); n=norm_for(f)
        g=resolve(g,c,dd)
    if g.op!='req': continue
    for s in g.args:
        t=time.time()
        try:
            r=n.rf(s); print('  ',time.time()-t, desc(n,r))
        except TooBig: print('   TOOBIG',time.time()-t)
    for i,k in enumerate(n.atoms):
        if k[0]!='var': print('    atom',i,k[0],' | '.join(desc(n,q,200)[:500] for q in k[2]))
    if "-a" not in sys.argv: break
