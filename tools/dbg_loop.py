import sys
sys.path.insert(0,'/verif')
from qedv import run, loops, ir
from qedv.exec import *
loops.DEBUG=True
o=loops.Loop.solve
def solve(self,s,u,n):
    r=o(self,s,u,n)
    print('SOLVE',s,'u=',str(u)[:200],'n=',str(n)[:600],'init=',str(self.initial(s))[:100],'->',str(r)[:300], 'unk',self.others())
    return r
loops.Loop.solve=solve
drv=sys.argv[1]
d=run.directives(drv)
prog=ir.Program([drv]+[ir.REPO+'/Source/'+s for s in d['sources']],d['flags'])
stride={}
sys.setrecursionlimit(100000)
while 1:
    x=Exec(prog,'case_'+sys.argv[2]); x.stride=stride; x.deadline=1e18
    try:
        x.call(prog.fns['case_'+sys.argv[2]],[],State()); break
    except Restart: stride=x.stride
