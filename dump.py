import sys,time,glob
import os;sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from wf.facts import Facts
from wf.rules import *
F=Facts(glob.glob(os.path.join(sys.path[0],'.build/facts/*.json')))
for fn in list(F.fns.values()):
    if 'blocks' not in fn or fn['kind']=='Closure' or fn.get('derived'): continue
    if not any(p in fn['path'] for p in sys.argv[1:]): continue
    a=A(F,fn)
    print("==",fn['path'],len(a.g.nodes),len(a.p.nodes))
    for c in a.calls(): print("  call",c)
    for i,l,y,ss in a.edges(): print("  sw",i,y,ss[0])
    for e in a.effects(): print("  EFF",e)
    for r in a.rets(): print("  RET",r.variant,r.s)
