"""debug: part.py LABEL N [-c] [-t]: literal goals of obligation N (numbered as in vf.py), one by one"""
import sys
sys.path.insert(0,'/verif')
from pyv import driver, spec, solver
from pyv.terms import *
driver.load_specs()
c=[c for c in spec.REG.values() if c.label==sys.argv[1]][0]
en=driver.make_engine()
obls,vac=spec.verify(en,c)
seen=set(); todo=[]
for o in obls:
    k=(tuple(h.get_id() for h in o.hyps), o.goal.get_id())
    if k in seen: continue
    seen.add(k); todo.append(o)
o=todo[int(sys.argv[2])]
hs=[]
for h in o.hyps: hs+=solver.flat(norm(h))
def go(hh,gg,depth,pre):
    hh=hh+solver.same_sets(hh); hh,gg=solver.eliminate(hh,gg)
    r=solver.discharge(hh,gg,'mid')
    print(pre, r)
    if r.ok: return
    hs2 = solver.propagate(hh, gg)
    if '-c' in sys.argv and depth<4:
      for i in range(len(hs2)-1,-1,-1):
        c = solver.cases([hs2[i]])
        if len(c)>1 and not z3.is_quantifier(hs2[i]):
            for alt in c:
                print(pre, '  CASE', ' '.join(str(alt).split())[:700])
                go(hs2[:i]+hs2[i+1:]+alt, gg, depth+1, pre+'    ')
            return
    if '-t' in sys.argv:
        for u in hs2: print(pre,'  H', ' '.join(str(u).split())[:1800])
for hh,gg in solver.split_goal(hs,norm(o.goal)):
    print('PART', " ".join(str(gg).split())[:1800], [' '.join(str(u).split())[:1800] for u in hh[len(hs):]])
    go(hh,gg,0,'')
