import sys,time,glob; sys.path.insert(0,'/verif/llsym')
from engine import *
import cProfile,pstats
m=Mod(glob.glob('/verif/target/ir/release/deps/harness*.ll')[0])
e=Engine(m); e.thorough=0
n=sys.argv[1]; secs=float(sys.argv[2])
pr=cProfile.Profile()
t=time.time()
if len(sys.argv)>3: pr.enable()
v=e.explore(n,deadline=time.time()+secs,max_violations=5)
pr.disable()
print(n,round(time.time()-t,1),{k:round(x,2) for k,x in e.stats.items()},e.ends,e.covers,'open',len(e.work))
for x in v[:3]: print(x)
if len(sys.argv)>3: pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
