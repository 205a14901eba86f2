import sys; sys.path.insert(0,'/verif')
from vp import core, modelkit, refmodel
import numpy as np, time
cfg={"time":{"start":2020,"end":2150,"dt":10},"regions":{r:None for r in ["CAN","WEU","INDIA"]}}
mods=eval(sys.argv[1]) if len(sys.argv)>1 else {}
for k,v in mods.items(): cfg[k]=v
t=time.time(); mm=modelkit.build(cfg); print('build',time.time()-t)
t=time.time(); J=modelkit.Judge(mm.concrete_model); print('judge',time.time()-t,len(J.cons))
c=refmodel.Cfg(cfg); d=J.data()
rs=np.random.RandomState(0)
T,R=d.gdp.shape
a=np.minimum(np.cumsum(rs.rand(T,R)*0.12,axis=0),1.3); a[0]=0
bal=rs.randn(T,R)*0.05; bal-=bal.mean(axis=1,keepdims=True); bal[0]=0
pol=dict(a=a,bal=bal,ft=np.zeros((T,R)),common=np.zeros(T))
t=time.time(); v=refmodel.simulate(c,d,pol); print('sim',time.time()-t)
print('missing',J.assign(v))
t=time.time(); b=J.broken(); print('eval',time.time()-t,len(b))
for x in b[:40]: print(x)
