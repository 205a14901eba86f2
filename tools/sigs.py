import sys; sys.path.insert(0,'/verif')
from vp import core, modelkit
import itertools
seen={}
for dm in ["COACCH","nodamage"]:
  for tr in ["notrade","emissiontrade","globalcostpool"]:
    for ft in ["notransfer","globaldamagepool"]:
      for w in ["welfare_loss_minimising","cost_minimising","inequal_aversion_general"]:
        for o in ["utility","globalcosts"]:
          cfg={"time":{"start":2020,"end":2130,"dt":10},"regions":{r:None for r in ["CAN","INDIA"]},"model":{"damage module":dm,"emissiontrade module":tr,"financialtransfer module":ft,"welfare module":w,"objective module":o},
          "emissions":{"carbonbudget":"500 GtCO2","inertia":{"global":-0.03}},"temperature":{"target":"2 delta_degC"}}
          if tr=="emissiontrade" and w=="cost_minimising": cfg["effort sharing"]={"regime":"per_cap_convergence"}
          elif w=="cost_minimising": cfg["effort sharing"]={"regime":"equal_total_costs"}
          J=modelkit.Judge(modelkit.build(cfg).concrete_model)
          for c in J.cons: seen.setdefault((c.name.replace('constraint_',''),'eq' if c.eq else 'in',tuple(sorted(c.sig))),0)
for k in sorted(seen): print(*k)
