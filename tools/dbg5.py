import sys,os
sys.path[:0]=["/repo","/verif"]
from sim import main,engine,zoo
from sim.history import History
import numpy as np,json
prop=sys.argv[1]
c=main.get_check(prop); c.setup()
for i in map(int,sys.argv[2:]):
    case=engine.make_case(c,1,i,"quick"); cfg=case["cfg"]; print(i,zoo.brief(cfg),cfg["C"],cfg["F"],cfg["T"],cfg["floor"],cfg["x"]["faults"])
    def obs(h,m):
        o=h.obj
        W=o.demix_filter if zoo.has_filter(cfg) else None
        if W is None and zoo.has_filter(cfg): W=zoo.recovered_filter(h.X,o.output)
        ex=""
        for k in ("variance","basis","activation"):
            v=getattr(o,k,None)
            if v is not None:
                v=zoo.flat(v); 
                if v[0].ndim<4: ex+=" %s %.2g..%.2g"%(k,min(a.min() for a in v),max(a.max() for a in v))
        print("  ",m,h.chain,h.s.run_no,"%.8g"%o.loss[-1] if o.loss else None, "cond %.3g max %.3g"%(np.max(np.linalg.cond(W)),np.abs(W).max()) if W is not None else "",ex, "minY %.2g"%np.min(np.abs(o.output)) if o.output is not None else "")
    h=History(cfg,case["ops"],obs,case.get("start"),restoring=False)
    print(h.play())
