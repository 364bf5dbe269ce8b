# sweep restricted to classes: only.py PROP N CLASS...
import sys,os
sys.path[:0]=[os.environ.get("SSSPY_REPO","/repo"),"/verif"]
from sim import main,engine,zoo
import collections
c=main.get_check(sys.argv[1]); c.setup()
import multiprocessing as mp
def work(idx):
    out=[];n=0
    for i in idx:
        case=engine.make_case(c,1,i,"quick")
        if case["cfg"]["cls"] not in sys.argv[3:]: continue
        n+=1
        r=engine.run_guarded(c,case)
        for v in r.violations[:1]: out.append((i,v.cls,v.msg))
    return n,out
if __name__=="__main__":
    N=int(sys.argv[2])
    with mp.Pool(8) as p: rs=p.map(work,[range(k,N,64) for k in range(64)],chunksize=1)
    print(sum(r[0] for r in rs))
    vs=sorted(x for r in rs for x in r[1]); print(len(vs))
    for v in vs[:6]: print(v[0],v[1],v[2][:400])
