"""run cases in-process collecting all violations: sweep.py PROP N [start]"""
import sys,os,collections,time,traceback
sys.path[:0]=[os.environ.get("SSSPY_REPO","/repo"),"/verif"]
sys.path.insert(0,os.environ.get("SSSPY_REPO","/repo"))
import multiprocessing as mp
from sim import main,engine
def work(a):
    prop,idx=a
    c=main.get_check(prop)
    out=[]
    for i in idx:
        case=engine.make_case(c,1,i,"quick")
        try:
            t=time.process_time(); r=engine.run_guarded(c,case); t=time.process_time()-t
            out.append((i,case.get("cfg",{}).get("cls"),[(v.cls,v.msg) for v in r.violations],t,dict(r.stats),r.nontrivial))
        except Exception as e:
            out.append((i,case.get("cfg",{}).get("cls"),[("HARNESS",traceback.format_exc()[-600:])],0,{},False))
    return out
if __name__=="__main__":
    prop,n=sys.argv[1],int(sys.argv[2]); st=int(sys.argv[3]) if len(sys.argv)>3 else 0
    main.get_check(prop).setup()
    idx=list(range(st,st+n)); ch=[idx[k::64] for k in range(64)]
    t0=time.time()
    with mp.Pool(8) as p: rs=[x for o in p.map(work,[(prop,c) for c in ch if c],chunksize=1) for x in o]
    w=time.time()-t0
    vio=collections.defaultdict(list)
    st=collections.Counter()
    for i,cls,vs,t,s,nt in rs:
        st.update(s)
        for c,m in vs[:1]: vio[(c,cls)].append((i,m))
    print("n",len(rs),"wall %.1f"%w,"nontrivial",sum(x[5] for x in rs),"maxt %.2f"%max(x[3] for x in rs))
    print({k:v for k,v in st.most_common(40)})
    for k,l in sorted(vio.items(),key=lambda kv:-len(kv[1])):
        print(len(l),k,l[0][0],l[0][1][:int(os.environ.get("W","300"))])
