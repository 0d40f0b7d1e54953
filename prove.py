#!/usr/bin/env python3-vt
import sys, time, os, importlib.util, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc.program import *
from pyvc import solve
def load(p):
    spec=importlib.util.spec_from_file_location(os.path.basename(p)[:-3],p); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
if __name__=="__main__":
    here=os.path.dirname(os.path.abspath(__file__))
    args=sys.argv[1:]
    contracts={}
    import glob
    prop=[a[1:] for a in args if a.startswith("@")]
    args=[a for a in args if not a.startswith("@")]
    for f in sorted(glob.glob(here+"/specs/contracts_*.py")):
        contracts.update(load(f).CONTRACTS)
    if prop:
        import check
        reg,P,contracts=check.build(prop[0])
    else: P=Program("/repo",sorted(glob.glob(here+"/specs/theory*.py")),contracts)
    vcs=[]
    for a in args:
        if a.startswith("lemma:"):
            names=[n for n in P.lemmas if n==a[6:] or a[6:]=="*"]
            for n in names:
                e=P.verify_lemma(n)
                vcs+=e.vcs
        elif a.startswith("spec:"):
            for n in P.specfns:
                if n==a[5:] or a[5:]=="*": vcs+=P.verify_spec(n)
        else:
            keys=[k for k in contracts if a in k]
            for k in keys:
                try:
                    e=P.verify_function(k)
                    vcs+=e.vcs
                    print(k,len(e.vcs),"obligations", e.notes, e.trusted, e.inlined)
                except Unsupported as ex:
                    print("UNSUPPORTED",k,ex)
                    if os.environ.get("TB"): raise
    t0=time.time()
    wd=os.environ.get("WD") or tempfile.mkdtemp()
    rs=solve.discharge(vcs,P,wd,slow=int(os.environ.get("SLOW","25")),quick=int(os.environ.get("QUICK","4")))
    bad=[r for r in rs if not r.ok]
    for r in bad: print("FAILED",r.vc.name,r.detail)
    if os.environ.get("V"):
        for r in rs: print(r.ok,r.backend,round(r.time,2),r.vc.name)
    print(len(rs)-len(bad),"/",len(rs),"%.1fs"%(time.time()-t0),wd)
    if not os.environ.get("WD"): shutil.rmtree(wd)
