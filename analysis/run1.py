import sys,time,os
from models import *
import extract
D=os.environ.get("MIRDIR") or extract.extract()
t0=time.time()
P=Prog(D+"/asset_program.json")
PT=Prog(D+"/nifty_asset_types.json")
ET=ext_type_table(PT.consts)

def entry(P):
    return P.by_path["asset_program::processor::process_instruction"][0]
INS=[v["n"] for v in next(t for t in P.types if t["s"]=="asset_program::instruction::Instruction")["v"]]
IDC=[c for n,c in P.consts if n=="asset_program::ID"][0]["a"]["m"]
def run(name, verbose=True):
    I=SolInterp(P); I.ext_types=ET
    k=INS.index(name)
    ix=mk("sym","ix",None)
    I.ix_value=ix
    st=State()
    I.assume(st,eq(mk("discr",ix),k))
    n=mk("sym","naccounts",None)
    idr=mk("const",IDC,())
    args=[ref_of(idr), ref_of(ACCOUNTS,0,n), ref_of(mk("ixdata"),0,mk("sym","ixlen",None))]
    t0=time.time()
    res=I.call(st,entry(P).id,args)
    ok=[(s,v) for s,v in res if isinstance(v,T) and v.tag=="agg" and v.a[1]==0]
    print(name,"parts",len(res),"ok",len(ok),"time %.2f"%(time.time()-t0),"steps",I.nsteps,"splits",I.nsplit,"unknown",I.unknown,"other",[v for s,v in res if not(isinstance(v,T) and v.tag=="agg")][:3])
    return I,res,ok
if __name__=="__main__":
    for nm in sys.argv[1:]:
        I,res,ok=run(nm)
        for s,v in ok[:int(os.environ.get("N","0"))]:
            print("--- OK")
            for f in sorted(s.facts,key=lambda t:t.id): print("   ",f)
            for e in s.effects(): print("   EFF",e)

