import sys,os
sys.path.insert(0,'/verif/irvc'); sys.path.insert(0,'/verif/props'); sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib.util, check, contract as C, traceback
pid, un = sys.argv[1], sys.argv[2]
low=pid.lower()
spec = importlib.util.spec_from_file_location(low, "/verif/props/%s.py"%low); pm = importlib.util.module_from_spec(spec); spec.loader.exec_module(pm)
from irparse import Module
os.makedirs("/tmp/dbg",exist_ok=True); ll="/tmp/dbg/%s.ll"%low
src="/verif/props/%s.cpp"%low
if not os.path.exists(ll) or os.path.getmtime(ll)<os.path.getmtime(src) or "-f" in sys.argv:
    r=check.compile_ir(src,ll,getattr(pm,"FLAGS",[])); assert r.returncode==0, r.stderr
mod=Module(open(ll).read())
sizes=None
if "-b" in sys.argv: sizes=eval(sys.argv[sys.argv.index("-b")+1])
us=[u for u in C.UNITS if u.name==un or un=="*" or (un.endswith("*") and u.name.startswith(un[:-1]))]
for u in us:
    if "-t" in sys.argv:
        c=C.Ctx("bnd" if sizes is not None else "sym",u,mod,sizes=sizes,contracts=getattr(pm,"CONTRACTS",None))
        try: u.fn(c)
        except Exception: traceback.print_exc()
        continue
    import cProfile,time
    t=time.time()
    if "-p" in sys.argv:
        pr=cProfile.Profile(); pr.enable()
    r=C.run_sym(u,mod,sizes=sizes,contracts=getattr(pm,"CONTRACTS",None),budget=int(os.environ.get("BUDGET","150")))
    if "-p" in sys.argv:
        pr.disable(); import pstats; pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
    r["wall"]=time.time()-t
    check.report_unit("sym" if sizes is None else "bnd%s"%sizes,u,r)
