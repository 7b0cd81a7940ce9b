"""concsweep.py CASESFACTOR SEEDS [ids]: only the concrete cases of the checks, many seeds (are the generators and tolerances sound?)"""
import sys, os, importlib.util, multiprocessing as mp, tempfile, ctypes, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("irvc", "props", ""): sys.path.insert(0, os.path.join(H, d))
sys.setrecursionlimit(20000)
import check, contract as C
from irparse import Module
def load(pid):
    spec = importlib.util.spec_from_file_location(pid, "%s/props/%s.py" % (H, pid)); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
def one(a):
    i, seed, n = a
    lib = C.Lib(G[0])
    try: r = C.run_conc(C.UNITS[i], G[1], lib, n, seed, tmax=60)
    finally: lib.stop()
    return i, seed, r
G = []
if __name__ == "__main__":
    fac, seeds = int(sys.argv[1]), range(100, 100 + int(sys.argv[2]))
    for pid in sys.argv[3:] or ["c%02d" % i for i in range(1, 20)]:
        if os.fork() == 0:
            pid = pid.lower(); m = load(pid); t = tempfile.mkdtemp(); so = t + "/x.so"
            r = check.compile_so("%s/props/%s.cpp" % (H, pid), so, getattr(m, "FLAGS", [])); assert r.returncode == 0, r.stderr[:500]
            r = check.compile_ir("%s/props/%s.cpp" % (H, pid), t + "/x.ll", getattr(m, "FLAGS", [])); G.append(so); G.append(Module(open(t + "/x.ll").read())); n = 0
            with mp.get_context("fork").Pool(8) as p:
                for i, seed, r in p.imap_unordered(one, [(i, s, u.conc * fac) for i, u in enumerate(C.UNITS) if u.conc for s in seeds]):
                    n += r["cases"]
                    for f in r["failures"][:1]: print(pid, C.UNITS[i].name, "seed", seed, str(f["what"])[:200], str(f["input"])[:300], flush=True)
            print(pid, n, "cases", flush=True); os.system("rm -rf " + t); os._exit(0)
        os.wait()
