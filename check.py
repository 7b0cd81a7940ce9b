#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--unit NAME] : decides one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib.util, multiprocessing as mp, multiprocessing.connection, signal, re, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "irvc")); sys.path.insert(0, os.path.join(HERE, "props"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "clang++"
INC = ["-I", os.path.join(HERE, "irvc"), "-I", REPO + "/src", "-I", "/usr/include/eigen3", "-I", "/opt/vp/units-shim"]
STD = ["-std=c++17", "-w"]

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

def compile_ir(src, out, extra=()):
    return sh([CXX] + STD + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-include", "stdlib.h"] + INC + list(extra) + ["-S", "-emit-llvm", src, "-o", out])
def compile_so(src, out, extra=()):
    return sh([CXX] + STD + ["-O1", "-fPIC", "-shared", "-ffp-contract=off", "-DVP_LIB", "-D_GLIBCXX_ASSERTIONS"] + INC + list(extra) + [src, "-o", out] + getattr_list(extra))
def getattr_list(e): return []

_G = {}
def work(job):
    kind, ui, arg = job
    import contract as C, smt
    u = C.UNITS[ui]; mod = _G["mod"]
    t0 = time.time()
    def onalarm(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(_G["limit"]))
    try:
        if kind == "sym" and not u.sym: r = {"unit": u.name, "status": "bounded", "error": "bounded check only", "obligations": []}
        elif kind == "sym": r = C.run_sym(u, mod, budget=u.budget * _G["scale"], contracts=_G["contracts"])
        elif kind == "bnd": r = C.run_sym(u, mod, sizes=arg, budget=60, contracts=None)
        elif kind == "conc":
            lib = C.Lib(_G["so"])
            try: r = C.run_conc(u, mod, lib, arg[0], arg[1], forced=arg[2], tmax=_G["tconc"])
            finally: lib.stop()
    except TimeoutError: r = {"unit": u.name, "status": "unknown", "error": "time limit", "obligations": [], "cases": 0, "checked": 0, "failures": [], "rejected": 0}
    except MemoryError: r = {"unit": u.name, "status": "unknown", "error": "memory limit", "obligations": [], "cases": 0, "checked": 0, "failures": [], "rejected": 0}
    finally: signal.alarm(0)
    r["wall"] = round(time.time() - t0, 2)
    return job, r

def worker(conn):
    try:
        while True:
            j = conn.recv()
            if j is None: break
            conn.send(work(j))
    except (EOFError, KeyboardInterrupt, BrokenPipeError): pass
    finally: os._exit(0)
def scheduler(js, left, stop):
    """own worker processes (killed outright at a limit: multiprocessing's pools can hang when they are terminated)"""
    ctx = mp.get_context("fork"); todo = list(js)[::-1]; busy = {}; idle = []
    def start():
        a, b = ctx.Pipe(); pr = ctx.Process(target=worker, args=(b,), daemon=False); pr.start(); b.close(); return [a, pr, 0]
    def kill(w):
        try: w[1].kill()
        except Exception: pass
        w[0].close(); w[1].join(5)
    nproc = min(8, os.cpu_count() or 4)
    def lost(j, why): return {"unit": "", "status": "unknown", "error": why, "obligations": [], "cases": 0, "checked": 0, "failures": [], "rejected": 0, "wall": 0.0}
    try:
        while (todo or busy) and left() > 0:
            while todo and len(busy) < nproc:
                w = idle.pop() if idle else start()
                j = todo.pop(); w[0].send(j); busy[w[0]] = (w, j, time.time())
            for c in mp.connection.wait(list(busy), timeout=max(0.1, min(5, left()))):
                w, j, t = busy.pop(c)
                try: _, r = c.recv()
                except (EOFError, OSError): kill(w); r = lost(j, "worker ended (memory?)")
                else:
                    w[2] += 1
                    if w[2] >= 12:
                        try: c.send(None)
                        except OSError: pass
                        kill(w)
                    else: idle.append(w)
                yield j[0], j[1], j[2], r
                if stop is not None and stop(): return
            for c, (w, j, t) in list(busy.items()):
                if time.time() - t > _G["limit"] + 15:
                    del busy[c]; kill(w); yield j[0], j[1], j[2], lost(j, "time limit")
    finally:
        for w in idle + [x[0] for x in busy.values()]: kill(w)
def forced_of(model, sizes):
    from fractions import Fraction
    f = dict(sizes or {})
    vecs = {}
    for k, v in (model or {}).items():
        m = re.fullmatch(r"([A-Za-z_]\w*)\[(\d+)\]", k)
        x = Fraction(v)
        if m: vecs.setdefault(m.group(1), {})[int(m.group(2))] = float(x)
        elif re.fullmatch(r"[A-Za-z_]\w*", k): f[k] = int(x) if x.denominator == 1 and abs(x) < 2**53 else float(x)
    for k, d in vecs.items(): f[k] = [d.get(j, 0.0) for j in range(max(d) + 1)]
    return f

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; verbose = "-v" in a
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--unit": only = a[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try: rc = run(pid, tier, seed, only, verbose, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def run(pid, tier, seed, only, verbose, tmp, t0):
    import contract as C
    from irparse import Module
    low = pid.lower()
    spec = importlib.util.spec_from_file_location(low, os.path.join(HERE, "props", low + ".py"))
    pm = importlib.util.module_from_spec(spec); spec.loader.exec_module(pm)
    extra = list(getattr(pm, "FLAGS", []))
    src = os.path.join(HERE, "props", low + ".cpp")
    ll, so = os.path.join(tmp, "h.ll"), os.path.join(tmp, "h.so")
    link = list(getattr(pm, "LINK", []))
    p2 = mp.get_context("fork").Pool(1)
    f2 = p2.apply_async(compile_so, (src, so, extra + link))
    r = compile_ir(src, ll, extra)
    if r.returncode:
        print("harness does not compile against the current tree:\n" + r.stderr[-3000:]); p2.terminate(); return 2
    mod = Module(open(ll).read())
    r = f2.get(); p2.close()
    if r.returncode:
        print("harness library does not compile:\n" + r.stderr[-3000:]); return 2
    thorough = tier == "thorough"
    _G.update(mod=mod, so=so, scale=3 if thorough else 1, limit=1500 if thorough else 300, tconc=200 if thorough else 40, contracts=getattr(pm, "CONTRACTS", None))
    units = [i for i, u in enumerate(C.UNITS) if only is None or u.name == only]
    for u in C.UNITS: mod_touch(mod, u)
    jobs = [("conc", i, ((C.UNITS[i].conc * (10 if thorough else 1)), seed, None)) for i in units if C.UNITS[i].conc] + [("sym", i, None) for i in units]
    sym, conc, bnd = {}, {}, {}
    known = load_known(pid)
    def drive(js, until, stop=None):
        """run the jobs on all cores; what is not finished at the time limit (or once stop says so) is left out"""
        yield from scheduler(js, lambda: until - (time.time() - t0), stop)
    fresh_failure = lambda: any(not match_known(known, C.UNITS[i], f) for i, r in conc.items() for f in r["failures"])
    T1, T2, T3 = (600, 700, 790) if not thorough else (10 ** 6,) * 3
    for k, i, arg, r in drive(jobs, T1, fresh_failure):
        (sym if k == "sym" else conc)[i] = r
        if verbose: report_unit(k, C.UNITS[i], r)
    bad = [i for i in units if any(not match_known(known, C.UNITS[i], f) for f in conc.get(i, {}).get("failures", []))]
    if bad:
        # the property is broken on a concrete input: name the obligations that fail with it, skip the rest
        for k, i, arg, r in drive([("sym", i, None) for i in bad[:4] if i not in sym], min(T1, time.time() - t0 + 150)):
            sym[i] = r
            if verbose: report_unit(k, C.UNITS[i], r)
    for i in units: sym.setdefault(i, {"unit": C.UNITS[i].name, "status": "unknown", "error": "not run: another unit fails on a concrete input" if bad else "time limit of the check", "obligations": []})
    # ---- units that are not fully proved: bounded runs and counterexample replay
    need = [] if bad else [i for i in units if sym[i]["status"] != "proved"]
    bj = []
    for i in need:
        for b in ([{}] if C.UNITS[i].bounds is None else C.UNITS[i].bounds): bj.append(("bnd", i, b))
    for k, i, arg, r in drive(bj, T2):
        bnd.setdefault(i, []).append((arg, r))
        if verbose: report_unit("bnd%s" % arg, C.UNITS[i], r)
    rj = []
    for i in need:
        fs = [forced_of(r.get("model"), b) for b, r in bnd.get(i, []) if r.get("model")]
        if sym[i].get("model"): fs.append(forced_of(sym[i]["model"], None))
        if fs and C.UNITS[i].conc: rj.append(("conc", i, (0, seed, fs)))
        if not conc.get(i, {}).get("failures") and C.UNITS[i].conc: rj.append(("conc", i, (C.UNITS[i].conc * 6, seed + 7919, None)))
    for k, i, arg, r in drive(rj, T3, fresh_failure):
        c = conc.setdefault(i, {"cases": 0, "checked": 0, "failures": [], "rejected": 0})
        for x in ("cases", "checked", "rejected"): c[x] += r.get(x, 0)
        c["failures"] = c["failures"] + [dict(f, replay_of="verifier counterexample" if arg[2] else "search") for f in r["failures"]]
        if verbose: report_unit("replay", C.UNITS[i], r)
    # ---- verdict
    viol = []; lines = []
    for i in units:
        u = C.UNITS[i]
        fails = conc.get(i, {}).get("failures", [])
        status = sym[i]["status"]
        if fails:
            f = fails[0]
            kf = match_known(known, u, f)
            if kf and all(match_known(known, u, x) for x in fails): lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf)); continue
            f = next(x for x in fails if not match_known(known, u, x))
            viol.append((u, f, None)); continue
        if status in ("refuted", "bounded"):
            b = [x for _, x in bnd.get(i, []) if x["status"] == "refuted"]
            if b and not any(x["status"] == "unsupported" for _, x in bnd.get(i, [])): viol.append((u, None, b[0]))
        if status == "vacuous": viol.append((u, None, sym[i]))
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for u, f, b in viol:
        path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"\W+", "_", u.name)))
        failed = [o for o in (sym[C.UNITS.index(u)].get("obligations") or []) if o["status"] != "proved" and o["soft"] is not True]
        json.dump({"property": pid, "unit": u.name, "functions": u.covers, "failing_input": f, "failed_obligations": failed[:10],
                   "verifier": sym[C.UNITS.index(u)].get("error"), "bounded": b and [o for o in b["obligations"] if o["status"] != "proved"][:5],
                   "how_to_replay": "python3-vt check.py %s --unit '%s' -v" % (pid, u.name)}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if f else " no-failing-input-found"))
    for l in sorted(set(lines)): print(l)
    write_evidence(pid, tier, seed, t0, units, sym, bnd, conc, viol, pm)
    n = sum(len(sym[i]["obligations"]) for i in units)
    pr = sum(1 for i in units if sym[i]["status"] == "proved")
    print("%s: %d/%d units proved, %d obligations, %d concrete cases, %.1fs" % (pid, pr, len(units), n, sum(c.get("cases", 0) for c in conc.values()), time.time() - t0))
    for i in units:
        if sym[i]["status"] != "proved": print("  not proved: %s (%s%s)" % (C.UNITS[i].name, sym[i]["status"], ": " + sym[i]["error"] if sym[i].get("error") else ""))
    for i in units:
        if C.UNITS[i].conc and not conc.get(i, {}).get("cases"): print("  no concrete case ran: %s (%s)" % (C.UNITS[i].name, conc.get(i, {}).get("last_reject")))
    return 1 if viol else 0

def mod_touch(mod, u): pass

def report_unit(k, u, r):
    if k in ("conc", "replay"): print("  [%s] %-40s cases=%d checked=%d rejected=%d failures=%d %s %.1fs" % (k, u.name, r.get("cases", 0), r.get("checked", 0), r.get("rejected", 0), len(r["failures"]), r.get("error") or "", r["wall"]))
    else: print("  [%s] %-40s %s obl=%d out=%s inv=%s %s %.1fs" % (k, u.name, r["status"], len(r["obligations"]), r.get("outcomes"), r.get("invariants"), r.get("error") or "", r["wall"]))
    for f in r.get("failures", [])[:2]: print("       ", json.dumps(f)[:600])
    for o in r["obligations"] if "obligations" in r else []:
        if o["status"] != "proved": print("        %s%s [%s] %s %s\n            %s\n            %s" % ("(soft) " if o["soft"] is True else "", o["name"], o["where"], o["status"], o["backend"], o["goal"][:300], o["detail"][:500]))
    sys.stdout.flush()

def load_known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) unit=\"([^\"]*)\" match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out
def match_known(known, u, f):
    t = json.dumps({"input": f["input"], "what": f["what"]})
    for un, rx, txt in known:
        if un == u.name and rx.search(t): return txt
    return None

def write_evidence(pid, tier, seed, t0, units, sym, bnd, conc, viol, pm):
    import contract as C
    obl = dis = inv = triv = 0
    backs, stime, trusted, funcs, cons = {}, 0.0, set(), set(), set()
    ud = []; soft_open = []
    for i in units:
        u, r = C.UNITS[i], sym[i]
        hard = [o for o in r["obligations"] if o["soft"] is not True]
        obl += len(hard) + r.get("trivial", 0); triv += r.get("trivial", 0)
        d = [o for o in hard if o["status"] == "proved"]
        dis += len(d) + r.get("trivial", 0)
        for o in d: backs[o["backend"]] = backs.get(o["backend"], 0) + 1
        for o in r["obligations"]:
            if o["soft"] is True and o["status"] != "proved": soft_open.append("%s: %s (%s)" % (u.name, o["name"], o["goal"][:80]))
        st = r.get("stats", {}); stime += st.get("z3_time", 0) + st.get("cvc5_time", 0)
        trusted |= set(r.get("trusted", [])); inv += r.get("invariants", 0); cons |= set(r.get("contracts", []))
        funcs |= {f for f in r.get("functions", []) if "mathutils::" in f or "RegularGrid" in f or "Interp" in f}
        ud.append({"unit": u.name, "covers": u.covers, "status": r["status"] if r["status"] == "proved" else ("bounded" if all(x["status"] == "proved" for _, x in bnd.get(i, [(0, {"status": "x"})])) else "tested only"),
                   "obligations": len(hard), "discharged": len(d), "error": r.get("error"), "wall_s": r.get("wall"),
                   "bounded_runs": [{"sizes": b, "status": x["status"]} for b, x in bnd.get(i, [])],
                   "concrete_cases": conc.get(i, {}).get("cases", 0)})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if all(sym[i]["status"] == "proved" for i in units) else getattr(pm, "LEVEL", "proof"),
          "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
                       "trusted_base": sorted(trusted), "discharged_by": dict(backs, **({"canonical form (at generation)": triv} if triv else {})), "solver_time_s": round(stime, 2), "loop_invariants_inferred": inv,
                       "functions_under_contract": sorted({c for i in units for c in C.UNITS[i].covers}), "functions_executed_from_repo": sorted(funcs), "callee_contracts_used": sorted(cons),
                       "units": ud, "evaluations": sum(c.get("cases", 0) for c in conc.values()), "postconditions_checked_on_real_code": sum(c.get("checked", 0) for c in conc.values()),
                       "unproved_units": [x["unit"] for x in ud if x["status"] != "proved"]},
          "assumptions": ["double arithmetic treated as real arithmetic (rounding, overflow and NaN outside the proofs; the compiled code is compared with the contracts on concrete inputs)" if not getattr(pm, "FP", False) else "IEEE-754 double arithmetic, round to nearest even; fmod by its exact contract",
                          "integers mathematical, container sizes at most 2^28", "standard library, Eigen dynamic storage and boost::math by the trusted contracts in irvc/models.py and irvc/eigenm.py (listed in trusted_base)",
                          "floating literals denote the nearest simple rational or multiple of pi within one ulp", "clang -O0 translation to LLVM IR preserves the source semantics"] + list(getattr(pm, "ASSUMPTIONS", [])) + ["unchecked side condition: " + s for s in soft_open[:20]],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__": main()
