#!/usr/bin/env python3
"""Sensitivity measurement: random small changes of /repo's headers (in scratch copies) against the checks.
usage: mutate.py SEED COUNT [HEADER...]   (run from a copy of /verif; writes mutants.log beside the scratch copies)"""
import json, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, count = int(sys.argv[1]), int(sys.argv[2]); only = sys.argv[3:]
rng = random.Random(seed)
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
byfile = {}
for p in props:
    for f in p["anchors"]["files"]: byfile.setdefault(f, []).append(p["id"])
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\bi\b", "j"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
         (r"\bmin", "max"), (r"\bmax", "min"), (r"_min\b", "_max"), (r"_max\b", "_min"), (r"front\(\)", "back()"), (r"back\(\)", "front()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" \+= ", " = "), (r" -= ", " += "),
         (r"lower_bound", "upper_bound"), (r"\bi-1\b", "i"), (r"\bi\+1\b", "i"), (r"- 1\b", ""), (r"\+ 1\b", ""), (r"-1\b", ""), (r"\+1\b", ""), (r"rows\(\)", "cols()"), (r"Upper", "Lower"), (r"\.begin\(\)", ".begin() + 1"), (r"^(\s*)(\S.*;)\s*$", r"\1;")]
files = [f for f in byfile if os.path.exists("/repo/" + f) and (not only or any(o in f for o in only))]
def codelines(t):
    out = []; block = False
    for i, l in enumerate(t):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"): block = "*/" not in s; continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or s in ("{", "}", "};", "public:", "private:") or s.startswith(("template", "using", "namespace", "typedef", "return;")): continue
        out.append(i)
    return out
base = os.environ.get("MUT", "/tmp/mut"); os.makedirs(base, exist_ok=True)
log = open(base + "/mutants.log", "a")
done = 0
while done < count:
    f = rng.choice(files); t = open("/repo/" + f).read().split("\n"); i = rng.choice(codelines(t))
    code = t[i].split("//")[0]
    rs = [(a, b, m) for a, b in RULES for m in re.finditer(a, code)]
    if not rs: continue
    a, b, m = rng.choice(rs); new = code[:m.start()] + m.expand(b) + code[m.end():]
    if new.strip() == code.strip(): continue
    d = base + "/r%d_%d" % (seed, done); shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo/src", d + "/src")
    t[i] = new; open(d + "/" + f, "w").write("\n".join(t))
    res = []; t0 = time.time(); verdict = "SURVIVED"
    for pid in byfile[f]:
        r = subprocess.run(["python3-vt", HERE + "/check.py", pid], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True, cwd=HERE)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        res.append("%s:%d%s" % (pid, r.returncode, "n" if v and v[0].endswith("found") else ""))
        if r.returncode == 1: verdict = "caught"; break
        if r.returncode == 2: verdict = "nocompile"; break
    shutil.rmtree(d, ignore_errors=True)
    log.write("%s %s:%d %s %.0fs | %s -> %s\n" % (verdict, os.path.basename(f), i + 1, ",".join(res), time.time() - t0, code.strip()[:150], new.strip()[:150])); log.flush()
    if verdict != "nocompile": done += 1
