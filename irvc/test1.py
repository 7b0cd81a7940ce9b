import sys, time
from eigenm import *
from irparse import Module
import prove as PR
mod = Module(open(sys.argv[1]).read())
ex = Exec(mod, H); ex.debug = True
n = sym("n", "I"); x = sym("x")
st = State(); st.assume(And(LE(1, n), LE(n, LIM)))
i = st.new("arg", 24, "c"); st.w(i).cells[0] = (24, fun_arr((n,), lambda k: app("a", k)))
xp = sym("x")
t0=time.time()
out = ex.call(st, "h_horner", [Ptr(i), x])
k = fresh("k", "I")
spec = mk_sum(k, ZERO, n, app("a", k) * power(x, k))
for s, kind, v in out:
    print(kind, s.pc, v, PR.prove(s.pc, EQ(v, spec)) if kind == "ret" else "")
for o in ex.obls: print(o.name, o.soft, o.goal.key()[:150], PR.prove(o.facts, o.goal))
print(time.time()-t0)
ex = Exec(mod, H); ex.debug = True
st = State(); st.assume(And(LE(1, n), LE(n, LIM)))
i = st.new("arg", 16, "c"); st.w(i).cells[0] = (16, fun_arr((n, 1), lambda k,j: app("a", k), "eig"))
out = ex.call(st, "h_ps1", [Ptr(i), sym("xmin"), sym("xmax"), x])
u = (x*2 - sym("xmin")-sym("xmax"))/(sym("xmax")-sym("xmin"))
spec = mk_sum(k, ZERO, n, app("a", k) * power(u, k))
for s, kind, v in out:
    print(kind, s.pc, v, PR.prove(s.pc, EQ(v, spec)) if kind == "ret" else "")
for o in ex.obls: print(o.name, o.soft, o.goal.key()[:150], PR.prove(o.facts, o.goal))
print(time.time()-t0)
