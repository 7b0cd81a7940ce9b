"""Runs calls into the compiled harness library; one request per line (JSON), dies with the call when the code does."""
import sys, json, ctypes, os, math
def mkfun(desc, nargs):
    """callback families shared with the contract evaluator"""
    kind, c = desc
    def f(*x):
        if kind == "poly":
            # c: list of [coef, e1, e2, ..]
            s = 0.0
            for t in c:
                v = t[0]
                for xi, e in zip(x, t[1:]): v *= xi ** e
                s += v
            return s
        if kind == "sin":
            return math.sin(sum(a * b for a, b in zip(c[1:], x)) + c[0])
        if kind == "cos":
            return math.cos(sum(a * b for a, b in zip(c[1:], x)) + c[0])
        raise ValueError
    return f
def main():
    lib = ctypes.CDLL(sys.argv[1])
    rd = os.fdopen(int(sys.argv[2]), "r"); wr = os.fdopen(int(sys.argv[3]), "w")
    for line in rd:
        q = json.loads(line)
        f = getattr(lib, q["fn"])
        f.restype = {"d": ctypes.c_double, "i": ctypes.c_int, "l": ctypes.c_long, "v": None}[q["ret"]]
        args = []; outs = []
        for k, v in q["args"]:
            if k == "d": args.append(ctypes.c_double(float.fromhex(v)))
            elif k == "i": args.append(ctypes.c_int(v))
            elif k == "l": args.append(ctypes.c_long(v))
            elif k == "ad":
                a = (ctypes.c_double * max(1, len(v)))(*[float.fromhex(x) for x in v]); args.append(a)
            elif k == "ai":
                a = (ctypes.c_int * max(1, len(v)))(*v); args.append(a)
            elif k == "od":
                a = (ctypes.c_double * max(1, v))(*([-7.25e77] * max(1, v))); args.append(a); outs.append(a)
            elif k == "oi":
                a = (ctypes.c_int * max(1, v))(*([-77777] * max(1, v))); args.append(a); outs.append(a)
            elif k == "f":
                n, desc = v
                cb = ctypes.CFUNCTYPE(ctypes.c_double, *([ctypes.c_double] * n))(mkfun(desc, n)); args.append(cb)
        r = f(*args)
        def enc(x): return x.hex() if isinstance(x, float) else x
        wr.write(json.dumps({"ret": enc(r), "outs": [[enc(x) for x in a] for a in outs]}) + "\n"); wr.flush()
if __name__ == "__main__": main()
