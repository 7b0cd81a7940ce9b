"""Parser for the textual LLVM IR (LLVM 18) that clang emits from /repo's headers.

Function bodies are parsed lazily, on first use.
"""
import re, subprocess, struct

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a")
    def __init__(self, k, a=None): self.k, self.a = k, a
    def __repr__(self):
        return {"int": lambda: "i%d" % self.a, "named": lambda: "%" + self.a,
                "arr": lambda: "[%d x %r]" % self.a, "struct": lambda: "{%s}" % ",".join(map(repr, self.a)),
                "pstruct": lambda: "<{%s}>" % ",".join(map(repr, self.a)),
                "vec": lambda: "<%d x %r>" % self.a}.get(self.k, lambda: self.k)()

T_PTR, T_VOID, T_DBL, T_FLT, T_X86 = Ty("ptr"), Ty("void"), Ty("double"), Ty("float"), Ty("x86_fp80")
_INTS = {}
def T_INT(n):
    if n not in _INTS: _INTS[n] = Ty("int", n)
    return _INTS[n]

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")|
   (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
   (?P<glb>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
   (?P<meta>![-a-zA-Z$._0-9]*)|
   (?P<attr>\#[0-9]+)|
   (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)|
   (?P<dots>\.\.\.)|
   (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)|
   (?P<p>[\[\]{}()<>,=*:|])
 )''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise ParseError("token at %r" % s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def unq(name):   # strip sigil and quotes
    name = name[1:]
    if name.startswith('"'): name = name[1:-1]
    return name

PARAM_ATTRS = {"noundef","nonnull","noalias","nocapture","readonly","readnone","writeonly","returned","signext","zeroext","inreg",
  "immarg","nest","swiftself","swifterror","noreturn","nounwind","mustprogress","writable","dead_on_unwind","allocptr","nofree"}
PAREN_ATTRS = {"align","dereferenceable","dereferenceable_or_null","sret","byval","elementtype","captures","inalloca","preallocated","memory","allocsize","nofpclass","byref","initializes","range"}

class P:
    """token stream"""
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def expect(self, v):
        if not self.eat(v): raise ParseError("expected %r got %r in %r" % (v, self.peek(), self.t[max(0,self.i-5):self.i+8]))
    def done(self): return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == "id":
            if v == "ptr":
                if self.peek()[1] == "addrspace":
                    self.next(); self.expect("("); self.next(); self.expect(")")
                t = T_PTR
            elif v == "void": t = T_VOID
            elif v == "double": t = T_DBL
            elif v == "float": t = T_FLT
            elif v == "x86_fp80": t = T_X86
            elif v in ("label", "metadata", "token", "opaque", "half"): t = Ty(v)
            elif re.fullmatch(r"i[0-9]+", v): t = T_INT(int(v[1:]))
            else: raise ParseError("type %r" % v)
        elif k == "loc": t = Ty("named", unq(v))
        elif v == "[":
            n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect("]"); t = Ty("arr", (n, e))
        elif v == "{": t = Ty("struct", self._tlist("}"))
        elif v == "<":
            if self.peek()[1] == "{":
                self.next(); t = Ty("pstruct", self._tlist("}")); self.expect(">")
            else:
                n = int(self.next()[1]); self.expect("x"); e = self.type(); self.expect(">"); t = Ty("vec", (n, e))
        else: raise ParseError("type tok %r" % (v,))
        # function types: T (args)
        return t
    def _tlist(self, end):
        l = []
        if self.eat(end): return tuple(l)
        while True:
            l.append(self.type())
            if self.eat(end): return tuple(l)
            self.expect(",")
    def skip_paren(self):
        self.expect("("); d = 1
        while d:
            v = self.next()[1]
            if v == "(": d += 1
            elif v == ")": d -= 1
    def attrs(self):
        """skip parameter/return attributes; return dict of interesting ones"""
        r = {}
        while True:
            k, v = self.peek()
            if k == "id" and v in PAREN_ATTRS:
                self.next()
                if self.peek()[1] == "(":
                    j = self.i; self.skip_paren()
                    if v in ("sret", "byval"):
                        q = P(self.t[j+1:self.i-1]); r[v] = q.type()
                elif v == "align": self.next()
                else: r[v] = True
            elif k == "id" and v in PARAM_ATTRS:
                self.next(); r[v] = True
            elif k == "str": # "attr"="val"
                self.next()
                if self.eat("="): self.next()
            else: return r
    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k == "loc": return ("loc", unq(v))
        if k == "glb": return ("glb", unq(v))
        if k == "num":
            if ty.k == "int": return ("int", int(v, 0))
            return ("fp", parse_fp(v, ty))
        if k == "id":
            if v == "null": return ("null",)
            if v in ("undef", "poison"): return ("undef",)
            if v == "true": return ("int", 1)
            if v == "false": return ("int", 0)
            if v == "zeroinitializer": return ("zero",)
            if v == "none": return ("undef",)
            if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "add", "sub", "trunc", "zext", "sext", "mul"):
                return self.constexpr(v)
            if v == "blockaddress" : self.skip_paren(); return ("undef",)
            if v == "dso_local_equivalent": return self.value(ty)
            raise ParseError("value id %r" % v)
        if k == "str":
            if v.startswith("c"): return ("cstr", decode_cstr(v[2:-1]))
            raise ParseError("str value")
        if v in ("{", "["):
            return ("agg", self._agg("}" if v == "{" else "]"))
        if v == "<":
            if self.peek()[1] == "{":
                self.next(); a = self._agg("}"); self.expect(">"); return ("agg", a)
            return ("agg", self._agg(">"))
        raise ParseError("value %r" % ((k, v),))
    def _agg(self, end):
        l = []
        if self.eat(end): return l
        while True:
            t = self.type(); self.attrs(); l.append((t, self.value(t)))
            if self.eat(end): return l
            self.expect(",")
    def constexpr(self, op):
        flags = []
        while self.peek()[0] == "id" and self.peek()[1] in ("inbounds","nuw","nsw","inrange","exact"):
            flags.append(self.next()[1])
            if self.peek()[1] == "(" and flags[-1]=="inrange": self.skip_paren()
        self.expect("(")
        if op == "getelementptr":
            sty = self.type(); self.expect(",")
            ops = []
            while True:
                self.eat("inrange")
                t = self.type(); ops.append((t, self.value(t)))
                if self.eat(")"): break
                self.expect(",")
            return ("cgep", sty, ops[0][1], [o[1] for o in ops[1:]], [o[0] for o in ops[1:]])
        if op in ("bitcast","inttoptr","ptrtoint","trunc","zext","sext"):
            t = self.type(); v = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
            return ("ccast", op, t, v, t2)
        t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2); self.expect(")")
        return ("cbin", op, t, a, b)
    def tvalue(self):
        t = self.type(); self.attrs(); return (t, self.value(t))

def decode_cstr(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": b.append(92); i += 2
            else: b.append(int(s[i+1:i+3], 16)); i += 3
        else: b.extend(s[i].encode()); i += 1
    return bytes(b)

def parse_fp(v, ty):
    if v.startswith("0xK"):
        h = int(v[3:], 16); se = h >> 64; m = h & ((1<<64)-1); s = -1 if se >> 15 else 1; e = se & 0x7fff
        if e == 0 and m == 0: return 0.0
        try: return s * (m / 2**63) * 2.0**(e-16383)
        except OverflowError: return s*float("inf")
    if v.startswith("0x"):
        return struct.unpack(">d", struct.pack(">Q", int(v, 16)))[0]
    return float(v)

# ---------------------------------------------------------------- module
class Fn:
    def __init__(self, name, ret, params, body, line, declared):
        self.name, self.ret, self.params, self.body, self.line, self.decl = name, ret, params, body, line, declared
        self.blocks = None   # name -> list of instr
        self.loops = None
        self.dem = None
    def __repr__(self): return "<fn %s>" % self.name

class Instr:
    __slots__ = ("op", "res", "ty", "a", "text")
    def __init__(self, op, res, ty, a, text): self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.aliases = {}, {}, {}, {}
        self._layout = {}
        self._scan(text)
        self._demangle()

    def _scan(self, text):
        lines = text.split("\n"); i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%") :
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m: self.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                if m:
                    if re.search(r'\balias\b', m.group(2).split("(")[0]): self.aliases[unq(m.group(1))] = m.group(2)
                    else: self.globals[unq(m.group(1))] = m.group(2)
            elif ln.startswith("define") or ln.startswith("declare"):
                decl = ln.startswith("declare")
                head = ln; body = []
                start = i
                if not decl:
                    i += 1
                    while lines[i] != "}":
                        body.append(lines[i]); i += 1
                m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', head)
                nm = m.group(1).strip('"')
                f = Fn(nm, None, None, body, start + 1, decl); f.head = head
                self.fns[nm] = f
            i += 1

    def _demangle(self):
        names = list(self.fns)
        r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for nme, d in zip(names, r): self.fns[nme].dem = d

    # ---- types
    def resolve(self, t):
        while t.k == "named":
            d = self.types.get(t.a)
            if d is None: raise ParseError("unknown type " + t.a)
            if isinstance(d, str):
                if d == "opaque": d = Ty("struct", ())
                else: d = P(tokenize(d)).type()
                self.types[t.a] = d
            t = d
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == "int": return min(8, max(1, (t.a + 7) // 8)) if t.a <= 64 else 16
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "arr": return self.align(t.a[1])
        if t.k == "struct": return max([self.align(x) for x in t.a] or [1])
        if t.k == "pstruct": return 1
        if t.k == "vec": return self.size(t)
        raise ParseError("align %r" % t)
    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            s = max(1, (t.a + 7) // 8); p = 1
            while p < s: p *= 2
            return p
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "arr": return t.a[0] * self.size(t.a[1])
        if t.k == "vec": return t.a[0] * self.size(t.a[1])
        if t.k in ("struct", "pstruct"): return self.layout(t)[1]
        raise ParseError("size %r" % t)
    def layout(self, t):
        t = self.resolve(t); key = id(t)
        if key in self._layout: return self._layout[key][0]
        offs, o, al = [], 0, 1
        for x in t.a:
            a = 1 if t.k == "pstruct" else self.align(x)
            al = max(al, a); o = (o + a - 1) // a * a; offs.append(o); o += self.size(x)
        o = (o + al - 1) // al * al
        self._layout[key] = ((offs, o), t)
        return offs, o

    # ---- functions
    def head(self, f):
        if f.params is not None: return
        s = f.head[len("declare" if f.decl else "define"):]
        p = P(tokenize(s.split(" personality ")[0].rstrip("{ ").split(" comdat")[0] if not f.decl else s))
        # skip linkage words until a type parses
        LINK = {"dso_local","linkonce_odr","internal","private","weak_odr","weak","hidden","protected","external","available_externally",
                "unnamed_addr","local_unnamed_addr","fastcc","ccc","extern_weak","linkonce","noundef","zeroext","signext","nonnull","noalias"}
        while True:
            k, v = p.peek()
            if k == "id" and (v in LINK or v in PARAM_ATTRS): p.next()
            elif k == "id" and v in PAREN_ATTRS: p.attrs()
            else: break
        f.ret = p.type(); p.attrs()
        p.next()  # name
        p.expect("(")
        ps = []; idx = 0; f.vararg = False
        if not p.eat(")"):
            while True:
                if p.eat("..."): f.vararg = True
                else:
                    t = p.type(); at = p.attrs()
                    nm = None
                    if p.peek()[0] == "loc": nm = unq(p.next()[1])
                    else: nm = str(idx)
                    ps.append((t, nm, at)); idx += 1
                if p.eat(")"): break
                p.expect(",")
        f.params = ps

    def parse_body(self, f):
        if f.blocks is not None: return f
        self.head(f)
        blocks = {}; cur = None; first = None
        lines = f.body; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            if not ln.strip() or ln.lstrip().startswith(";"): continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(" "):
                cur = m.group(1).strip('"'); blocks[cur] = []
                first = first or cur
                continue
            if cur is None:
                # implicit entry label
                np_ = sum(1 for p in f.params if p[1].isdigit())
                cur = str(np_); blocks[cur] = []; first = cur
            st = ln.strip()
            if " switch " in " " + st and "[" in st and "]" not in st:
                while not lines[i].strip().startswith("]"): st += " " + lines[i].strip(); i += 1
                st += " ]"; i += 1
            while i < len(lines) and (lines[i].startswith("          ") ) and lines[i].strip():
                st += " " + lines[i].strip(); i += 1
            blocks[cur].append(st)
        f.blocks = {b: [self.instr(s) for s in l] for b, l in blocks.items()}
        f.entry = first
        return f

    def instr(self, s):
        text = s
        # strip metadata / comments
        s = re.sub(r',\s*!(?:dbg|srcloc|tbaa|prof|noundef|nonnull|range|llvm\.[a-z.]+|heapallocsite|align|invariant\.[a-z]+|nontemporal|alias\.scope|noalias)\s+![0-9]+', '', s)
        s = re.sub(r',\s*!llvm\.loop\s+![0-9]+', '', s)
        p = P(tokenize(s)); res = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            res = unq(p.next()[1]); p.next()
        k, op = p.next()
        if op in ("tail", "musttail", "notail"): k, op = p.next()
        I = lambda ty, a: Instr(op, res, ty, a, text)
        if op == "alloca":
            t = p.type(); n = None
            if p.eat(","):
                if p.peek()[1] != "align":
                    n = p.tvalue()
            return I(T_PTR, (t, n))
        if op == "load":
            p.eat("atomic"); p.eat("volatile"); t = p.type(); p.expect(","); q = p.tvalue(); return I(t, (q,))
        if op == "store":
            p.eat("atomic"); p.eat("volatile"); v = p.tvalue(); p.expect(","); q = p.tvalue(); return I(None, (v, q))
        if op == "getelementptr":
            while p.peek()[1] in ("inbounds", "nuw", "nusw"): p.next()
            t = p.type(); p.expect(","); base = p.tvalue(); idx = []
            while p.eat(","): idx.append(p.tvalue())
            return I(T_PTR, (t, base, idx))
        if op in ("add","sub","mul","sdiv","udiv","srem","urem","and","or","xor","shl","lshr","ashr","fadd","fsub","fmul","fdiv","frem"):
            flags = set()
            while p.peek()[1] in ("nsw","nuw","exact","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","disjoint"): flags.add(p.next()[1])
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t); return I(t, (a, b, flags))
        if op == "fneg":
            while p.peek()[1] in ("fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"): p.next()
            t = p.type(); return I(t, (p.value(t),))
        if op in ("icmp", "fcmp"):
            while p.peek()[1] in ("fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"): p.next()
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(","); b = p.value(t); return I(T_INT(1), (pred, t, a, b))
        if op in ("zext","sext","trunc","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","bitcast","ptrtoint","inttoptr","addrspacecast"):
            p.eat("nneg"); p.eat("nuw"); p.eat("nsw")
            t = p.type(); v = p.value(t); p.expect("to"); t2 = p.type(); return I(t2, (t, v))
        if op == "phi":
            while p.peek()[1] in ("fast","nnan","ninf","nsz"): p.next()
            t = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(t); p.expect(","); b = unq(p.next()[1]); p.expect("]"); inc.append((v, b))
                if not p.eat(","): break
            return I(t, (inc,))
        if op == "select":
            c = p.tvalue(); p.expect(","); a = p.tvalue(); p.expect(","); b = p.tvalue(); return I(a[0], (c, a, b))
        if op == "br":
            if p.eat("label"): return I(None, (None, unq(p.next()[1])))
            c = p.tvalue(); p.expect(","); p.expect("label"); a = unq(p.next()[1]); p.expect(","); p.expect("label"); b = unq(p.next()[1])
            return I(None, (c, a, b))
        if op == "switch":
            v = p.tvalue(); p.expect(","); p.expect("label"); d = unq(p.next()[1]); p.expect("["); cs = []
            while not p.eat("]"):
                c = p.tvalue(); p.expect(","); p.expect("label"); cs.append((c[1][1], unq(p.next()[1])))
            return I(None, (v, d, cs))
        if op == "ret":
            if p.eat("void"): return I(None, (None,))
            return I(None, (p.tvalue(),))
        if op in ("call", "invoke"):
            while p.peek()[0] == "id" and p.peek()[1] in ("fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","fastcc","ccc"): p.next()
            p.attrs(); t = p.type(); p.attrs()
            if p.peek()[1] == "(":  # function type
                p.skip_paren()
            if p.peek()[1] == "asm": return I(t, ("asm", [], None, None))
            k2, v2 = p.next()
            callee = (("glb", unq(v2)) if k2 == "glb" else ("loc", unq(v2)))
            p.expect("("); args = []
            if not p.eat(")"):
                while True:
                    t1 = p.type()
                    if t1.k == "metadata":
                        # skip
                        d = 0
                        while not (d == 0 and p.peek()[1] in (",", ")")):
                            x = p.next()[1]
                            if x == "(": d += 1
                            if x == ")": d -= 1
                        args.append((t1, ("undef",), {}))
                    else:
                        at = p.attrs(); args.append((t1, p.value(t1), at))
                    if p.eat(")"): break
                    p.expect(",")
            nd = ud = None
            if op == "invoke":
                while p.peek()[1] != "to": p.next()
                p.expect("to"); p.expect("label"); nd = unq(p.next()[1]); p.expect("unwind"); p.expect("label"); ud = unq(p.next()[1])
            return I(t, (callee, args, nd, ud))
        if op == "extractvalue":
            v = p.tvalue(); ix = []
            while p.eat(","): ix.append(int(p.next()[1]))
            return I(None, (v, ix))
        if op == "insertvalue":
            v = p.tvalue(); p.expect(","); e = p.tvalue(); ix = []
            while p.eat(","): ix.append(int(p.next()[1]))
            return I(v[0], (v, e, ix))
        if op == "extractelement":
            v = p.tvalue(); p.expect(","); ix = p.tvalue(); return I(None, (v, ix))
        if op == "insertelement":
            v = p.tvalue(); p.expect(","); e = p.tvalue(); p.expect(","); ix = p.tvalue(); return I(v[0], (v, e, ix))
        if op in ("landingpad",): return I(None, ())
        if op in ("resume", "unreachable", "fence"): return I(None, ())
        if op == "freeze":
            v = p.tvalue(); return I(v[0], (v,))
        return Instr("unsupported:" + str(op), res, None, (), text)

def strip_templates(d):
    """'double mathutils::Horner<double>(std::vector<..> const&)' -> 'mathutils::Horner'"""
    # protect operators
    d = d.replace("operator<<", "operator\x01").replace("operator<=>", "operator\x07").replace("operator<=", "operator\x02").replace("operator<", "operator\x03")
    d = d.replace("operator->*", "operator\x08").replace("operator->", "operator\x04").replace("operator>>", "operator\x05").replace("operator>=", "operator\x06").replace("operator>", "operator\x0e")
    d = d.replace("operator()", "operator\x0f").replace("(anonymous namespace)", "\x10")
    d = re.sub(r"\{lambda\(.*?\)#(\d+)\}", r"$lambda\1", d) if "{lambda(" in d and d.count("{lambda(") == 1 else d
    out = []; depth = 0; i = 0
    while i < len(d):
        c = d[i]
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0:
            if c == "(": break
            out.append(c)
        i += 1
    s = "".join(out).strip()
    # drop return type: last space not preceded by 'operator'
    parts = s.split(" ")
    if len(parts) > 1:
        # conversion operators: keep 'operator double'
        for j, pt in enumerate(parts):
            if pt.endswith("operator") and j < len(parts) - 1:
                s = " ".join(parts[j:]); break
        else:
            s = parts[-1]
    for a, b in (("\x01","<<"),("\x02","<="),("\x03","<"),("\x04","->"),("\x05",">>"),("\x06",">="),("\x07","<=>"),("\x08","->*"),("\x0e",">"),("\x0f","()"),("\x10","(anon)")):
        s = s.replace(a, b)
    return s
