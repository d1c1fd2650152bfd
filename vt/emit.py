"""Mechanical translation of the C++ function bodies (clang AST) into WhyML.
Nothing about the code under test is written by hand here: only the meaning of the
C++ constructs and of the standard-library members that the code uses."""
import re, struct, cxx
from cxx import XErr, RANGE, strip_ref, is_int, is_real

HANDLE = {"Quality", "Tradeoff"}          # classes kept in a heap and named by handle (exact aliasing)
SHORT = {"UpperTriangularMatrix": "UTM"}

PASS = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr",
        "CXXStaticCastExpr_", "SubstNonTypeTemplateParmExpr"}

def cname(n): return SHORT.get(n, n)
FP = {"HValuesMetaData": "meta", "UpperTriangularMatrix": "utm"}
def fpre(n): return FP.get(n, n[0].lower() + n[1:])

def tag(t):
    k = t[0]
    if k == "int": return "int"
    if k == "real": return "real"
    if k == "bool": return "bool"
    if k == "ptr": return "p" + tag(t[1])
    if k == "vec": return "vec_" + tag(t[1])
    if k == "map": return "map_%s_%s" % (tag(t[1]), tag(t[2]))
    if k == "tup": return "tup_" + "_".join(tag(x) for x in t[1])
    if k == "cls": return cname(t[1]) + "".join("_" + tag(a) for a in t[2])
    raise XErr("tag of %r" % (t,))

def is_handle(t): return t[0] == "cls" and t[1] in HANDLE

def same_ty(a, b):
    if a[0] == "real" and b[0] == "real": return True
    return a == b

class Eff:
    __slots__ = ("hw", "thismut", "refmut", "pthis", "rec")
    def __init__(s): s.hw = set(); s.thismut = False; s.refmut = set(); s.pthis = False; s.rec = False
    def key(s): return (frozenset(s.hw), s.thismut, frozenset(s.refmut), s.pthis)

class Env:
    """program-wide emitter state"""
    def __init__(self, prog, contracts, roles=None):
        self.P, self.C = prog, contracts
        self.eff = {}           # key -> Eff
        self.eff_done = set(); self.eff_stack = []
        self.heaps = {}         # tag -> pointee type
        self.roles = roles or {}
        self.fieldname = {}     # (cls, actual) -> role name
        self.overrides = {}
        self.fn_names = {}
        self.alias = {}         # actual key -> contract key (renamed private functions)
        self.callees = {}       # key -> set of contract callees used
        self.inlined = {}
        self.opmode = {}
        self._classes()

    # ------------------------------------------------ classes and types
    def _classes(self):
        for n, c in self.P.classes.items():
            want = self.roles.get("fields", {}).get(n)
            have = [(f, repr(t)) for f, t in c.fields]
            m = {}
            if want:
                want = [tuple(x) for x in want]
                left = [w for w in want if w not in have]
                for f, t in have:
                    if (f, t) in want: m[f] = f
                for f, t in have:
                    if f in m: continue
                    for w in left:
                        if w[1] == t: m[f] = w[0]; left.remove(w); break
                taken = set(m.values())
                for f, t in have:
                    if f not in m: m[f] = f if f not in taken else f + "_new"
            else:
                for f, t in have: m[f] = f
            for f, r in m.items(): self.fieldname[(n, f)] = r
        self.derived = {}
        for n, c in self.P.classes.items():
            for b in c.bases: self.derived.setdefault(b[1], []).append(n)
    def abstract(self, n):
        return any(f.cls and f.cls[1] == n and f.pure for f in self.P.bykey.values())
    def dyn(self, n):
        """pointee classes stored as a sum over the concrete subclasses"""
        return n in self.derived and self.abstract(n)
    def concrete(self, n):
        out = []
        for d in sorted(self.derived.get(n, [])):
            if d in self.derived: out += self.concrete(d)
            else: out.append(d)
        return out
    def wty(self, t):
        k = t[0]
        if k == "int": return "int"
        if k == "real": return "real"
        if k == "bool": return "bool"
        if k in ("ptr",): return "int"
        if k == "nullptr": return "int"
        if k == "var": return "'" + t[1].lower()
        if k == "vec": return "(vec %s)" % self.wty(t[1])
        if k == "map": return "(cmap %s %s)" % (self.wty(t[1]), self.wty(t[2]))
        if k == "tup": return "(tup%d %s)" % (len(t[1]), " ".join(self.wty(x) for x in t[1]))
        if k == "ref": return self.wty(t[1])
        if k == "void": return "unit"
        if k == "cls":
            if t[1] in HANDLE: return "int"
            if t[1] not in self.P.classes: raise XErr("class " + t[1])
            return "(c_%s%s)" % (cname(t[1]), "".join(" " + self.wty(a) for a in t[2]))
        raise XErr("WhyML type of %r" % (t,))
    def hty(self, t):
        """type of a heap cell"""
        if t[0] == "cls" and self.dyn(t[1]): return "dyn_" + t[1]
        if is_handle(t): return "c_" + t[1]
        return self.wty(t)
    def heap(self, t):
        if t[0] == "cls" and not is_handle(t) and t[1] not in self.P.classes: raise XErr("heap of " + t[1])
        h = tag(t); self.heaps[h] = t; self.wty(t) if not is_handle(t) else None
        return h
    def types_module(self):
        out = ["module Types", "  use int.Int", "  use real.RealInfix", "  use map.Map", "  use cpp.Prelude"]
        done, order = set(), []
        def deps(t, acc):
            if t[0] == "vec": deps(t[1], acc)
            elif t[0] == "map": deps(t[1], acc); deps(t[2], acc)
            elif t[0] == "tup": [deps(x, acc) for x in t[1]]
            elif t[0] == "cls":
                for a in t[2]: deps(a, acc)
                if t[1] not in HANDLE: acc.append(t[1])
        def visit(n, st=()):
            if n in done: return
            if n in st: raise XErr("class cycle " + n)
            c = self.P.classes[n]; acc = []
            for b in c.bases: deps(b, acc)
            for f, t in c.fields: deps(t, acc)
            for a in acc:
                if a not in self.P.classes: raise XErr("field class " + a)
                visit(a, st + (n,))
            done.add(n); order.append(n)
        bad = {}
        for n in sorted(self.P.classes):
            try: visit(n)
            except XErr as ex: bad[n] = str(ex)
        self.badcls = bad
        for n in order:
            c = self.P.classes[n]; fs = []
            for b in c.bases: fs.append("%s_base: %s" % (fpre(n), self.wty(b)))
            for f, t in c.fields:
                if is_handle(t) : raise XErr("handle class held by value: %s::%s" % (n, f))
                fs.append("%s_%s: %s" % (fpre(n), self.fieldname[(n, f)], self.wty(t)))
            tv = "".join(" '" + p.lower() for p in c.tparams)
            if not fs: fs = ["%s_unit: unit" % fpre(n)]
            out.append("  type c_%s%s = { %s }" % (cname(n), tv, "; ".join(fs)))
        for n in sorted(self.derived):
            if not self.dyn(n): continue
            cs = self.concrete(n)
            out.append("  type dyn_%s = %s" % (n, " | ".join("Dyn_%s c_%s" % (c, c) for c in cs)))
            def proj(c):
                e = "o"; cur = c
                while cur != n:
                    b = self.P.classes[cur].bases[0][1]; e = "%s.%s_base" % (e, fpre(cur)); cur = b
                return e
            out.append("  let function dynbase_%s (d: dyn_%s) : c_%s = match d with %s end" % (n, n, n,
                       " | ".join("Dyn_%s o -> %s" % (c, proj(c)) for c in cs)))
        out.append("end")
        return "\n".join(out)
    def heaps_module(self, hs):
        out = ["module Heaps", "  use int.Int", "  use map.Map", "  use cpp.Prelude", "  use types.Types"]
        for h in sorted(hs):
            t = self.hty(self.heaps[h])
            out.append("  val ref h_%s : map int %s" % (h, t))
            out.append("  val ref n_%s : int" % h)
            out.append("  val alloc_%s (v: %s) : int writes { h_%s, n_%s } ensures { result = old n_%s /\\ result >= 1 /\\ n_%s = result + 1 /\\ h_%s = (old h_%s)[result <- v] }" % (h, t, h, h, h, h, h, h))
        out.append("end")
        return "\n".join(out)

    # ------------------------------------------------ functions
    def contract(self, f):
        return self.C.get(self.alias.get(f.key, f.key))
    def why_name(self, key):
        if key not in self.fn_names:
            s = key.replace("UpperTriangularMatrix", "UTM").replace("shared_ptr", "p").replace("operator", "op")
            for a, b in (("()", "_call"), ("[]", "_idx"), ("+=", "_addeq"), ("-=", "_subeq"), ("*=", "_muleq"), ("/=", "_diveq"),
                         ("==", "_eq"), ("!=", "_ne"), ("<=", "_le"), (">=", "_ge")):
                s = s.replace("op" + a, "op" + b)
            s = re.sub(r"op([-+*/<>])\(", lambda m: "op_" + {"+": "add", "-": "sub", "*": "mul", "/": "div", "<": "lt", ">": "gt"}[m.group(1)] + "(", s)
            s = re.sub(r"[^A-Za-z0-9]+", "_", s).strip("_")
            s = "f_" + s
            if len(s) > 90: 
                import hashlib
                s = s[:80] + "_" + hashlib.md5(key.encode()).hexdigest()[:6]
            while s in self.fn_names.values(): s += "x"
            self.fn_names[key] = s
        return self.fn_names[key]
    def effects(self, f):
        k = f.key
        if k in self.eff_done: return self.eff[k]
        if k in self.eff_stack:
            for s in self.eff_stack[self.eff_stack.index(k):]: self.eff[s].rec = True
            return self.eff[k]
        self.eff.setdefault(k, Eff())
        if f.pure or f.body is None:
            c = self.contract(f)
            e = self.eff[k]
            if c and c.get("writes"): e.hw |= set(c["writes"])
            self.eff_done.add(k)
            return e
        self.eff_stack.append(k)
        try:
            while True:
                old = self.eff[k].key()
                ft = FT(self, f, dry=True); ft.run()
                e = self.eff[k]
                e.hw |= ft.hw; e.thismut |= ft.thismut; e.refmut |= ft.refmut; e.pthis |= ft.pthis
                if e.key() == old: break
        finally:
            self.eff_stack.pop()
        if not any(self.eff[s].rec for s in self.eff_stack): self.eff_done.add(k)
        return self.eff[k]
    def implicit_copy(self, f): return f.implicit

    def find_ctor(self, ct, qt):
        n = ct[1]
        def norm(s):
            s = re.sub(r"\b(lpaggreg|std|__cxx11)::", "", s)
            s = s.replace(" ", "")
            return s
        c = [f for f in self.P.fns.values() if f.kind == "CXXConstructorDecl" and f.cls and f.cls[1] == n and (f.cls[2] == ct[2] or same_args(f.cls[2], ct[2]))]
        if c and c[0].cls[2]:
            # template: compare desugared by textual with argument names replaced
            def key(f): return norm(f.qt)
        qt = re.sub(r"\s*noexcept(\(\w+\))?$", "", qt)
        m = [f for f in c if norm(re.sub(r"\s*noexcept(\(\w+\))?$", "", f.qt)) == norm(qt)]
        if not m:
            def pt(s):
                s = s[s.index("(") + 1:s.rindex(")")]
                return split_args(s)
            want = [self.P.ty(x) for x in pt(qt)] if pt(qt) != [""] else []
            for f in c:
                try: have = [self.P.ty(x) for x in pt(f.qt)] if pt(f.qt) != [""] else []
                except XErr: continue
                if len(have) == len(want) and all(a == b for a, b in zip(have, want)): m.append(f)
        b = [f for f in m if f.body is not None]
        if not m: raise XErr("constructor %s %s" % (n, qt))
        return (b or m)[0]

def same_args(a, b): return len(a) == len(b) and all(x == y for x, y in zip(a, b))
def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip())
    return out

class Path:
    __slots__ = ("root", "steps", "t")
    def __init__(s, root, steps, t): s.root, s.steps, s.t = root, tuple(steps), t
    def plus(s, step, t): return Path(s.root, s.steps + (step,), t)

def refs(n):
    """ids of the variables an expression mentions, in order"""
    out = []
    def w(x):
        if isinstance(x, dict):
            if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") in ("VarDecl", "ParmVarDecl"): out.append(x["referencedDecl"]["id"])
            for c in x.get("inner", []): w(c)
    w(n)
    return out
def stepped(n):
    """ids of the variables an expression or statement steps or assigns: increments first"""
    inc, asg = [], []
    def w(x):
        if isinstance(x, dict):
            k = x.get("kind"); ch = x.get("inner", [])
            if k == "UnaryOperator" and x.get("opcode") in ("++", "--"): inc.extend(refs(ch[0])[:1])
            elif k == "CXXOperatorCallExpr" and ch and refs_op(ch[0]) in ("operator++", "operator--"): inc.extend(refs(ch[1])[:1])
            elif k == "CompoundAssignOperator": asg.extend(refs(ch[0])[:1])
            elif k == "BinaryOperator" and x.get("opcode") == "=": asg.extend(refs(ch[0])[:1])
            for c in ch: w(c)
    w(n)
    return inc + asg
WIDTH = {"float": 0, "double": 1, "long double": 2}
def refs_op(n):
    while isinstance(n, dict) and n.get("kind") != "DeclRefExpr": n = (n.get("inner") or [None])[0]
    return n["referencedDecl"]["name"] if n else None

class FT:
    """translator of one function"""
    def __init__(self, env, fn, dry=False):
        self.E, self.P, self.f, self.dry = env, env.P, fn, dry
        self.hw = set(); self.thismut = False; self.refmut = set(); self.pthis = False; self.passed = set()
        self.out = []; self.ind = 2
        self.tmp = 0; self.names = {}; self.env = {}
        self.flt = bool(env.contract(fn).get('flt')) if env.contract(fn) else False
        self.exact = bool(env.contract(fn).get('exact')) if env.contract(fn) else False
        self.loopno = 0; self.rangeno = 0
        self.vars = []          # (rolekey, type, whyname)
        self.calls = set(); self.inl = []
        self.inline_stack = []; self.usedheaps = set()
        self.loops = []; self.inloop = 0
        self.tu = fn.tu
        self.rettype = None
        self.retmode = None
        self.aborted = False

    # ---------------------------------------------------------- helpers
    def emit(self, s): self.out.append("  " * self.ind + s)
    def fresh(self, p="t"): self.tmp += 1; return "%s'%d" % (p, self.tmp) if False else "%s__%d" % (p, self.tmp)
    def atom(self, s, p="t"):
        if re.match(r"^[a-z_][A-Za-z_0-9]*__\d+$", s) or re.match(r"^-?\d+$", s): return s
        n = self.fresh(p); self.emit("let %s = %s in" % (n, s)); return n
    def local(self, name, t):
        k = self.names.get(name, 0) + 1; self.names[name] = k
        w = "v_%s_%d" % (name, k)
        self.vars.append(("%s#%d" % (name, k), repr(t), w))
        return w
    def useheap(self, h): self.usedheaps.add(h); return h
    def heapof(self, t): return self.useheap(self.E.heap(t))
    def captured(self, fn):
        """run fn with a separate output buffer; return (lines, value)"""
        sv, si = self.out, self.ind
        self.out = []; self.ind += 1
        try: v = fn(); lines = self.out
        finally: self.out = sv; self.ind = si
        return lines, v
    def block(self, fn):
        lines, v = self.captured(fn)
        if not lines: return v
        return "(\n" + "\n".join(lines) + "\n" + "  " * (self.ind + 1) + v + ")"

    # ---------------------------------------------------------- paths
    def rd(self, p):
        r = p.root
        if r[0] in ("var",): s = r[1]
        elif r[0] == "val": s = r[1]
        elif r[0] == "heap":
            self.useheap(r[1]); s = "(hget h_%s %s)" % (r[1], r[2])
        else: raise XErr("path root %r" % (r,))
        return self.steps(s, p.steps)
    def steps(self, s, steps):
        for st in steps:
            if st[0] == "fld": s = "%s.%s" % (s if re.match(r"^[\w.']+$|^\(.*\)$", s) else "(%s)" % s, st[1])
            elif st[0] == "dynbase": s = "(dynbase_%s %s)" % (st[1], s)
            elif st[0] == "idx": s = "(vget %s %s)" % (s, st[1])
            elif st[0] == "key": s = "(mat %s %s)" % (s, st[1])
            elif st[0] == "tup": s = "(%s).%s" % (s, st[1])
            else: raise XErr("step %r" % (st,))
        return s
    def wr(self, p, v):
        if not p.steps:
            r = p.root
            if r[0] == "var":
                if r[1] == "this": self.thismut = True
                for i, q in enumerate(self.refparams):
                    if q == r[1]: self.refmut.add(i)
                self.emit("%s <- %s;" % (r[1], v))
            elif r[0] == "heap":
                self.hw.add(r[1]); self.useheap(r[1])
                self.emit("h_%s <- hset h_%s %s %s;" % (r[1], r[1], r[2], v))
            else: raise XErr("assignment to a temporary")
            return
        par = Path(p.root, p.steps[:-1], None); st = p.steps[-1]
        o = self.rd(par)
        if st[0] == "fld":
            if re.match(r"^[\w']+$", o): nv = "{ %s with %s = %s }" % (o, st[1], v)
            else: nv = "(let o__ = %s in { o__ with %s = %s })" % (o, st[1], v)
        elif st[0] == "idx": nv = "(vset %s %s %s)" % (o, st[1], v)
        elif st[0] == "key": nv = "(mput %s %s %s)" % (o, st[1], v)
        else: raise XErr("write through %s" % st[0])
        if self.needs_atom(v): pass
        self.wr(par, nv)
    def needs_atom(self, v): return False

    # ---------------------------------------------------------- effects scan
    def effectful(self, n):
        """may evaluating n write program state?"""
        k = n.get("kind")
        if k in ("CompoundAssignOperator", "CXXNewExpr"): return True
        if k == "BinaryOperator" and n.get("opcode") == "=": return True
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"): return True
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            try:
                if self.called_lambda(n): return True
                tgt = self.callee(n)
            except XErr:
                return True
            if tgt is None:
                nm = self.stl_name(n)
                if nm in ("=", "+=", "-=", "*=", "/=", "++", "--", "push_back", "emplace_back", "erase", "clear", "insert", "pop_back", "resize", "reserve", "assign", "swap", "fill", "make_shared"): return True
                if nm == "[]":
                    return any(self.effectful(c) for c in n.get("inner", []) if isinstance(c, dict)) or self.is_mapidx(n)
            elif tgt is not True:
                if is_handle(("cls", tgt.cls[1] if tgt.cls else "", ())) and tgt.kind == "CXXConstructorDecl": return True
                try: e = self.E.effects(tgt)
                except XErr: return True
                if e.hw or e.thismut or e.refmut: return True
        return any(self.effectful(c) for c in n.get("inner", []) if isinstance(c, dict) and c)
    def is_mapidx(self, n):
        try: return strip_ref(self.P.tyof(n["inner"][1]))[0] == "map"
        except (XErr, KeyError, IndexError): return True

    # ---------------------------------------------------------- callee resolution
    def stl_name(self, n):
        k = n["kind"]
        if k == "CXXOperatorCallExpr" or k == "CallExpr":
            r = self.strip(n["inner"][0])
            nm = r.get("referencedDecl", {}).get("name", "")
            return nm[8:] if nm.startswith("operator") and not nm[8:9].isalnum() else nm
        if k == "CXXMemberCallExpr":
            m = self.strip(n["inner"][0])
            nm = m.get("name", "")
            return nm[8:] if nm.startswith("operator") and not nm[8:9].isalnum() else nm
        return ""
    def strip(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            n = n["inner"][0]
        return n
    def fn_of(self, id_):
        e = self.tu.ids.get(id_)
        if e is None: return None
        n = e[0]
        m = n.get("mangledName")
        if not m: return None
        for kk in (m, m + "@" + self.tu.path):
            if kk in self.P.fns: return self.P.fns[kk]
        return None
    def base_type(self, m):
        x = m["inner"][0]
        if m.get("isArrow") and x["kind"] == "CXXOperatorCallExpr" and self.stl_name(x) == "->":
            t = strip_ref(self.P.tyof(x["inner"][1]))
            if t[0] == "ptr": return t[1]
        t = strip_ref(self.P.tyof(x))
        return t[1] if m.get("isArrow") and t[0] == "ptr" else t
    def by_name(self, name, cls, args, qt):
        """a function of the library called from a body that was dumped separately (its declarations have other ids)"""
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        names = set()
        if cls is not None:
            if cls[0] != "cls" or cls[1] not in self.P.classes: return None
            todo = [cls[1]]
            while todo:
                x = todo.pop(); names.add(x); todo += [b[1] for b in self.P.classes[x].bases if b[0] == "cls" and b[1] in self.P.classes]
        def fits(f):
            if f.name != name or f.implicit: return False
            if cls is None: 
                if f.cls is not None: return False
            elif f.cls is None or f.cls[1] not in names or (f.cls[2] and f.cls[1] == cls[1] and f.cls != cls): return False
            if qt is not None and re.sub(r"\b(lpaggreg|std)::|\s", "", f.qt) != re.sub(r"\b(lpaggreg|std)::|\s", "", qt): return False
            if qt is None:
                if len(f.params) < len(args) or len(f.params) > len(args) and not all(f.defaults[len(args):]): return False
                for a, p in zip(args, f.params):
                    if strip_ref(self.P.tyof(p)) != strip_ref(self.P.tyof(a)): return False
            return True
        c = [f for f in self.P.fns.values() if fits(f)]
        if len(c) > 1 and cls is not None: c = [f for f in c if f.cls[1] == cls[1]] or c
        if len(c) > 1: raise XErr("ambiguous call of " + name)
        return c[0] if c else None
    def callee(self, n):
        """Fn of the repository, None for a standard-library member, True for an implicit repo member"""
        k = n["kind"]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = strip_ref(self.P.tyof(n))
            if t[0] != "cls" or t[1] not in self.P.classes: return None
            f = self.E.find_ctor(t, n["ctorType"]["qualType"]) if not self.is_copy_ctor(t, n) else True
            return f
        c0 = self.strip(n["inner"][0])
        if k == "CXXMemberCallExpr":
            rid = c0.get("referencedMemberDecl")
            f = self.fn_of(rid) if rid else None
            if f is None and rid and rid not in self.tu.ids: f = self.by_name(c0["name"], self.base_type(c0), [a for a in n["inner"][1:]], None)
            return f
        rd = c0.get("referencedDecl")
        if rd is None: raise XErr("indirect call")
        f = self.fn_of(rd["id"])
        if f is None and rd["id"] not in self.tu.ids and rd["kind"] in ("CXXMethodDecl", "FunctionDecl"):
            f = self.by_name(rd["name"], strip_ref(self.P.tyof(n["inner"][1])) if rd["kind"] == "CXXMethodDecl" and k == "CXXOperatorCallExpr" else None, n["inner"][2:] if rd["kind"] == "CXXMethodDecl" else n["inner"][1:], rd["type"]["qualType"])
        if f is not None:
            return True if f.implicit else f
        if rd["kind"] == "CXXMethodDecl":
            if rd["id"] in self.tu.ids: return True
            if rd["name"] == "operator=":
                t = strip_ref(self.P.tyof(n["inner"][1]))
                if t[0] == "cls" and t[1] in self.P.classes: return True
            return None
        if rd["kind"] == "FunctionDecl":
            nm = rd["name"]
            if nm in ("abs", "fabs", "fabsl", "max", "min", "log", "logl", "sqrt", "make_shared", "move", "forward", "pow", "swap", "fill", "get", "make_tuple", "make_pair", "distance", "next", "prev") or nm.startswith("operator"):
                if nm not in ("abs", "log") or True: return None
            f = self.P.global_fn(self.tu, nm, rd["type"]["qualType"])
            if f is None: raise XErr("no body for function " + nm)
            return f
        raise XErr("callee kind " + rd["kind"])
    def is_copy_ctor(self, t, n):
        q = n["ctorType"]["qualType"]
        m = re.match(r"^void \((.*?)\)( noexcept(\(\w+\))?)?$", q)
        if not m: return False
        a = split_args(m.group(1))
        if len(a) != 1 or not a[0]: return False
        if "&" not in a[0]: return False
        try: return strip_ref(self.P.ty(a[0])) == t
        except XErr: return False

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        """rvalue: WhyML expression; objects of handle classes give their handle"""
        k = n["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None: raise XErr("expression %s" % k)
        return m(n)
    def evs(self, ns):
        """operands, left to right, with earlier ones named when a later one has effects"""
        eff = [self.effectful(x) for x in ns]
        out = []
        for i, x in enumerate(ns):
            v = self.ev(x)
            if any(eff[i + 1:]): v = self.atom(v)
            out.append(v)
        return out
    def _pass(self, n): return self.ev(n["inner"][0])
    ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = ev_ParenExpr = ev_ConstantExpr = ev_SubstNonTypeTemplateParmExpr = _pass
    def ev_CXXStdInitializerListExpr(self, n): raise XErr("initializer list")
    def ev_IntegerLiteral(self, n): return n["value"] if not n["value"].startswith("-") else "(%s)" % n["value"]
    def ev_FloatingLiteral(self, n):
        from fractions import Fraction
        v = Fraction(n["value"])
        return self.reallit(v)
    def reallit(self, v):
        num, den = v.numerator, v.denominator
        if den == 1: return "(%d.0)" % num if num >= 0 else "(-. %d.0)" % -num
        return "(real_const_ratio %d.0 %d.0)" % (num, den) if num >= 0 else "(real_const_ratio (-. %d.0) %d.0)" % (-num, den)
    def ev_CXXBoolLiteralExpr(self, n): return "true" if n["value"] in (True, "true") else "false"
    def ev_CXXNullPtrLiteralExpr(self, n): return "0"
    def ev_GNUNullExpr(self, n): return "0"
    def ev_CXXScalarValueInitExpr(self, n): return self.default(self.P.tyof(n))
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr
    def default(self, t, uninit=False):
        k = t[0]
        if k == "int": return "(any int)" if uninit else "0"
        if k == "real": return "(any real)" if uninit else "0.0"
        if k == "bool": return "(any bool)" if uninit else "false"
        if k == "ptr": return "0"
        if k == "vec": return "(vempty ())"
        if k == "map": return "(mempty %s)" % self.default(t[2])
        raise XErr("default of %r" % (t,))
    def ev_CXXDefaultArgExpr(self, n): raise XErr("default argument out of place")
    def ev_CXXThisExpr(self, n):
        if self.thisobj is None: raise XErr("this")
        if self.thisobj.root[0] == "heap" and not self.thisobj.steps: return self.thisobj.root[2]
        if self.thisobj.root == ("var", "this") and not self.thisobj.steps:
            if not self.inline_stack:
                self.pthis = True
                return "this"
        raise XErr("this of a value object")

    def ev_ImplicitCastExpr(self, n):
        ck = n["castKind"]; x = n["inner"][0]
        if ck == "LValueToRValue":
            p = self.lv(x)
            s = self.rd(p)
            t = strip_ref(p.t) if p.t else None
            return self.as_range(s, t)
        if ck == "NoOp" or ck == "ConstructorConversion":
            return self.ev(x)
        if ck == "UncheckedDerivedToBase" or ck == "DerivedToBase":
            t = strip_ref(self.P.tyof(n))
            if t[0] == "ptr": raise XErr("pointer to base")
            return self.rd(self.lv(n))
        if ck in ("FloatingCast",):
            return self.fcast(self.ev(x), self.P.tyof(x), self.P.tyof(n))
        if ck == "IntegralToFloating":
            return self.i2f(self.ev(x), self.P.tyof(n))
        if ck == "IntegralCast":
            return self.icast(self.ev(x), self.P.tyof(x), self.P.tyof(n))
        if ck == "FloatingToIntegral":
            return "(rtrunc_%s %s)" % (self.P.tyof(n)[1], self.ev(x))
        if ck == "IntegralToBoolean": return "(not (%s = 0))" % self.ev(x)
        if ck == "PointerToBoolean": return "(not (%s = 0))" % self.ev(x)
        if ck == "FloatingToBoolean": return "(not (req %s 0.0))" % self.ev(x)
        if ck == "NullToPointer": return "0"
        if ck == "UserDefinedConversion": return self.ev(x)
        if ck in ("ArrayToPointerDecay", "FunctionToPointerDecay"): raise XErr("cast " + ck)
        raise XErr("cast " + ck)
    def ev_CXXStaticCastExpr(self, n):
        if n.get("castKind") in (None, "NoOp", "ConstructorConversion", "UserDefinedConversion"): return self.ev(n["inner"][0])
        return self.ev_ImplicitCastExpr(n)
    ev_CXXFunctionalCastExpr = ev_CXXStaticCastExpr
    ev_CStyleCastExpr = ev_CXXStaticCastExpr
    def as_range(self, s, t):
        if t and t[0] == "int": return "(as_%s %s)" % (t[1], s)
        return s
    def icast(self, s, a, b):
        if a[0] == "bool": return "(if %s then 1 else 0)" % s
        if b[0] == "bool": return "(not (%s = 0))" % s
        la, ha = RANGE[a[1]]; lb, hb = RANGE[b[1]]
        m = re.match(r"^\(?(-?\d+)\)?$", s)
        if lb <= la and ha <= hb: return s
        if m and lb <= int(m.group(1)) <= hb: return s
        return "(to_%s %s)" % (b[1], s)
    def i2f(self, s, t):
        m = re.match(r"^\(?(\d+)\)?$", s)
        if m and (t[1] != "float" or int(m.group(1)) < 2**24): return "(%s.0)" % m.group(1)
        s = "(r_of_int %s)" % s
        return "(fround %s)" % s if t[1] == "float" and not self.exact else s
    def fcast(self, s, a, b):
        """narrowing is rounding (to some unknown number), except in functions whose contract says exact"""
        if WIDTH[b[1]] >= WIDTH[a[1]]: return s
        m = re.match(r"^\(*(\d+\.\d*)\)*$", s)
        if m and float(m.group(1)) == (struct.unpack("f", struct.pack("f", float(m.group(1))))[0] if b[1] == "float" else float(m.group(1))): return s
        if self.exact: return s
        return "(%sround %s)" % ("f" if b[1] == "float" else "d", s)
    def fmode(self): return self.flt
    def promote_real(self, op, t):
        return op

    def ev_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl": raise XErr("enum")
        return self.rd(self.lv(n))
    def ev_MemberExpr(self, n): return self.rd(self.lv(n))

    ARI = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod"}
    def arith(self, op, a, b, t):
        if t[0] == "real":
            if op == "%": raise XErr("real %")
            return "(%sr%s %s %s)" % ("f" if self.fmode() and t[1] == "float" else "", self.ARI[op], a, b)
        if t[0] == "int": return "(%s_%s %s %s)" % (self.ARI[op], t[1], a, b)
        raise XErr("arith on %r" % (t,))
    def cmp(self, op, a, b, t):
        if t[0] == "real":
            return "(r%s %s %s)" % ({"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op], a, b)
        if t[0] in ("int", "ptr", "nullptr"):
            if op == "==": return "(%s = %s)" % (a, b)
            if op == "!=": return "(not (%s = %s))" % (a, b)
            return "(%s %s %s)" % (a, op, b)
        if t[0] == "bool":
            if op == "==": return "(beq %s %s)" % (a, b)
            if op == "!=": return "(not (beq %s %s))" % (a, b)
        raise XErr("comparison of %r" % (t,))
    def ev_BinaryOperator(self, n):
        op = n["opcode"]; l, r = n["inner"]
        if op == "=":
            v = self.ev(r)
            if self.effectful(l): v = self.atom(v)
            p = self.lv(l)
            v = self.atom(v)
            self.wr(p, v)
            return v
        if op == ",":
            self.ev_stmt(l); return self.ev(r)
        if op in ("&&", "||"):
            a = self.ev(l)
            if self.effectful(r): a = self.atom(a)
            b = self.block(lambda: self.ev(r))
            return "(%s %s %s)" % (a, op, b)
        a, b = self.evs([l, r])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.cmp(op, a, b, strip_ref(self.P.tyof(l)))
        return self.arith(op, a, b, strip_ref(self.P.tyof(n)))
    def ev_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]; l, r = n["inner"]
        v = self.ev(r)
        if self.effectful(l): v = self.atom(v)
        p = self.lv(l)
        lt = strip_ref(self.P.tyof(l)); ct = self.P.ty(n["computeLHSType"].get("desugaredQualType") or n["computeLHSType"]["qualType"])
        cur = self.as_range(self.rd(p), lt)
        cur = self.conv(cur, lt, ct)
        res = self.arith(op, cur, v, ct)
        res = self.conv(res, ct, lt)
        res = self.atom(res)
        self.wr(p, res)
        return res
    def conv(self, s, a, b):
        if a == b: return s
        if a[0] == "int" and b[0] == "int": return self.icast(s, a, b)
        if a[0] == "real" and b[0] == "real": return self.fcast(s, a, b)
        if a[0] == "int" and b[0] == "real": return self.i2f(s, b)
        raise XErr("conversion %r %r" % (a, b))
    def ev_UnaryOperator(self, n):
        op = n["opcode"]; x = n["inner"][0]
        if op in ("++", "--"):
            p = self.lv(x); t = strip_ref(self.P.tyof(x))
            if t[0] in ("vit",): raise XErr("iterator ++")
            old = self.atom(self.as_range(self.rd(p), t))
            if t[0] == "int":
                one = "1"; ct = t if t[1] in ("i32", "u32", "i64", "u64") else ("int", "i32")
            else: one = "1.0"; ct = t
            new = self.atom(self.conv(self.arith(op[0], old, one, ct), ct, t))
            self.wr(p, new)
            return old if n.get("isPostfix") else new
        if op == "!": return "(not %s)" % self.ev(x)
        if op == "-":
            t = self.P.tyof(n); v = self.ev(x)
            if t[0] == "int":
                if re.match(r"^\d+$", v): return "(-%s)" % v
                return "(sub_%s 0 %s)" % (t[1], v)
            return "(rneg %s)" % v
        if op == "+": return self.ev(x)
        if op == "*":
            p = self.lv(n)
            if is_handle(p.t) and not p.steps and p.root[0] == "heap": return p.root[2]
            return self.rd(p)
        if op == "&":
            p = self.lv(x)
            if p.root[0] == "heap" and not p.steps: return p.root[2]
            raise XErr("address of")
        raise XErr("unary " + op)
    def ev_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        cv = self.ev(c)
        if self.effectful(a) or self.effectful(b): cv = self.atom(cv)
        return "(if %s then %s else %s)" % (cv, self.block(lambda: self.ev(a)), self.block(lambda: self.ev(b)))

    # ---------------------------------------------------------- lvalues
    def lv(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups"): return self.lv(n["inner"][0])
        if k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            t = strip_ref(self.P.tyof(n))
            x = n["inner"][0]
            if "_Bit_reference" in str(n.get("type")) or (t[0] == "bool" and x["kind"] == "CXXOperatorCallExpr" and self.stl_name(x) == "[]"): return self.lv(x)
            v = self.ev(x)
            if is_handle(t): return Path(("heap", self.heapof(t), self.atom(v)), (), t)
            return Path(("val", v), (), t)
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]; id_ = rd["id"]
            if id_ in self.env:
                b = self.env[id_]
                if b[0] == "path": return b[1]
                raise XErr("variable %s used as %s" % (rd["name"], b[0]))
            # global constant
            return self.globalvar(n)
        if k == "MemberExpr":
            if self.partial is not None and self.thisobj is None and n.get("isArrow") and self.strip_noload(n["inner"][0])["kind"] == "CXXThisExpr":
                if n["name"] not in self.partial: raise XErr("field read before it is initialised")
                return Path(("val", self.partial[n["name"]]), (), strip_ref(self.P.tyof(n)))
            base = n["inner"][0]
            if n.get("isArrow"):
                bp = self.deref(base)
            else:
                bp = self.lv(base)
            return self.member(bp, n)
        if k == "UnaryOperator":
            if n["opcode"] == "*": return self.deref(n["inner"][0])
            if n["opcode"] in ("++", "--") and not n.get("isPostfix"):
                self.ev(n); return self.lv(n["inner"][0])
        if k == "ImplicitCastExpr":
            ck = n["castKind"]
            if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
                p = self.lv(n["inner"][0]); t = strip_ref(self.P.tyof(n))
                return self.to_base(p, t)
            if ck in ("NoOp", "ConstructorConversion", "LValueToRValue"):
                if ck == "LValueToRValue": return Path(("val", self.ev(n)), (), strip_ref(self.P.tyof(n)))
                return self.lv(n["inner"][0])
            if ck == "UserDefinedConversion": return self.lv(n["inner"][0])
            return Path(("val", self.ev(n)), (), strip_ref(self.P.tyof(n)))
        if k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"):
            return self.call(n, want="path")
        if k == "BinaryOperator" and n["opcode"] == "=":
            self.ev(n); return self.lv(n["inner"][0])
        if k == "CompoundAssignOperator":
            self.ev(n); return self.lv(n["inner"][0])
        if k == "CXXThisExpr": raise XErr("this as lvalue")
        if k == "ConditionalOperator" or k.startswith("CXX") or k.endswith("Literal"):
            t = strip_ref(self.P.tyof(n)); v = self.ev(n)
            if is_handle(t): return Path(("heap", self.heapof(t), self.atom(v)), (), t)
            return Path(("val", v), (), t)
        raise XErr("lvalue " + k)
    def to_base(self, p, t):
        cur = p.t
        while cur != t:
            if cur[0] != "cls" or not self.P.classes[cur[1]].bases: raise XErr("base %r of %r" % (t, p.t))
            b = self.P.classes[cur[1]].bases[0]
            p = p.plus(("fld", "%s_base" % fpre(cur[1])), b); cur = b
        return p
    def deref(self, n):
        """*n for a pointer or iterator expression"""
        x = self.strip_noload(n)
        if x["kind"] == "CXXThisExpr":
            if self.thisobj is None: raise XErr("this")
            return self.thisobj
        if n["kind"] == "ImplicitCastExpr" and n["castKind"] in ("UncheckedDerivedToBase", "DerivedToBase"):
            return self.to_base_obj(self.deref(n["inner"][0]), strip_ref(self.P.tyof(n))[1])
        if x["kind"] == "CXXOperatorCallExpr" and self.stl_name(x) == "->":
            t = strip_ref(self.P.tyof(x["inner"][1]))
            if t[0] in ("vit", "mit"): return self.iter_deref(x["inner"][1])
        else: t = strip_ref(self.P.tyof(n))
        if t[0] in ("vit", "mit"): return self.iter_deref(n)
        if t[0] != "ptr": raise XErr("deref of %r" % (t,))
        v = self.ev(n) if not self.is_lvexpr(n) else self.rd(self.lv(n))
        if self.effectful(n): v = self.atom(v)
        v = "(deref %s)" % v
        h = self.heapof(t[1])
        return Path(("heap", h, v), (), t[1])
    def is_lvexpr(self, n):
        return False
    def strip_noload(self, n):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"): 
            if n["kind"] == "ImplicitCastExpr" and n["castKind"] not in ("NoOp", "LValueToRValue", "UncheckedDerivedToBase", "DerivedToBase"): break
            n = n["inner"][0]
        return n
    def member(self, bp, n):
        e = self.tu.ids.get(n.get("referencedMemberDecl"))
        name = n["name"]
        t = bp.t
        if t[0] == "tup":
            if name in ("first", "second"):
                i = 0 if name == "first" else 1
                return bp.plus(("tup", "t%d_%d" % (len(t[1]), i)), t[1][i])
            raise XErr("member " + name)
        if t[0] != "cls": raise XErr("member of %r" % (t,))
        c = self.P.classes[t[1]]
        if bp.root[0] == "heap" and not bp.steps and self.E.dyn(t[1]):
            bp = bp.plus(("dynbase", t[1]), t)
        sub = dict(zip(c.tparams, t[2]))
        for f, ft in c.fields:
            if f == name: return bp.plus(("fld", "%s_%s" % (fpre(t[1]), self.E.fieldname[(t[1], f)])), subst(ft, sub))
        # through bases
        for b in c.bases:
            return self.member(bp.plus(("fld", "%s_base" % fpre(t[1])), b), n)
        raise XErr("no field %s in %s" % (name, t[1]))
    def globalvar(self, n):
        rd = n["referencedDecl"]
        for d in self.P.extra(self.tu, rd["name"], ("VarDecl",)):
            q = d["type"]["qualType"]
            init = [c for c in d.get("inner", []) if isinstance(c, dict) and not c["kind"].endswith("Attr")]
            if "const" in q and init and d["id"] == rd["id"] or ("const" in q and init):
                return Path(("val", self.conv_decl(init[0], self.P.tyof(d))), (), self.P.tyof(d))
        raise XErr("global variable " + rd["name"])
    def conv_decl(self, init, t): return self.ev(init)

    # ---------------------------------------------------------- iterators
    def iter_ev(self, n):
        """iterator expression -> (container path, index expr) for vectors, (path,'m',keyexpr) for maps"""
        n = self.strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            b = self.env.get(n["referencedDecl"]["id"])
            if b and b[0] == "it": return (b[1], b[2])
            raise XErr("iterator variable")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("inner"):
            return self.iter_ev(n["inner"][0])
        if k == "CXXMemberCallExpr":
            m = self.strip(n["inner"][0]); nm = m["name"]
            base = m["inner"][0]
            p = self.deref(base) if m.get("isArrow") else self.lv(base)
            if p.root[0] == "val" : raise XErr("iterator into a temporary")
            p = self.freeze(p)
            if p.t[0] == "vec":
                if nm in ("begin", "cbegin"): return (p, "0")
                if nm in ("end", "cend"): return (p, "(vlen %s)" % self.rd(p))
            if p.t[0] == "map" and nm == "find":
                kx = self.ev(n["inner"][1])
                return (p, ("find", kx))
            if nm == "erase":
                self.call(n, want="val"); 
                raise XErr("iterator from erase")
            raise XErr("iterator from " + nm)
        if k == "CXXOperatorCallExpr":
            op = self.stl_name(n)
            if op in ("+", "-"):
                c, i = self.iter_ev(n["inner"][1])
                d = self.ev(n["inner"][2])
                return (c, "(%s %s %s)" % (i, op, d))
            if op in ("++", "--"):
                x = self.strip(n["inner"][1])
                b = self.env.get(x.get("referencedDecl", {}).get("id"))
                if not b or b[0] != "it": raise XErr("iterator step")
                post = len(n["inner"]) == 3
                old = self.atom(b[2])
                self.emit("%s <- viter_step %s (%s %s 1);" % (b[2], self.lenof(b[1]), old, op[0]))
                return (b[1], old if post else b[2])
            if op == "=":
                return self.iter_assign(n)
        raise XErr("iterator expression " + k)
    def lenof(self, p): return "(vlen %s)" % self.rd(p)
    def iter_assign(self, n):
        x = self.strip(n["inner"][1]); b = self.env.get(x.get("referencedDecl", {}).get("id"))
        if not b or b[0] != "it": raise XErr("iterator assignment")
        r = self.strip(n["inner"][2])
        if r["kind"] == "CXXMemberCallExpr" and self.strip(r["inner"][0])["name"] == "erase":
            m = self.strip(r["inner"][0]); base = m["inner"][0]
            p = self.freeze(self.deref(base) if m.get("isArrow") else self.lv(base))
            c, i = self.iter_ev(r["inner"][1])
            if (c.root, c.steps) != (p.root, p.steps): raise XErr("erase of a foreign iterator")
            i = self.atom(i)
            self.wr(p, self.atom("(verase %s %s)" % (self.rd(p), i)))
            self.emit("%s <- %s;" % (b[2], i))
            return (b[1], b[2])
        c, i = self.iter_ev(n["inner"][2])
        if (c.root, c.steps) != (b[1].root, b[1].steps): raise XErr("iterator to another container")
        self.emit("%s <- %s;" % (b[2], i))
        return (b[1], b[2])
    def iter_deref(self, n):
        c, i = self.iter_ev(n)
        if isinstance(i, tuple): raise XErr("deref of map iterator")
        return c.plus(("idx", i), c.t[1])
    def freeze(self, p):
        """name the dynamic parts of a path"""
        r = p.root
        if r[0] == "heap": r = ("heap", r[1], self.atom(r[2]))
        elif r[0] == "val": r = ("val", self.atom(r[1]))
        st = []
        for s in p.steps:
            st.append((s[0], self.atom(s[1])) if s[0] in ("idx", "key") else s)
        return Path(r, st, p.t)

    # ---------------------------------------------------------- construction
    def ev_CXXNewExpr(self, n):
        t = self.P.tyof(n)[1]
        x = n["inner"][0] if n.get("inner") else None
        if x is None: raise XErr("new without initialiser")
        v = self.ev(x)
        if is_handle(t): return v           # constructors of handle classes allocate
        h = self.heapof(t); self.hw.add(h)
        if self.E.dyn(t[1] if t[0] == "cls" else ""): raise XErr("new of an abstract class")
        return self.atom("alloc_%s %s" % (h, v), "new")
    def ev_CXXTemporaryObjectExpr(self, n): return self.ev_CXXConstructExpr(n)
    def ev_CXXConstructExpr(self, n, uninit=False):
        t = strip_ref(self.P.tyof(n))
        args = [a for a in n.get("inner", []) if isinstance(a, dict) and a]
        k = t[0]
        if k == "ptr":
            args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if not args: return "0"
            if len(args) == 1:
                at = strip_ref(self.P.tyof(args[0]))
                if at[0] in ("ptr", "nullptr"):
                    if at[0] == "ptr" and at[1] != t[1]: raise XErr("pointer conversion %r -> %r" % (at, t))
                    return self.ev(args[0])
            raise XErr("shared_ptr constructor")
        if k == "vec":
            q = n["ctorType"]["qualType"]
            args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if not args: return "(vempty ())"
            ts = [strip_ref(self.P.tyof(a)) for a in args]
            if len(args) == 1 and ts[0] == t: return self.ev(args[0])
            if ts[0][0] == "int":
                cnt = self.ev(args[0]); 
                if len(args) == 2:
                    v = self.ev(args[1])
                else: v = self.default(t[1])
                return "(vmake %s %s)" % (cnt, v)
            if ts[0][0] == "vit" and len(args) == 2:
                c, i = self.iter_ev(args[0]); d, j = self.iter_ev(args[1])
                if i == "0" and j == "(vlen %s)" % self.rd(c): return self.rd(c)
            raise XErr("vector constructor")
        if k == "map":
            if not args: return "(mempty %s)" % self.default(t[2])
            if len(args) == 1 and strip_ref(self.P.tyof(args[0])) == t: return self.ev(args[0])
            raise XErr("map constructor")
        if k == "tup":
            if len(args) == 1 and strip_ref(self.P.tyof(args[0])) == t: return self.ev(args[0])
            if len(args) == len(t[1]):
                vs = self.evs(args)
                vs = [self.conv(v, strip_ref(self.P.tyof(a)), x) if strip_ref(self.P.tyof(a))[0] in ("int", "real") else v for v, a, x in zip(vs, args, t[1])]
                nn = len(vs)
                return "{ %s }" % "; ".join("t%d_%d = %s" % (nn, i, v) for i, v in enumerate(vs))
            raise XErr("tuple constructor")
        if k == "real" or k == "int": return self.ev(args[0])
        if k in ("vit", "mit"): raise XErr("iterator copy")
        if k != "cls" or t[1] not in self.P.classes: raise XErr("construct %r" % (t,))
        if self.is_copy_ctor(t, n):
            src = args[0]
            if is_handle(t):
                p = self.lv_obj(src)
                h = self.heapof(t); self.hw.add(h)
                return self.atom("alloc_%s %s" % (h, self.rd(p)), "copy")
            return self.rd(self.lv_obj(src))
        if not args and not any(g.kind == "CXXConstructorDecl" and not g.implicit and g.cls and g.cls[1] == t[1] for g in self.P.fns.values()):
            return self.implicit_default(t)
        f = self.E.find_ctor(t, n["ctorType"]["qualType"])
        return self.invoke(f, None, args, ctor_t=t)
    def implicit_default(self, t):
        c = self.P.classes[t[1]]; sub = dict(zip(c.tparams, t[2])); fs = []
        for b in c.bases: fs.append(("%s_base" % fpre(t[1]), self.implicit_default(b)))
        for f, ft in c.fields: fs.append(("%s_%s" % (fpre(t[1]), self.E.fieldname[(t[1], f)]), self.default(subst(ft, sub), uninit=True)))
        if not fs: fs = [("%s_unit" % fpre(t[1]), "()")]
        return "{ %s }" % "; ".join("%s = %s" % x for x in fs)
    def lv_obj(self, n):
        """object expression (lvalue or temporary)"""
        if n.get("valueCategory") == "prvalue":
            t = strip_ref(self.P.tyof(n)); v = self.ev(n)
            if is_handle(t): return Path(("heap", self.heapof(t), self.atom(v)), (), t)
            return Path(("val", v), (), t)
        return self.lv(n)

    # ---------------------------------------------------------- calls
    def ev_CallExpr(self, n): return self.call(n, want="val")
    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_CallExpr
    def ret_ref(self, f):
        q = f.qt
        r = q[:q.index("(")].strip()
        return r.endswith("&")
    def call(self, n, want):
        lam = self.called_lambda(n)
        tgt = None if lam else self.callee(n)
        t = strip_ref(self.P.tyof(n))
        if lam:
            sv = self.env; self.env = dict(sv); self.env.update(lam[2])
            try: r = self.inline(lam[1], None, self.args_for(lam[1], n["inner"][2:]), lam=sv)
            finally: self.env = sv
        elif tgt is None or tgt is True:
            r = self.stl(n, tgt)
        else:
            k = n["kind"]
            obj = None; args = n["inner"][1:]
            if k == "CXXMemberCallExpr":
                m = self.strip(n["inner"][0]); base = m["inner"][0]
                if tgt.static: obj = None
                else:
                    obj = self.deref(base) if m.get("isArrow") else self.lv_obj(base)
            elif k == "CXXOperatorCallExpr" and tgt.cls is not None and not tgt.static:
                obj = self.lv_obj(args[0]); args = args[1:]
            r = self.invoke(tgt, obj, args)
        if want == "path":
            if isinstance(r, Path): return r
            if is_handle(t): return Path(("heap", self.heapof(t), self.atom(r)), (), t)
            return Path(("val", r), (), t)
        if isinstance(r, Path):
            if is_handle(r.t): return self.handle(r)
            return self.as_range(self.rd(r), r.t)
        return r
    def handle(self, p):
        if p.root[0] == "heap" and not p.steps: return p.root[2]
        raise XErr("handle of a sub-object")

    def args_for(self, f, args):
        out = []
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else None
            if a is None or a["kind"] == "CXXDefaultArgExpr":
                d = f.defaults[i]
                if d is None: raise XErr("missing default argument of " + f.key)
                out.append(("def", d))
            else: out.append(("arg", a))
        return out
    def param_type(self, p): return self.P.tyof(p)
    def is_refparam(self, p): return p["type"]["qualType"].strip().endswith("&") and not p["type"]["qualType"].strip().endswith("&&")

    def invoke(self, f, obj, args, ctor_t=None):
        E = self.E
        if f.virtual and obj is not None and obj.t[0] == "cls":
            return self.virtual_call(f, obj, args)
        if f.implicit and f.kind == "CXXConstructorDecl": raise XErr("implicit constructor of %s" % f.cls[1])
        e = E.effects(f)
        al = self.args_for(f, args)
        c = E.contract(f)
        if c is None or c.get("inline"):
            return self.inline(f, obj, al, ctor_t)
        # ---- modular call
        self.calls.add(f.key)
        self.hw |= e.hw
        for h in e.hw: self.useheap(h)
        aa = []
        effs = [x[0] == "arg" and self.effectful(x[1]) for x in al]
        if obj is not None and any(effs): obj = self.freeze(obj)
        post = []
        if obj is not None:
            hcls = obj.t[0] == "cls" and obj.t[1] in HANDLE
            # adapt object to the class that declares the method
            if f.cls and obj.t != f.cls and not same_ty(obj.t, f.cls): obj = self.to_base_obj(obj, f.cls)
            if hcls or e.pthis:
                aa.append(self.handle(obj))
            elif e.thismut:
                if obj.root == ("var", "this") and not obj.steps and not self.inline_stack:
                    self.thismut = True; aa.append("this")
                elif obj.root[0] == "var" and not obj.steps:
                    if obj.root[1] == "this": self.thismut = True
                    for i, q in enumerate(self.refparams):
                        if q == obj.root[1]: self.refmut.add(i)
                    aa.append(obj.root[1]); self.passed.add(obj.root[1])
                else:
                    if obj.root[0] == "val": raise XErr("mutating call on a temporary")
                    if obj.root[0] == "heap" and obj.root[1] in e.hw: raise XErr("aliased mutating call of " + f.key)
                    obj = self.freeze(obj)
                    o = self.fresh("o"); self.emit("let ref %s = %s in" % (o, self.rd(obj)))
                    aa.append(o); post.append((obj, o))
            else:
                aa.append(self.dynproj(obj))
        for i, (kind, a) in enumerate(al):
            if kind == "def":
                aa.append(self.in_tu(a[0], lambda: self.ev(a[1]))); continue
            p = f.params[i]; t = self.param_type(p)
            if t[0] == "ref":
                ap = self.lv_obj(a)
                if is_handle(t[1]): v = self.handle(ap)
                elif i in e.refmut:
                    if ap.root[0] == "val": raise XErr("reference to temporary")
                    if ap.root[0] == "var" and not ap.steps:
                        if ap.root[1] == "this": self.thismut = True
                        for j, q in enumerate(self.refparams):
                            if q == ap.root[1]: self.refmut.add(j)
                        v = ap.root[1]; self.passed.add(v)
                    else:
                        if ap.root[0] == "heap" and ap.root[1] in e.hw: raise XErr("aliased reference argument")
                        ap = self.freeze(ap); v = self.fresh("o"); self.emit("let ref %s = %s in" % (v, self.rd(ap)))
                        post.append((ap, v))
                else: v = self.rd(ap)
            else: v = self.ev(a)
            if any(effs[i + 1:]): v = self.atom(v)
            aa.append(v)
        call = "%s %s" % (E.why_name(f.key), " ".join("(%s)" % x if " " in x and not x.startswith("(") else x for x in aa) or "()")
        rt = f.qt[:f.qt.index("(")].strip()
        if f.kind == "CXXConstructorDecl" or rt != "void":
            if self.ret_ref(f): raise XErr("reference result " + f.key)
            if e.hw or e.thismut or e.refmut or post:
                r = self.fresh("r"); self.emit("let %s = %s in" % (r, call))
            else: r = "(%s)" % call
        else:
            self.emit(call + ";"); r = "()"
        for p, o in post: self.wr(p, o)
        rty = self.ret_type(f)
        return self.as_range(r, rty) if rty[0] == "int" else r
    def ret_type(self, f):
        if f.kind == "CXXConstructorDecl": return f.cls
        try: return strip_ref(self.P.ty(f.qt[:f.qt.index("(")].strip()))
        except XErr: return ("void",)
    def to_base_obj(self, obj, cls):
        if obj.root[0] == "heap" and not obj.steps and self.E.dyn(obj.t[1]): return obj
        if obj.t == cls: return obj
        return self.to_base(obj, cls)
    def dynproj(self, obj):
        if obj.root[0] == "heap" and not obj.steps and obj.t[0] == "cls" and self.E.dyn(obj.t[1]):
            return self.rd(obj.plus(("dynbase", obj.t[1]), obj.t))
        return self.rd(obj)
    def in_tu(self, tu, fn):
        sv = self.tu; self.tu = tu
        try: return fn()
        finally: self.tu = sv
    def virtual_call(self, f, obj, args):
        E = self.E
        cls = obj.t[1]
        if obj.root[0] == "heap" and not obj.steps and E.dyn(cls):
            c = E.contract(f)
            if c is None: raise XErr("no contract for the virtual function " + f.key)
            self.calls.add(f.key)
            e = E.effects(f)
            d = self.rd(obj)
            aa = [d] + [self.ev(a) for a in args]
            r = "(%s %s)" % (E.why_name(f.key), " ".join(aa))
            t = self.ret_type(f)
            return self.as_range(r, t)
        # static type is the exact type of a value
        over = [g for g in self.P.bykey.values() if g.name == f.name and g.cls and g.cls[1] != f.cls[1] and self.is_sub(g.cls[1], cls) and len(g.params) == len(f.params)]
        if f.pure or over: raise XErr("virtual call of %s on a sub-object" % f.key)
        fv = f.virtual; f.virtual = False
        try: return self.invoke(f, obj, args)
        finally: f.virtual = fv
    def is_sub(self, d, b):
        while True:
            bs = self.P.classes[d].bases
            if not bs: return False
            d = bs[0][1]
            if d == b: return True

    # ---------------------------------------------------------- inlining
    def inline(self, f, obj, al, ctor_t=None, lam=None):
        E = self.E
        if f.body is None: raise XErr("no body and no contract: " + f.key)
        if f.key in self.inline_stack or (E.eff.get(f.key) and E.eff[f.key].rec and f.key == self.f.key): raise XErr("recursion without contract: " + f.key)
        if len(self.inline_stack) > 12: raise XErr("inline depth")
        if f.key not in self.inl: self.inl.append(f.key)
        new = {}; caps = self.env
        if lam is not None: self.env = lam      # the arguments are evaluated where the call stands
        effs = [x[0] == "arg" and self.effectful(x[1]) for x in al]
        assigned = assigned_params(f)
        if obj is not None:
            if f.cls and obj.t != f.cls: obj = self.to_base_obj(obj, f.cls)
            obj = self.freeze(obj)
        for i, (kind, a) in enumerate(al):
            p = f.params[i]; t = self.param_type(p)
            if kind == "def":
                v = self.in_tu(a[0], lambda: self.ev(a[1])); v = self.atom(v)
                new[p["id"]] = ("path", Path(("var", v), (), strip_ref(t))); continue
            if t[0] == "ref":
                ap = self.freeze(self.lv_obj(a)); ap = Path(ap.root, ap.steps, strip_ref(t))
                new[p["id"]] = ("path", ap)
            else:
                v = self.ev(a)
                if is_handle(t): new[p["id"]] = ("path", Path(("heap", self.heapof(t), self.atom(v)), (), t))
                elif p["id"] in assigned:
                    w = self.local(p.get("name", "arg"), t); self.emit("let ref %s = %s in" % (w, v))
                    new[p["id"]] = ("path", Path(("var", w), (), t))
                else:
                    v = self.atom(v)
                    new[p["id"]] = ("path", Path(("var", v), (), t))
        sv = (self.env, self.tu, getattr(self, "thisobj", None), self.retmode, self.rettype)
        self.env = dict(caps); self.env.update(new); self.tu = f.tu
        if lam is None: self.inline_stack.append(f.key)
        try:
            if f.kind == "CXXConstructorDecl":
                return self.ctor_body(f, ctor_t or f.cls)
            if lam is None: self.thisobj = obj
            rt = self.ret_type(f)
            isvoid = f.qt[:f.qt.index("(")].strip() == "void"
            self.rettype = rt; self.retref = self.ret_ref(f)
            if self.retref: 
                st = [s for s in f.body.get("inner", []) if s["kind"] != "NullStmt"]
                if len(st) == 1 and st[0]["kind"] == "ReturnStmt": return self.freeze(self.lv(st[0]["inner"][0]))
                raise XErr("inlined function returning a reference")
            st = [s for s in f.body.get("inner", []) if s["kind"] != "NullStmt"]
            nret = count_returns(f.body)
            if st and st[-1]["kind"] == "ReturnStmt" and nret == 1:
                self.retmode = None
                for s in st[:-1]: self.stmt(s)
                if not st[-1].get("inner"): return "()"
                return self.ret_value(st[-1]["inner"][0])
            if nret == 0:
                for s in st: self.stmt(s)
                return "()"
            ex = self.fresh("Ret")
            res = self.fresh("r")
            def body():
                self.retmode = ("exn", ex)
                for s in st: self.stmt(s)
                return "()" if isvoid else "absurd"
            lines, v = self.captured(body)
            self.emit("let %s = exception %s %s in try begin" % (res, ex, "" if isvoid else "(%s)" % self.E.wty(rt)))
            self.out += lines
            self.emit("  %s end with %s %s -> %s end in" % (v, ex, "" if isvoid else "r__", "()" if isvoid else "r__"))
            return res
        finally:
            if lam is None: self.inline_stack.pop()
            self.env, self.tu, self.thisobj, self.retmode, self.rettype = sv
    def ret_value(self, x):
        v = self.ev(x)
        return v
    def ctor_body(self, f, t):
        """constructor: returns the object (record, or handle)"""
        E = self.E; c = self.P.classes[t[1]]
        sub = dict(zip(c.tparams, t[2]))
        vals = {}
        inits = {}
        for ini in f.inits:
            if "anyInit" in ini: inits[ini["anyInit"]["name"]] = ini
            elif "baseInit" in ini: inits["<base>"] = ini
            else: raise XErr("delegating constructor")
        sv_this = getattr(self, "thisobj", None)
        fields = []; sv_partial = self.partial; self.partial = {}
        self.thisobj = None
        for b in c.bases:
            ini = inits.get("<base>")
            if ini is None: raise XErr("base without initialiser")
            v = self.ev(ini["inner"][0]); fields.append(("%s_base" % fpre(t[1]), self.atom(v)))
        for fn_, ft in c.fields:
            ft = subst(ft, sub)
            ini = inits.get(fn_)
            if ini is not None and ini.get("inner"):
                x = ini["inner"][0]
                v = self.ev(x)
            else:
                v = self.default(ft, uninit=True)
            v = self.atom(v); self.partial[fn_] = v
            fields.append(("%s_%s" % (fpre(t[1]), E.fieldname[(t[1], fn_)]), v))
        self.partial = sv_partial
        if not fields: fields = [("%s_unit" % fpre(t[1]), "()")]
        rec = "{ %s }" % "; ".join("%s = %s" % x for x in fields)
        if is_handle(t):
            h = self.heapof(t); self.hw.add(h)
            p = self.atom("alloc_%s %s" % (h, rec), "new")
            self.thisobj = Path(("heap", h, p), (), t)
            res = p
        else:
            top = not self.inline_stack
            w = "this" if top else self.fresh("this")
            self.emit("let ref %s : %s = %s in" % (w, E.wty(t), rec))
            self.thisobj = Path(("var", w), (), t)
            res = w
        tm = self.thismut
        st = [s for s in f.body.get("inner", [])]
        if count_returns(f.body): raise XErr("return in a constructor")
        for s in st: self.stmt(s)
        self.thismut = tm
        self.thisobj = sv_this if self.inline_stack else self.thisobj
        return res

    # ---------------------------------------------------------- standard library
    def stl(self, n, tgt):
        k = n["kind"]; nm = self.stl_name(n)
        if k == "CXXMemberCallExpr":
            m = self.strip(n["inner"][0]); base = m["inner"][0]; args = [a for a in n["inner"][1:] if a["kind"] != "CXXDefaultArgExpr"]
            bt = strip_ref(self.P.tyof(base))
            if bt[0] == "ptr" and not m.get("isArrow"):
                if nm.strip() in ("bool", "operator bool", "get"):
                    v = self.ev(base) if base.get("valueCategory") == "prvalue" else self.rd(self.lv(base))
                    return "(not (%s = 0))" % v if "bool" in nm else v
                if nm == "reset" and not args:
                    self.wr(self.lv(base), "0"); return "()"
                raise XErr("shared_ptr::" + nm)
            if bt[0] in ("vit",) and m.get("isArrow"): raise XErr("iterator ->")
            p = self.deref(base) if m.get("isArrow") else self.lv_obj(base)
            t = p.t
            if t[0] == "bool" and "bool" in nm: return self.rd(p)
            if t[0] == "vec": return self.vec_member(p, nm, args, n)
            if t[0] == "map": return self.map_member(p, nm, args, n)
            raise XErr("member %s of %r" % (nm, t))
        if k == "CXXOperatorCallExpr":
            return self.stl_op(nm, n["inner"][1:], n, tgt)
        # plain function
        args = n["inner"][1:]
        if nm in ("abs", "fabs", "fabsl"):
            t = self.P.tyof(n); v = self.ev(args[0])
            return "(%s %s)" % ("rabs" if t[0] == "real" else "iabs_" + t[1], v)
        if nm in ("max", "min"):
            ts = strip_ref(self.P.tyof(n))
            a, b = [self.rd(self.lv_obj(x)) for x in args]
            a = self.as_range(a, ts); b = self.as_range(b, ts)
            return "(%s%s %s %s)" % ("r" if ts[0] == "real" else "i", nm, a, b)
        if nm in ("log", "logl"):
            a = strip_ref(self.P.tyof(args[0]))
            x = args[0]         # the library's logarithm is taken in double: its rounding, not a narrowing of ours
            if x.get("castKind") == "FloatingCast" and a == ("real", "double") and strip_ref(self.P.tyof(x["inner"][0])) == ("real", "long double"): x = x["inner"][0]
            v = self.ev(x)
            if a[0] == "int": v = "(r_of_int %s)" % v
            return "(rlog %s)" % v
        if nm == "make_shared":
            t = strip_ref(self.P.tyof(n))[1]; v = self.construct(t, args)
            if is_handle(t): return v
            h = self.heapof(t); self.hw.add(h)
            return self.atom("alloc_%s %s" % (h, v), "new")
        if nm in ("make_tuple", "make_pair"):
            t = strip_ref(self.P.tyof(n)); al = self.unwrapped(args)
            if t[0] != "tup" or len(t[1]) != len(al): raise XErr(nm)
            vs = self.evs([self.forwarded(a, strip_ref(x)) for a, x in zip(al, t[1])]); nn = len(vs)
            return "{ %s }" % "; ".join("t%d_%d = %s" % (nn, i, v) for i, v in enumerate(vs))
        if nm == "fill" and len(args) == 3:
            c, i = self.iter_ev(args[0]); d, j = self.iter_ev(args[1])
            if (c.root, c.steps) != (d.root, d.steps) or i != "0" or j != "(vlen %s)" % self.rd(c): raise XErr("fill of a range")
            v = self.ev(self.forwarded(self.unwrapped([args[2]])[0], c.t[1]))
            self.wr(c, "(vmake (as_u64 (vlen %s)) %s)" % (self.rd(c), v)); return "()"
        if nm == "swap" and len(args) == 2:
            a, b = [self.freeze(self.lv(x)) for x in args]
            if a.t != b.t or is_handle(a.t): raise XErr("swap of %r" % (a.t,))
            x = self.atom(self.rd(a)); y = self.atom(self.rd(b))
            self.wr(a, y); self.wr(b, x); return "()"
        if nm in ("move", "forward"): return self.lv_obj(args[0])
        raise XErr("function " + nm)
    def forwarded(self, a, x, byref=False, decl=None):
        """argument a, handed on by reference to something of type x, as a node of that type"""
        y = strip_ref(self.P.tyof(a))
        if a.get("valueCategory") != "prvalue" and not byref:
            a = {"kind": "ImplicitCastExpr", "castKind": "LValueToRValue", "valueCategory": "prvalue", "type": a["type"], "inner": [a]}
        if x != y:
            if byref or decl is None: raise XErr("converted reference")
            ck = {("int", "int"): "IntegralCast", ("int", "real"): "IntegralToFloating", ("real", "real"): "FloatingCast", ("real", "int"): "FloatingToIntegral"}.get((y[0], x[0]))
            if ck is None: raise XErr("conversion")
            a = {"kind": "ImplicitCastExpr", "castKind": ck, "valueCategory": "prvalue", "type": decl["type"], "inner": [a]}
        return a
    def unwrapped(self, args):
        out = []
        for a in args:
            while a["kind"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): a = a["inner"][0]
            out.append(a)
        return out
    def construct(self, t, args):
        """T(args) inside the library (make_shared, emplace_back): the constructor is chosen by the types of the arguments, which are passed on by reference"""
        if t[0] != "cls" or t[1] not in self.P.classes: raise XErr("construction of %r" % (t,))
        if self.E.dyn(t[1]): raise XErr("construction of an abstract class")
        al = self.unwrapped(args)
        ts = [strip_ref(self.P.tyof(a)) for a in al]
        if ts == [t]:
            if is_handle(t): raise XErr("copy of %s" % t[1])
            return self.rd(self.lv_obj(al[0]))
        if not al and not any(g.kind == "CXXConstructorDecl" and not g.implicit and g.cls and g.cls[1] == t[1] for g in self.P.fns.values()): return self.implicit_default(t)
        num = ("int", "real", "bool")
        def want(f): return [strip_ref(self.P.tyof(p)) for p in f.params[:len(al)]]
        c = [f for f in self.P.fns.values() if f.kind == "CXXConstructorDecl" and not f.implicit and f.cls and f.cls[1] == t[1] and (f.cls[2] == t[2] or same_args(f.cls[2], t[2])) and f.body is not None
             and len(f.params) >= len(al) and all(d is not None for d in f.defaults[len(al):])]
        m = [f for f in c if want(f) == ts]
        if not m: m = [f for f in c if all(x == y or x[0] in num and y[0] in num for x, y in zip(want(f), ts))]
        if len(m) != 1: raise XErr("which constructor of %s" % t[1])
        f = m[0]
        return self.invoke(f, None, [self.forwarded(a, x, self.P.tyof(p)[0] == "ref", p) for a, p, x in zip(al, f.params, want(f))], ctor_t=t)
    def vec_member(self, p, nm, args, n):
        if nm == "size": return "(%s (vlen %s))" % ("as_listed" if strip_ref(p.t)[1:] == (("real", "float"),) else "as_u64", self.rd(p))
        if nm == "empty": return "(vlen %s = 0)" % self.rd(p)
        if nm in ("push_back", "emplace_back"):
            if nm == "emplace_back" and (len(args) != 1 or strip_ref(self.P.tyof(args[0])) != p.t[1]):
                if p.t[1][0] == "cls": v = self.construct(p.t[1], args)
                elif p.t[1][0] == "vec" and not args: v = "(vempty ())"
                elif len(args) == 1 and p.t[1][0] in ("int", "real"): v = self.conv(self.ev(self.forwarded(args[0], strip_ref(self.P.tyof(args[0])))), strip_ref(self.P.tyof(args[0])), p.t[1])
                else: raise XErr("emplace_back")
            else: v = self.ev_val(args[0], p.t[1])
            p = self.freeze(p) if self.effectful(args[0]) else p
            v = self.atom(v)
            self.wr(p, "(vpush %s %s)" % (self.rd(p), v)); return "()"
        if nm == "clear": self.wr(p, "(vempty ())"); return "()"
        if nm in ("[]", "at"):
            i = self.ev(args[0]); return p.plus(("idx", i), p.t[1])
        if nm == "back": return p.plus(("idx", "(sub_i64 (vlen %s) 1)" % self.rd(p)), p.t[1])
        if nm == "front": return p.plus(("idx", "0"), p.t[1])
        if nm == "pop_back": self.wr(p, "(verase %s (sub_i64 (vlen %s) 1))" % (self.rd(p), self.rd(p))); return "()"
        if nm == "reserve": self.ev(args[0]); return "()"
        if nm in ("resize", "assign"):
            if nm == "assign" and len(args) == 2 and strip_ref(self.P.tyof(args[0]))[0] == "int":
                a, b = self.ev(args[0]), self.ev_val(args[1], p.t[1]); self.wr(p, "(vmake %s %s)" % (a, b)); return "()"
            if nm == "resize":
                a = self.ev(args[0]); b = self.ev_val(args[1], p.t[1]) if len(args) > 1 else self.default(p.t[1])
                self.wr(p, "(vresize %s %s %s)" % (self.rd(p), a, b)); return "()"
            raise XErr("vector::" + nm)
        if nm == "erase":
            c, i = self.iter_ev(args[0])
            if len(args) != 1 or (c.root, c.steps) != (p.root, p.steps): raise XErr("vector::erase")
            self.wr(p, "(verase %s %s)" % (self.rd(p), i)); return "()"
        raise XErr("vector::" + nm)
    def ev_val(self, a, t):
        """value of argument a for a by-value/const-reference slot of type t"""
        if a.get("valueCategory") == "prvalue" or a["kind"] == "MaterializeTemporaryExpr":
            v = self.ev(a)
        else:
            v = self.as_range(self.rd(self.lv(a)), t)
        return v
    def map_member(self, p, nm, args, n):
        if nm == "clear": self.wr(p, "(mempty %s)" % self.default(p.t[2])); return "()"
        if nm == "size": return "(as_u64 (msize %s))" % self.rd(p)
        if nm == "empty": return "(msize %s = 0)" % self.rd(p)
        if nm == "erase":
            at = strip_ref(self.P.tyof(args[0]))
            if at[0] == "mit":
                c, i = self.iter_ev(args[0])
                if not isinstance(i, tuple) or (c.root, c.steps) != (p.root, p.steps): raise XErr("map::erase")
                self.wr(p, "(merase_at %s %s)" % (self.rd(p), i[1])); return "()"
            v = self.ev_val(args[0], p.t[1])
            self.wr(p, "(merase %s %s)" % (self.rd(p), v)); return "()"
        if nm == "count": return "(if mhas %s %s then 1 else 0)" % (self.rd(p), self.ev_val(args[0], p.t[1]))
        if nm in ("at",): return p.plus(("key", self.ev_val(args[0], p.t[1])), p.t[2])
        if nm == "[]": return self.map_index(p, self.ev_val(args[0], p.t[1]))
        raise XErr("map::" + nm)
    def map_index(self, p, key):
        key = self.atom(key)
        if p.root[0] == "val":
            return Path(("val", "(mget %s %s)" % (self.rd(p), key)), (), p.t[2])
        p = self.freeze(p)
        # operator[] inserts a default when the key is absent
        self.wr(p, "(mtouch %s %s %s)" % (self.rd(p), key, self.default(p.t[2])))
        return p.plus(("key", key), p.t[2])
    def stl_op(self, op, args, n, tgt):
        t0 = strip_ref(self.P.tyof(args[0]))
        if op == "=":
            if t0[0] in ("vit", "mit"): c, i = self.iter_assign(n); return "()"
            src = args[1]
            if t0[0] == "cls":
                if t0[1] not in self.P.classes: raise XErr("assignment of %r" % (t0,))
                sp = self.lv_obj(src)
                v = self.atom(self.rd(sp))
                dp = self.lv(args[0])
                self.wr(dp, v); return dp
            v = self.ev_val(src, t0) if strip_ref(self.P.tyof(src)) == t0 else self.ev(src)
            v = self.atom(v)
            dp = self.lv(args[0])
            self.wr(dp, v); return dp
        if t0[0] == "vit":
            if op == "*": return self.iter_deref(args[0])
            if op == "->": return self.iter_deref(args[0])
            if op in ("!=", "==", "<", ">", "<=", ">="):
                c, i = self.iter_ev(args[0]); d, j = self.iter_ev(args[1])
                if (c.root, c.steps) != (d.root, d.steps): raise XErr("iterators of different containers")
                return self.cmp(op, i, j, ("int", "i64"))
            if op in ("++", "--"):
                self.iter_ev(n); return "()"
            if op == "-" :
                c, i = self.iter_ev(args[0]); d, j = self.iter_ev(args[1]); return "(%s - %s)" % (i, j)
            raise XErr("iterator operator " + op)
        if t0[0] == "mit": raise XErr("map iterator operator " + op)
        if op in ("*", "->") and t0[0] == "ptr":
            x = args[0]
            v = self.ev(x) if x.get("valueCategory") == "prvalue" else self.rd(self.lv(x))
            h = self.heapof(t0[1])
            if op == "->":
                return v
            return Path(("heap", h, "(deref %s)" % v), (), t0[1])
        if op == "[]":
            if t0[0] == "vec":
                p = self.lv_obj(args[0])
                if self.effectful(args[1]): p = self.freeze(p)
                i = self.ev(args[1])
                if self.effectful(args[1]): i = self.atom(i)
                return p.plus(("idx", i), t0[1])
            if t0[0] == "map":
                p = self.lv_obj(args[0])
                return self.map_index(p, self.ev_val(args[1], t0[1]))
        if op in ("==", "!=") and t0[0] in ("ptr", "nullptr"):
            a, b = [self.ev_val(x, strip_ref(self.P.tyof(x))) for x in args]
            return self.cmp(op, a, b, ("ptr",))
        if t0[0] == "bool": 
            if op == "=": pass
        raise XErr("operator %s on %r" % (op, t0))

    # ---------------------------------------------------------- statements
    def stmt(self, n):
        k = n["kind"]
        m = getattr(self, "st_" + k, None)
        if m: return m(n)
        self.ev_stmt(n)
    def ev_stmt(self, n):
        v = self.ev(n) if not self.lvstmt(n) else self.lv(n)
        if isinstance(v, Path): return
        if v != "()" and not re.match(r"^[\w']+$", v): self.emit("let _ = %s in" % v)
    def lvstmt(self, n): return False
    def st_NullStmt(self, n): pass
    def st_CompoundStmt(self, n):
        self.scoped(lambda: [self.stmt(s) for s in n.get("inner", [])])
    def scoped(self, fn, wrap=True):
        sv = dict(self.env)
        def b(): fn(); return "()"
        lines, v = self.captured(b)
        self.env = sv
        if not lines: return
        self.emit("begin"); self.out += lines; self.emit("  () end;")
    def st_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl": self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl"): pass
            else: raise XErr("declaration " + d["kind"])
    def lambda_of(self, d):
        """the LambdaExpr a variable is initialised with"""
        if "(lambda at " not in d.get("type", {}).get("qualType", ""): return None
        x = [c for c in d.get("inner", []) if isinstance(c, dict) and c]
        x = x[0] if x else None
        while x is not None and x["kind"] != "LambdaExpr":
            y = [c for c in x.get("inner", []) if isinstance(c, dict) and c]
            if x["kind"] not in ("ExprWithCleanups", "CXXConstructExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr") or len(y) != 1: raise XErr("lambda initialiser")
            x = y[0]
        return x
    def bind_lambda(self, d, x):
        """a local lambda: its body is put in place of each call; captures by value are snapshots"""
        caps = {}
        for c in x["inner"][1:-1]:
            if c["kind"] == "CXXThisExpr" or c["kind"] == "DeclRefExpr": continue
            y = c
            while y["kind"] in ("ImplicitCastExpr", "CXXConstructExpr") and len(y.get("inner", [])) == 1: y = y["inner"][0]
            if y["kind"] != "DeclRefExpr": raise XErr("lambda capture " + c["kind"])
            t = strip_ref(self.P.tyof(c))
            if is_handle(t): raise XErr("lambda captures an object by value")
            caps[y["referencedDecl"]["id"]] = ("path", Path(("var", self.atom(self.ev(c))), (), t))
        op = [m for m in x["inner"][0].get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        if len(op) != 1: raise XErr("generic lambda")
        if "const" not in op[0]["type"]["qualType"].rsplit(")", 1)[1]: raise XErr("mutable lambda")
        f = cxx.Fn()
        f.key = "lambda " + d.get("name", ""); f.mangled = None; f.name = d.get("name", ""); f.cls = None; f.kind = "FunctionDecl"
        f.params = [c for c in op[0].get("inner", []) if isinstance(c, dict) and c.get("kind") == "ParmVarDecl"]
        if any(p_.get("init") for p_ in f.params): raise XErr("lambda with default arguments")
        f.body = x["inner"][-1]; f.inits = []; f.const = True; f.static = True; f.virtual = f.pure = f.implicit = f.defaulted = False; f.internal = True
        f.tu = self.tu; f.defaults = [None] * len(f.params); f.qt = op[0]["type"]["qualType"]; f.file = f.line = None; f.ret = None
        self.env[d["id"]] = ("lambda", f, caps)
    def called_lambda(self, n):
        if n["kind"] != "CXXOperatorCallExpr" or self.stl_name(n) not in ("()", "operator()"): return None
        o = n["inner"][1]
        while o["kind"] in ("ImplicitCastExpr", "ParenExpr"): o = o["inner"][0]
        if o["kind"] != "DeclRefExpr": return None
        e = self.env.get(o["referencedDecl"]["id"])
        return e if e and e[0] == "lambda" else None
    def vardecl(self, d, role=None):
        lam = self.lambda_of(d)
        if lam is not None: self.bind_lambda(d, lam); return
        t = self.P.tyof(d); name = role or d.get("name", "v")
        if d.get("storageClass") == "static": raise XErr("static local")
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and c and not c["kind"].endswith("Attr")]
        init = init[0] if init else None
        if t == ("ref", ("cls", "element_type", ())): t = ("ref", strip_ref(self.P.tyof(init)))
        if t[0] == "ref":
            x = init
            p = self.freeze(self.lv_obj(x)); p = Path(p.root, p.steps, t[1])
            self.env[d["id"]] = ("path", p); return
        if t[0] in ("vit", "mit"):
            c, i = self.iter_ev(init)
            if t[0] == "mit": raise XErr("map iterator variable")
            w = self.local(name, ("int", "i64"))
            self.emit("let ref %s = %s in" % (w, i))
            self.env[d["id"]] = ("it", c, w); return
        if is_handle(t):
            if init is None: raise XErr("handle variable without initialiser")
            v = self.ev(init)
            w = self.local(name, t); self.emit("let %s = %s in" % (w, v))
            self.env[d["id"]] = ("path", Path(("heap", self.heapof(t), w), (), t)); return
        w0 = None
        if init is None: v = self.default(t, uninit=True)
        else: v = self.ev(init)
        w = self.local(name, t)
        self.emit("let ref %s : %s = %s in" % (w, self.E.wty(t), v))
        self.env[d["id"]] = ("path", Path(("var", w), (), t))
    def st_IfStmt(self, n):
        inner = [c for c in n["inner"] if isinstance(c, dict)]
        if n.get("hasInit") or n.get("hasVar"): raise XErr("if with declaration")
        c = self.ev(inner[0])
        def br(s):
            sv = dict(self.env)
            def b(): self.stmts_of(s); return "()"
            l, v = self.captured(b); self.env = sv
            return l
        a = br(inner[1]); b = br(inner[2]) if len(inner) > 2 else None
        # [@vc:sp]: one path through the branches (the two are joined in the verification condition instead of being followed separately)
        mg = self.inloop in self.contract_here().get("merge", ()) and not any(x in l for l in a + (b or []) for x in ("break;", "raise", "return", "(*@CONT*)"))
        self.emit("%sif %s then begin" % ("[@vc:sp] (" if mg else "", c)); self.out += a
        self.emit("  () end%s" % ("" if b is not None else ");" if mg else ";"))
        if b is not None:
            self.emit("else begin"); self.out += b; self.emit("  () end%s;" % (")" if mg else ""))
    def stmts_of(self, s):
        if s["kind"] == "CompoundStmt":
            for x in s.get("inner", []): self.stmt(x)
        else: self.stmt(s)
    def contract_here(self): 
        return self.E.contract(self.f) or {}
    def loop(self, cond, body, inc, isdo=False):
        """cond/body/inc are thunks; cond returns an expression"""
        self.loopno += 1; k = self.loopno
        has_cont = False
        info = {"no": k, "inl": list(self.inline_stack), "counter": self.counter_of(self.nextctr)}
        self.nextctr = None
        self.loops.append(info)
        lc = self.contract_here().get("loops", {}).get(k, {})
        self.emit("(*@LOOP-PRE %d*)" % k)
        def bodylines():
            self.emit("(*@LOOP-BEGIN %d*)" % k)
            def b(): body(); return "()"
            sv = dict(self.env); outer = self.inloop; self.inloop = k; lines, _ = self.captured(b); self.env = sv; self.inloop = outer
            if any("(*@CONT*)" in l for l in lines):
                ex = "Cont__%d" % k
                self.emit("exception %s in try begin" % ex)
                self.out += [l.replace("(*@CONT*)", "raise %s" % ex) if "(*@CONT*)" in l else l for l in lines]
                self.emit("  () end with %s -> () end;" % ex)
            else: self.out += lines
            if inc: inc()
            self.emit("(*@LOOP-END %d*)" % k)
            return "()"
        c = self.block(cond) if cond else "true"
        lines, _ = self.captured(bodylines)
        self.emit("while %s do (*@LOOP %d*)" % (c, k))
        self.out += lines
        self.emit("  () done;")
        self.emit("(*@LOOP-POST %d*)" % k)
    nextctr = None; partial = None
    def counter_of(self, ids):
        """the variable that a loop counts with (matched with that of the delivered tree when contracts are bound to loops)"""
        if isinstance(ids, str): return ids
        for i in ids or ():
            b = self.env.get(i)
            if b and b[0] == "it": return b[2]
            if b and b[0] == "path" and b[1].root[0] == "var" and not b[1].steps and b[1].t[0] == "int": return b[1].root[1]
        return None
    def st_ForStmt(self, n):
        ini, cv, cond, inc, body = n["inner"]
        if cv: raise XErr("for with condition variable")
        def f():
            if ini: self.stmt(ini)
            self.nextctr = stepped(inc) or [i for i in refs(cond) if i in stepped(body)]
            self.loop((lambda: self.ev(cond)) if cond else None, lambda: self.stmts_of(body),
                      (lambda: self.ev_stmt(inc)) if inc else None)
        self.scoped(f)
    def st_WhileStmt(self, n):
        inner = [c for c in n["inner"] if isinstance(c, dict)]
        if len(inner) != 2: raise XErr("while form")
        st = stepped(inner[1]); self.nextctr = [i for i in refs(inner[0]) if i in st]
        self.loop(lambda: self.ev(inner[0]), lambda: self.stmts_of(inner[1]), None)
    def st_DoStmt(self, n):
        body, cond = n["inner"]
        w = self.fresh("go")
        self.emit("let ref %s = true in" % w)
        def inc(): self.emit("%s <- %s;" % (w, self.ev(cond)))
        self.loop(lambda: w, lambda: self.stmts_of(body), inc)
    def st_BreakStmt(self, n): self.emit("break;")
    def st_ContinueStmt(self, n): self.emit("(*@CONT*);")
    def st_ReturnStmt(self, n):
        x = n["inner"][0] if n.get("inner") else None
        if x is None:
            if self.retmode and self.retmode[0] == "exn": self.emit("raise %s;" % self.retmode[1])
            else: self.emit("(*@EXIT*)"); self.emit("return ();")
            return
        v = self.ret_value(x)
        if self.retmode and self.retmode[0] == "exn": self.emit("raise (%s %s);" % (self.retmode[1], v))
        elif self.retmode == ("top",):
            self.emit("let r__ = %s in" % v); self.emit("(*@EXIT*)"); self.emit("return r__;")
        else: raise XErr("return")
    def st_SwitchStmt(self, n):
        inner = [c for c in n["inner"] if isinstance(c, dict)]
        e = self.atom(self.ev(inner[0])); body = inner[1]
        # flatten case labels
        groups = []; cur = None
        def lab(s):
            labs = []
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt": labs.append(self.ev(s["inner"][0])); s = s["inner"][-1]
                else: labs.append(None); s = s["inner"][-1]
            return labs, s
        for s in body.get("inner", []):
            if s["kind"] in ("CaseStmt", "DefaultStmt"):
                labs, s2 = lab(s); groups.append([labs, [s2]])
            else:
                if not groups: raise XErr("statement before case")
                groups[-1][1].append(s)
        def ends(ss):
            s = ss[-1]
            if s["kind"] == "CompoundStmt" and s.get("inner"): return ends(s["inner"])
            return s["kind"] in ("BreakStmt", "ReturnStmt")
        for labs, ss in groups[:-1]:
            if not ends(ss): raise XErr("case fall-through")
        default = None; first = True
        def br(ss):
            sv = dict(self.env)
            def b():
                s2 = ss[:-1] if ss[-1]["kind"] == "BreakStmt" else ss
                for s in s2:
                    if s["kind"] == "CompoundStmt":
                        for x in s.get("inner", []):
                            if x["kind"] == "BreakStmt": break
                            self.stmt(x)
                    else: self.stmt(s)
                return "()"
            l, v = self.captured(b); self.env = sv
            return l
        chain = []
        for labs, ss in groups:
            if None in labs: default = (labs, ss); continue
            chain.append((" || ".join("%s = %s" % (e, x) for x in labs), ss))
        for i, (c, ss) in enumerate(chain):
            self.emit("%sif %s then begin" % ("else " if i else "", c)); self.out += br(ss); self.emit("  () end")
        if default:
            if chain: self.emit("else begin")
            else: self.emit("begin")
            self.out += br(default[1]); self.emit("  () end")
        self.emit(";") if False else self.out.append("  " * self.ind + ";") 
    def st_CXXForRangeStmt(self, n):
        inner = n["inner"]
        # [init?, range, begin, end, cond, inc, var, body]
        ds = [c for c in inner if isinstance(c, dict) and c.get("kind") == "DeclStmt"]
        rng = [d for d in ds if d["inner"][0].get("name", "").startswith("__range")][0]["inner"][0]
        var = ds[-1]["inner"][0]; body = inner[-1]
        rinit = rng["inner"][0]
        def f():
            src = rinit
            self.rangeno += 1
            t = strip_ref(self.P.tyof(rinit))
            mat = self.find_temp_root(rinit)
            if mat == "dangling": self.emit("assert { [@expl:range-for over a destroyed temporary] false };")
            p = self.freeze(self.lv_obj(src))
            ix = self.local("ix", ("int", "i32"))
            if t[0] == "map":
                m = self.atom(self.rd(p)); ks = self.local("keys", ("vec", t[1])); 
                self.emit("let %s = mkeys %s in" % (ks, m))
                self.emit("let ref %s = 0 in" % ix)
                pt = ("tup", (t[1], t[2]))
                def bodyf():
                    w = self.local(var.get("name", "it"), pt)
                    self.emit("let ref %s = { t2_0 = vget %s %s; t2_1 = mat %s (vget %s %s) } in" % (w, ks, ix, m, ks, ix))
                    self.env[var["id"]] = ("path", Path(("var", w), (), pt))
                    n1 = len(self.out)
                    self.stmts_of(body)
                    # a reference to an element that is only read is as good as a copy: the map does not change meanwhile
                    if self.P.tyof(var)[0] == "ref" and (w in self.passed or re.search(r"(?<![\w'])%s <-" % re.escape(w), "\n".join(self.out[n1:]))): raise XErr("range-for by reference over a map whose elements are written")
                self.guard_loop(lambda: "(%s < vlen %s)" % (ix, ks), bodyf, lambda: self.emit("%s <- %s + 1;" % (ix, ix)), p)
            elif t[0] == "vec":
                vt = self.P.tyof(var)
                byref = vt[0] == "ref"
                self.emit("let ref %s = 0 in" % ix)
                if not byref or p.root[0] == "val":
                    rg = self.local("rng", t); self.emit("let %s = %s in" % (rg, self.rd(p)))
                    def bodyf():
                        et = t[1]
                        if byref:
                            self.env[var["id"]] = ("path", Path(("val", "(vget %s %s)" % (rg, ix)), (), et))
                        else:
                            if is_handle(et): raise XErr("range-for over handles")
                            w = self.local(var.get("name", "it"), et)
                            self.emit("let ref %s = vget %s %s in" % (w, rg, ix))
                            self.env[var["id"]] = ("path", Path(("var", w), (), et))
                        self.stmts_of(body)
                    self.guard_loop(lambda: "(%s < vlen %s)" % (ix, rg), bodyf, lambda: self.emit("%s <- %s + 1;" % (ix, ix)), p)
                else:
                    rg = self.local("rng", t); self.emit("let %s = %s in" % (rg, self.rd(p)))
                    def bodyf():
                        self.env[var["id"]] = ("path", p.plus(("idx", ix), t[1]))
                        self.stmts_of(body)
                    self.nextctr = ix
                    self.loop(lambda: "(%s < vlen %s)" % (ix, self.rd(p)), bodyf, lambda: self.emit("%s <- %s + 1;" % (ix, ix)))
            else: raise XErr("range-for over %r" % (t,))
        self.scoped(f)
    def guard_loop(self, cond, body, inc, p):
        """the container must not be written by the body (iterators stay valid)"""
        m = re.match(r"\((\w+) <", cond()); self.nextctr = m.group(1) if m else None
        n0 = len(self.out)
        self.loop(cond, body, inc)
        if p.root[0] == "val": return
        txt = "\n".join(self.out[n0:])
        if p.root[0] == "var" and re.search(r"(?<![\w'])%s <-" % re.escape(p.root[1]), txt):
            # a write to the same root: accept only writes to other fields
            for m in re.finditer(r"(?<![\w'])%s <- \{ %s with (\w+) =" % (re.escape(p.root[1]), re.escape(p.root[1])), txt):
                if not p.steps or p.steps[0] == ("fld", m.group(1)): raise XErr("container changed while iterating")
            if len(re.findall(r"(?<![\w'])%s <-" % re.escape(p.root[1]), txt)) != len(re.findall(r"(?<![\w'])%s <- \{ %s with" % (re.escape(p.root[1]), re.escape(p.root[1])), txt)):
                raise XErr("container changed while iterating")
        if p.root[0] == "heap" and re.search(r"h_%s <-" % p.root[1], txt): raise XErr("container changed while iterating")
    def find_temp_root(self, n):
        """C++11 range-for: a reference bound to part of a temporary dangles unless the temporary itself is bound"""
        x = n
        if x["kind"] == "ExprWithCleanups": x = x["inner"][0]
        if x["kind"] == "MaterializeTemporaryExpr": return "extended"
        # walk lvalue chain: a member/element of a temporary object
        def temp(y):
            k = y["kind"]
            if k in ("ParenExpr", "ExprWithCleanups"): return temp(y["inner"][0])
            if k == "ImplicitCastExpr": return temp(y["inner"][0])
            if k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): return True
            if k == "MemberExpr": return False if y.get("isArrow") else temp(y["inner"][0])
            if k == "CXXOperatorCallExpr":
                op = self.stl_name(y)
                if op in ("[]",): return temp(y["inner"][1])
                return False
            if k == "CXXMemberCallExpr":
                m = self.strip(y["inner"][0])
                if m.get("isArrow"): return False
                return temp(m["inner"][0])
            return False
        return "dangling" if temp(x) else None

    # ---------------------------------------------------------- whole function
    def run(self):
        f, E = self.f, self.E
        self.env = {}; self.refparams = [None] * len(f.params)
        self.thisobj = None
        if f.cls is not None and not f.static and f.kind != "CXXConstructorDecl":
            if f.cls[1] in HANDLE: self.thisobj = Path(("heap", self.heapof(f.cls), "this"), (), f.cls)
            else:
                e = E.eff.get(f.key)
                if e and e.pthis: self.thisobj = Path(("heap", self.heapof(f.cls), "this"), (), f.cls)
                else: self.thisobj = Path(("var", "this"), (), f.cls)
        c = E.contract(f) or {}
        names = c.get("params")
        assigned = assigned_params(f)
        self.pnames = []; self.ptypes = []
        for i, p in enumerate(f.params):
            t = self.P.tyof(p)
            nm = names[i] if names and i < len(names) else "a_" + p.get("name", "arg%d" % i)
            self.pnames.append(nm); self.ptypes.append(t)
            if t[0] == "ref":
                if is_handle(t[1]):
                    self.env[p["id"]] = ("path", Path(("heap", self.heapof(t[1]), nm), (), t[1]))
                else:
                    self.refparams[i] = nm
                    self.env[p["id"]] = ("path", Path(("var", nm), (), t[1]))
            elif is_handle(t):
                self.env[p["id"]] = ("path", Path(("heap", self.heapof(t), nm), (), t))
            else:
                if p["id"] in assigned:
                    w = self.local(p.get("name", "arg"), t)
                    self.emit("let ref %s = %s in" % (w, nm))
                    self.env[p["id"]] = ("path", Path(("var", w), (), t))
                else: self.env[p["id"]] = ("path", Path(("var", nm), (), t))
        self.isctor = f.kind == "CXXConstructorDecl"
        self.rt = self.ret_type(f)
        isvoid = not self.isctor and f.qt[:f.qt.index("(")].strip() == "void"
        self.isvoid = isvoid
        if self.isctor:
            self.result = self.ctor_body(f, f.cls)
        else:
            if self.ret_ref(f): 
                raise XErr("function returning a reference")
            self.retmode = ("top",); self.rettype = self.rt
            st = [s for s in f.body.get("inner", []) if s["kind"] != "NullStmt"]
            if st and st[-1]["kind"] == "ReturnStmt" and st[-1].get("inner") and not isvoid:
                for s in st[:-1]: self.stmt(s)
                self.result = self.ret_value(st[-1]["inner"][0])
            else:
                for s in st: self.stmt(s)
                self.result = "()" if isvoid else "absurd"
        return self

def subst(t, sub):
    if t[0] == "var": return sub.get(t[1], t)
    if t[0] in ("vec", "ptr", "ref"): return (t[0], subst(t[1], sub))
    if t[0] == "map": return ("map", subst(t[1], sub), subst(t[2], sub))
    if t[0] == "cls": return ("cls", t[1], tuple(subst(a, sub) for a in t[2]))
    if t[0] == "tup": return ("tup", tuple(subst(a, sub) for a in t[1]))
    return t

def count_returns(n):
    if n.get("kind") == "LambdaExpr": return 0
    c = 1 if n.get("kind") == "ReturnStmt" else 0
    for x in n.get("inner", []):
        if isinstance(x, dict): c += count_returns(x)
    return c

def assigned_params(f):
    ids = {p["id"] for p in f.params}; out = set()
    def base(n):
        while n.get("kind") in ("ParenExpr", "ImplicitCastExpr"): n = n["inner"][0]
        return n
    def w(n):
        k = n.get("kind")
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "=") or (k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
            b = base(n["inner"][0])
            if b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] in ids: out.add(b["referencedDecl"]["id"])
        elif k == "CXXOperatorCallExpr" and len(n["inner"]) > 1:
            c = base(n["inner"][0]).get("referencedDecl", {}).get("name", "")
            if c in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator[]", "operator()"):
                for b in _bases(n["inner"][1]):
                    if b in ids: out.add(b)
        elif k == "CXXMemberCallExpr":
            m = base(n["inner"][0])
            if m.get("kind") == "MemberExpr" and m.get("name") in ("push_back", "clear", "erase", "insert", "resize", "assign", "pop_back", "emplace_back"):
                for b in _bases(m["inner"][0]):
                    if b in ids: out.add(b)
        for c in n.get("inner", []):
            if isinstance(c, dict): w(c)
    def _bases(n):
        n = base(n)
        while True:
            if n.get("kind") == "DeclRefExpr": return [n["referencedDecl"]["id"]]
            if n.get("kind") == "MemberExpr" and not n.get("isArrow"): n = base(n["inner"][0]); continue
            if n.get("kind") == "CXXOperatorCallExpr" and len(n["inner"]) > 1: n = base(n["inner"][1]); continue
            return []
    if f.body: w(f.body)
    return out
