"""Front end: clang AST (JSON) of every /repo source file -> tables of classes,
functions and types.  Nothing here is hand-copied from the code under test."""
import json, os, re, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

class XErr(Exception):
    """Construct outside the supported C++ subset."""

REPO = os.environ.get("VT_REPO", "/repo")
SRC = "src/lpaggreg"

# ---------------------------------------------------------------- types
INTS = {"int": "i32", "unsigned int": "u32", "unsigned": "u32", "long": "i64",
        "unsigned long": "u64", "long long": "i64", "unsigned long long": "u64",
        "short": "i16", "unsigned short": "u16", "char": "i8", "signed char": "i8",
        "unsigned char": "u8", "size_t": "u64", "std::size_t": "u64",
        "size_type": "u64", "difference_type": "i64"}
RANGE = {"i8": (-2**7, 2**7-1), "u8": (0, 2**8-1), "i16": (-2**15, 2**15-1), "u16": (0, 2**16-1),
         "i32": (-2**31, 2**31-1), "u32": (0, 2**32-1), "i64": (-2**63, 2**63-1), "u64": (0, 2**64-1)}
REALS = {"float", "double", "long double", "lp_quality_type"}

def is_int(t): return t[0] == "int"
def is_real(t): return t[0] == "real"

_tok = re.compile(r"\s*([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_~][A-Za-z_0-9]*)*|\d+\w*|<|>|,|\*|&&|&|\(|\)|\[|\]|::|\.\.\.)")

def _tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = _tok.match(s, i)
        if not m:
            raise XErr("type: cannot read %r" % s)
        out.append(m.group(1)); i = m.end()
    return out

class _TP:
    def __init__(self, toks, typedefs): self.t, self.i, self.td = toks, 0, typedefs
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): x = self.peek(); self.i += 1; return x
    def parse(self):
        words = []
        while self.peek() in ("const", "volatile", "class", "struct", "typename", "enum"): self.next()
        while self.peek() and re.match(r"(?:unsigned|signed|long|int|short|char|float|double|bool|void)$", self.peek()):
            words.append(self.next())
            while self.peek() in ("const", "volatile"): self.next()
        if words:
            base = " ".join(words)
            if base == "long int": base = "long"
            if base == "unsigned long int" or base == "long unsigned int": base = "unsigned long"
            if base in INTS: t = ("int", INTS[base])
            elif base in REALS: t = ("real", base)
            elif base == "bool": t = ("bool",)
            elif base == "void": t = ("void",)
            else: raise XErr("type " + base)
        else:
            name = self.next()
            if name is None: raise XErr("empty type")
            args = None
            if self.peek() == "<":
                self.next(); args = []
                while self.peek() != ">":
                    if re.match(r"\d", self.peek() or ""):
                        args.append(("num", self.next()))
                    else:
                        args.append(self.parse())
                    if self.peek() == ",": self.next()
                self.next()
                if self.peek() == "::":       # member of a template: Foo<..>::bar
                    path = []
                    while self.peek() == "::":
                        self.next(); path.append(self.next())
                    t = self.member(name, args, path)
                    return self.suffix(t)
            t = self.named(name, args)
        return self.suffix(t)
    def suffix(self, t):
        while self.peek() in ("*", "&", "&&", "const", "volatile"):
            x = self.next()
            if x == "*": t = ("ptr", t)
            elif x in ("&", "&&"): t = ("ref", t)
        if self.peek() in ("(", "["):
            raise XErr("function/array type")
        return t
    def member(self, name, args, path):
        n = name.split("::")[-1]; p = path[-1]
        if n in ("vector", "list"):
            if p in ("value_type",): return args[0]
            if p in ("iterator", "const_iterator"): return ("vit", ("vec", args[0]))
            if p in ("size_type",): return ("int", "u64")
            if p in ("reference", "const_reference"): return ("ref", args[0])
        if n == "map":
            if p == "mapped_type": return args[1]
            if p == "key_type": return args[0]
            if p in ("iterator", "const_iterator"): return ("mit", ("map", args[0], args[1]))
        if n in ("__shared_ptr_access", "shared_ptr") and p == "element_type": return args[0]
        if n == "__alloc_traits" and p == "value_type": return args[-1] if args[-1][0] != "alloc" else args[-1][1]
        raise XErr("member type %s<>::%s" % (name, "::".join(path)))
    def named(self, name, args):
        n = re.sub(r"^(std|lpaggreg|__gnu_cxx|__cxx11)::", "", name)
        n = re.sub(r"^(__cxx11)::", "", n)
        if args is None:
            if name in INTS: return ("int", INTS[name])
            if n in INTS: return ("int", INTS[n])
            if n in REALS: return ("real", "long double" if n == "lp_quality_type" else n)
            if n == "_Bit_reference": return ("bool",)
            if n == "_Bit_iterator" or n == "_Bit_const_iterator": return ("vit", ("vec", ("bool",)))
            if n == "nullptr_t": return ("nullptr",)
            if n == "ostream": return ("cls", "ostream", ())
            if n in self.td: return self.td[n]
            return ("cls", n, ())
        if n in ("vector", "list"): return ("vec", args[0])
        if n == "allocator": return ("alloc", args[0])
        if n in ("less",): return ("cmp",)
        if n == "map": return ("map", args[0], args[1])
        if n in ("shared_ptr",): return ("ptr", args[0])
        if n in ("__shared_ptr_access", "__shared_ptr"): return ("ptr", args[0])
        if n == "tuple": return ("tup", tuple(args))
        if n == "pair": return ("tup", tuple(args))
        if n == "__normal_iterator": return ("vit", args[1])
        if n in ("_List_iterator", "_List_const_iterator"): return ("vit", ("vec", args[0]))
        if n in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
            return ("mit", ("map", args[0][1][0], args[0][1][1]))
        if n == "initializer_list": return ("il", args[0])
        return ("cls", n, tuple(args))

def parse_type(s, typedefs={}):
    p = _TP(_tokens(s), typedefs)
    t = p.parse()
    if p.peek() is not None:
        raise XErr("type: trailing %r in %r" % (p.peek(), s))
    return t

def strip_ref(t): return t[1] if t[0] == "ref" else t

# ---------------------------------------------------------------- AST loading
_dec = json.JSONDecoder()

def _run_clang(path, filt, repo):
    inc = os.path.join(repo, SRC, "headers")
    cmd = ["/usr/bin/clang++", "-std=gnu++11", "-I" + inc, "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise XErr("clang failed on %s: %s" % (path, r.stderr[:2000]))
    s, i, out = r.stdout, 0, []
    n = len(s)
    while i < n:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        if s.startswith("Dumping", i):
            i = s.index("\n", i); continue
        o, i = _dec.raw_decode(s, i)
        out.append(o)
    return out

def reprefix(n, pre):
    """node ids of a separate clang run get a name space of their own (they are addresses)"""
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, str) and v.startswith("0x") and (k == "id" or k.endswith("Id") or k == "referencedMemberDecl" or k == "previousDecl"): n[k] = pre + v
            elif isinstance(v, (dict, list)): reprefix(v, pre)
    elif isinstance(n, list):
        for v in n: reprefix(v, pre)

class Fn:
    __slots__ = ("key", "mangled", "name", "cls", "params", "ret", "body", "inits", "const", "static", "virtual",
                 "pure", "tu", "kind", "defaults", "implicit", "defaulted", "qt", "file", "line", "internal")
    def __repr__(self): return "<Fn %s>" % self.key

class Cls:
    __slots__ = ("name", "tparams", "fields", "bases", "node", "tu")

class TU:
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.ids = {}
        self.extra = {}
        self.docs = _run_clang(path, "lpaggreg", repo)

class Program:
    def __init__(self, repo=None, files=None):
        self.repo = repo or REPO
        d = os.path.join(self.repo, SRC)
        self.files = []
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith((".cpp", ".cc", ".cxx")): self.files.append(os.path.join(root, f))
        self.files.sort()
        self.fns = {}       # mangled -> Fn (definition preferred)
        self.classes = {}   # name -> Cls
        self.typedefs = {}
        self.bykey = {}
        self.odd = {}       # classes whose copies or destruction are not memberwise -> why
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda p: TU(p, self.repo), self.files))
        for tu in self.tus: self._typedefs_of(tu)
        for tu in self.tus:
            for doc in tu.docs: self._index(tu, doc, None)
        # classes declared outside the namespace that are used as bases
        for n in list(self.classes):
            for b in self.classes[n].bases:
                if b[0] == "cls" and b[1] not in self.classes:
                    tu = self.classes[n].tu
                    for doc in _run_clang(tu.path, b[1], self.repo):
                        if doc.get("name") == b[1] and doc["kind"] == "CXXRecordDecl": self._index(tu, doc, None)
        self._demangle()
        self._copies()

    # ---- copies: the translation copies records memberwise
    def _copies(self):
        for f in self.fns.values():
            if f.implicit or f.defaulted or not f.cls or len(f.params) != 1: continue
            if f.kind != "CXXConstructorDecl" and f.name != "operator=": continue
            try:
                t = self.tyof(f.params[0])
                if "&" not in f.params[0]["type"]["qualType"] or strip_ref(t)[:2] != ("cls", f.cls[1]): continue
            except XErr: continue
            if f.kind != "CXXConstructorDecl": self.odd.setdefault(f.cls[1], "copy assignment of its own")
            elif not self._memberwise(f): self.odd.setdefault(f.cls[1], "copy constructor that is not memberwise")
    def _memberwise(self, f):
        if f.body is None or f.body.get("inner"): return False
        c = self.classes.get(f.cls[1]); arg = f.params[0]["id"]; seen = set()
        if c is None or c.bases: return False
        for i in f.inits:
            fld = (i.get("anyInit") or {}).get("name"); x = i.get("inner", [None])[0]
            while isinstance(x, dict) and x.get("kind") in ("ImplicitCastExpr", "ExprWithCleanups", "ParenExpr", "CXXConstructExpr", "MaterializeTemporaryExpr") and len(x.get("inner", [])) == 1: x = x["inner"][0]
            if not isinstance(x, dict) or x.get("kind") != "MemberExpr" or x.get("name") != fld: return False
            b = x["inner"][0]
            if b.get("kind") != "DeclRefExpr" or b["referencedDecl"]["id"] != arg: return False
            seen.add(fld)
        return seen == {n for n, _ in c.fields}

    # ---- indexing
    def _typedefs_of(self, tu):
        def walk(n):
            if isinstance(n, dict):
                t = n.get("type")
                if isinstance(t, dict) and "desugaredQualType" in t:
                    q = re.sub(r"^const |[ &*]+$", "", t["qualType"])
                    d = re.sub(r"^const |[ &*]+$", "", t["desugaredQualType"])
                    if re.match(r"^[A-Za-z_]\w*$", q) and q not in self.typedefs and q not in INTS and q not in REALS and q not in ("auto", "element_type", "value_type", "reference", "const_reference", "iterator", "mapped_type", "size_type", "key_type", "const_iterator", "_Self", "allocator_type", "nullptr_t", "_Bit_reference", "__ostream_type"):
                        try: self.typedefs[q] = parse_type(d, {})
                        except XErr: pass
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        for d in tu.docs: walk(d)

    def ty(self, s): return parse_type(s, self.typedefs)

    def tyof(self, n):
        t = n.get("type", {})
        q = t.get("desugaredQualType") or t.get("qualType")
        try:
            return self.ty(q)
        except XErr:
            if t.get("qualType") and t.get("qualType") != q: return self.ty(t["qualType"])
            raise

    def _clsname(self, n):
        name = n.get("name")
        if n["kind"] == "ClassTemplateSpecializationDecl":
            args = []
            for a in n.get("inner", []):
                if a.get("kind") == "TemplateArgument":
                    args.append(self.ty(a["type"].get("desugaredQualType") or a["type"]["qualType"]))
            return ("cls", name, tuple(args))
        return ("cls", name, ())

    def _index(self, tu, n, cls, intmpl=False):
        if not isinstance(n, dict): return
        k = n.get("kind")
        if "id" in n:
            old = tu.ids.get(n["id"])
            if old is None or (old[0].get("inner") is None and n.get("inner")):
                tu.ids[n["id"]] = (n, cls, intmpl)
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in n.get("inner", []): self._index(tu, c, cls, intmpl)
        elif k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    self._index_class(tu, c, template=[x["name"] for x in n["inner"] if x.get("kind") == "TemplateTypeParmDecl"])
                elif c.get("kind") == "ClassTemplateSpecializationDecl":
                    self._index_class(tu, c)
        elif k == "CXXRecordDecl" or k == "ClassTemplateSpecializationDecl":
            self._index_class(tu, n)
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
            if not intmpl: self._index_fn(tu, n, cls)
        elif k == "FunctionTemplateDecl":       # its instantiations (the pattern has no mangled name)
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl"): self._index(tu, c, cls, intmpl)
        elif k == "VarDecl":
            pass
        elif k == "CXXDestructorDecl":
            c = cls
            if c is None and n.get("parentDeclContextId") in tu.ids: c = tu.ids[n["parentDeclContextId"]][1]
            if c and any(x.get("kind") == "CompoundStmt" and x.get("inner") for x in n.get("inner", [])): self.odd[c[1]] = "destructor with a body"
        elif k == "FriendDecl":
            for c in n.get("inner", []): self._index(tu, c, None, intmpl)

    def _index_class(self, tu, n, template=None):
        ct = self._clsname(n)
        tu.ids[n["id"]] = (n, ct, bool(template))
        isspec = n["kind"] == "ClassTemplateSpecializationDecl"
        if n.get("completeDefinition") and not isspec:
            c = Cls(); c.name = n["name"]; c.tparams = template or []; c.node = n; c.tu = tu
            c.fields = []; c.bases = []
            td = dict(self.typedefs)
            for i, p in enumerate(c.tparams): td[p] = ("var", p)
            for b in n.get("bases", []):
                c.bases.append(parse_type(b["type"].get("desugaredQualType") or b["type"]["qualType"], td))
            for f in n.get("inner", []):
                if f.get("kind") == "FieldDecl":
                    t = f["type"]
                    try:
                        ft = parse_type(t.get("desugaredQualType") or t["qualType"], td)
                    except XErr:
                        ft = parse_type(t["qualType"], td)
                    c.fields.append((f["name"], ft))
            if c.name not in self.classes: self.classes[c.name] = c
        for f in n.get("inner", []):
            if isinstance(f, dict): self._index(tu, f, ct, bool(template))

    def _index_fn(self, tu, n, cls):
        m = n.get("mangledName")
        if not m: return
        if n.get("parentDeclContextId") and cls is None:
            pc = tu.ids.get(n["parentDeclContextId"])
            if pc and pc[1] and pc[0]["kind"] in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                cls = pc[1]
                if pc[2]: return       # member of the template pattern itself
            elif pc and pc[0]["kind"] == "CXXRecordDecl": cls = pc[1]
            tu.ids[n["id"]] = (n, cls, False)
        body = None; params = []; inits = []
        for c in n.get("inner", []):
            if c.get("kind") == "ParmVarDecl": params.append(c)
            elif c.get("kind") == "CompoundStmt": body = c
            elif c.get("kind") == "CXXCtorInitializer": inits.append(c)
        internal = n.get("storageClass") == "static" and cls is None
        key = m + ("@" + tu.path if internal or "_GLOBAL__N" in m else "")
        old = self.fns.get(key)
        if old is not None and (old.body is not None or body is None):
            # keep default args from declaration
            for i, p in enumerate(params):
                if p.get("inner") and i < len(old.defaults) and old.defaults[i] is None: old.defaults[i] = (tu, p["inner"][0])
            if old.body is None and n.get("pure"): old.pure = True
            return
        f = Fn(); f.mangled = m; f.name = n.get("name"); f.cls = cls; f.params = params; f.body = body; f.inits = inits
        f.qt = n["type"]["qualType"]
        f.tu = tu; f.kind = n["kind"]; f.static = n.get("storageClass") == "static" and cls is not None
        f.virtual = bool(n.get("virtual")); f.pure = bool(n.get("pure"))
        f.const = bool(re.search(r"\)\s*const\b", f.qt)); f.defaulted = n.get("explicitlyDefaulted") == "default"
        f.implicit = bool(n.get("isImplicit")) or f.defaulted
        f.defaults = [((tu, p["inner"][0]) if p.get("inner") else None) for p in params]
        f.internal = internal
        f.file = tu.path
        loc = n.get("loc", {})
        f.line = loc.get("line") or loc.get("expansionLoc", {}).get("line")
        if old is not None:
            for i, dd in enumerate(old.defaults):
                if i < len(f.defaults) and f.defaults[i] is None: f.defaults[i] = dd
            f.virtual = f.virtual or old.virtual
        self.fns[key] = f
        f.key = key

    def _demangle(self):
        ms = sorted({f.mangled for f in self.fns.values()})
        out = subprocess.run(["c++filt", "-p"] if False else ["c++filt"], input="\n".join(ms) + "\n", stdout=subprocess.PIPE, text=True).stdout.split("\n")
        dm = dict(zip(ms, out))
        for k, f in self.fns.items():
            f.key = canon_name(dm[f.mangled])
            if f.cls and not f.cls[2] and f.key.startswith(f.cls[1] + "<"):
                f.cls = self.ty(_cls_prefix(dm[f.mangled]))
            prev = self.bykey.get(f.key)
            if prev is None or (prev.body is None and f.body is not None): self.bykey[f.key] = f

    # ---- on-demand lookups
    def extra(self, tu, name, kinds):
        """global (non-namespace) function / variable named exactly `name` visible in this TU"""
        if name not in tu.extra:
            docs = _run_clang(tu.path, name, self.repo)
            found = []
            for d in docs:
                if d.get("name") == name and d.get("kind") in ("FunctionDecl", "VarDecl", "CXXMethodDecl"):
                    reprefix(d, name + ":")
                    found.append(d)
                    tu.ids[d["id"]] = (d, None, False)
            tu.extra[name] = found
        return [d for d in tu.extra[name] if d["kind"] in kinds]

    def global_fn(self, tu, name, qt):
        """a function outside lpaggreg, by name and type"""
        for t in [tu] + [x for x in self.tus if x is not tu and not self._is_sys(name)]:
            c = [d for d in self.extra(t, name, ("FunctionDecl",)) if d["type"]["qualType"] == qt]
            for d in c:
                if self._sysloc(d): continue
                self._index_fn(t, d, None)
            for k, f in list(self.fns.items()):
                if f.name == name and f.qt == qt and f.cls is None and f.body is not None and (not f.internal or f.tu is tu):
                    if f.key == k or not f.key or "(" not in f.key:
                        f.key = canon_name(subprocess.run(["c++filt", f.mangled], stdout=subprocess.PIPE, text=True).stdout.strip())
                        self.bykey.setdefault(f.key, f)
                    return f
        return None
    def load_globals(self, keys):
        """functions outside namespace lpaggreg that a contract names (looked up on demand)"""
        for k in keys:
            if k in self.bykey or "::" in k.split("(")[0] or not re.match(r"[A-Za-z_]\w*\(", k): continue
            name = k.split("(")[0]
            for tu in self.tus:
                try: src = open(tu.path).read()
                except OSError: continue
                if not re.search(r"\b%s\s*\(" % name, src): continue
                for d in self.extra(tu, name, ("FunctionDecl",)):
                    if not self._sysloc(d): self._index_fn(tu, d, None)
            for kk, f in list(self.fns.items()):
                if f.name == name and f.cls is None and f.body is not None:
                    f.key = canon_name(subprocess.run(["c++filt", f.mangled], stdout=subprocess.PIPE, text=True).stdout.strip())
                    self.bykey.setdefault(f.key, f)
    def _is_sys(self, name): return False
    def _sysloc(self, d):
        def fl(x):
            if not isinstance(x, dict): return ""
            return x.get("file") or fl(x.get("expansionLoc")) or fl(x.get("includedFrom")) or ""
        f = d.get("loc", {}).get("file", "") or d.get("loc", {}).get("expansionLoc", {}).get("file", "")
        return f.startswith("/usr/")

def _cls_prefix(s):
    # class part of a demangled member name with template arguments
    d = 0
    for i, c in enumerate(s):
        if c == "<": d += 1
        elif c == ">": d -= 1
        if d == 0 and c == ">": return s[:i+1]
    raise XErr("class of " + s)

def canon_name(s):
    s = s.replace("lpaggreg::", "").replace("std::", "").replace("__cxx11::", "")
    s = s.replace("(anonymous namespace)::", "")
    s = re.sub(r"\[abi:\w+\]", "", s)
    # drop allocator / comparator arguments
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r", allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>\s*)?>\s*)?>\s*)?>\s*", "", s)
        s = re.sub(r", less<[^<>]*>\s*", "", s)
    s = re.sub(r"\s+>", ">", s)
    s = re.sub(r"\s+const$", "", s)
    return s
