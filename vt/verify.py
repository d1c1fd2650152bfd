"""Assembles, per C++ function, a WhyML module from its extracted body and its contract, and has
every verification condition discharged."""
import os, re, json, subprocess, sys, time, shutil, concurrent.futures as cf
import cxx, emit, smt
from cxx import XErr
HERE = os.path.dirname(os.path.abspath(__file__))
WHY = os.path.join(HERE, "why")
DRV = os.path.join(HERE, "vt.drv")
COLLECT = os.path.join(HERE, "collect.sh")
DRV2 = os.path.join(HERE, "vt2.drv")      # without why3's removal of unused symbols, for the files on which that step fails

class BadContract(Exception): pass

def why3conf(d):
    p = os.path.join(d, "why3.conf")
    open(p, "w").write('[main]\nmagic = 14\nmemlimit = 2000\nrunning_provers_max = 1\ntimelimit = 1.0\n[prover]\nname = "Dummy"\nversion = "1"\ncommand = "/bin/true %%f"\ndriver = "%s"\n' % DRV)
    return p

def ann(kind, name, f, extra=""):
    return '%s { [@expl:%s] %s }' % (kind, name.replace("]", ")").replace("[", "("), f)

class Gen:
    def __init__(self, prog, contracts, roles, work, lemmas=None):
        self.P, self.C, self.work = prog, contracts, work
        self.roles = roles or {}
        self.env = emit.Env(prog, contracts, self.roles)
        self.env.alias.update(self.roles_alias())
        self.types = self.env.types_module()
        self.notes = []
        self.lemmas = lemmas or {}
    def roles_alias(self):
        """functions whose canonical key is gone but which match a renamed private member"""
        return {}
    # -------------------------------------------------- signatures
    def sig(self, f, e, c, heaps):
        """parameter list text of function f"""
        E = self.env; ps = []
        names = c.get("params")
        isctor = f.kind == "CXXConstructorDecl"
        if f.pure and f.cls:
            ps.append("(this: %s)" % E.hty(f.cls))
        elif f.cls is not None and not f.static and not isctor:
            if f.cls[1] in emit.HANDLE or e.pthis: ps.append("(this: int)")
            elif e.thismut: ps.append("(ref this: %s)" % E.wty(f.cls))
            else: ps.append("(this: %s)" % E.wty(f.cls))
        for i, p in enumerate(f.params):
            t = E.P.tyof(p)
            nm = names[i] if names and i < len(names) else "a_" + p.get("name", "arg%d" % i)
            if t[0] == "ref" and not emit.is_handle(t[1]) and i in e.refmut: ps.append("(ref %s: %s)" % (nm, E.wty(t[1])))
            else: ps.append("(%s: %s)" % (nm, E.wty(t)))
        if not ps: ps = ["()"]
        return " ".join(ps)
    def rty(self, f):
        if f.kind == "CXXConstructorDecl": return self.env.wty(f.cls)
        r = f.qt[:f.qt.index("(")].strip()
        return "unit" if r == "void" else self.env.wty(emit.strip_ref(self.P.ty(r)))
    def intrange(self, f, c):
        """machine ranges of integer parameters, assumed at entry (they hold for every C++ call)"""
        out = []; names = c.get("params")
        for i, p in enumerate(f.params):
            t = self.P.tyof(p)
            nm = names[i] if names and i < len(names) else "a_" + p.get("name", "arg%d" % i)
            if t[0] == "int":
                lo, hi = cxx.RANGE[t[1]]
                out.append("%s <= %s <= %s" % (lo if lo >= 0 else "(%d)" % lo, nm, hi))
            if t == ("real", "float") and c.get("flt"): out.append("is_flt %s" % nm)
        return out
    def frames(self, f, e, c, at):
        """automatic frame conditions; at(x) renders the pre-state of x"""
        out = []
        mod = c.get("modifies", {})
        for h in sorted(e.hw):
            out.append(("frame-alloc " + h, "n_%s >= %s" % (h, at("n_" + h))))
            if mod.get(h) == "any": continue
            ex = mod.get(h)
            out.append(("frame " + h, "forall p_:int. 0 < p_ < %s -> %sh_%s[p_] = %s[p_]" % (at("n_" + h), "not (%s) -> " % at.sub(ex) if ex else "", h, at("h_" + h))))
        if f.kind != "CXXConstructorDecl" and f.cls and f.cls[1] not in emit.HANDLE and not e.pthis and e.thismut and "this_mod" in c:
            out += self.thisframe(f.cls[1], c["this_mod"], "this", at("this"))
        return out
    def thisframe(self, cls, keep_out, a, b, pre=""):
        out = []
        K = self.P.classes[cls]
        fields = []
        for bb in K.bases:
            fields.append(("%s_base" % emit.fpre(cls), bb[1]))
        for fl, _ in K.fields: fields.append(("%s_%s" % (emit.fpre(cls), self.env.fieldname[(cls, fl)]), None))
        for fn, base in fields:
            if fn in keep_out: continue
            if base and any(x.startswith(emit.fpre(base) + "_") for x in keep_out):
                out += self.thisframe(base, keep_out, "%s.%s" % (a, fn), "%s.%s" % (b, fn))
            else: out.append(("frame this." + fn, "%s.%s = %s.%s" % (a, fn, b, fn)))
        return out

    # -------------------------------------------------- generation of one function
    def val(self, f):
        E = self.env; c = E.contract(f); e = E.effects(f)
        lines = []
        isctor = f.kind == "CXXConstructorDecl"
        lines.append("  val %s %s : %s" % (E.why_name(f.key), self.sig(f, e, c, None), self.rty(f)))
        for n, q in c.get("requires", []): lines.append("    " + ann("requires", "precondition %s of %s" % (n, short(f.key)), self.cls_subst(f, q)))
        w = ["h_" + h for h in sorted(e.hw)] + ["n_" + h for h in sorted(e.hw)]
        if e.thismut and not isctor and not (f.cls and f.cls[1] in emit.HANDLE) and not e.pthis: w.append("this")
        names = c.get("params")
        for i in e.refmut:
            w.append(names[i] if names else "a_" + f.params[i].get("name", "arg%d" % i))
        if w: lines.append("    writes { %s }" % ", ".join(w))
        for n, q in c.get("ensures", []): lines.append("    ensures { %s }" % self.cls_subst(f, q))
        for n, q in self.frames(f, e, c, OldAt()): lines.append("    ensures { %s }" % q)
        for q in self.ret_range(f): lines.append("    ensures { %s }" % q)
        return lines
    def ret_range(self, f):
        if f.kind == "CXXConstructorDecl": return []
        r = f.qt[:f.qt.index("(")].strip()
        if r == "void": return []
        t = emit.strip_ref(self.P.ty(r))
        if t[0] != "int": return []
        lo, hi = cxx.RANGE[t[1]]
        return ["%s <= result <= %s" % (lo if lo >= 0 else "(%d)" % lo, hi)]
    def cls_subst(self, f, q): return q
    def roles_for(self, key, ft):
        want = self.roles.get("locals", {}).get(key)
        have = ft.vars
        m = {}
        if want is None:
            for r, t, w in have: m[r] = w
            return m
        left = list(have)
        pending = []
        base = self.roles.get("counters", {}).get(key, []); now = [l["counter"] for l in ft.loops]
        if len(base) == len(now):
            # a loop counts with one variable: the counters of the n-th loops correspond, whatever their name or kind
            for r, w in zip(base, now):
                x = [v for v in left if v[2] == w]
                if r and x and r not in m: m[r] = w; left.remove(x[0])
                elif r and w and r not in m and r.startswith("ix#"): m[r] = w       # an iterator
            # a loop over a range that is now written with an index or an iterator: the range is what the counter is compared with
            for k, (r, w) in enumerate(zip(base, now)):
                if not r or not r.startswith("ix#") or not w: continue
                rg = "rng" + r[2:]
                if any(v[0] == rg for v in have): continue
                l = next((l for l in ft.out if "(*@LOOP %d*)" % (k + 1) in l), "")
                x = re.search(r"\b%s\b.*\(vlen ((?:\([^()]*\)|[\w.'])+)\)" % re.escape(w), l)
                x = x and pure(x.group(1))
                if x: m[rg] = x if re.match(r"[\w.']+$", x) else "(%s)" % x
        want = [x for x in want if x[0] not in m]
        for r, t in want:
            hit = [x for x in left if x[0] == r and x[1] == t]
            if hit: m[r] = hit[0][2]; left.remove(hit[0])
            else: pending.append((r, t))
        for r, t in pending:
            hit = [x for x in left if x[1] == t]
            if hit: m[r] = hit[0][2]; left.remove(hit[0])
        return m
    def subst(self, q, roles):
        missing = []
        def rep(m):
            n = m.group(1)
            if "#" not in n: n += "#1"
            if n not in roles: missing.append(n); return "v__missing__" + n.replace("#", "_")
            return roles[n]
        s = re.sub(r"\$([A-Za-z_]\w*(?:#\d+)?)", rep, q)
        return s, missing
    def ghost(self, x, roles):
        """proof steps; the ones about variables that this source does not have are left out"""
        s, miss = self.subst(x, roles)
        if not miss: return s
        out = []; d = 0; cur = ""; i = 0
        for i, ch in enumerate(s):
            if ch in "([{": d += 1
            elif ch in ")]}": d -= 1
            cur += ch
            if ch == ";" and d == 0: out.append(cur); cur = ""
        out.append(cur)
        def label(p): return "".join(re.findall(r"\blabel \w+ in\b", p)) if p.lstrip().startswith("label") else ""
        return "".join(p if "v__missing__" not in p else label(p) for p in out) if not re.search(r"\blet\b|\bif\b", s) else "".join(label(p) for p in out)
    def function(self, f, weak=None):
        """returns (file text, meta).  weak: names of invariants stated conjunct by conjunct, and of those (n, k) left out"""
        E = self.env
        key = E.alias.get(f.key, f.key)
        c = E.contract(f)
        e = E.effects(f)
        ft = emit.FT(E, f).run()
        if self.P.odd:
            txt = json.dumps([f.body, f.inits, f.params, f.qt, f.cls])
            for o, why in self.P.odd.items():
                if re.search(r"\b%s\b" % o, txt): raise XErr("class %s has a %s" % (o, why))
        heaps = set(ft.usedheaps) | set(e.hw) | set(c.get("heaps", ()))
        calls = [self.P.bykey[k] for k in sorted(ft.calls)]
        for g in calls:
            gc = E.contract(g)
            heaps |= E.effects(g).hw | set(gc.get("heaps", ()))
        texts = [q for _, q in c.get("requires", []) + c.get("ensures", []) + c.get("ensures_local", [])]
        for g in calls: texts += [q for _, q in E.contract(g).get("requires", []) + E.contract(g).get("ensures", [])]
        for k, l in c.get("loops", {}).items(): texts += [q for _, q in l.get("inv", [])] + [l.get(x, "") for x in ("pre", "begin", "end", "post")]
        texts += [c.get("entry", ""), c.get("exit", "")]
        for q in texts:
            for m in re.finditer(r"\b[hn]_([A-Za-z]\w*)\b", q):
                if m.group(1) in self.heaptags(): heaps.add(m.group(1))
        for h in heaps:
            if h not in E.heaps: E.heaps[h] = self.heaptags()[h]
        roles = self.roles_for(key, ft)
        meta = {"key": f.key, "calls": sorted(ft.calls), "inlined": list(ft.inl), "loops": len(ft.loops), "file": f.file, "line": f.line,
                "open": list(c.get("open", ())), "vars": [(r, t) for r, t, w in ft.vars], "dropped": []}
        out = [E.heaps_module(heaps)]
        out.append("module Body")
        for u in ("int.Int", "int.MinMax", "real.RealInfix", "real.FromInt", "map.Map", "cpp.Prelude", "types.Types", "Heaps"): out.append("  use " + u)
        uses = list(c.get("use", []))
        for g in calls:
            for u in E.contract(g).get("use", []):
                if u not in uses: uses.append(u)
        for u in uses: out.append("  use " + u)
        meta["uses"] = uses
        for l in c.get("local_defs", []): out.append("  " + l)
        for g in calls:
            if g.key == f.key and True: 
                continue
            out += self.val(g)
        rec = "rec " if f.key in ft.calls else ""
        out.append("  let %s%s %s : %s" % (rec, E.why_name(f.key), self.sig(f, e, c, None), self.rty(f)))
        for n, q in c.get("requires", []): out.append("    " + ann("requires", "precondition %s of %s" % (n, short(f.key)) , q))
        for q in self.intrange(f, c): out.append("    requires { [@expl:machine range of an argument] %s }" % q)
        for n, q in c.get("ensures", []) + c.get("ensures_local", []): out.append("    " + ann("ensures", n, q))
        for n, q in self.frames(f, e, c, OldAt()): out.append("    " + ann("ensures", n, q))
        if c.get("variant"): out.append("    variant { %s }" % c["variant"])
        if f.key in ft.calls and not c.get("variant"): raise BadContract("recursion without variant: " + key)
        out.append("  = label Pre in")
        if c.get("entry"): out.append(self.ghost(c["entry"], roles))
        body = self.weave(f, e, c, ft, roles, meta, weak or set())
        out += body
        if ft.isvoid or ft.result == "absurd" and not c.get("exit"):
            if ft.result != "absurd":
                if c.get("exit"): out.append("    " + self.ghost(c["exit"], roles))
                out.append("    check { [@expl:GUARD end] false };")
            out.append("    " + ft.result)
        else:
            out.append("    let r__ = %s in" % ft.result)
            if c.get("exit"): out.append("    " + self.ghost(c["exit"], roles))
            out.append("    check { [@expl:GUARD end] false };")
            out.append("    r__")
        out.append("end")
        return "\n".join(out), meta
    def implementations(self, f):
        """the functions that override the virtual function f, in concrete classes"""
        return [g for g in self.P.bykey.values() if not g.pure and g.name == f.name and g.cls and g.cls[1] in self.env.concrete(f.cls[1]) and len(g.params) == len(f.params)]
    def refinement(self, f, g):
        """file that checks an override against the contract of the virtual function, given the override's own contract"""
        E = self.env; c = E.contract(f); gc = E.contract(g)
        if gc is None: raise BadContract("no contract for " + g.key)
        e = E.effects(g); heaps = set(e.hw)
        for q in [q for _, q in c.get("requires", []) + c.get("ensures", []) + gc.get("requires", []) + gc.get("ensures", [])]:
            for m in re.finditer(r"\b[hn]_([A-Za-z]\w*)\b", q):
                if m.group(1) in self.heaptags(): heaps.add(m.group(1))
        for h in heaps:
            if h not in E.heaps: E.heaps[h] = self.heaptags()[h]
        out = [E.heaps_module(heaps), "module Body"]
        uses = list(dict.fromkeys(list(c.get("use", [])) + list(gc.get("use", [])) + list(c.get("refine_use", []))))
        for u in ["int.Int", "int.MinMax", "real.RealInfix", "real.FromInt", "map.Map", "cpp.Prelude", "types.Types", "Heaps"] + uses: out.append("  use " + u)
        out += self.val(g)
        if e.hw or e.thismut: raise BadContract("%s changes its object or the heap" % g.key)
        c2 = dict(gc); c2["params"] = c.get("params") or gc.get("params")
        out.append("  let refine %s : %s" % (self.sig(g, e, c2, None), self.rty(g)))
        w = lambda q: "let this = Dyn_%s this in (%s)" % (g.cls[1], q)
        for n, q in c.get("requires", []): out.append("    requires { %s }" % w(q))
        for q in self.intrange(g, c2): out.append("    requires { %s }" % q)
        for n, q in c.get("ensures", []): out.append("    " + ann("ensures", "%s refines: %s" % (short(g.key), n), w(q)))
        names = c2.get("params") or ["a_" + p.get("name", "arg%d" % i) for i, p in enumerate(g.params)]
        out += ["  = %s check { [@expl:GUARD end] false }; %s this %s" % (c.get("refine_entry", ""), E.why_name(g.key), " ".join(names)), "end"]
        return "\n".join(out), {"key": "%s refines %s" % (g.key, short(f.key)), "calls": [g.key], "inlined": [], "loops": 0, "open": list(c.get("open", ())) + ["ov_wf", "ov_at", "hv_wf", "hv_at", "dv_wf", "dv_at", "dynbase_OValues", "dynbase_HValues", "dynbase_DValues"], "uses": uses, "dropped": []}
    def heaptags(self):
        if not hasattr(self, "_ht"):
            self._ht = {}
            for t in self.P_ptrs():
                try: self._ht[emit.tag(t)] = t
                except XErr: pass
        return self._ht
    def P_ptrs(self):
        out = []
        def w(t):
            if isinstance(t, tuple):
                if t and t[0] == "ptr" and t[1] not in out and t[1][0] != "var": out.append(t[1])
                for x in t: w(x)
        for c in self.P.classes.values():
            for _, t in c.fields: w(t)
        for n in emit.HANDLE: out.append(("cls", n, ()))
        for f in self.P.fns.values():
            for p in f.params:
                try: w(self.P.tyof(p))
                except XErr: pass
        return out
    def weave(self, f, e, c, ft, roles, meta, weak):
        L = ft.out; out = []
        loops = c.get("loops", {})
        # extents of the loops
        begin = {}; end = {}
        for i, l in enumerate(L):
            m = re.search(r"\(\*@LOOP (\d+)\*\)", l)
            if m: begin[int(m.group(1))] = i
            m = re.search(r"\(\*@LOOP-END (\d+)\*\)", l)
            if m: end[int(m.group(1))] = i
        at = PreAt()
        wn = {self.env.why_name(k): k for k in ft.calls}
        def written(k):
            txt = "\n".join(L[begin[k]:end[k] + 1]); hs = set(re.findall(r"\bh_(\w+) <-", txt)) | set(re.findall(r"\balloc_(\w+) ", txt))
            for w, kk in wn.items():
                if re.search(r"\b%s\b" % re.escape(w), txt): hs |= self.env.effects(self.P.bykey[kk]).hw
            return hs, txt
        decl = {}
        for i, l in enumerate(L):
            for m in re.finditer(r"\blet (?:ghost )?(?:ref )?(v_\w+) ", l): decl.setdefault(m.group(1), i)
        def closes(i):
            """the line on which the block of line i ends"""
            d = 0
            for j in range(i, len(L)):
                t = re.sub(r"\{[^{}]*\}", "", L[j])
                if j == i: t = t[t.find("let "):] if "let " in t else t
                for w in re.findall(r"\b(begin|do|end|done)\b", t):
                    d += 1 if w in ("begin", "do") else -1
                    if d < 0: return j
            return len(L)
        last = {w: closes(i) for w, i in decl.items()}
        def scoped(i):
            """the variables of the roles that are in scope at line i"""
            return {r: w for r, w in roles.items() if w not in decl or decl[w] < i and not any(begin[k] < decl[w] < end[k] <= i for k in begin if k in end)}
        def candidates(k, here):
            """invariants tried when those of the contract do not hold on this source: what stays as it was when the loop was entered, and the range of the counter"""
            txt = "\n".join(L[begin[k]:end[k] + 1]); res = []
            scope = [w for w, i in decl.items() if i < begin[k] < last[w]]
            ctrs = [w for w in dict.fromkeys(l["counter"] for l in ft.loops) if w in scope]
            X = {}
            for m in re.finditer(r"\b(v_\w+) <- \(vset (v_\w+) ", txt):
                if m.group(1) == m.group(2) and m.group(1) in scope: X[m.group(1)] = m.group(1)
            for m in re.finditer(r"\bthis <- \{ this with (\w+) = \(vset this\.(\w+) ", txt):
                if m.group(1) == m.group(2): X["this." + m.group(1)] = "this"
            wr = set(re.findall(r"\bthis <- \{ this with (\w+) =", txt))
            if wr and "this <- " not in re.sub(r"\bthis <- \{ this with (\w+) =", "", txt):
                for g in sorted(set(re.findall(r"\bthis\.(\w+)", "\n".join(L))) - wr): res.append("this.%s = (this at LP%d).%s" % (g, k, g))
            own = ft.loops[k - 1]["counter"]
            if own in scope:
                b = self.autovariant(next(l for l in L if "(*@LOOP %d*)" % k in l).replace("(*@LOOP %d*)" % k, "").rstrip(), "", True)
                if b: res += b
            for x, root in X.items():
                old = "(%s at LP%d)%s" % (root, k, x[len(root):])
                res.append("%s.len = %s.len" % (x, old))
                nest = "(vset (vget %s " % x in txt
                for c_ in ctrs:
                    for r in ("<", ">=", ">"): res.append("forall x_:int. 0 <= x_ < %s.len -> x_ %s %s -> %s.elt[x_] = %s.elt[x_]" % (x, r, c_, x, old))
                    if nest: res.append("%s.elt[%s].len = %s.elt[%s].len" % (x, c_, old, c_))
            # filled by position instead of appended to, or the other way round
            if own and own.startswith("v_"):
                cj = [x for n_, q in loops.get(k, {}).get("inv", []) for x in conjuncts(self.subst(q, here)[0]) if "v__missing__" not in x]
                for x in cj:
                    m = re.match(r"([\w.]+)\.len = %s$" % re.escape(own), x)
                    if m: res += [re.sub(r"(?<![\w.])%s\.len\b" % re.escape(m.group(1)), own, y) for y in cj if y != x and re.search(r"(?<![\w.])%s\.len\b" % re.escape(m.group(1)), y)]
                for v_ in dict.fromkeys(re.findall(r"\(vpush ((?:this\.)?\w+) ", txt)):
                    x = "%s.len = %s" % (v_, own)
                    if x not in cj and (v_ in scope or v_.startswith("this.")): res.append(x)
            # an accumulator of the contract that is a local variable here
            fty = {emit.fpre(n_) + "_" + fn_: t_ for n_, cl in self.P.classes.items() for fn_, t_ in cl.fields}
            for n_, q in loops.get(k, {}).get("inv", []):
                for x in conjuncts(self.subst(q, here)[0]):
                    m = re.match(r"(this(?:\.\w+?)*\.(\w+))((?:\.elt\[[^\]]*\])*) = (?!.* = )", x)
                    if not m or "v__missing__" in x or m.group(2) not in fty or re.search(r"\b%s = " % m.group(2), txt): continue
                    t = fty[m.group(2)]
                    for _ in range(m.group(3).count(".elt[")): t = t[1] if t and t[0] == "vec" else None
                    if t is None: continue
                    for v_ in dict.fromkeys(re.findall(r"\b(v_\w+) <- ", txt)):
                        d = decl.get(v_)
                        dm = re.search(r"\blet (?:ghost )?ref %s : (\w+) =" % re.escape(v_), L[d]) if d is not None else None
                        if v_ in scope and v_ not in ctrs and dm and dm.group(1) == self.env.wty(t): res.append("%s = %s" % (v_, x[m.end():]))
            return res
        def others(k):
            """what the contract says of the other loops, said of this one (loops that were exchanged, split or merged)"""
            res = []; own = ft.loops[k - 1]["counter"]
            scope = {w for w, i in decl.items() if i < begin[k] < last[w]}
            mine = {x for n_, q in loops.get(k, {}).get("inv", []) for x in conjuncts(self.subst(q, roles)[0])}
            for k2 in sorted(loops):
                if k2 == k: continue
                c2 = ft.loops[k2 - 1]["counter"] if k2 <= len(ft.loops) else None
                for n_, q in loops[k2].get("inv", []):
                    for x in conjuncts(self.subst(q, roles)[0]):
                        if c2 and own and c2.startswith("v_"): x = re.sub(r"\b%s\b" % re.escape(c2), own, x)
                        if x in mine or x in res or "v__missing__" in x or not set(re.findall(r"\bv_\w+", x)) <= scope | {own}: continue
                        res.append(x)
            return res
        for i, l in enumerate(L):
            if "(*@EXIT*)" in l:        # an early return: the closing steps of the contract apply here too
                if c.get("exit") and self.env.alias.get(f.key, f.key) not in self.roles.get("early", ()):
                    s, miss = self.subst(c["exit"], scoped(i))
                    if not miss: out.append("      " + s)
                continue
            m = re.search(r"\(\*@(LOOP|LOOP-PRE|LOOP-BEGIN|LOOP-END|LOOP-POST) (\d+)\*\)", l)
            if not m: out.append(l); continue
            kind, k = m.group(1), int(m.group(2)); lc = loops.get(k, {})
            if kind == "LOOP":
                out.append(l.replace(m.group(0), ""))
                here = scoped(i)
                for n, q in lc.get("inv", []):
                    s, miss = self.subst(q, here)
                    if "loop %d: %s" % (k, n) in weak or "+" in weak:
                        for ci, x in enumerate(conjuncts(s)):
                            nm = "loop %d: %s, part %d" % (k, n, ci + 1)
                            if nm in weak or any("v__missing__" + y.replace("#", "_") in x for y in miss): meta["dropped"].append((k, n, ci + 1))
                            else: out.append("      " + ann("invariant", nm, x))
                        continue
                    if miss:
                        meta["dropped"].append((k, n, miss))
                        s = " /\\ ".join(x for x in conjuncts(s) if not any("v__missing__" + y.replace("#", "_") in x for y in miss))
                        if not s: continue
                    out.append("      " + ann("invariant", "loop %d: %s" % (k, n), s))
                if "+" in weak:
                    cand = candidates(k, here)
                    if "++" in weak: cand += others(k)
                    for ci, q in enumerate(cand):
                        nm = "loop %d: candidate %d" % (k, ci + 1)
                        if nm not in weak: out.append("      " + ann("invariant", nm, q))
                hs, txt = written(k)
                mod = c.get("modifies", {})
                for h in sorted(hs & set(e.hw)):
                    out.append("      " + ann("invariant", "loop %d: frame-alloc %s" % (k, h), "n_%s >= %s" % (h, at("n_" + h))))
                    if mod.get(h) != "any":
                        ex = mod.get(h)
                        out.append("      " + ann("invariant", "loop %d: frame %s" % (k, h), "forall p_:int. 0 < p_ < %s -> %sh_%s[p_] = %s[p_]" % (at("n_" + h), "not (%s) -> " % at.sub(ex) if ex else "", h, at("h_" + h))))
                if re.search(r"\bthis <-", txt) and "this_mod" in c and f.kind != "CXXConstructorDecl":
                    for n, q in self.thisframe(f.cls[1], c["this_mod"], "this", at("this")): out.append("      " + ann("invariant", "loop %d: %s" % (k, n), q))
                v = lc.get("var")
                if "+" in weak and self.autovariant(l, txt): v = None
                if v:
                    s, miss = self.subst(v, here)
                    if not miss: out.append("      variant { %s }" % s)
                    else: v = None
                if not v:
                    a = self.autovariant(l, txt)
                    if a: out.append("      variant { %s }" % a)
            else:
                x = lc.get({"LOOP-PRE": "pre", "LOOP-BEGIN": "begin", "LOOP-END": "end", "LOOP-POST": "post"}[kind])
                if kind == "LOOP-BEGIN": out.append("      check { [@expl:GUARD loop %d] false };" % k)
                if x: out.append("      " + self.ghost(x, roles))
                if kind == "LOOP-PRE" and "+" in weak: out.append("      label LP%d in" % k)
        return out
    def autovariant(self, l, txt, ranges=False):
        l = re.sub(r"while \(\(to_u(?:32|64) \(as_i32 (v_\w+)\)\) (<|>)", r"while ((as_i32 \1) \2", l)
        m = re.match(r"\s*while \(\(?(?:as_\w+ )?(v_\w+)\)? (<=?) (.*)\) do", l)
        if m:
            b = pure(m.group(3))
            if ranges: return ["0 <= %s" % m.group(1)] + (["%s <= %s%s" % (m.group(1), b, "" if m.group(2) == "<" else " + 1")] if b else [])
            return "%s - %s" % (b, m.group(1)) if b else None
        m = re.match(r"\s*while \(\(?(?:as_\w+ )?(v_\w+)\)? (>=?) (.*)\) do", l)
        if m:
            b = pure(m.group(3))
            if ranges: return ["%s >= %s%s" % (m.group(1), b, "" if m.group(2) == ">" else " - 1")] if b else None
            return "%s - %s" % (m.group(1), b) if b else None
        return None

def pure(s):
    """turn a program bound into a logic term when it is made of casts, lengths and fields only"""
    s = s.strip()
    p = None
    while p != s:
        p = s
        s = re.sub(r"\((?:as|to)_\w+ ((?:\([^()]*(?:\([^()]*\)[^()]*)*\)|[\w.'])+)\)", r"(\1)", s)
    s = re.sub(r"\bvlen ((?:\([^()]*(?:\([^()]*\)[^()]*)*\)|[\w.'])+)", r"(\1).len", s)
    s = re.sub(r"\(hget (h_\w+) ((?:\([^()]*\)|[\w.'])+)\)", r"\1[\2]", s)
    s = re.sub(r"\(deref ((?:\([^()]*\)|[\w.'])+)\)", r"(\1)", s)
    s = re.sub(r"\(add_\w+ (\S+) (\S+)\)", r"(\1 + \2)", s); s = re.sub(r"\(sub_\w+ (\S+) (\S+)\)", r"(\1 - \2)", s)
    s = re.sub(r"\(vget (\S+) (\S+)\)", r"\1.elt[\2]", s)
    if re.search(r"\b(vget|hget|mat|mget|deref|any|[a-z]+_(?:i|u)\d\d|r[a-z]+|f_\w+)\b", s): return None
    return s

def conjuncts(q):
    """top-level conjuncts; everything from a quantifier, implication or disjunction on is one"""
    out, d, cur, i = [], 0, "", 0
    while i < len(q):
        c = q[i]
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        if d == 0:
            if q.startswith("/\\", i):
                out.append(cur.strip()); cur = ""; i += 2; continue
            if q.startswith("\\/", i) or q.startswith("->", i) or q.startswith("<->", i) or re.match(r"\b(forall|exists|let|if)\b", q[i:]) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] in "_'.")):
                # binds weaker than what stands before it on this level: all of it is one
                if q.startswith("->", i) or q.startswith("<->", i) or q.startswith("\\/", i): return [q]
                cur += q[i:]; break
        cur += c; i += 1
    out.append(cur.strip())
    return [x for x in out if x]

class OldAt:
    def __call__(self, x): return "(old %s)" % x
    def sub(self, q): return q
class PreAt:
    def __call__(self, x): return "(%s at Pre)" % x
    def sub(self, q):
        return re.sub(r"\(old ", "(at_pre__ ", q) if False else old_to_at(q)

def old_to_at(q):
    """(old X) -> (X at Pre)"""
    out, i = "", 0
    while True:
        j = q.find("(old ", i)
        if j < 0: return out + q[i:]
        out += q[i:j]; d = 0; k = j
        while True:
            if q[k] == "(": d += 1
            elif q[k] == ")":
                d -= 1
                if d == 0: break
            k += 1
        out += "(%s at Pre)" % old_to_at(q[j + 5:k]); i = k + 1

def short(k): return k.split("(")[0]

def prep(work):
    """lemma libraries: from each why/X.src, work/X.mlw (what clients see: lemmas as axioms, proofs left out) and
    work/X_proof.mlw (the same text, whose lemmas are all proved on this run)"""
    out = []
    for x in sorted(os.listdir(WHY)):
        if not x.endswith(".src"): continue
        s = open(os.path.join(WHY, x)).read(); n = x[:-4]
        open(os.path.join(work, n + "_proof.mlw"), "w").write(s)
        i = re.sub(r"\(\*proof\{\*\).*?\(\*\}proof\*\)", "", s, flags=re.S)
        i = "\n".join(l for l in i.split("\n") if "(*proof*)" not in l)
        i = re.sub(r"\(\*body\{\*\).*?\(\*\}body\*\)", "", i, flags=re.S)
        i = re.sub(r"\blet (?:rec )?ghost (?!function)", "val ghost ", i)
        i = re.sub(r"\blemma\b", "axiom", i)
        if re.search(r"\blet\b.*\baxiom\b", i): raise BadContract("let lemma outside a proof block in " + x)
        open(os.path.join(work, n + ".mlw"), "w").write(i)
        out.append(n)
    return out
def lib_uses(names):
    """lemma libraries needed by 'use' lines, transitively through their proofs"""
    todo, seen = list(names), set()
    while todo:
        n = todo.pop().replace("_proof", "")
        p = os.path.join(WHY, n + ".src")
        if n in seen or not os.path.exists(p): continue
        seen.add(n)
        todo += re.findall(r"\buse (?:export )?([a-z]\w*)\.", open(p).read())
    return seen
def openness(src):
    """per theory of a lemma library: the opaque symbols it may unfold"""
    out = {}
    for m in re.finditer(r"^module (\w+)[ \t]*(?:\(\*open:([^*]*)\*\))?", src, re.M): out[m.group(1)] = set((m.group(2) or "").split())
    return out
def lemma_jobs(n, work):
    """the modules of a lemma library, each verified by a why3 run of its own"""
    src = open(os.path.join(work, n + "_proof.mlw")).read()
    return [(n, m) for m in re.findall(r"^module (\w+)", src, re.M)]
def run_lemmas(job, work, conf):
    n, th = job
    p = os.path.join(work, n + "_proof.mlw")
    return run_why3(p, work, n + "_proof", conf, opened=openness(open(p).read()), th=th)
def run_why3(path, work, name, conf, timeout=300, opened=None, th=None):
    if isinstance(opened, dict):
        return _run_why3(path, work, name, conf, timeout, lambda th: smt.OPAQUE - (smt.OPAQUE if "all" in opened.get(th, ()) else opened.get(th, set())), th=th)
    return _run_why3(path, work, name, conf, timeout, lambda th: smt.OPAQUE - set(opened or ()), th=th)
def _run_why3(path, work, name, conf, timeout, opaque, drv=None, th=None):
    """VCs of one file -> obligations.  why3 hands every task to a stand-in prover that keeps the text."""
    od = os.path.join(work, name + ("." + th if th else "") + ".d"); os.makedirs(od, exist_ok=True)
    col = os.path.join(od, "tasks.txt"); open(col, "w").close()
    cp = os.path.join(od, "why3.conf")
    open(cp, "w").write(open(conf).read().replace("/bin/true", "/bin/sh %s" % COLLECT).replace(" %f\"", ' %%f %s"' % col).replace(DRV, drv or DRV))
    p = subprocess.Popen(["why3", "-C", cp, "prove", "-L", WHY, "-L", work, "-a", "split_vc", "-P", "Dummy", "--json", path] + (["-T", th] if th else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: o2, e2 = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); raise BadContract("why3: time limit on %s" % name)
    if drv is None and b"is not yet declared" in e2 + o2:
        shutil.rmtree(od)
        return _run_why3(path, work, name, conf, timeout, opaque, DRV2, th)
    js = []
    dec = json.JSONDecoder(); s = o2.decode(); i = 0
    while i < len(s):
        while i < len(s) and s[i].isspace(): i += 1
        if i >= len(s): break
        try: o, i = dec.raw_decode(s, i)
        except ValueError: raise BadContract("why3 rejects %s:\n%s" % (name, nowarn(s[i:] + e2.decode())[:1500]))
        js.append(o)
    txts = open(col).read().split("\n;;;;END-OF-TASK\n")[:-1]
    err = nowarn(e2.decode()).strip()
    if p.returncode not in (0, 2) or not js and err: raise BadContract("why3 rejects %s:\n%s" % (name, err[:1500]))
    if len(js) != len(txts): raise BadContract("why3: %d goals but %d tasks for %s\n%s" % (len(js), len(txts), name, err[:2000]))
    obs = []; cnt = {}; src = open(path).read()
    for k, (j, t) in enumerate(zip(js, txts)):
        g = j["term"]["goal_name"]
        m = re.search(r'^;; Goal "?([^"\n]*)"?$', t, re.M)
        if not m or m.group(1) != g: raise BadContract("why3: task %d of %s is %s, not %s" % (k, name, m and m.group(1), g))
        ex = " ; ".join(j["term"].get("explanations", [])) or "vc"
        tn = th or theory_of(src, g, name)
        cnt[(g, ex)] = cnt.get((g, ex), 0) + 1
        f = os.path.join(od, "%04d.smt2" % k); open(f, "w").write(t)
        obs.append({"goal": g, "name": ex, "n": cnt[(g, ex)], "path": f, "opaque": opaque(tn), "guard": ex.startswith("GUARD"), "line": j["term"]["loc"].get("start-line") if isinstance(j["term"].get("loc"), dict) else None})
    os.remove(col)
    return obs
def theory_of(src, goal, name):
    """the module in which a goal is declared (names are unique per file)"""
    g = re.escape(goal.split("'")[0])
    hit = {src.rfind("\nmodule ", 0, m.start()) for m in re.finditer(r"\b(?:lemma|goal|let(?: +(?:rec|ghost|lemma|function|predicate))*|with(?: +(?:ghost|lemma|function))?)\s+%s\b" % g, src)}
    if len(hit) != 1: raise BadContract("cannot place goal %s of %s" % (goal, name))
    m = re.match(r"\n?module +(\w+)", src[max(hit.pop(), 0):])
    return m.group(1) if m else ""
def nowarn(s): return "\n".join(l for l in s.splitlines() if not l.startswith("Warning"))
