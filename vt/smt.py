"""SMT-LIB clean-up and the parallel prover portfolio."""
import re, subprocess, os, time, multiprocessing, concurrent.futures as cf

TOK = re.compile(r'\|[^|]*\||"[^"]*"|;[^\n]*|[()]|[^\s()]+')

_tok = {}
def tokens(c):
    """(tokens without parentheses, depth at the end) of a piece of text"""
    r = _tok.get(c)
    if r is None:
        d = 0; ts = []
        for m in TOK.finditer(c):
            t = m.group(0)
            if t == "(": d += 1
            elif t == ")": d -= 1
            elif t[0] != ";": ts.append(t)
        if len(_tok) > 60000: _tok.clear()
        r = _tok[c] = (ts, d)
    return r
def commands(txt):
    """top-level commands as (text, token list, name comment)"""
    out, note, acc = [], "", ""
    for part in re.split(r"\n(?=[(;])", txt):
        if not acc and part.startswith(";"):
            l, _, rest = part.partition("\n")
            mm = re.match(r';; "?([^"\n]*)"?', l)
            if mm and not l.startswith(";; File"): note = mm.group(1)
            part = rest
        if not part.strip() and not acc: continue
        acc = acc + "\n" + part if acc else part.strip()
        ts, d = tokens(acc)
        if d: continue
        out.append((acc.strip(), ts, note)); note = ""; acc = ""
    return out

NOISE = {"CompatOrderMult", "add_div", "sub_div", "neg_div", "assoc_mul_div", "assoc_div_mul", "assoc_div_div",
         "Select_eq", "Select_neq", "Max_l", "Max_comm", "Max_assoc", "Min_r", "Min_comm", "Min_assoc", "Max_r", "Min_l"}
RESERVED = set("assert declare-fun define-fun declare-const declare-sort declare-datatypes define-sort let forall exists and or not => = ite distinct true false Int Real Bool Array par match as _ is ! :pattern :named + - * / < <= > >= select store to_real to_int".split())

OPAQUE = {"low", "high", "good", "flat", "dcell", "hcell", "dagg2", "dagg3", "dagg4", "hagg1", "hagg2", "hagg3", "hagg4", "dzero", "hacc", "hqs", "dacc", "dqs", "dall", "er", "dv", "okseg1", "okseg2", "okseg3", "okseg4", "score", "idx", "tri", "off", "dominates", "attained", "obest", "same_parts", "pic", "tupled_O", "tupled_H", "tupled_D",
          "ov_wf", "ov_at", "hv_wf", "hv_at", "dv_wf", "dv_at", "dynbase_OValues", "dynbase_HValues", "dynbase_DValues",
          "cons_at", "sub_done", "sub_part", "dsub_done", "dsub_part", "dready", "ddom", "dcons_at", "dbest", "same_dparts", "dval", "grid", "grids_apart", "owned", "zeroed", "owns", "cells", "cells_apart", "hready", "hbest", "hdom", "same_hparts"}
NOMACRO = {"hconst", "dconst", "kidvals", "hflat", "dflat", "hequal", "dequal", "valid_parents", "pair", "haschild", "consistent", "nodepart", "weights", "dconsistent", "inblock"}
HYP = {"H", "Ensures", "Requires", "Assert", "LoopInvariant", "Check", "Asserted"}
ATOM = re.compile(r'\|[^|]*\||"[^"]*"|[^\s()]+')
_parsed = {}
def parse(c):
    r = _parsed.get(c)
    if r is None:
        if len(_parsed) > 20000: _parsed.clear()
        r = _parsed[c] = parse1(c)
    return r
def parse1(c):
    """one s-expression -> nested lists"""
    st = [[]]
    for m in TOK.finditer(c):
        t = m.group(0)
        if t[0] == ";": continue
        if t == "(": st.append([])
        elif t == ")":
            x = st.pop(); st[-1].append(x)
        else: st[-1].append(t)
    return st[0][0]
def show(p): return p if not isinstance(p, list) else "(" + " ".join(show(x) for x in p) + ")"
def unref(p):
    """contents (ref'mk x) = x"""
    if not isinstance(p, list): return p
    if len(p) == 2 and p[0] == "contents" and isinstance(p[1], list) and p[1][0] == "refqtmk": return unref(p[1][1])
    return [unref(x) for x in p]
def mentions(p, n): return p == n if not isinstance(p, list) else any(mentions(x, n) for x in p)
def as_define(c, f):
    """(assert (forall (params) (= (f params) body))) -> (params, body)"""
    p = parse(c)[1]
    ps = []
    if isinstance(p, list) and p[0] == "forall": ps = p[1]; p = p[2]
    if isinstance(p, list) and p[0] == "!": p = p[1]
    if not (isinstance(p, list) and p[0] == "=" and len(p) == 3): return None
    l, b = p[1], p[2]
    args = [x[0] for x in ps]
    fn = l[0] if isinstance(l, list) else l
    if not (l == [fn] + args if isinstance(l, list) else not args): return None
    if mentions(b, fn): return None
    return fn, ps, b
def variants(path, txt, opaque):
    """writes the weakenings of one obligation; returns {variant: path}"""
    v = {"": path}
    full = clean(txt, opaque); open(path, "w").write(full)
    lite = clean(txt, opaque, lite=True)
    b = path[:-5]
    if lite != full: open(b + "_l.smt2", "w").write(lite); v["l"] = b + "_l.smt2"
    return v
def clean(txt, opaque=(), lite=False):
    cs = commands(txt)
    keep = []
    dead = set(); decl = {}
    sorts = {"uni", "ty"}
    for c, toks, note in cs:
        if not toks: continue
        k = toks[0]
        if k == "assert" and "refqtmk" in toks:
            c = show(unref(parse(c))); toks = tokens(c)[0]
        if k in ("set-option", "set-info", "set-logic", "check-sat", "get-info", "get-model", "exit", "push", "pop", "get-value"): continue
        if k == "define-fun" and (toks[1] in opaque or toks[1] in NOMACRO):
            d = parse(c)
            n = toks[1]; dc = "(declare-fun %s (%s) %s)" % (n, " ".join(show(x[1]) for x in d[2]), show(d[3]))
            keep.append(["declare-fun", dc, TOK.findall(dc)[1:], set(TOK.findall(dc)) , note]); keep[-1][2] = [t for t in keep[-1][2] if t not in "()"]
            if n in opaque: continue
            l = "(%s %s)" % (n, " ".join(x[0] for x in d[2]))
            c = "(assert (forall %s (! (= %s %s) :pattern (%s))))" % (show(d[2]), l, show(d[4]), l)
            keep.append(["assert", c, None, set(t for t in TOK.findall(c)), n + "'def"]); continue
        ts = set(toks)
        if ts & sorts or ts & dead:
            if k in ("declare-fun", "define-fun", "declare-const", "declare-sort", "define-fun-rec"): dead.add(toks[1])
            continue
        if k == "assert" and (note in NOISE or lite and "forall" in ts and note not in HYP and not note.endswith("'def") and not note.startswith("Goal")): continue
        if k == "assert" and note.endswith("'def"):
            if note[:-4] in opaque: continue
            d = as_define(c, note[:-4])
            if d and note[:-4] in NOMACRO and d[1]:
                c = "(assert (forall %s (! (= (%s %s) %s) :pattern ((%s %s)))))" % (show(d[1]), d[0], " ".join(x[0] for x in d[1]), show(d[2]), d[0], " ".join(x[0] for x in d[1]))
            elif d and d[0] in decl:
                x = decl[d[0]]; dt = parse(x[1])
                c = "(define-fun %s %s %s %s)" % (d[0], show(d[1]), show(dt[-1]), show(d[2]))
                keep.remove(x); toks = ["define-fun", d[0]] + toks; ts = set(toks); k = "define-fun"
        keep.append([k, c, toks, ts, note])
        if k in ("declare-fun", "declare-const"): decl[toks[1]] = keep[-1]
    # reachability
    defs = {}; sortonly = {}; bare = set()
    for x in keep:
        k, c, toks, ts, note = x
        if k in ("declare-fun", "declare-const", "declare-sort", "define-fun", "define-sort", "define-fun-rec"): defs.setdefault(toks[1], []).append(x)
        elif k.startswith("declare-datatype"):
            if toks[0] == "declare-datatypes":
                d = parse(c); own = {y[0] for y in d[1]}
                for body in d[2]:
                    for con in (body[2] if body and body[0] == "par" else body):
                        own |= {con[0]} | {f[0] for f in con[1:]} if isinstance(con, list) else {con}
                if len(d[1]) == 1: sortonly[d[1][0][0]] = (x, "(declare-sort %s %s)" % tuple(d[1][0]))
            else: own = ts - RESERVED
            for t in own: defs.setdefault(t, []).append(x)
    # axioms about otherwise unused symbols are dropped: an assert is kept when every function it mentions that is
    # declared (not defined) here is reachable from the goal or the hypotheses, or it is ground
    need, todo, used = set(), [], set()
    def want(x):
        if id(x) in used: return
        used.add(id(x)); todo.append(x)
    asserts = [x for x in keep if x[0] == "assert"]
    if asserts:
        for x in asserts:
            want(x)
    while todo:
        x = todo.pop()
        for t in x[3]:
            if t in need or t in RESERVED: continue
            need.add(t)
            for y in defs.get(t, []):
                if t in sortonly and sortonly[t][0] is y: bare.add(id(y))    # a datatype used as a sort only is left uninterpreted
                else: want(y)
    # z3 resolves selectors of nested parametric sorts only after a direct use of each instance
    txts = "\n".join(x[1] for x in keep if id(x) in used)
    if "(declare-datatypes ((vec 1))" in txts:
        for x in keep:
            if x[0] == "declare-datatypes" and "(declare-datatypes ((vec 1))" in x[1]:
                ss = ["Int", "Real"]
                for q in ("(vec (vec Real))", "(vec (vec (vec Real)))", "(vec (vec (vec (vec Real))))"):
                    if q in txts: ss.append(q[5:-1])
                x[1] += "".join("\n(declare-const zz__%d (vec %s))(assert (= (len zz__%d) (len zz__%d)))" % (i, q, i, i) for i, q in enumerate(ss))
    so = {id(x): dcl for x, dcl in sortonly.values()}
    return "(set-logic ALL)\n" + "\n".join(x[1] if id(x) in used else so[id(x)] for x in keep if id(x) in used or id(x) in bare) + "\n(check-sat)\n"

SOLVERS = {
    "cvc5": ["cvc5", "--lang=smt2", "-q"],
    "cvc5-enum": ["cvc5", "--lang=smt2", "-q", "--enum-inst"],
    "cvc5-nl": ["cvc5", "--lang=smt2", "-q", "--nl-ext-tplanes", "--full-saturate-quant"],
    "z3-new": ["z3-new", "-smt2"],
    "z3-mbqi-off": ["z3-new", "-smt2", "smt.mbqi=false", "smt.auto_config=false"],
    "z3": ["z3", "-smt2"],
    "z3-arith2": ["z3", "-smt2", "smt.mbqi=false", "smt.arith.solver=2", "auto_config=false"],
}
STRATEGY = [("cvc5", 1), ("z3-new/l", 1), ("z3-mbqi-off", 2), ("cvc5/l", 3), ("cvc5", 5), ("z3-new/l", 5), ("z3-new", 10), ("cvc5-nl/l", 10), ("cvc5-nl", 15), ("z3-arith2/l", 10), ("z3-arith2", 15), ("cvc5-enum", 20), ("z3-mbqi-off", 40), ("cvc5", 60)]

def run_solver(name, path, tmo):
    name = name.split("/")[0]
    t0 = time.time()
    cmd = SOLVERS[name] + (["--tlimit=%d" % int(tmo * 1000)] if name.startswith("cvc5") else ["-T:%d" % max(1, int(tmo))]) + [path]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo + 5)
        out = r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: out = "timeout"
    ans = "unknown"
    for l in out.splitlines():
        l = l.strip()
        if l in ("unsat", "sat", "unknown"): ans = l; break
        if l.startswith("(error"): ans = "error: " + l[:200]; break
    return ans, time.time() - t0, out

def attempt(job):
    """one obligation: cleaned, then given to the solvers in turn (runs in a worker process)"""
    if "variants" not in job:
        job["variants"] = variants(job["path"], open(job["path"]).read(), job["opaque"])
    vs = job["variants"]; r = {"variants": vs, "time": 0.0, "log": [], "status": "unknown", "by": None}
    for s, t in job["strategy"]:
        vn = s.split("/")[1] if "/" in s else ""
        if vn not in vs: continue
        if job["deadline"] and time.time() > job["deadline"] and not job["guard"]:
            r["log"].append("out of time"); break
        a, dt, out = run_solver(s, vs[vn], t)
        r["time"] += dt; r["log"].append("%s(%ds): %s" % (s, t, a))
        if a == "unsat": r["status"] = "proved"; r["by"] = s; break
        if a == "sat" and not job["guard"] and vn == "": r["status"] = "refuted"; r["by"] = s; break
    return r

class Pool:
    ex = None
    def __init__(self, jobs=8, strategy=None, budget=None):
        self.strategy = strategy or STRATEGY
        self.deadline = time.time() + budget if budget else None
        if Pool.ex is None: Pool.ex = cf.ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context("fork"))
    def prove(self, obs, hints=None, progress=None):
        """obs: list of dicts with 'path', 'opaque' and 'guard' (True: must NOT be provable). Fills status, by, time, log."""
        fut = {}
        for o in obs:
            if o.get("guard"): st = [("cvc5", 1), ("z3-mbqi-off", 1)]
            else:
                st = list(self.strategy)
                h = (hints or {}).get(o["id"])
                if h and h.split("/")[0] in SOLVERS: st = [(h, 8)] + st
            j = {"path": o["path"], "guard": o.get("guard"), "strategy": st, "deadline": self.deadline}
            if "variants" in o: j["variants"] = o["variants"]
            else: j["opaque"] = o["opaque"]
            fut[Pool.ex.submit(attempt, j)] = o
        for f in cf.as_completed(fut):
            o = fut[f]; o.update(f.result())
            if progress: progress(o)
        return obs
