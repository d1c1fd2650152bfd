"""python3 check.py Cxx: decide one property on /repo's current source.  Exit 0: every obligation discharged.
Exit 1: a VIOLATION line."""
import sys, os, re, json, time, shutil, tempfile, subprocess, traceback, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import cxx, emit, verify, smt, contracts, props

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = [("cvc5", 1), ("z3-new/l", 1), ("z3-mbqi-off", 2), ("cvc5/l", 3), ("cvc5", 5), ("z3-new/l", 5), ("z3-mbqi-off", 10)]

TRUSTED = ["clang 18 AST dump of /repo's sources", "vt/cxx.py and vt/emit.py (C++ AST to WhyML, run on every check)", "vt/why/cpp.mlw (model of the C++ standard library and machine integers)",
           "Why3 1.x verification condition generator", "SMT back ends cvc5 1.1.2, z3 4.8.12 and the newer z3", "vt/smt.py (drops unused axioms and declarations; hides definitions of opaque symbols)"]
ASSUME = ["floating-point arithmetic is treated as mathematical real arithmetic, except single-precision arithmetic in the sweep functions (addBestQualities, computeBestPartitions), which is rounded",
          "std::vector, std::map, std::list, std::tuple and shared_ptr behave as modelled in vt/why/cpp.mlw; memory allocation succeeds",
          "a list of parameters (vector<float>) has fewer than 2^31 elements",
          "operator<< (printing) is not under contract",
          "preconditions stated in the contracts: at most 65535 elements per dimension, rectangular data, a valid hierarchy, non-zero divisors where division is documented"]

def known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"): out.append(l.strip())
    return out

class Run:
    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.failed = []        # named failures without a solver run (extraction, contracts)
        self.obs = []; self.metas = {}; self.libs = []; self.notes = []
    def generate(self):
        try: P = self.P = cxx.Program()
        except cxx.XErr as ex:
            self.failed.append(("extraction of the sources", str(ex))); return
        C = self.C = contracts.load(); P.load_globals(C)
        roles = {}
        rp = os.path.join(HERE, "roles.json")
        if os.path.exists(rp): roles = json.load(open(rp))
        G = verify.Gen(P, C, roles, self.work)
        self.alias(G, roles)
        conf = verify.why3conf(self.work)
        open(self.work + "/types.mlw", "w").write(G.types)
        verify.prep(self.work)
        inv = {v: k for k, v in G.env.alias.items()}
        spec = props.P[self.pid]
        todo = []
        for r in spec["fns"]:
            m = [k for k in sorted(C) if re.fullmatch(r, k)]
            if not m: self.failed.append(("contracts for " + r, "no contract"))
            for k in m:
                if inv.get(k, k) in P.bykey: todo.append(inv.get(k, k))
                else: self.failed.append(("function " + k, "the function under contract no longer exists in the sources"))
        seen = []
        gens = []
        libs = set(spec.get("libs", []))
        while todo:
            k = todo.pop(0)
            if k in seen: continue
            seen.append(k)
            f = P.bykey[k]
            for g in (G.implementations(f) if f.pure else ()):
                try: txt, meta = G.refinement(f, g)
                except (cxx.XErr, verify.BadContract, KeyError) as ex: self.failed.append(("refinement of " + k, "%s: %s" % (type(ex).__name__, ex))); continue
                p = os.path.join(self.work, "f%03d.mlw" % len(gens)); open(p, "w").write(txt)
                gens.append((g, meta, p, "f%03d" % len(gens))); self.metas[meta["key"]] = meta
                if g.key not in seen: todo.append(g.key)
                libs |= {u.split(".")[0] for u in meta["uses"]}
            if f.pure: continue
            try: txt, meta = G.function(f)
            except (cxx.XErr, verify.BadContract, KeyError, IndexError, RecursionError, AttributeError, TypeError, ValueError) as ex:
                self.failed.append(("translation of " + k, "%s: %s" % (type(ex).__name__, ex))); continue
            p = os.path.join(self.work, "f%03d.mlw" % len(gens)); open(p, "w").write(txt)
            gens.append((f, meta, p, "f%03d" % len(gens)))
            self.metas[k] = meta
            for g in meta["calls"]:
                if g not in seen: todo.append(g)
            libs |= {u.split(".")[0] for u in meta["uses"]}
        self.libs = sorted(verify.lib_uses(libs))
        self.G, self.conf = G, conf; self.gens = {g[1]["key"]: g for g in gens if " refines " not in g[1]["key"]}
        def vc(g):
            f, meta, p, nm = g
            try: o = verify.run_why3(p, self.work, nm, conf, opened=meta["open"])
            except verify.BadContract as ex: return [], ("verification conditions of " + f.key, str(ex))
            for x in o: x["fn"] = meta["key"]; x["id"] = "%s|%s|%d" % (G.env.alias.get(meta["key"], meta["key"]), x["name"], x["n"]); x["src"] = p
            return o, None
        def vl(m):
            try: o = verify.run_lemmas(m, self.work, conf)
            except verify.BadContract as ex: return [], ("lemmas of %s.%s" % m, str(ex))
            m = m[0]
            for x in o: x["fn"] = "lemma library " + m; x["id"] = "%s|%s|%s|%d" % (m, x["goal"], x["name"], x["n"]); x["src"] = m; x["lemma"] = True
            return o, None
        with cf.ThreadPoolExecutor(8) as ex:
            for o, e in list(ex.map(lambda j: vl(j) if len(j) == 2 else vc(j), sorted(gens, key=lambda g: -os.path.getsize(g[2])) + [j for m in self.libs for j in verify.lemma_jobs(m, self.work)])):
                self.obs += o
                if e: self.failed.append(e)
        if "only" in spec:
            n = len(self.obs)
            self.obs = [o for o in self.obs if o.get("lemma") or o["guard"] or re.search(spec["only"], o["name"])]
            self.notes.append("this property is decided by the %d obligations named %s (with the lemmas they use); they are proved in the context of the other obligations of the same functions, which the checks of the other properties of these functions discharge" % (len([o for o in self.obs if not o["guard"] and not o.get("lemma")]), spec["only"]))
    def weaken(self, hints, until):
        """loop invariants are auxiliary: the ones that do not hold on the changed source are left out (conjunct by
        conjunct), as long as everything else is then discharged without them"""
        weak = {}
        first = self.obs
        while time.time() < until:
            new = {}
            if not weak and "only" not in props.P[self.pid]:
                for o in self.bad():
                    if not o.get("lemma") and o["fn"] in self.gens and self.gens[o["fn"]][1]["loops"]: new.setdefault(o["fn"], set()).add("+")
            for o in self.bad():
                if o.get("lemma") or o["fn"] not in self.gens: continue
                m = re.match(r"(loop \d+: .*?)(, part \d+)?$", o["name"].split(" ; ")[0])
                if m and not re.match(r"loop \d+: frame", m.group(1)) and m.group(0) not in weak.get(o["fn"], ()): new.setdefault(o["fn"], set()).add(m.group(0))
            if not new and until - time.time() > 60 and "only" not in props.P[self.pid]:
                for o in self.bad():
                    if not o.get("lemma") and o["fn"] in self.gens and self.gens[o["fn"]][1]["loops"] > 1 and "++" not in weak.get(o["fn"], ()): new.setdefault(o["fn"], set()).add("++")
            if not new: break
            for k, w in new.items():
                weak.setdefault(k, set()).update(w)
                f, meta, p, nm = self.gens[k]
                n = "%sw%d" % (nm, len(weak[k])); q = os.path.join(self.work, n + ".mlw")
                try:
                    txt, meta = self.G.function(f, weak[k]); open(q, "w").write(txt)
                    os_ = verify.run_why3(q, self.work, n, self.conf, opened=meta["open"])
                except (cxx.XErr, verify.BadContract, KeyError) as ex: self.obs = first; return
                for x in os_: x["fn"] = meta["key"]; x["id"] = "%s|%s|%d" % (self.G.env.alias.get(meta["key"], meta["key"]), x["name"], x["n"]); x["src"] = q
                if "only" in props.P[self.pid]: os_ = [o for o in os_ if o["guard"] or re.search(props.P[self.pid]["only"], o["name"])]
                self.obs = [o for o in self.obs if o["fn"] != k] + os_; self.metas[k] = meta
            self.solve(QUICK, max(20, until - time.time()), hints)
            if os.environ.get("VT_TIME"): print("weakened", {k: sorted(w) for k, w in weak.items()}, "left", [o["name"] for o in self.bad()])
        if self.bad(): self.obs = first
        elif weak: self.notes.append("loop invariants left out because they do not hold on this source: " + "; ".join("%s: %s" % (k, ", ".join(sorted(x for x in w if x[0] != "+" and "candidate" not in x))) for k, w in weak.items()))
    def alias(self, G, roles):
        """a contracted private function that was renamed: same class, same signature, not a known function"""
        P = self.P; base = set(roles.get("functions", []))
        if not base: return
        new = [f for f in P.bykey.values() if f.key not in base]
        for k in self.C:
            if k in P.bykey or k not in base: continue
            pre, args = k.split("(", 1)
            cls = pre.rsplit("::", 1)[0] if "::" in pre else ""
            c = [f for f in new if f.key.split("(", 1)[1] == args and (f.key.split("(", 1)[0].rsplit("::", 1)[0] if "::" in f.key.split("(", 1)[0] else "") == cls]
            if len(c) == 1: G.env.alias[c[0].key] = k; self.notes.append("%s is taken for %s" % (c[0].key, k))
    def solve(self, strategy, budget, hints):
        left = [o for o in self.obs if o.get("status") != "proved" and not (o["guard"] and "status" in o)]
        for o in left: o.pop("status", None)
        smt.Pool(8, strategy, budget).prove(left, hints)
    def bad(self): return [o for o in self.obs if not o["guard"] and o.get("status") != "proved"]
    def vacuous(self):
        g = {}
        for o in self.obs:
            if o["guard"]: g.setdefault((o["fn"], o["name"]), []).append(o["status"] == "proved")
        return [k for k, v in g.items() if all(v)]

def harness(pid, work, tier, budget):
    """the real library, run against the property's own oracle.  -> (failing case text or None, info)"""
    src = os.path.join(ROOT, "harness", "main.cpp")
    if not os.path.exists(src): return None, {"built": False}
    d = os.path.join(work, "harness"); os.makedirs(d, exist_ok=True)
    repo = cxx.REPO
    srcs = [os.path.join(repo, "src/lpaggreg/sources", x) for x in sorted(os.listdir(os.path.join(repo, "src/lpaggreg/sources"))) if x.endswith(".cpp")]
    inc = ["-I" + os.path.join(repo, "src/lpaggreg/headers"), "-I" + os.path.join(repo, "include"), "-I" + os.path.join(ROOT, "harness")]
    flags = ["-std=c++14", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]
    jobs = []
    for s in srcs + [src] + [os.path.join(ROOT, "harness", x) for x in sorted(os.listdir(os.path.join(ROOT, "harness"))) if x.endswith(".cpp") and x != "main.cpp"]:
        o = os.path.join(d, os.path.basename(s) + ("" if s in srcs else ".h") + ".o"); jobs.append((["g++"] + flags + inc + ["-c", s, "-o", o], o))
    def cc(j): return subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(cc, jobs))
    for r in rs:
        if r.returncode: return None, {"built": False, "log": r.stdout.decode("utf-8", "replace")[-1500:]}
    exe = os.path.join(d, "harness")
    r = subprocess.run(["g++"] + [o for _, o in jobs] + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: return None, {"built": False, "log": r.stdout.decode("utf-8", "replace")[-1500:]}
    def one(k):
        last = os.path.join(d, "case%d" % k)
        try: r = subprocess.run([exe, pid, str(SEED * 1000 + k), str(budget), last], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 4 + 40, cwd=d)
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b"").decode("utf-8", "replace")
            return "the call does not return (time limit)\n" + (open(last).read()[-6000:] if os.path.exists(last) else "") + out[-2000:], 0
        out = r.stdout.decode("utf-8", "replace")
        m = re.search(r"CASES (\d+)", out)
        n = int(m.group(1)) if m else 0
        if r.returncode == 0: return None, n
        txt = out[-8000:]
        if r.returncode < 0 or r.returncode not in (0, 1): txt = "the program ends with status %d\n" % r.returncode + (open(last).read()[-6000:] if os.path.exists(last) else "") + r.stderr.decode("utf-8", "replace")[-1000:] + txt
        return "harness %s seed %d\n" % (pid, SEED * 1000 + k) + txt, n
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(8)))
    n = sum(x[1] for x in res)
    for t, _ in res:
        if t: return t, {"built": True, "cases": n}
    return None, {"built": True, "cases": n}

def main():
    pid = sys.argv[1]; t0 = time.time()
    work = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    try: rc = run(pid, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, work, t0):
    R = Run(pid, work)
    try: R.generate()
    except Exception as ex:
        R.failed.append(("translation", traceback.format_exc()[-3000:]))
    t1 = time.time()
    hp = os.path.join(HERE, "hints.json")
    hints = json.load(open(hp)) if os.path.exists(hp) else {}
    thorough = TIER == "thorough"
    R.solve(QUICK, 200, hints)
    t2 = time.time()
    case, info = None, {}
    bad = R.bad()
    if os.environ.get("VT_TIME"): print("gen %.1f solve %.1f" % (t1 - t0, t2 - t1))
    case, info = harness(pid, work, TIER, (60 if thorough else 25) if (bad or R.failed) else (60 if thorough else 4))
    if bad and not case:
        R.solve(smt.STRATEGY, max(60, (2400 if thorough else 330) - (time.time() - t0)), hints); bad = R.bad()
        if bad and not R.failed:
            obs = R.obs
            try: R.weaken(hints, t0 + (3000 if thorough else 600))
            except Exception: R.obs = obs; R.notes.append("weakening stopped: " + traceback.format_exc()[-300:])
            bad = R.bad()
    if os.environ.get("VT_TIME"): print("harness and retries %.1f" % (time.time() - t2))
    vac = R.vacuous()
    vend = [v for v in vac if v[1] == "GUARD end"]
    real = [o for o in R.obs if not o["guard"]]
    ok = not (bad or R.failed or case or vend)
    ev = evidence(pid, R, real, bad, vac, info, case, t0, t1, t2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in known():
        if "property=" + pid + " " in k: print("KNOWN-FINDING: " + k[len("finding:"):].strip())
    if os.environ.get("VT_HINTS"):
        h = {o["id"]: o["by"] for o in real if o.get("by") and o["by"] != "cvc5"}
        json.dump(h, open(os.environ["VT_HINTS"], "w"), indent=0, sort_keys=True)
    print("%s: %d of %d obligations discharged, %d functions, %d lemma libraries, %.1fs" % (pid, len(real) - len(bad), len(real), len(R.metas), len(R.libs), time.time() - t0))
    for o in bad[:8]: print("  not discharged: %s: %s (%d)" % (o["fn"], o["name"], o["n"]))
    for n, m in R.failed[:8]: print("  failed: %s: %s" % (n, m[:300]))
    for v in vend: print("  vacuous: %s %s" % v)
    if ok: return 0
    rp = os.path.join(ROOT, "replay"); os.makedirs(rp, exist_ok=True)
    rf = os.path.join(rp, pid + ".txt")
    with open(rf, "w") as fh:
        fh.write("property %s\n\n" % pid)
        if case: fh.write("failing input found on the real library:\n%s\n\n" % case)
        for n, m in R.failed: fh.write("failed obligation: %s\n%s\n\n" % (n, m))
        for v in vend: fh.write("failed obligation: %s: end of the function is unreachable (%s)\n\n" % v)
        for o in bad:
            fh.write("failed obligation: %s: %s (%d)\nverifier: %s\n" % (o["fn"], o["name"], o["n"], "; ".join(o.get("log", []))))
        if bad and os.path.exists(bad[0]["path"]): fh.write("\nfirst failed obligation, SMT-LIB:\n" + open(bad[0]["path"]).read()[:200000])
    print("VIOLATION property=%s replay=%s%s" % (pid, rf, "" if case else " no-failing-input-found"))
    return 1

def evidence(pid, R, real, bad, vac, info, case, t0, t1, t2):
    by = {}
    for o in real:
        if o.get("status") == "proved":
            s = o["by"].split("/")[0]; s = "cvc5" if s.startswith("cvc5") else ("z3" if s in ("z3", "z3-arith2") and False else s.split("-mbqi")[0])
            by[s] = by.get(s, 0) + 1
    fns = {}
    for o in real:
        d = fns.setdefault(o["fn"], {"obligations": 0, "discharged": 0, "solver_s": 0.0})
        d["obligations"] += 1; d["discharged"] += o.get("status") == "proved"; d["solver_s"] = round(d["solver_s"] + o.get("time", 0), 2)
    inl = sorted({x if isinstance(x, str) else str(x) for m in R.metas.values() for x in m["inlined"]})
    cov = {"obligations": len(real) + len(R.failed), "discharged": len(real) - len(bad), "checker_cmd": "python3 /verif/vt/check.py " + pid, "trusted_base": TRUSTED,
           "functions_under_contract": sorted(R.metas), "lemma_libraries": R.libs, "per_function": fns, "by_back_end": by,
           "solver_s": round(sum(o.get("time", 0) for o in R.obs), 1), "extraction_and_vc_s": round(t1 - t0, 1),
           "inlined_functions": inl, "vacuity_guards": len([o for o in R.obs if o["guard"]]), "vacuous": ["%s %s" % v for v in vac],
           "not_discharged": ["%s: %s (%d)" % (o["fn"], o["name"], o["n"]) for o in bad] + [n for n, _ in R.failed],
           "dropped_invariants": [[k] + [str(x) for x in d] for k, m in R.metas.items() for d in m["dropped"]],
           "extraction_drops": "comments, printing, const and access specifiers; see DESIGN.md",
           "bounded_companion": {"what": "real library run against an independent oracle on generated inputs, to reach machine arithmetic and what the model leaves out; bounded, not counted as proof", "cases": info.get("cases", 0), "failing": 1 if case else 0, "built": info.get("built", False)}}
    return {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov, "assumptions": ASSUME + props.P[pid].get("assume", []) + R.notes,
            "wall_s": round(time.time() - t0, 1), "violations": 1 if (bad or R.failed or case) else 0}
if __name__ == "__main__": main()
