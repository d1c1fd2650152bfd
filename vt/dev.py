"""development driver: verify chosen functions.  dev.py PATTERN... """
import sys, os, time, shutil, re, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxx, emit, verify, smt, contracts, json, concurrent.futures as cf
def main():
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    fast = "-f" in sys.argv; show = "-s" in sys.argv
    t0 = time.time()
    P = cxx.Program(); C = contracts.load(); P.load_globals(C)
    work = "/tmp/vtdev"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    conf = verify.why3conf(work)
    G = verify.Gen(P, C, {}, work)
    open(work + "/types.mlw", "w").write(G.types)
    verify.prep(work)
    obs = []
    todo = []
    for k in sorted(C):
        if any(p in k for p in pats) or "-m" in sys.argv and k in importlib.import_module("contracts." + sys.argv[sys.argv.index("-m") + 1]).C:
            f = P.bykey.get(k)
            if f is None: print("no such function", k); continue
            if f.pure:
                for g in G.implementations(f): todo.append((f, g))
                continue
            todo.append(f)
    def gen(i, f):
        try:
            txt, meta = G.refinement(*f) if isinstance(f, tuple) else G.function(f)
        except (cxx.XErr, verify.BadContract) as ex:
            print("XERR", f[1].key if isinstance(f, tuple) else f.key, ex); return None
        nm = "f%03d" % i
        p = "%s/%s.mlw" % (work, nm); open(p, "w").write(txt)
        return f, meta, p, nm
    gens = [g for g in (gen(i, f) for i, f in enumerate(todo)) if g]
    lem = [a[2:] for a in sys.argv[1:] if a.startswith("-l")]
    def vc(g):
        f, meta, p, nm = g
        try: o = verify.run_why3(p, work, nm, conf, opened=meta['open'])
        except verify.BadContract as ex: print("BAD", meta["key"], p, ex); return []
        for x in o: x["fn"] = meta["key"]; x["id"] = "%s|%s|%d" % (meta["key"], x["name"], x["n"]); x["src"] = p
        if meta["dropped"]: print("dropped", meta["key"], meta["dropped"])
        return o
    def vl(m):
        try: o = verify.run_lemmas(m, work, conf)
        except verify.BadContract as ex: print("BAD", m, ex); return []
        for x in o: x["fn"] = "lemma " + m[0]; x["id"] = "%s|%s|%s|%d" % (m[0], x["goal"], x["name"], x["n"]); x["name"] = x["goal"] + " " + x["name"]; x["src"] = m[0]
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        for o in ex.map(vc, gens): obs += o
        for o in ex.map(vl, [j for m in lem for j in verify.lemma_jobs(m, work)]): obs += o
    t1 = time.time()
    st = [("cvc5", 1), ("z3-new/l", 1), ("z3-mbqi-off", 2), ("cvc5/l", 3), ("cvc5", 5), ("z3-new/l", 5)] if fast else None
    pool = smt.Pool(8, st)
    if "-g" in sys.argv: return
    pool.prove(obs)
    bad = 0
    for f in dict.fromkeys(o["fn"] for o in obs):
        oo = [o for o in obs if o["fn"] == f]
        good = [o for o in oo if not o["guard"] and o["status"] == "proved"]
        print("%-70s %d/%d  %.1fs (max %.1fs)" % (f, len(good), len([o for o in oo if not o["guard"]]), sum(o["time"] for o in oo), max(o["time"] for o in oo)))
        for o in oo:
            if o["guard"] and o["status"] == "proved": print("    VACUOUS", o["name"], o["path"])
            if not o["guard"] and o["status"] != "proved": print("    FAIL", o["name"], o["n"], "line", o["line"], o["path"], o["log"]); bad += 1
            if show: print("     ", o["name"], o["status"], o["by"], "%.1f" % o["time"])
    print("total %d obligations, %d failed; gen %.1fs solve %.1fs" % (len(obs), bad, t1 - t0, time.time() - t1))
main()
