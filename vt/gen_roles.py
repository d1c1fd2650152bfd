"""python3 gen_roles.py: records the names of functions and of local variables of the functions under contract on the
current tree, so that contracts can still be matched after a renaming.  Rewrites roles.json."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import cxx, emit, verify, contracts, tempfile
P = cxx.Program(); C = contracts.load(); P.load_globals(C)
G = verify.Gen(P, C, {}, tempfile.gettempdir())
loc = {}; ctr = {}; early = []
for k in sorted(C):
    f = P.bykey.get(k)
    if f is None: print("no function", k); continue
    if f.pure: continue
    try: ft = emit.FT(G.env, f).run()
    except Exception as ex: print("skip", k, ex); continue
    loc[k] = [[r, t] for r, t, w in ft.vars]
    if any("(*@EXIT*)" in l for l in ft.out): early.append(k)
    rn = {w: r for r, t, w in ft.vars}; ctr[k] = [rn.get(l["counter"]) for l in ft.loops]
json.dump({"functions": sorted(P.bykey), "locals": loc, "counters": ctr, "early": early}, open(os.path.join(HERE, "roles.json"), "w"), indent=0)
print(len(P.bykey), "functions", len(loc), "with locals")
