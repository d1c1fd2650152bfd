"""refac.py [-p Cxx,Cyy] [ID...]: applies each behaviour-preserving edit of refactor/*.py to a scratch copy of /repo, compiles it, and runs the named checks (default: those listed with the edit) on the copy.  All must stay quiet."""
import sys, os, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/refac" + str(os.getpid())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
args = sys.argv[1:]; props = None; gen = args[:1] == ["-g"]      # -g: only translate and generate the conditions
if gen: args = args[1:]
GEN = "import sys; sys.path.insert(0,'vt'); import check; r=check.Run(sys.argv[1], sys.argv[2]); r.generate(); print([ (n, m[-300:]) for n, m in r.failed]); sys.exit(bool(r.failed))"
if args[:1] == ["-p"]: props = args[1].split(","); args = args[2:]
ALL = []
for f in sorted(glob.glob(V + "/refactor/*.py")):
    ns = {}; exec(open(f).read(), ns); ALL += ns["REFAC"]
for r in ALL:
    if args and r["id"] not in args: continue
    d = "%s/%s" % (W, r["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    sh("cp -a /repo %s && git -C %s checkout -q -- ." % (d, d))
    for f, a, b in r["edits"]:
        p = "%s/src/lpaggreg/%s" % (d, f); t = open(p).read()
        assert t.count(a) == 1, (r["id"], f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))
    b = sh("for f in src/lpaggreg/sources/*.cpp; do g++ -std=gnu++11 -w -fsyntax-only -Isrc/lpaggreg/headers $f || echo FAILED $f; done", cwd=d)
    if b"FAILED" in b.stdout: print(r["id"], "DOES NOT BUILD", b.stdout.decode()[-1500:]); shutil.rmtree(d); continue
    if gen:
        for p in r["props"]:
            w = d + "_work"; os.makedirs(w, exist_ok=True)
            o = subprocess.run([sys.executable, "-c", GEN, p, w], cwd=V, env=dict(os.environ, VT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(r["id"], p, "generated" if o.returncode == 0 else "FAILS " + o.stdout.decode()[-2500:], flush=True); shutil.rmtree(w)
        shutil.rmtree(d); continue
    for p in props or r["props"]:
        o = sh("python3 vt/check.py " + p, cwd=V, env=dict(os.environ, VT_REPO=d, VT_TIME="1")); t = o.stdout.decode()
        print(r["id"], p, "rc=%d" % o.returncode, [l for l in t.splitlines() if l.startswith(p)][:1], flush=True)
        if o.returncode: print("\n".join(l for l in t.splitlines() if l.startswith("  ") or "VIOLATION" in l)[:3000], flush=True)
    shutil.rmtree(d)
shutil.rmtree(W, ignore_errors=True)
