"""seed.py FILE.py...: each file defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=C++ text)].
Applies each in /repo, builds, runs tests and the demo with and without it, keeps it in seeded/<id>, and undoes it."""
import sys, os, json, subprocess, tempfile, shutil
R = "/repo"; V = "/verif"
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the library behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++14 -w -Isrc/lpaggreg/headers "$d/demo.cpp" -L_build/src/lpaggreg -llpaggreg -Wl,-rpath,"$PWD/_build/src/lpaggreg" -o "$t/demo" || { rm -rf "$t"; exit 99; }
(cd "$t" && timeout 120 ./demo); rc=$?
rm -rf "$t"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json"); d = json.load(open("/tmp/seed_out.json"))
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(d["passed"])
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
for fn in sys.argv[1:]:
    ns = {}; exec(open(fn).read(), ns)
    for s in ns["SEEDS"]:
        d = "%s/seeded/%s" % (V, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        sh("bash /opt/vp/build.sh"); r0 = sh("bash %s/demo.sh" % d, cwd=R)
        try:
            for f, a, b in s["edits"]:
                p = "%s/src/lpaggreg/%s" % (R, f); t = open(p).read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open(p, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout.decode())
            b = sh("bash /opt/vp/build.sh"); miss = stable(); r1 = sh("bash %s/demo.sh" % d, cwd=R)
        finally:
            sh("git -C /repo checkout -- .")
        ok = r0.returncode == 0 and b.returncode == 0 and not miss and r1.returncode not in (0, 99)
        print(s["id"], "OK" if ok else "BAD", "demo clean", r0.returncode, "build", b.returncode, "lost tests", miss, "demo patched", r1.returncode, r1.stdout.decode()[-200:] if not ok else "", r0.stdout.decode()[-600:] if r0.returncode else "")
        if not ok: shutil.rmtree(d)
sh("bash /opt/vp/build.sh")
