#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list in seeds.py: applies the edit in a scratch copy, writes patch.diff, demo, meta.json.
seed.py [id...]; seed.py --verify [id...] builds and tests each patch in a scratch worktree mounted over nothing (uses /repo, restored)."""
import sys, os, subprocess, shutil, tempfile, json
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
sed -e '/pybind11/d;/wrappers\\//d;/namespace py/d' src/wisardpkg.h > "$d/core.h"
g++ -std=c++11 -w -O1 %s -Isrc -I"$d" "$here/demo.cpp" -o "$d/demo" || exit 3
cd "$d" && timeout 200 ./demo
'''
HEAD = '#include "core.h"\n#include <cstdio>\n#define OK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\ntypedef std::vector<int> VI; typedef std::vector<VI> VVI; typedef std::vector<std::string> VS;\nstd::string text(const std::string& f) { std::ifstream i(f); std::string r((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); return r; }\n'
PYD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
p=$(pwd)/test; cd "$d" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$p" /usr/bin/python3 "$here/demo.py"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = os.path.join(OUT, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed"); sh("git -C /repo worktree prune; git -C /repo archive HEAD src | tar x -C %s; cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t))
    for f, old, new in s["edits"]:
        p = os.path.join(t, "src", f); x = open(p).read(); n = s.get("count", 1); assert x.count(old) == n, (s["id"], f, old, x.count(old)); open(p, "w").write(x.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(t)
    if "py" in s: open(d + "/demo.py", "w").write("import sys, json\nfrom wisardpkg import *\n" + s["py"]); open(d + "/demo.sh", "w").write(PYD)
    else: open(d + "/demo.cpp", "w").write(HEAD + s.get("top", "") + "int main() {\n" + s["demo"] + "\n  return 0;\n}\n"); open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def verify(s):
    d = os.path.join(OUT, s["id"]); t = tempfile.mkdtemp(prefix="seedd"); [shutil.copy(os.path.join(d, f), t) for f in os.listdir(d) if f.startswith("demo")]
    a = sh("cd /repo && timeout 300 bash %s/demo.sh" % t); res = [("clean", a.returncode)]
    x = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        b = sh("bash /opt/vp/test.sh /tmp/seedres.json"); base = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/seedres.json"))
        res.append(("apply", x.returncode)); res.append(("tests", tests(base, r)))
        c = sh("cd /repo && timeout 300 bash %s/demo.sh" % t); res.append(("patched", c.returncode))
    finally: sh("git -C /repo checkout -- ."); shutil.rmtree(t)
    ok = res[0][1] == 0 and x.returncode == 0 and res[2][1] == "pass" and c.returncode != 0
    print(s["id"], s["property"], "OK" if ok else "BAD", res, "" if ok else (a.stdout + x.stdout + c.stdout)[-600:], flush=True)
def tests(base, r):
    names = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable"); p = r.get("passed", r)
    miss = [n for n in names if n not in p]; return "pass" if not miss else "FAIL %s" % miss[:5]
if __name__ == "__main__":
    a = sys.argv[1:]; v = "--verify" in a; ids = [x for x in a if not x.startswith("--")]
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        if not v or not os.path.exists(os.path.join(OUT, s["id"])): make(s)
        if v: verify(s)
