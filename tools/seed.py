#!/usr/bin/env python3
"""seed.py NAME PROP NEEDS BREAKS FILE PERL [FILE PERL ...]   (demo source on stdin)
Plants a bug in a scratch copy of /repo, confirms the demonstration, the build
and the tests, and stores it as /verif/seeded/NAME."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, prop, needs, breaks = sys.argv[1:5]
edits = sys.argv[5:]
d = os.path.join(V, "seeded", name)
os.makedirs(d, exist_ok=True)
src = sys.stdin.read()
for f in os.environ.get("SEED_FILES", "").split():   # headers the demonstration needs next to it
    shutil.copy(f, d)
open(os.path.join(d, "demo.cpp"), "w").write(src)
inc = "include libs/include back-end/include back-end/Exu/include back-end/Lsu/include back-end/tools/include MemSubSystem/include diff/include legacy/mmu/include front-end front-end/icache/include .".split()
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++2a -O1 -DNDEBUG -fno-access-control -w -I"$d" %s "$d/demo.cpp" -o "$t/demo" && (cd "$t" && ./demo)
r=$?
rm -r "$t"
exit $r
""" % " ".join("-I" + i for i in inc))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
S = "/tmp/srepo"
subprocess.run(["rsync", "-a", "--delete", "/repo/", S + "/"], check=True) if shutil.which("rsync") else (shutil.rmtree(S, ignore_errors=True), subprocess.run(["cp", "-a", "/repo", S], check=True))
r0 = subprocess.run(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=S)
for f, e in zip(edits[::2], edits[1::2]):
    subprocess.run(["perl", "-0pi", "-e", e, f], cwd=S, check=True)
p = subprocess.check_output(["git", "diff"], cwd=S, text=True)
open(os.path.join(d, "patch.diff"), "w").write(p)
print(p)
r1 = subprocess.run(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=S)
print("demo: clean", r0.returncode, "patched", r1.returncode)
ok = r0.returncode == 0 and r1.returncode != 0 and p
if ok:
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_test.json"], capture_output=True, text=True)
        lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/seed_test.json"))["passed"])
        print("tests", t.stdout.strip().split("\n")[-1], "lost", sorted(lost))
        ch = subprocess.run([sys.executable, os.path.join(V, "check.py"), prop], cwd=V, capture_output=True, text=True)
        print("check exit", ch.returncode, "\n".join(l[:200] for l in ch.stdout.split("\n")[:6]))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
else:
    print("NOT KEPT"); 
