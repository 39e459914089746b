#!/usr/bin/env python3
"""seed.py ID PROPERTY  < spec on stdin: creates /verif/seeded/ID and confirms it.

spec: lines 'needs: ...', 'breaks: ...', 'sources: a.cpp b.cpp', then one or more
<<<FILE / old / === / new / >>> blocks, then 'DEMO' and the C++ program (main returns 0 when the property holds).
"""
import json, os, re, shutil, subprocess, sys, tempfile
sid, prop = sys.argv[1:3]
spec = sys.stdin.read()
head, demo = spec.split("\nDEMO\n", 1)
meta = {m.group(1): m.group(2).strip() for m in re.finditer(r"^(needs|breaks|sources):(.*)$", head, re.M)}
edits = re.findall(r"<<<(\S+)\n(.*?)\n===\n(.*?)\n?>>>", head, re.S)
assert edits
d = "/verif/seeded/" + sid
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
tree = w + "/repo"
subprocess.run(["cp", "-a", "/repo", tree], check=True)
for f, old, new in edits:
    p = tree + "/" + f
    s = open(p, newline="").read()
    if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
patch = subprocess.run(["git", "-C", tree, "diff", "--", "src"], stdout=subprocess.PIPE, check=True).stdout
open(d + "/patch.diff", "wb").write(patch)
srcs = meta.get("sources", "").split()
pre = '#include <cstdio>\n#include <cmath>\n#include <string>\n#include <vector>\n#include <map>\n#include <iostream>\n#include <stdexcept>\n#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); bad++; } } while (0)\n#define NEAR(a, b) CHECK(std::fabs((a) - (b)) <= 1e-9 * (1.0 + std::fabs(b)))\nstatic int bad = 0;\n'
open(d + "/demo.cpp", "w").write(pre + demo)
open(d + "/demo.sh", "w").write('#!/bin/bash\n# compiles the library sources with demo.cpp and runs it in a scratch directory\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 2\ntrap \'rm -r "$t"\' EXIT\ng++ -std=c++11 -O1 -w -DNDEBUG -I"$PWD/src" %s "$here/demo.cpp" -o "$t/demo" || exit 2\ncd "$t" && timeout 120 ./demo > out.txt 2>&1; rc=$?\ntail -5 out.txt\nexit $rc\n' % " ".join('"$PWD/src/%s"' % s for s in srcs))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
ok = True
r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r0.returncode != 0: ok = False; print("demo fails on the unchanged tree:", r0.stdout[-600:])
r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r1.returncode in (0, 2): ok = False; print("demo rc", r1.returncode, "on the changed tree:", r1.stdout[-600:])
if "--nobuild" not in sys.argv:
    # build and test in the copy
    sh = open("/opt/vp/build.sh").read()
    env = dict(os.environ)
    b = subprocess.run("exec 9>/tmp/seedlock; flock 9; sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; sed 's#/repo#%s#g' /opt/vp/test.sh > %s/t.sh; cd %s; bash %s/b.sh >%s/b.log 2>&1 && bash %s/t.sh %s/o.json >%s/t.log 2>&1; tail -1 %s/t.log" % (tree, w, tree, w, tree, w, w, w, w, w, w), shell=True, stdout=subprocess.PIPE, text=True)
    try:
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; o = json.load(open(w + "/o.json"))["passed"]
        miss = [x for x in base if x not in o]
    except Exception as e: miss = [str(e)]
    if miss: ok = False; print("tests lost:", miss)
shutil.rmtree(w)
if not ok: shutil.rmtree(d)
print(sid, "KEPT" if ok else "DROPPED", "|", r1.stdout.strip()[-150:])
