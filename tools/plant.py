#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from bugs/*.py and verifies the planted bugs in scratch copies.
  plant.py write [ID...]         write patch.diff, demo.sh, demo.cpp, meta.json
  plant.py demo [ID...]          demo passes on /repo, fails with the patch
  plant.py tests [ID...]         stable tests pass with the patch (slow)
  plant.py try [ID...]           like checks, without a written patch
  plant.py checks [ID...] [-c C03,C04] run the check of the bug's property (or the given ones) against the patched copy
No check uses this file."""
import glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); W = "/tmp/plant/%d" % os.getpid()
BUGS = {}
sys.path.insert(0, HERE + "/bugs")
for f in sorted(glob.glob(HERE + "/bugs/*.py")):
    s = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for b in m.BUGS: assert b["id"] not in BUGS; BUGS[b["id"]] = b
DEMO = """#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
%s %s -I"$PWD/include" -I/usr/include/jsoncpp "$d/demo.cpp" -o "$t/demo" %s || exit 98
cd "$t" && %stimeout 200 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy(i):
    d = W + "/" + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C %s" % d); sh("git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", cwd=d); return d
def write(b):
    d = copy(b["id"])
    for f, old, new in b["edits"]:
        p = d + "/include/valijson/" + f; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    o = V + "/seeded/" + b["id"]; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=d, stdout=subprocess.PIPE, text=True).stdout)
    open(o + "/demo.cpp", "w").write(b["demo"])
    open(o + "/demo.sh", "w").write(DEMO % (b.get("cxx", "g++"), b.get("flags", "-std=c++17 -O1 -g") + ("" if b.get("noexc") else " -DVALIJSON_USE_EXCEPTIONS=1"), b.get("libs", "-ljsoncpp"), b.get("env", "")))
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
def patched(i):
    d = copy(i); r = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=d); assert r.returncode == 0, r.stdout; return d
def demo(i):
    a = sh(["bash", V + "/seeded/%s/demo.sh" % i], cwd="/repo"); d = patched(i); b = sh(["bash", V + "/seeded/%s/demo.sh" % i], cwd=d); shutil.rmtree(d)
    ok = a.returncode == 0 and b.returncode not in (0, 98, 99); print(i, "demo", "ok" if ok else "BAD", a.returncode, b.returncode, flush=True)
    if not ok: print("clean:", a.stdout[-1500:], "\npatched:", b.stdout[-1500:])
    else: print("   ", b.stdout[-300:].strip().replace("\n", " | "))
def tests(i):
    d = patched(i)
    r = sh("export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_PROJECT_valijson_INCLUDE=/opt/vp/cmake/system-deps.cmake -Dvalijson_BUILD_TESTS=ON -Dvalijson_BUILD_EXAMPLES=ON -Dvalijson_REQUIRE_ALL_ADAPTER_TESTS=ON -Wno-dev && ninja -C %s/_build && cd %s/_build && ./test_suite --gtest_output=xml:x.xml > log; ./test_rapidjson_crt_allocator > log2; grep -a '^\\[  FAILED' log; tail -5 log" % (d, d, d, d))
    fails = sorted({l.split("]", 1)[1].split()[0].rstrip(",") for l in r.stdout.split("\n") if l.startswith("[  FAILED  ] ") and "." in l})
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [f for f in fails if f.replace(".", "::") in stable]
    print(i, "tests", "ok" if not bad and "[  PASSED  ]" in r.stdout else "BAD " + r.stdout[-1500:], fails[:3], flush=True); shutil.rmtree(d)
def checks(i, cs, direct=False):
    d = patched(i) if not direct else copy(i)
    for f, old, new in BUGS[i]["edits"] if direct else []:
        q = d + "/include/valijson/" + f; t = open(q).read(); assert t.count(old) == 1, (i, f, t.count(old), old); open(q, "w").write(t.replace(old, new))
    for c in cs or [BUGS[i]["property"]]:
        r = sh([sys.executable, V + "/check.py", c], env=dict(os.environ, SIM_REPO=d))
        last = [l for l in r.stdout.split("\n") if l.strip()]
        print(i, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), "|", " / ".join(last[-3:])[:400], flush=True)
    shutil.rmtree(d)
a = sys.argv[1:]; cmd = a.pop(0); cs = None
if "-c" in a: k = a.index("-c"); cs = a[k + 1].split(","); del a[k:k + 2]
ids = a or list(BUGS)
for i in ids:
    if cmd == "write": write(BUGS[i])
    elif cmd == "demo": demo(i)
    elif cmd == "tests": tests(i)
    elif cmd == "checks": checks(i, cs)
    elif cmd == "try": checks(i, cs, True)
    elif cmd == "applies":
        d = copy(i)
        for f, old, new in BUGS[i]["edits"]:
            q = d + "/include/valijson/" + f; t = open(q).read(); print(i, f, "ok" if t.count(old) == 1 else "BAD %d" % t.count(old)); open(q, "w").write(t.replace(old, new))
        shutil.rmtree(d)
