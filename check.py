#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE] [--build-only]

Builds the simulator for one property from the working tree of /repo and searches seeds.
Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
Exit 2: the check itself could not give an answer."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
NPROC = os.cpu_count() or 4
sys.path.insert(0, HERE)
from checks import CHECKS, LIBS, FLAVOURS   # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    """content of every header of the library and of the simulator's own headers"""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), SIM):
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if base == SIM and not f.endswith(".hpp"):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def build(name, variant=0):
    """compile the units of a check and link its executable; returns its path"""
    c = CHECKS[name]
    var = c.get("variants", [{}])[variant]
    fl = FLAVOURS[c.get("flavour", "asan")]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    th = tree_hash()
    jobs, objs, late = [], [], []
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    units = [(os.path.join(SIM, u + ".cpp"), fl.get("unit_flags", {}).get(u)) for u in fl["base"] + c["units"]]
    libs = c.get("libs", [])
    twin = []           # units of a shared library built with flags of its own
    if c.get("twin"):
        twin = [(os.path.join(SIM, u + ".cpp"), var["twin_cflags"]) for u in c["twin"]]
    if libs:
        body = "#include \"lib.hpp\"\nnamespace sim {\n" + "".join("const Lib *lib_%s();\n" % l for l in libs)
        body += "const std::vector<const Lib *> &libs() { static std::vector<const Lib *> v = {" + ", ".join("lib_%s()" % l for l in libs) + "}; return v; }\n}\n"
        p = os.path.join(gen, "libs_%s.cpp" % hashlib.sha256(body.encode()).hexdigest()[:12])
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write(body)
        units.append((p, None))
        for l in libs:
            units.append((os.path.join(SIM, "lib_%s.cpp" % l), LIBS[l].get("cflags", [])))
        if twin:
            twin += [(p, var["twin_cflags"])] + [(os.path.join(SIM, "lib_%s.cpp" % l), LIBS[l].get("cflags", []) + var["twin_cflags"]) for l in libs]
    loaders = c.get("loaders", [])
    if loaders:
        body = "#include \"io.hpp\"\nnamespace sim {\n" + "".join("const Loader *io_%s();\n" % l for l in loaders)
        body += "const std::vector<const Loader *> &loaders() { static std::vector<const Loader *> v = {" + ", ".join("io_%s()" % l for l in loaders) + "}; return v; }\n}\n"
        p = os.path.join(gen, "io_%s.cpp" % hashlib.sha256(body.encode()).hexdigest()[:12])
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write(body)
        units.append((p, None))
        if twin:
            twin += [(p, var["twin_cflags"])] + [(os.path.join(SIM, "io_%s.cpp" % l), LIBS[l].get("cflags", []) + var["twin_cflags"]) for l in loaders]
        for l in loaders:
            units.append((os.path.join(SIM, "io_%s.cpp" % l), LIBS[l].get("cflags", []) + var.get("loader_cflags", {}).get(l, [])))
    ldflags = list(fl["ldflags"]) + c.get("ldflags", []) + var.get("ldflags", [])
    for l in libs + loaders:
        ldflags += [x for x in LIBS[l].get("ldflags", []) if x not in ldflags]
    tobjs = []
    for src, extra in units + twin:
        with open(src, "rb") as f:
            content = f.read()
        instr = fl.get("instr") if os.path.basename(src)[:-4] not in fl.get("plain_units", []) else None
        flags = fl["cflags"] + (instr or []) + (extra or []) + c.get("cflags", []) + var.get("cflags", [])
        key = hashlib.sha256((th + "|" + " ".join([fl["cxx"]] + flags) + "|" + src).encode() + content).hexdigest()[:24]
        obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + key + ".o")
        (tobjs if (src, extra) in twin else objs if instr or not fl.get("instr") else late).append(obj)
        if not os.path.exists(obj):
            jobs.append((os.path.getsize(src) + (100000 if "/lib_" in src else 0) + (50000 if "scn_" in src else 0),
                         [fl["cxx"]] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + SIM, "-c", src, "-o", obj + ".tmp%d" % os.getpid()], obj))
    jobs.sort(key=lambda j: -j[0])

    def run(j):
        r = sh(j[1])
        if r.returncode == 0:
            os.replace(j[1][-1], j[2])
        return r, j
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, j in ex.map(run, jobs):
            if r.returncode:
                sys.stderr.write("compile failed: %s\n%s\n" % (" ".join(j[1]), r.stdout[-6000:]))
                raise SystemExit(2)
    if tobjs:
        key = hashlib.sha256((" ".join(tobjs) + " ".join(ldflags)).encode()).hexdigest()[:24]
        so = os.path.join(BUILD, "sim-%s-twin-%s.so" % (name, key))
        if not os.path.exists(so):
            r = sh([fl["cxx"], "-shared", "-Wl,-Bsymbolic"] + tobjs + [x for x in ldflags if x != "-rdynamic"] + ["-o", so + ".tmp%d" % os.getpid()])
            if r.returncode:
                sys.stderr.write("link failed:\n%s\n" % r.stdout[-6000:])
                raise SystemExit(2)
            os.replace(so + ".tmp%d" % os.getpid(), so)
        late.append(so)
    objs += late     # instrumented copies of inline functions come first
    key = hashlib.sha256((" ".join(objs) + " ".join(ldflags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-%s-%s" % (name, key))
    if not os.path.exists(exe):
        r = sh([fl.get("ld", fl["cxx"])] + fl.get("pre", []) + objs + ldflags + ["-o", exe + ".tmp%d" % os.getpid()])
        if r.returncode:
            sys.stderr.write("link failed:\n%s\n" % r.stdout[-6000:])
            raise SystemExit(2)
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    # do not let the cache grow without bound
    ents = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for d, _, fs in os.walk(BUILD) for f in fs if f.endswith(".o") or f.startswith("sim-"))
    keep = set(objs) | {exe}
    while len(ents) > 500:
        _, p = ents.pop(0)
        if p not in keep:
            try:
                os.unlink(p)
            except OSError:
                pass
    return exe


def prepare(name):
    """things a check needs at run time (compiled locales, ...)"""
    env = {}
    if CHECKS[name].get("locales"):
        d = os.path.join(BUILD, "locales")
        os.makedirs(d, exist_ok=True)

        def one(loc):
            t = os.path.join(d, loc)
            if not os.path.isdir(t):
                tmp = t + ".tmp%d" % os.getpid()
                sh(["localedef", "-i", loc.split(".")[0], "-f", loc.split(".")[1], "--no-archive", tmp])
                try:
                    os.replace(tmp, t)
                except OSError:
                    shutil.rmtree(tmp, ignore_errors=True)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, CHECKS[name]["locales"]))
        env["LOCPATH"] = d
    return env


def findings(prop):
    """known findings: list of (match strings joined by &&, description)"""
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)["findings"]:
                if e.get("status") == "known" and e["property"] == prop:
                    out.append(("&&".join(e["match"]), e["what"]))
    return out


def main():
    a = sys.argv[1:]
    if not a or a[0] not in CHECKS:
        sys.stderr.write(__doc__ + "\nchecks: " + " ".join(CHECKS) + "\n")
        return 2
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = None
    replay = None
    build_only = False
    cap = None
    while a:
        o = a.pop(0)
        if o == "--tier": tier = a.pop(0)
        elif o == "--seed": seed = int(a.pop(0))
        elif o == "--runs": runs = int(a.pop(0))
        elif o == "--cap": cap = float(a.pop(0))
        elif o == "--replay": replay = a.pop(0)
        elif o == "--build-only": build_only = True
        else:
            sys.stderr.write("bad argument %s\n" % o)
            return 2
    c = CHECKS[prop]
    t0 = time.time()
    exes = [build(prop, v) for v in range(len(c.get("variants", [{}])))]
    exe = exes[0]
    env = dict(os.environ)
    env.pop("SIM_NOASLR", None)
    for k in list(env):
        if k.startswith("LC_") or k in ("LANG", "LANGUAGE", "TZ", "ASAN_OPTIONS", "TSAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD", "GLIBCXX_TUNABLES", "GLIBC_TUNABLES", "MALLOC_ARENA_MAX"):
            del env[k]
    env.update(prepare(prop))
    tb = time.time() - t0
    if build_only:
        print("built %s in %.1f s" % (exe, tb))
        return 0
    if replay:
        with open(replay) as f:
            exe = exes[json.load(f).get("variant", 0)]
        r = subprocess.run([exe, "--prop", prop, "--replay", replay], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        try:
            j = json.loads(r.stdout)
            print("class: %s\nhash: %s\n%s\n--- events\n%s" % (j["cls"], j["hash"], j["detail"], j["log"]))
        except ValueError:
            print(r.stdout)
        return r.returncode
    tc = c[tier if tier in ("quick", "thorough") else "quick"]
    runs = runs or tc["runs"]
    cap = cap or tc["cap"]
    fnd = findings(prop)
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    procs = []
    nw = min(NPROC, runs)
    for w in range(nw):
        cmd = [exes[w % len(exes)], "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(nw), "--runs", str(runs), "--cap", str(cap),
               "--min", str(c.get("min", 25)), "--out", os.path.join(work, "w%d.json" % w)]
        for m, _ in fnd:
            cmd += ["--ignore", m]
        procs.append(subprocess.Popen(cmd, env=env, stdout=open(os.path.join(work, "w%d.out" % w), "w"), stderr=subprocess.STDOUT))
    # the first worker that finds a violation stops the search for the others
    deadline = time.time() + cap + 150
    res = {}
    stop = False
    while len(res) < nw and time.time() < deadline:
        time.sleep(0.1)
        for w, p in enumerate(procs):
            if w in res or p.poll() is None:
                continue
            try:
                with open(os.path.join(work, "w%d.json" % w)) as f:
                    res[w] = json.load(f)
            except Exception:
                with open(os.path.join(work, "w%d.out" % w)) as f:
                    res[w] = {"broken": "worker %d ended with %s: %s" % (w, p.returncode, f.read()[-2000:])}
            if res[w].get("violation") and not stop:
                stop = True
        if stop:
            break
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        p.wait()
    broken = [r["broken"] for r in res.values() if "broken" in r]
    res = {w: r for w, r in res.items() if "broken" not in r}
    if not stop and len(res) + len(broken) < nw:
        broken.append("%d workers did not end in time" % (nw - len(res) - len(broken)))
    wall = time.time() - t0
    rs = [res[w] for w in sorted(res)]
    viol = [r["violation"] for r in rs if r.get("violation")]
    viol.sort(key=lambda v: v["run"])
    tot = lambda k: sum(r[k] for r in rs)
    faults = {}
    for r in rs:
        for k, (i, f) in r["faults"].items():
            x = faults.setdefault(k, {"injected": 0, "fired": 0})
            x["injected"] += i
            x["fired"] += f
    ignored = {}
    for r in rs:
        for k, n in r["ignored"].items():
            ignored[k] = ignored.get(k, 0) + n
    nts, sigs = set(), set()
    for r in rs:
        nts.update(r["nt_hashes"])
        sigs.update(r["sigs"])
    sw = max([r["wall"] for r in rs] or [0.001]) or 0.001
    internal = [r["internal"] for r in rs if r.get("internal")]
    gate_bad = sum(r["gate_bad"] for r in rs)
    rc = 0
    replay_path = None
    lines = []
    if viol:
        v = viol[0]
        exe = exes[v["run"] % nw % len(exes)]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, "%s-%s-run%d.json" % (prop, v["seed"], v["run"]))
        v2 = {"property": prop, "verif_seed": seed, "run": v["run"], "run_seed": v["seed"], "class": v["cls"], "variant": exes.index(exe), "hash": v["hash"], "detail": v["detail"],
              "how": "python3 check.py %s --replay <this file>" % prop, "original_choices": v["orig_choices"], "minimise_runs": v["minimise_runs"],
              "events": v["events"].split("\n"), "choices": v["choices"]}
        with open(replay_path, "w") as f:
            json.dump(v2, f, indent=1)
            f.write("\n")
        # gate: a fresh process must reproduce the class and the event hash exactly
        ok = v["gate"]
        r = subprocess.run([exe, "--prop", prop, "--replay", replay_path], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        try:
            j = json.loads(r.stdout)
            ok = ok and j["cls"] == v["cls"] and j["hash"] == v["hash"]
        except ValueError:
            ok = False
        lines.append("class %s\n%s" % (v["cls"], v["detail"]))
        if ok:
            lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay_path, HERE)))
            rc = 1
        else:
            lines.append("ERROR: the run found in this search does not replay exactly; no verdict")
            rc = 2
    elif broken or internal:
        rc = 2
        lines.append("ERROR: %s" % "; ".join(broken + internal))
    elif gate_bad:
        rc = 2
        lines.append("ERROR: %d runs were not deterministic: %s" % (gate_bad, [r["gate_detail"] for r in rs if r["gate_bad"]][:1]))
    for m, what in fnd:
        if rc == 0:
            lines.append("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, what, ignored.get(m, 0)))
    one = rs[0] if rs else {}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
          "coverage": {
              "evaluations": tot("evaluations") if rs else 0,
              "distinct_nontrivial": len(nts),
              "rule": c["rule"],
              "samples": [s for r in rs for s in r["samples"]][:3] or ["none"],
              "simulated_runs": tot("runs") if rs else 0,
              "runs_nontrivial": tot("nontrivial") if rs else 0,
              "runs_per_hour": int((tot("runs") if rs else 0) * 3600 / sw),
              "seed_range": "run indices 0..%d of VERIF_SEED=%d, one derived 64-bit seed per run%s" % (runs - 1, seed, "; the time cap ended the search early" if any(r["capped"] for r in rs) else ""),
              "simulated_steps": tot("steps") if rs else 0,
              "simulated_time_s": round((tot("simtime_ns") if rs else 0) / 1e9, 3),
              "faults": faults,
              "distinct_states": len(sigs),
              "state_measure": c["measure"],
              "determinism_gate": {"runs_replayed": tot("gate_checks") if rs else 0, "mismatches": gate_bad},
              "workload": one.get("what", ""), "real_components": one.get("real", ""), "stubbed_components": one.get("stub", ""),
              "known_findings_met": ignored, "build_s": round(tb, 1), "search_s": round(sw, 1)},
          "assumptions": c.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    print("%s: %d runs, %d non-trivial and distinct, %d evaluations, faults fired %s, build %.1f s, search %.1f s" % (
        prop, ev["coverage"]["simulated_runs"], len(nts), ev["coverage"]["evaluations"], {k: v["fired"] for k, v in faults.items()}, tb, sw))
    for l in lines:
        print(l)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:   # noqa
        import traceback
        traceback.print_exc()
        sys.exit(2)
