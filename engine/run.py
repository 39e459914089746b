#!/usr/bin/env python3
"""Driver of one check:  run.py PROPERTY

Builds, from /repo's current working tree, the symbolic and the native variant of the property's harness together
with the real sources it names, explores all paths symbolically, replays every counterexample natively, validates
sampled path witnesses natively, writes evidence/<PROPERTY>.json and exits 0 (held) or 1 (VIOLATION).
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
from transform import transform

def z3dirs():
    for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3"):
        if os.path.exists(d + "/include/z3.h") and os.path.exists(d + "/lib/libz3.so"):
            return d + "/include", d + "/lib"
    return "/usr/include", "/usr/lib/x86_64-linux-gnu"

def meta(path):
    """// @key value  lines at the top of a harness file."""
    m = {}
    for line in open(path):
        g = re.match(r"//\s*@(\w+)\s*(.*)", line)
        if g:
            m.setdefault(g.group(1), []).append(g.group(2).strip())
    return m

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(prop, hfile, work):
    m = meta(hfile)
    strings = "strings" in m
    inc, lib = z3dirs()
    symd, nat = work + "/sym", work + "/nat"
    os.makedirs(symd); os.makedirs(nat)
    for f in glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.h"):
        text = open(f, encoding="utf-8", errors="surrogateescape").read()
        with open(os.path.join(symd, os.path.basename(f)), "w", encoding="utf-8", errors="surrogateescape") as o:
            o.write(transform(text, strings))
        shutil.copy(f, nat)
    for f in glob.glob(VERIF + "/harness/*.h") + [hfile]:
        text = open(f).read()
        with open(os.path.join(symd, os.path.basename(f)), "w") as o:
            o.write(transform(text, strings))
        shutil.copy(f, nat)
    srcs = " ".join(m["sources"]).split()
    without = " ".join(m.get("without", [])).split()
    every = [f for f in sorted(os.path.basename(f) for f in glob.glob(REPO + "/src/*.cpp")) if f not in without]
    if "*" in srcs: srcs = every
    m["sources"] = srcs
    hb = os.path.basename(hfile)
    eng = VERIF + "/engine"
    replace = [x.split(None, 1) for x in m.get("replace", [])]   # @replace FILE SYMBOL-REGEX: the harness' definition wins in the symbolic build
    common = ["-std=c++17", "-w", "-DNDEBUG", "-DFISX_DATA_DIR=\"fake\"", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-I" + eng]
    symflags = common + ["-O1", "-DSYMX", "-I" + symd, "-include", "sym.h", "-ftrivial-auto-var-init=pattern"] + (["-include", "symstr.h"] if strings else [])
    ins = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/engine/"]
    natflags = common + ["-O0", "-I" + nat, "-include", "sym.h", "-fsanitize=address", "-fno-omit-frame-pointer"]
    def compile_jobs(files):
        jobs = []
        for f in files:
            i = ins if f != hb else []
            if any(r[0] == f for r in replace): i = i + ["-fno-inline", "-fno-ipa-pure-const", "-fno-ipa-ra", "-fno-ipa-reference"]
            jobs.append((["g++"] + symflags + i + ["-c", symd + "/" + f, "-o", symd + "/" + f + ".o"], "symbolic " + f))
            jobs.append((["g++"] + natflags + ["-c", nat + "/" + f, "-o", nat + "/" + f + ".o"], "native " + f))
        return sorted(jobs, key=lambda j: -os.path.getsize(j[0][-3]))
    def run_jobs(jobs):
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: (j[1], sh(j[0])), jobs))
        for name, r in res:
            if r.returncode:
                print("build of %s failed:\n%s" % (name, r.stdout[-4000:]))
                return False
        return True
    if not run_jobs([(["g++"] + common + ["-O1", "-DSYMX", "-I" + inc, "-c", eng + "/symx.cpp", "-o", symd + "/_engine.o"], "engine")] + compile_jobs(srcs + [hb]) +
                    [(["g++"] + natflags + ["-c", eng + "/native.cpp", "-o", nat + "/_engine.o"], "engine-native")]): return None
    for f, rx in replace:
        syms = [x.split()[-1] for x in sh(["nm", symd + "/" + f + ".o"]).stdout.splitlines() if " T " in x]
        dem = sh(["c++filt"] + syms).stdout.splitlines()
        hit = [a for a, b in zip(syms, dem) if re.match(rx, b)]
        if hit: sh(["objcopy"] + ["--weaken-symbol=" + h for h in hit] + [symd + "/" + f + ".o"])
    def link():
        objs = lambda d: [d + "/_engine.o"] + [d + "/" + f + ".o" for f in srcs + [hb]]
        a = sh(["g++", "-rdynamic"] + objs(symd) + ["-o", work + "/symbolic", "-L" + lib, "-lz3", "-Wl,-rpath," + lib, "-lgmpxx", "-lgmp", "-ldl"])
        b = sh(["g++", "-fsanitize=address"] + objs(nat) + ["-o", work + "/native"])
        return a, b
    a, b = link()
    if (a.returncode or b.returncode) and len(srcs) < len(every):     # the code now uses other source files too
        rest = [f for f in every if f not in srcs]
        if not run_jobs(compile_jobs(rest)): return None
        srcs += rest
        a, b = link()
    if a.returncode or b.returncode:
        print("link failed:\n" + a.stdout[-3000:] + b.stdout[-3000:])
        return None
    return m

def native(work, h, inputs, timeout=30):
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".in", delete=False)
    for k, v in inputs.items():
        f.write("%s\t%s\n" % (k, v))
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=165:max_malloc_fill_size=4096")
    try:
        r = sh([work + "/native", h, f.name], timeout=timeout, env=env, cwd=work)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = "TIMEOUT", "timeout"
    return rc, out

def functions(work, addrs):
    if not addrs:
        return []
    r = sh(["nm", "-C", work + "/symbolic"])
    tab = {}
    for line in r.stdout.splitlines():
        p = line.split(None, 2)
        if len(p) == 3 and p[1] in "tTwW":
            tab.setdefault(int(p[0], 16), p[2])
    names = set()
    for a in addrs:
        n = tab.get(int(a, 16))
        if n and "fisx::" in n and "std::" != n[:5]:
            n = n.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string").replace("SymD", "double")
            n = re.sub(r", std::allocator<[^<>]*(<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>)? >", "", n)
            names.add(n[:160])
    return sorted(names)

def known(prop):
    out = []
    p = VERIF + "/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out

def match_known(kf, c):
    for d in kf:
        if d["harness"] == c["h"] and re.fullmatch(d["label"], c["label"]):
            env = {k: float(v) for k, v in c["in"].items()}
            if all(k in env and lo <= env[k] <= hi for k, (lo, hi) in d.get("where", {}).items()):
                return d
    return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    os.makedirs(VERIF + "/build", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    total = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "7200"))
    hfiles = sorted(glob.glob("%s/harness/%s*.cpp" % (VERIF, prop)))
    if not hfiles:
        print("no harness for " + prop); return 2
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    agg = {}
    labels, funcs, lemmas, bounds, stubs, notes, assum = {}, set(), set(), [], [], [], []
    viol, knownhits, spurious, mism, wit_total = [], [], [], [], 0
    kf = known(prop)
    rep_dir = VERIF + "/replays/" + prop
    shutil.rmtree(rep_dir, ignore_errors=True)
    keep = os.environ.get("SYMX_KEEP")
    srcs = set()
    for hf in hfiles:
        work = tempfile.mkdtemp(prefix=prop + "-", dir=VERIF + "/build")
        try:
            m = build(prop, hf, work)
            if m is None:
                print("CHECK-ERROR property=%s the harness does not build against this tree" % prop)
                return 2
            tb = time.time()
            if os.environ.get("SYMX_KEEP"): print("built in %.1f s: %s" % (tb - t0, work))
            srcs.update(" ".join(m["sources"]).split())
            bounds += m.get("bounds", []); stubs += m.get("stub", []); assum += m.get("assume", [])
            left = total - (time.time() - t0)
            env = dict(os.environ, MALLOC_PERTURB_="165", SYMX_BUDGET=str(max(30.0, left * 0.85 / (len(hfiles) - hfiles.index(hf)))))
            for k in ("QMS", "QMS2"):
                if k in m: env["SYMX_" + k] = m[k][0]
            out = work + "/out.jsonl"
            only = os.environ.get("SYMX_ONLY", "").split()
            # counterexamples are confirmed while the exploration goes on: only what the real code reproduces is reported
            seen, tried, pos, stop_at = {}, {}, 0, None
            def confirm(c):
                key = (c["h"], c["label"])
                if seen.get(key, 0) >= 1 or len(viol) >= 12 or tried.get(key, 0) >= 200: return False
                tried[key] = tried.get(key, 0) + 1
                rc, o = native(work, c["h"], c["in"])
                bad = rc == 1 and "CK-FAIL" in o or rc == "timeout" or (isinstance(rc, int) and (rc < 0 or rc == 99))
                if not bad:
                    spurious.append(dict(h=c["h"], label=c["label"], inputs=c["in"], native=o[-200:]))
                    return False
                d = match_known(kf, c)
                if d:
                    knownhits.append(d["id"]); return False
                seen[key] = seen.get(key, 0) + 1
                report(c, o)
                return True
            def report(c, o):
                os.makedirs(rep_dir, exist_ok=True)
                rp = "%s/%s-%s.json" % (rep_dir, re.sub(r"\W+", "_", c["h"]), re.sub(r"\W+", "_", c["label"])[:60])
                json.dump(dict(property=prop, harness_file=os.path.relpath(hf, VERIF), harness=c["h"], label=c["label"], inputs=c["in"],
                               solver_detail=c["detail"], native_result=o[-1500:],
                               how="native build of the harness with the real sources, run as: native %s FILE with FILE holding 'name<TAB>value' lines; engine/replay.py does it" % c["h"]),
                          open(rp, "w"), indent=1)
                viol.append((c, rp, o))
            err = open(work + "/err.txt", "w")
            pr = subprocess.Popen(["prlimit", "--as=%d" % (12 << 30), work + "/symbolic", out] + only, env=env, cwd=work, stdout=err, stderr=err)
            tend = time.time() + max(60.0, left)
            rows = []
            tail = b""
            while True:
                done = pr.poll() is not None
                if os.path.exists(out):
                    with open(out, "rb") as fo:
                        fo.seek(pos); data = fo.read()
                    pos += len(data); tail += data
                    lines = tail.split(b"\n"); tail = lines.pop()
                    new = []
                    for line in lines:
                        try: new.append(json.loads(line.decode(errors="replace")))
                        except ValueError: pass
                    rows += new
                    for c in new:
                        if c["t"] == "cand" and confirm(c) and stop_at is None:
                            stop_at = time.time() + (20 if tier == "quick" else 120)
                if done: break
                if stop_at and time.time() > stop_at:
                    stop_at = time.time() + 60
                    pr.send_signal(15)
                    notes.append("exploration of %s ended early: a violation was confirmed" % os.path.basename(hf))
                if time.time() > tend:
                    subprocess.run(["pkill", "-9", "-f", work + "/symbolic"])
                    notes.append("exploration of %s was cut at the time budget" % os.path.basename(hf))
                    tend += 60
                time.sleep(0.2)
            err.close()
            txt = open(work + "/err.txt", errors="replace").read()
            if txt.strip(): print(txt[-2000:] if not keep else txt[-20000:])
            for row in rows:
                if row["t"] != "sum": continue
                for k, v in row.items():
                    if isinstance(v, (int, float)): agg[k] = (max if k == "maxq_s" else (lambda a, b: a + b))(agg.get(k, 0), v)
                for k, v in row["labels"].items():
                    d = labels.setdefault(k, {})
                    for kk, vv in v.items(): d[kk] = d.get(kk, 0) + vv
                lemmas.update(row["lemmas"])
                funcs.update(functions(work, row["addrs"]))
            # the same paths executed by the real code
            wits = [x for x in rows if x["t"] == "wit"]
            wit_total += len(wits)
            step = max(1, len(wits) // 60)
            pick = wits[::step][:60]
            with cf.ThreadPoolExecutor(8) as ex:
                for w, (rc, o) in zip(pick, ex.map(lambda w: native(work, w["h"], w["in"]), pick)):
                    if rc == 0: ev["traces_validated_against_impl"] += 1
                    elif rc == 77: notes.append("witness outside the assumptions after rounding: " + w["h"])
                    elif rc == 99 or isinstance(rc, int) and rc < 0:
                        # the real code breaks on inputs of an explored path (memory error, abort)
                        c = dict(h=w["h"], label="memory-error", detail="", **{"in": w["in"]})
                        if not match_known(kf, c) and seen.get((c["h"], c["label"]), 0) < 1 and len(viol) < 12:
                            seen[(c["h"], c["label"])] = 1; report(c, str(o))
                    elif rc == 1 and any((w["h"], l) in tried for l in re.findall(r"CK-FAIL (\S+)", o)):
                        # an assertion the solver refuted, failing in the real code on the inputs of another path
                        for l in re.findall(r"CK-FAIL (\S+)", o):
                            c = dict(h=w["h"], label=l, detail="", **{"in": w["in"]})
                            if (w["h"], l) in tried and not match_known(kf, c) and seen.get((w["h"], l), 0) < 1 and len(viol) < 12:
                                seen[(w["h"], l)] = 1; report(c, o)
                    else: mism.append(dict(h=w["h"], inputs=w["in"], native=str(o)[-300:]))
            per = {}
            for w in wits:
                if per.setdefault(w["h"], 0) < 2:
                    per[w["h"]] += 1
                    ev["samples"].append(dict(harness=w["h"], path_inputs=w["in"], checks_on_path=w["checks"]))
            for kfd in kf:
                if kfd["harness"] in [x["h"] for x in rows if "h" in x] or True:
                    pass
        finally:
            if not keep: shutil.rmtree(work, ignore_errors=True)
    ev["samples"] = ev["samples"][:40]
    ev["states"] = agg.get("paths", 0)
    ev["transitions"] = agg.get("decisions", 0) + agg.get("forks", 0)
    obl = sum(v["reached"] for v in labels.values())
    disc = sum(v["normal"] + v["proved"] + v["proved_tol"] + v["concrete"] for v in labels.values())
    ev.update(obligations=obl, discharged=disc,
              discharged_by_solver=sum(v["proved"] + v["proved_tol"] for v in labels.values()),
              discharged_by_normal_form=sum(v["normal"] for v in labels.values()),
              normal_form_discharges_put_to_the_solver=sum(v["asked"] for v in labels.values()), of_those_confirmed_unsat=sum(v["confirmed"] for v in labels.values()),
              discharged_by_path_constraints=sum(v["concrete"] for v in labels.values()),
              undecided=sum(v["unknown"] for v in labels.values()),
              paths_assumed_away=agg.get("killed", 0), branch_decisions=agg.get("decisions", 0), path_forks=agg.get("forks", 0), branches_decided_by_input_ranges=agg.get("ranged", 0),
              solver="Z3 " + z3ver(), queries=agg.get("queries", 0), queries_unsat=agg.get("q_unsat", 0), queries_sat=agg.get("q_sat", 0),
              queries_unknown=agg.get("q_unknown", 0), solver_seconds=round(agg.get("solver_s", 0), 2), slowest_query_s=round(agg.get("maxq_s", 0), 2),
              paths_cut_by_bound=agg.get("bound", 0), paths_cut_by_time=agg.get("deadline", 0) + agg.get("cpu", 0), crashed_paths=agg.get("crash", 0),
              reachability_witnesses=wit_total, encoded_functions=sorted(funcs), encoded_sources=sorted(srcs), bounds=bounds,
              stubs=stubs, lemmas_given_to_solver=sorted(lemmas), labels=labels,
              counterexamples_not_reproduced=spurious[:10], native_mismatches=mism[:10], notes=notes[:10])
    evidence = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=ev,
                    assumptions=["inputs are real numbers inside the bounds of the harness; floating-point rounding is outside the claim unless the harness says bit-precise"] + assum,
                    wall_s=round(time.time() - t0, 2), violations=len(viol))
    tmp = VERIF + "/evidence/.%s.tmp" % prop
    json.dump(evidence, open(tmp, "w"), indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % prop)
    print("%s: %d paths, %d obligations (%d discharged, %d undecided), %d queries, %.1f s solver, %d witnesses (%d validated natively), %d cut, %.1f s" % (
        prop, ev["states"], obl, disc, ev["undecided"], ev["queries"], ev["solver_seconds"], wit_total, ev["traces_validated_against_impl"],
        ev["paths_cut_by_bound"] + ev["paths_cut_by_time"] + ev["crashed_paths"], time.time() - t0))
    if spurious: print("note: %d solver counterexamples did not reproduce natively and are not reported" % len(spurious))
    if os.environ.get("SYMX_KEEP"):
        for k, v in sorted(labels.items()):
            if v["violated"] or v["unknown"] or v["proved_tol"] or "-v" in sys.argv: print("   ", k, v)
        for x in spurious[:5] + mism[:5]: print("   spurious/mismatch", x)
    for d in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, d.get("what") or d["entry"].split(" ", 2)[2]))
    if viol:
        for c, rp, o in viol:
            print("  %s/%s: %s" % (c["h"], c["label"], o.strip().replace("\n", " | ")[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]))
        return 1
    if wit_total == 0 or obl == 0:
        print("CHECK-ERROR property=%s vacuous: no path reached its assertions" % prop)
        return 2
    return 0

def z3ver():
    try:
        return open("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/include/z3_version.h").read().split("Z3_FULL_VERSION")[1].split('"')[1]
    except Exception:
        return "libz3"

if __name__ == "__main__":
    sys.exit(main())
