#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only ENTRY]

Decides one property by symbolic execution of the real code: compiles /repo's
current sources (and the property's harness) to LLVM IR, executes the harness
symbolically with engine/vsym (Z3 decides every branch, bound and assertion),
replays counterexamples and sampled paths natively against the same sources,
and writes /verif/evidence/<PROPERTY>.json.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
CLANG, CLANGC, LINK = "clang++-18", "clang-18", "llvm-link-18"
JOBS = 8
T0 = time.time()

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/engine/*")):
        h.update(open(f, "rb").read())
    exe = "%s/build/engine-%s/vsym" % (V, h.hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = run(["bash", V + "/engine/build.sh", tmp])
        if r.returncode:
            print(r.stdout); raise SystemExit("engine build failed")
        os.replace(tmp, exe)
    return exe

def config_h(d):
    on = {"HAVE_GETTIMEOFDAY", "HAVE_MALLOC_H", "HAVE_MEMALIGN", "HAVE_MPROTECT", "HAVE_POSIX_MEMALIGN",
          "HAVE_SYS_MMAN_H", "HAVE_SYS_TIME_H", "HAVE_UNISTD_H"}
    out = []
    for l in open(REPO + "/src/config.h.in"):
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", l)
        if m:
            if m.group(1) == "OPEN_VCDIFF_VERSION":
                out.append('#define OPEN_VCDIFF_VERSION "0.8.4"\n')
            elif m.group(1) in on:
                out.append("#define %s%s\n" % (m.group(1), m.group(2)))
        else:
            out.append(l)
    open(d + "/config.h", "w").write("".join(out))

def library_sources():
    cc = [f for f in sorted(glob.glob(REPO + "/src/*.cc")) if not f.endswith("_test.cc") and os.path.basename(f) != "vcdiff_main.cc"]
    return cc + [REPO + "/src/zlib/adler32.c"]

class BuildError(Exception):
    pass

def harness_entries(h):
    return re.findall(r'extern "C" void (\w+)\(\)', open(V + "/harness/" + h).read())

def compile_all(spec, d, want):
    """want: subset of {'ir','native'}.  Returns the harness files that do not compile against the current
    sources (possible when an internal interface changed); their entries are left out."""
    os.makedirs(d, exist_ok=True)
    config_h(d)
    inc = ["-I" + d, "-I" + REPO + "/src", "-I" + REPO + "/src/zlib", "-I" + V + "/harness", "-w"] + spec.get("defs", [])
    ir = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-threadsafe-statics", "-gline-tables-only", "-emit-llvm"] + spec.get("irflags", [])
    ubs = "signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,unreachable,return"
    nat = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
    if spec.get("ub"):
        ir += ["-fsanitize=" + ubs, "-fsanitize-trap=all"]
        nat += ["-fsanitize=" + ubs, "-fno-sanitize-recover=all"]
    entries = sorted({i["e"] for t in ("quick", "thorough") for i in spec[t]})
    open(d + "/entries.inc", "w").write("".join("ENTRY(%s)\n" % e for e in entries))
    jobs = []
    dropped = []
    units = [(f, "lib", []) for f in library_sources() + spec.get("srcs", [])] + [(V + "/harness/" + h, "har", spec.get("hflags", [])) for h in spec["harness"]]
    if spec.get("cli"):
        units.append((REPO + "/src/vcdiff_main.cc", "lib", ["-I" + V + "/harness/fake", "-include", V + "/harness/cli_shim.h"]))
    irinc = ["-I" + V + "/harness/fakeir"]
    for f, kind, extra in units:
        b = os.path.basename(f)
        cc = CLANGC if f.endswith(".c") else CLANG
        if "ir" in want:
            jobs.append([cc] + ir + irinc + extra + inc + ["-c", f, "-o", "%s/%s.bc" % (d, b)])
        if "native" in want:
            jobs.append([cc] + nat + extra + inc + ["-DVS_NATIVE", "-c", f, "-o", "%s/%s.o" % (d, b)])
    if "ir" in want:
        jobs.append([CLANG] + ir + inc + ["-c", V + "/harness/strinst.cc", "-o", d + "/strinst.bc"])
        jobs.append([CLANGC] + [x for x in ir if x != "-fno-exceptions" and x != "-fno-threadsafe-statics"] + ["-w", "-fno-builtin", "-c", V + "/harness/irlibc.c", "-o", d + "/irlibc.bc"])
    if "native" in want:
        jobs.append([CLANG] + nat + inc + ["-c", V + "/harness/vs_native.cc", "-o", d + "/vs_native.o"])
    def compile1(cmd):
        r = run(cmd)
        if r.returncode and "-fno-exceptions" in cmd:       # code that needs exceptions or the real <sstream>
            q = run([x for x in cmd if x != "-fno-exceptions" and x not in irinc])
            if q.returncode == 0: return q
        return r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(compile1, jobs):
            if r.returncode:
                h = next((h for h in spec["harness"] if V + "/harness/" + h in r.args), None)
                if h is None:
                    raise BuildError(" ".join(r.args) + "\n" + r.stdout)
                if h not in dropped: dropped.append(h); log("harness %s does not build:\n%s" % (h, r.stdout[:2000]))
    if dropped:
        if len(dropped) == len(spec["harness"]):
            raise BuildError("no harness builds against the current sources")
        for h in dropped:
            for f in (d + "/%s.bc" % h, d + "/%s.o" % h):
                if os.path.exists(f): os.remove(f)
        gone = {e for h in dropped for e in harness_entries(h)}
        entries = [e for e in entries if e not in gone]
        open(d + "/entries.inc", "w").write("".join("ENTRY(%s)\n" % e for e in entries))
        if "native" in want: run([CLANG] + nat + inc + ["-c", V + "/harness/vs_native.cc", "-o", d + "/vs_native.o"])
    if "ir" in want:
        bcs = sorted(glob.glob(d + "/*.bc"))
        r = run([LINK] + bcs + ["-o", d + "/all.linked"])
        if r.returncode:
            raise BuildError(r.stdout)
        r = run([engine(), d + "/all.linked", "--prep", d + "/prog.irbc", "--entry", ",".join(entries)])
        if r.returncode:
            raise BuildError(r.stdout)
    if "native" in want:
        r = run([CLANG] + nat + sorted(glob.glob(d + "/*.o")) + ["-o", d + "/native"])
        if r.returncode:
            raise BuildError(r.stdout)
    return dropped

def write_inputs(path, inst, inputs):
    with open(path, "w") as f:
        f.write(" ".join(["entry=" + inst["e"]] + ["%s=%d" % kv for kv in sorted(inst.get("p", {}).items())]) + "\n")
        for n, w, v in inputs:
            f.write("%d\n" % v)

FILLS = (0xbe, 0x00, 0xff)

def native(d, path, timeout=30, fill=0xbe):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:allocator_may_return_null=0:max_allocation_size_mb=1024:abort_on_error=0:exitcode=99" % fill,
               UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
    try:
        r = subprocess.run([d + "/native", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

def obs_of(out):
    return [int(l[2:]) for l in out.splitlines() if l.startswith("O ")]

def describe(rc, err):
    for l in err.splitlines():
        if "VS-ASSERT-FAILED" in l or "ERROR: AddressSanitizer" in l or "runtime error:" in l or "VS-EXIT" in l:
            return l.strip()
    return "native run ended with %s" % rc

def failing(rc):
    return rc not in (0, 90, 91, 92)

def known(prop):
    out = []
    p = V + "/known_findings.json"
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get("status") == "known" and k["property"] == prop:
                out.append(k)
    return out

def main():
    global specs
    import specs
    a = sys.argv[1:]
    prop = a[0]
    tier, replay, only = os.environ.get("VERIF_TIER", "quick"), None, None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--only": only = a[i + 1]; i += 2
        else: raise SystemExit("bad argument " + a[i])
    if prop == "setup":
        engine(); return 0
    spec = specs.PROPS[prop]
    d = "%s/build/%s-%s-%d" % (V, prop, tier, os.getpid())
    try:
        return check(prop, spec, tier, replay, only, d)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)

def check(prop, spec, tier, replay, only, d):
    if replay:
        compile_all(spec, d, {"native"})
        for fill in FILLS:
            rc, out, err = native(d, replay, 60, fill)
            if failing(rc):
                break
        print(out[-2000:]); print(err[-6000:])
        print("replay:", describe(rc, err) if failing(rc) else "held")
        return 1 if failing(rc) else 0
    evp = "%s/evidence/%s.json" % (V, prop)
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, "wall_s": 0, "violations": 0}
    def save():
        ev["wall_s"] = round(time.time() - T0, 1)
        json.dump(ev, open(evp, "w"), indent=1)
    eng = engine()
    log("engine ready")
    try:
        dropped = compile_all(spec, d, {"ir", "native"})
    except BuildError as e:
        # The tree does not build with this harness: nothing can be said.
        log("BUILD FAILED\n" + str(e)[:4000])
        ev["coverage"]["note"] = "harness or sources did not build: " + str(e)[:500]
        ev["coverage"]["exhaustive"] = False
        save()
        return 2
    log("compiled")
    gone = {e for h in dropped for e in harness_entries(h)}
    insts = [dict(x) for x in spec[tier] if (not only or x["e"] == only) and x["e"] not in gone]
    slots = d + "/slots"
    open(slots, "wb").write(struct.pack("ii", JOBS, 0) + b"\0" * 4088)
    deadline = time.time() + (spec.get("budget", 300) if tier == "quick" else spec.get("tbudget", 3000))
    for n, x in enumerate(insts):
        x["out"] = "%s/run%d" % (d, n)
        cmd = [eng, d + "/prog.irbc", "--entry", x["e"], "--out", x["out"], "--slots", slots, "--deadline", str(deadline), "--time", str(x.get("t", 100000)),
               "--max-instr", str(x.get("instr", 20000000)), "--sample", str(x.get("sample", 6 if tier == "quick" else 20))]
        if "conc" in x: cmd += ["--max-conc", str(x["conc"])]
        for k, v in sorted(x.get("p", {}).items()):
            cmd += ["--param", "%s=%d" % (k, v)]
        x["cmd"] = cmd
    viol, notes, results = [], ["harness %s does not build against the current sources: left out" % h for h in dropped], []
    hard = deadline + 120
    kn = known(prop)
    import threading
    stop, lk, confirmed = threading.Event(), threading.Lock(), []
    def records(x):
        rec = []
        for f in glob.glob(x["out"] + "/r.*.jsonl"):
            for l in open(f, errors="replace"):
                try: rec.append(json.loads(l))
                except ValueError: pass
        return rec
    def first_error(n, x):
        """A counterexample of a finished instance, replayed at once: when it is confirmed the remaining instances are not needed."""
        for j, r in enumerate([r for r in records(x) if r["t"] == "error"][:2]):
            path = "%s/ff%d_%d" % (d, n, j)
            write_inputs(path, x, r["inputs"])
            for fill in FILLS:
                if stop.is_set(): return
                rc, out, err = native(d, path, 20, fill)
                if not failing(rc): continue
                what = "%s: %s at %s; native: " % (r["kind"], r["msg"], r["where"][:300])
                if any(k["harness"] == x["e"] and re.search(k["match"], what + describe(rc, err)) for k in kn): break
                with lk: confirmed.append((x, r, path, rc, err, what))
                stop.set(); return
    def launch(nx):
        n, x = nx
        if stop.is_set(): return None
        with open("%s/err%d" % (d, n), "w") as ef:
            p = subprocess.Popen(x["cmd"], stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
        while True:
            try:
                p.wait(0.25); break
            except subprocess.TimeoutExpired:
                if stop.is_set() or time.time() > hard:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); break
        if not stop.is_set(): first_error(n, x)
        return p.returncode
    with cf.ThreadPoolExecutor(24) as ex:
        rcs = list(ex.map(launch, enumerate(insts)))
    for x, prc in zip(insts, rcs):
        rec = records(x)
        root = {}
        try: root = json.load(open(x["out"] + "/root.json"))
        except (OSError, ValueError): pass   # not started, or stopped while writing
        results.append((x, rec, root, prc))
    log("explored")
    cov = ev["coverage"]
    tot = {k: 0 for k in "paths exits assume_killed errors instrs forks q q_sat q_unsat q_unknown q_cache q_dom q_time asserts asserts_simplified branches concretized incomplete".split()}
    funcs, samples, todo, exhaustive, inst_ev = set(), [], [], not dropped, []
    for x, rec, root, prc in results:
        done = [r for r in rec if r["t"] == "done"]
        one = {k: sum(r[k] for r in done) for k in tot}
        for k in tot: tot[k] += one[k]
        for r in done: funcs.update(r["functions"])
        reach = {}
        for r in done:
            for k, v in r["reach"].items(): reach[k] = reach.get(k, 0) + v
        why = sorted({w for r in done for w in r["why"]})
        errs = [r for r in rec if r["t"] == "error"]
        complete = bool(root) and not root.get("crashed") and root.get("started") == root.get("finished") and not why and not errs
        missing = [l for l in x.get("reach", []) if l not in reach]
        if not complete: exhaustive = False
        if stop.is_set(): pass
        elif not root or root.get("crashed"): notes.append("engine run of %s did not finish cleanly" % x["e"])
        if missing and not stop.is_set(): notes.append("%s %s: witness labels not reached: %s" % (x["e"], x.get("p", {}), missing))
        inst_ev.append({"harness": x["e"], "params": x.get("p", {}), "bound": x.get("bound", ""), "paths": one["paths"] + one["exits"], "complete": complete, "why_incomplete": why[:3],
                        "queries": one["q"], "solver_s": round(one["q_time"], 2), "assertions": one["asserts"], "reach": reach, "wall_s": root.get("wall")})
        if prc is not None or not stop.is_set(): log("%-28s %-40s paths=%d q=%d(%.1fs) asserts=%d wall=%s %s %s" % (x["e"], ",".join("%s=%s" % kv for kv in sorted(x.get("p", {}).items())), one["paths"] + one["exits"], one["q"], one["q_time"], one["asserts"], root.get("wall"),
            "complete" if complete else "INCOMPLETE " + ";".join(why)[:300], "MISSING " + str(missing) if missing else ""))
        if stop.is_set(): continue
        # dedupe errors by kind+msg+where
        seen = {}
        for e in errs:
            k = (e["kind"], e["msg"], e["where"].split(" < ")[0])
            seen.setdefault(k, []).append(e)
        for k, es in seen.items():
            for e in es[:2]: todo.append(("err", x, e))
        for r in [r for r in rec if r["t"] == "path"][: 40]:
            todo.append(("path", x, r))
    def work(t):
        n, (kind, x, r) = t
        path = "%s/in%d" % (d, n)
        write_inputs(path, x, r["inputs"])
        if kind == "path":
            rc, out, err = native(d, path, 60)
            return kind, x, r, path, rc, out, err
        for fill in FILLS:
            rc, out, err = native(d, path, 20, fill)
            if failing(rc): break
        return kind, x, r, path, rc, out, err
    # errors first, then an even selection of path samples
    errs = [t for t in todo if t[0] == "err"]
    paths = [t for t in todo if t[0] == "path"]
    cap = 160 if tier == "quick" else 600
    if len(paths) > cap: paths = [paths[i * len(paths) // cap] for i in range(cap)]
    validated, mism = 0, 0
    kn_hit = set()
    viol.extend(confirmed)
    if confirmed: notes.append("exploration stopped at the first confirmed violation")
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for kind, x, r, path, rc, out, err in ex.map(work, enumerate(errs + paths)):
            if kind == "path":
                if rc == 0 and obs_of(out) == r["obs"]:
                    validated += 1
                    if len(samples) < 4:
                        samples.append({"harness": x["e"], "params": x.get("p", {}), "inputs": [[n, v] for n, w, v in r["inputs"]][:64], "observed": r["obs"][:16]})
                elif r["how"] == "exit" and rc != "timeout":
                    validated += 1
                elif failing(rc) and rc != "timeout":
                    viol.append((x, r, path, rc, err, "path replayed natively fails: "))
                else:
                    mism += 1
                    notes.append("sampled path of %s not reproduced natively: rc=%s obs=%s expected=%s" % (x["e"], rc, obs_of(out)[:8], r["obs"][:8]))
            else:
                if failing(rc):
                    viol.append((x, r, path, rc, err, "%s: %s at %s; native: " % (r["kind"], r["msg"], r["where"][:300])))
                else:
                    notes.append("counterexample not reproduced natively (not reported): %s %s %s at %s rc=%s" % (x["e"], r["kind"], r["msg"], r["where"][:200], rc))
                    if os.environ.get("VERIF_KEEP"): log("unreproduced", path, rc, err[-300:])
    reported = []
    for n, (x, r, path, rc, err, what) in enumerate(viol):
        text = what + describe(rc, err)
        k = next((k for k in kn if k["harness"] == x["e"] and re.search(k["match"], text)), None)
        if k is not None:
            if k["id"] not in kn_hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            kn_hit.add(k["id"]); continue
        dst = "%s/evidence/%s.replay%d.txt" % (V, prop, len(reported))
        if len(reported) < 10: shutil.copy(path, dst)
        reported.append((dst, x, text, r))
    for t in notes[:40]: log("note:", t)
    cov.update(states=tot["paths"] + tot["exits"] + tot["assume_killed"], transitions=tot["forks"] + tot["branches"], traces_validated_against_impl=validated, samples=samples,
               exhaustive=exhaustive and not reported, validation_mismatches=mism,
               functions_encoded=sorted(f for f in funcs if "open_vcdiff" in f or "adler" in f or "vcdiff" in f)[:400], functions_encoded_total=len(funcs),
               queries={"total": tot["q"], "sat": tot["q_sat"], "unsat": tot["q_unsat"], "unknown": tot["q_unknown"], "answered_by_cache": tot["q_cache"], "answered_by_domains": tot["q_dom"]},
               solver_time_s=round(tot["q_time"], 2), assertions_checked=tot["asserts"], instructions_executed=tot["instrs"], bounds=spec["bounds"], outside_bounds=spec.get("outside", ""), instances=inst_ev, notes=notes[:40])
    ev["assumptions"] = spec.get("assume", []) + specs.COMMON_ASSUMPTIONS
    ev["violations"] = len(reported)
    save()
    log("paths=%d queries=%d solver=%.1fs validated=%d mismatches=%d exhaustive=%s" % (cov["states"], tot["q"], tot["q_time"], validated, mism, cov["exhaustive"]))
    if reported:
        for dst, x, text, r in reported[:3]:
            log("violation in", x["e"], x.get("p", {}), ":", text)
            log("  inputs:", [[n, v] for n, w, v in r["inputs"]][:80])
        print("VIOLATION property=%s replay=%s" % (prop, reported[0][0]), flush=True)
        return 1
    print("OK property=%s tier=%s paths=%d exhaustive=%s" % (prop, tier, cov["states"], cov["exhaustive"]))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
