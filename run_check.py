#!/usr/bin/env python3
"""Builds one property's simulation harness from /repo's working tree, searches
seeded runs, and reports. Exit 0: held; 1: violation; 2: the check itself failed."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CXX = "clang++-18"
sys.path.insert(0, VERIF)
from checks import CHECKS, SIM_SOURCES

CXXFLAGS = ("-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fno-pie "
            "-D_GLIBCXX_ASSERTIONS -include cstdint -Wno-unused-function -w")
ABSL = ("status statusor strings str_format_internal strings_internal cord cord_internal "
        "cordz_functions cordz_info cordz_handle cordz_sample_token raw_hash_set hashtablez_sampler "
        "hash city low_level_hash int128 bad_optional_access bad_variant_access bad_any_cast_impl "
        "exponential_biased base spinlock_wait throw_delegate raw_logging_internal log_severity "
        "synchronization graphcycles_internal malloc_internal stacktrace symbolize debugging_internal "
        "demangle_internal time time_zone civil_time strerror").split()
LIBDIR = "/usr/lib/x86_64-linux-gnu"


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build(prop, cfg):
    """Ninja build of the harness (objects are shared between checks)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = os.path.join(BUILD, "bin_" + prop)
    lines = ["cxx = %s" % CXX,
             "flags = %s -I%s/shim -I%s -I%s/sim -I%s/gen" % (CXXFLAGS, VERIF, REPO, VERIF, BUILD),
             "rule cc\n  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule ld\n  command = $cxx -fsanitize=address -no-pie $in -o $out -Wl,--start-group $libs -Wl,--end-group -lpthread",
             "rule proto\n  command = mkdir -p %s/gen && protoc -I%s --cpp_out=%s/gen $in" % (BUILD, REPO, BUILD)]
    objs = []
    order = ""
    proto = cfg.get("proto", False)
    gen = "%s/gen/mpact/sim/proto/component_data.pb" % BUILD
    # Generated for every check (many headers include it), linked where it is used.
    if os.path.exists("%s/mpact/sim/proto/component_data.proto" % REPO):
        lines.append("build %s.cc %s.h: proto %s/mpact/sim/proto/component_data.proto" % (gen, gen, REPO))
        order = " || %s.h" % gen
    srcs = [(os.path.join(VERIF, "sim", s), "") for s in SIM_SOURCES + cfg.get("sim", [])]
    # A harness source may come with flags of its own (code under test it includes is built there).
    srcs += [(os.path.join(VERIF, "harness", s), "") if isinstance(s, str) else (os.path.join(VERIF, "harness", s[0]), s[1]) for s in cfg["harness"]]
    srcs += [(os.path.join(REPO, "mpact/sim", s), cfg.get("repo_flags", "")) for s in cfg["repo"]]
    if proto:
        srcs.append((gen + ".cc", ""))
    for s, extra in srcs:
        extra = (extra + " " + cfg.get("flags", "")).strip()
        tag = hashlib.sha1(extra.encode()).hexdigest()[:6] if extra else "x"
        o = "obj/%s_%s.o" % (s.strip("/").replace("/", "_"), tag)
        lines.append("build %s: cc %s%s" % (o, s, order))
        if extra:
            lines.append("  extra = %s" % extra)
        objs.append(o)
    libs = " ".join("%s/libabsl_%s.a" % (LIBDIR, a) for a in ABSL if os.path.exists("%s/libabsl_%s.a" % (LIBDIR, a)))
    if proto:
        libs += " %s/libprotobuf.a -lz" % LIBDIR
    lines.append("build %s: ld %s" % (out, " ".join(objs)))
    lines.append("  libs = %s" % libs)
    nin = os.path.join(BUILD, "build_%s.ninja" % prop)
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nin) or open(nin).read() != text:
        open(nin, "w").write(text)
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nin, "-j8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("build of the harness for %s failed" % prop)
    # The binary is copied so that a concurrent rebuild cannot change it.
    d = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=BUILD)
    b = os.path.join(d, "sim_" + prop)
    shutil.copy2(out, b)
    lock.close()
    return b, d


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def search(binary, d, base, cfg, tier):
    count = cfg["thorough_runs"] if tier == "thorough" else cfg["quick_runs"]
    seconds = cfg.get("thorough_s", 600) if tier == "thorough" else cfg.get("quick_s", 90)
    seconds = float(os.environ.get("VERIF_SEARCH_S", seconds))   # for tools/mutate.py
    nw = int(os.environ.get("VERIF_WORKERS", 8))
    procs = []
    for w in range(nw):
        out = os.path.join(d, "w%d.json" % w)
        rep = os.path.join(d, "w%d.replay" % w)
        p = subprocess.Popen([binary, "--batch", str(base), str(w), str(nw), str(count), str(seconds), out, rep],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append((p, out, rep))
    live = set(range(nw))
    results = {}
    stop_at = None
    while live:
        for w in list(live):
            p, out, rep = procs[w]
            if p.poll() is not None:
                live.discard(w)
                try:
                    results[w] = json.load(open(out))
                except Exception:
                    results[w] = {"status": 2, "err": "worker died (exit %s)" % p.returncode}
                if results[w]["status"] == 1 and stop_at is None:
                    # Give other workers that are minimising a short grace.
                    stop_at = time.time() + 2
        if stop_at is not None and time.time() > stop_at:
            for w in list(live):
                try:
                    os.killpg(procs[w][0].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                procs[w][0].wait()
                live.discard(w)
        time.sleep(0.02)
    return results, procs


def main():
    if len(sys.argv) < 2:
        die("usage: run_check.py PROPERTY [--tier quick|thorough] [--replay FILE]")
    prop = sys.argv[1]
    if prop == "--build-all":
        for q in sorted(CHECKS):
            shutil.rmtree(build(q, CHECKS[q])[1], ignore_errors=True)
        sys.exit(0)
    if prop not in CHECKS:
        die("unknown property " + prop)
    cfg = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]; a = a[2:]
        elif a[0] == "--replay":
            replay = a[1]; a = a[2:]
        else:
            die("bad argument " + a[0])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    binary, d = build(prop, cfg)
    rc = 2
    os.environ["TMPDIR"] = d  # a harness's scratch files go with the build directory
    try:
        if replay:
            rc = subprocess.run([binary, "--replay", replay]).returncode
        else:
            rc = check(prop, cfg, tier, seed, binary, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def check(prop, cfg, tier, seed, binary, d, t0):
    print("property=%s tier=%s VERIF_SEED=%d" % (prop, tier, seed))
    build_s = time.time() - t0
    base = int(hashlib.sha256(("%s:%d" % (prop, seed)).encode()).hexdigest()[:15], 16)
    t1 = time.time()
    results, procs = search(binary, d, base, cfg, tier)
    wall = time.time() - t1
    agg = {"runs": 0, "steps": 0, "sim_time": 0, "twice": 0, "state_visits": 0}
    faults, probes, samples, states, runs = {}, {}, [], set(), set()
    for w, r in sorted(results.items()):
        if "runs" not in r:
            continue
        for k in agg:
            agg[k] += r[k]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        samples += [s[:600] for s in r["samples"] if s][:1]
        sp = procs[w][1] + ".states"
        if os.path.exists(sp):
            data = open(sp, "rb").read()
            states.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        sp = procs[w][1] + ".runs"
        if os.path.exists(sp):
            data = open(sp, "rb").read()
            runs.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    viol = [(r["fail_index"], w, r) for w, r in results.items() if r["status"] == 1]
    errs = [r.get("err", "?") for r in results.values() if r["status"] == 2]
    known = known_findings(prop)
    violations = []
    line = None
    if viol:
        viol.sort(key=lambda x: x[0])
        _, w, r = viol[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        dst = os.path.join(VERIF, "replays", "%s-%d.replay" % (prop, r["fail_seed"]))
        shutil.copy(procs[w][2], dst)
        rr = subprocess.run([binary, "--replay", dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if rr.returncode != 0:
            errs.append("minimised replay did not reproduce in a fresh process: " + rr.stdout[-500:])
            viol = []
        else:
            with open(dst, "a") as f:  # human-readable schedule and fault trace
                f.write("".join("# %s\n" % l for l in rr.stdout.splitlines()[-400:]))
            violations.append({"class": r["cls"], "message": r["msg"][:800], "seed": r["fail_seed"],
                               "run_index": r["fail_index"], "replay": dst, "steps_before": r["orig_steps"],
                               "steps_after": r["min_steps"]})
            line = "VIOLATION property=%s replay=%s" % (prop, dst)
    # Reach: probes and fault kinds the design relies on must have been hit.
    missing = []
    if not viol and not errs:
        for k in cfg.get("must_reach", []):
            if probes.get(k, 0) + faults.get(k, 0) == 0:
                missing.append(k)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(runs),
            "rule": cfg["rule"],
            "samples": samples[:6] or ["(none)"],
            "runs_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
            "steps": agg["steps"],
            "simulated_time": agg["steps"] if cfg.get("time_unit") == "operations" else agg["sim_time"], "simulated_time_unit": cfg.get("time_unit", "simulated cycles"),
            "faults_injected": faults, "probes": probes, "probes_never_hit": missing,
            "distinct_states": len(states), "state_visits": agg["state_visits"],
            "state_measure": cfg.get("states", "hash of the abstract model state after each step"),
            "seeds_executed_twice_and_compared": agg["twice"],
            "real_components": cfg["real"], "stub_components": cfg["stub"],
            "build_s": round(build_s, 2), "search_s": round(wall, 2),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("runs=%d steps=%d distinct_states=%d sim_time=%d build=%.1fs search=%.1fs" % (
        agg["runs"], agg["steps"], len(states), agg["sim_time"], build_s, wall))
    print("faults: " + json.dumps(faults, sort_keys=True))
    print("probes: " + json.dumps(probes, sort_keys=True))
    for cls, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viol:
        v = violations[0]
        print("class=%s\n%s" % (v["class"], v["message"]))
        print("seed=%d steps=%d minimised to %d" % (v["seed"], v["steps_before"], v["steps_after"]))
        print(line)
        return 1
    if errs:
        print("CHECK-ERROR: " + "; ".join(errs)[:1500])
        return 2
    if missing:
        print("note: probes never hit: %s" % missing)
    return 0


main()
