#!/usr/bin/env python3
"""Builds a simulator from /repo's working tree, searches seeded runs for one property, reports.

  run_check.py ID [--thorough]        decide property ID  (exit 0 / exit 1 + VIOLATION line / exit 2)
  run_check.py ID --build-only        build the simulator that decides ID
  run_check.py --build-all            build every simulator
"""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
sys.path.insert(0, SIM)
from props import PROPS, GROUPS, COMMON_NOTES  # noqa: E402

CXX = "g++"
BASE_FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-DNDEBUG", "-DFMT_DEPRECATED_OSTREAM", "-fno-omit-frame-pointer"]


def log(*a):
    print(*a, flush=True)


def is_source(path):
    name = os.path.basename(path)
    stem = os.path.splitext(name)[0]
    if stem.startswith(("test_", "bench_")) or stem.endswith(("_test", "_bench")):
        return False
    with open(path, errors="replace") as f:
        if re.search(r"^\s*int\s+main\s*\(", f.read(), re.M):
            return False
    return True


def sources(dirs):
    """The library sources of these directories: what the project's own build files mention, less tests and programs."""
    out = []
    for d in dirs:
        cm = ""
        for up in (d, os.path.dirname(d)):
            f = os.path.join(REPO, up, "CMakeLists.txt")
            if os.path.exists(f):
                cm += open(f).read()
        for ext in ("cxx", "cpp", "cc"):
            out += [p for p in sorted(glob.glob(os.path.join(REPO, d, "*." + ext))) if re.search(r"(?<![\w.])" + re.escape(os.path.basename(p)), cm) and is_source(p)]
    return out


ALL_DIRS = ["common", "common/ephemeris", "common/logging", "common/satellite", "common/math", "common/measurements",
            "utils", "models", "core", "core/factors", "core/solver", "core/states", "core/ekf", "sim",
            "sim/controllers", "sim/dynamics", "sim/sensors", "third_party/backward", "third_party/gps_sdr_sim",
            "third_party/rtklib"]


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(group, extra=()):
    """Ninja build of one simulator. Returns the executable."""
    g = GROUPS[group]
    out = os.path.join(BUILD, group)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "gen")
    inc = ["-I" + SIM, "-I" + os.path.join(SIM, "stubs"), "-I" + REPO, "-isystem", "/usr/include/eigen3"]
    repo_srcs = sources(list(g["dirs"]) + list(extra))
    lines = ["ninja_required_version = 1.3", "builddir = " + esc(out)]
    if g.get("ekf"):
        inc.append("-I" + gen)
        gendir = os.path.join(gen, "core", "ekf")
        os.makedirs(gendir, exist_ok=True)
        gensrc = sorted(glob.glob(os.path.join(REPO, "core/ekf/ekf_gen/*.py"))) + [os.path.join(REPO, "core/ekf/rtk_ekf.yaml")]
        gens = [os.path.join(gendir, n) for n in ("rtk_ekf.cxx", "rtk_ekf.h", "rtk_ekf_state.cxx", "rtk_ekf_state.h",
                                                  "rtk_ekf_types.cxx", "rtk_ekf_types.h")]
        h = hashlib.sha256()
        for p in gensrc:
            h.update(open(p, "rb").read())
        stamp = os.path.join(gendir, "stamp")
        glock = open(os.path.join(gen, ".lock"), "w")
        fcntl.flock(glock, fcntl.LOCK_EX)
        if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(["/usr/bin/python3", os.path.join(REPO, "core/ekf/ekf_gen/ekf_gen.py"), "--config_file",
                                os.path.join(REPO, "core/ekf/rtk_ekf.yaml"), "--destination", gendir], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                log(r.stdout[-4000:])
                raise SystemExit(2)
            open(stamp, "w").write(h.hexdigest())
        glock.close()
        repo_srcs += [p for p in gens if p.endswith(".cxx") and os.path.exists(p)]
    flags = BASE_FLAGS + g.get("flags", []) + inc
    ldflags = g.get("ldflags", [])
    lines += ["flags = " + " ".join(flags),
              "rule cxx", "  command = %s -MMD -MF $out.d $flags -c $in -o $out" % CXX, "  depfile = $out.d", "  deps = gcc",
              "  description = CXX $in",
              "rule ar", "  command = rm -f $out && ar crs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
              "rule link", "  command = %s -o $out $objs -Wl,--start-group $libs -Wl,--end-group %s -lyaml-cpp -lfmt -lstdc++fs -ldl -lpthread"
              % (CXX, " ".join(ldflags)), ""]
    objs, libobjs = [], []
    for s in ["core.cpp", "seams.cpp"] + g["main"]:
        p = os.path.join(SIM, s)
        o = os.path.join(out, "h_" + s.replace("/", "_") + ".o")
        lines.append("build %s: cxx %s" % (esc(o), esc(p)))
        objs.append(o)
    for p in repo_srcs:
        rel = os.path.relpath(p, REPO) if p.startswith(REPO + "/") else "gen_" + os.path.basename(p)
        o = os.path.join(out, "r_" + rel.replace("/", "_") + ".o")
        lines.append("build %s: cxx %s" % (esc(o), esc(p)))
        if not g.get("o2"):
            pass
        libobjs.append(o)
    arch = os.path.join(out, "librepo.a")
    exe = os.path.join(out, "sim_" + group)
    lines.append("build %s: ar %s" % (esc(arch), " ".join(map(esc, libobjs))))
    lines.append("build %s: link | %s %s" % (esc(exe), " ".join(map(esc, objs)), esc(arch)))
    lines.append("  objs = " + " ".join(objs))
    lines.append("  libs = " + arch)
    lines.append("default " + esc(exe))
    nf = os.path.join(out, "build.ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lock.close()
    if r.returncode != 0:
        if not extra and "undefined reference" in r.stdout:
            # code moved between directories: link against the whole repository
            return build(group, [d for d in ALL_DIRS if d not in g["dirs"]])
        log(r.stdout[-1500:])
        raise SystemExit(2)
    return exe


def env_for(group):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["TZ"] = "UTC"
    e["DST_REPO"] = REPO
    e["DST_SIM"] = SIM
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    return e


def load_u64(path):
    try:
        data = open(path, "rb").read()
    except OSError:
        return set()
    return set(struct.unpack("<%dQ" % (len(data) // 8), data))


def known_findings(prop):
    """Lines: KNOWN-FINDING property=C00 class=<class> plan=<file under /verif/findings> <what fails>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) plan=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4]))
    return out


def replay(exe, plan, env):
    r = subprocess.run([exe, "--replay", plan], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    m = re.search(r"REPLAY property=(\S+) hash=(\d+) same=(\d) class=(\S+) message=(.*)", r.stdout)
    return r.returncode, (m.groups() if m else None)


def main():
    args = sys.argv[1:]
    if "--selftest" in args:
        for tool in ("g++", "ninja"):
            if not shutil.which(tool):
                log("missing: " + tool)
                return 1
        log("compiler and build tool present; every check builds its simulator from %s itself" % REPO)
        return 0
    if "--build-all" in args:
        for g in GROUPS:
            t = time.time()
            build(g)
            log("built %s (%.1f s)" % (g, time.time() - t))
        return 0
    prop = args[0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    t_start = time.time()
    exe = build(P["group"])
    if "--build-only" in args:
        return 0
    build_s = time.time() - t_start
    env = env_for(P["group"])
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(os.environ.get("DST_EVIDENCE", VERIF), "replays")
    os.makedirs(replays, exist_ok=True)
    for old in glob.glob(os.path.join(replays, prop + "_*.plan")):
        os.unlink(old)
    nw = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 8)
    runs = int(os.environ.get("DST_RUNS", "0")) or P["runs"][1 if thorough else 0]
    wall = int(os.environ.get("DST_WALL", "0")) or P["wall"][1 if thorough else 0]
    known = known_findings(prop)
    procs = []
    t0 = time.time()
    for w in range(nw):
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(nw), "--runs", str(runs),
               "--wall", str(wall), "--out", os.path.join(work, "w%d" % w), "--replaydir", replays,
               "--known", ",".join(k[0] for k in known) or "-"]
        if thorough:
            cmd += ["--thorough", "1"]
        errf = open(os.path.join(work, "w%d.err" % w), "w")
        procs.append(subprocess.Popen(cmd, env=env, stdout=errf, stderr=errf))
    # When one worker finds a violation the others get a moment to find a simpler one, then are stopped.
    found_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if any(p.poll() == 1 for p in procs):
            found_at = found_at or time.time()
        if found_at and time.time() - found_at > 3:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    wall_s = time.time() - t0
    errors = []
    res = []
    hashes, nontriv, states = set(), set(), set()
    for w, p in enumerate(procs):
        f = os.path.join(work, "w%d" % w)
        if os.path.exists(f):
            res.append(json.load(open(f)))
            hashes |= load_u64(f + ".hashes")
            nontriv |= load_u64(f + ".nontriv")
            states |= load_u64(f + ".states")
        elif not found_at:
            errors.append("worker %d ended with %s: %s" % (w, p.returncode, open(os.path.join(work, "w%d.err" % w)).read()[-500:]))
    # leftovers of workers that were stopped
    for p in procs:
        for base in ("/dev/shm", "/tmp"):
            shutil.rmtree("%s/dst_%010d" % (base, p.pid), ignore_errors=True)

    def total(name):
        t = {}
        for r in res:
            for k, v in r[name].items():
                t[k] = t.get(k, 0) + v
        return dict(sorted(t.items()))

    nruns = sum(r["runs"] for r in res)
    if sum(r["harness_errors"] for r in res) > max(3, nruns // 100):
        errors.append("runs were ended by the sandbox")
    # The same seed in another process, dealt out differently: the same execution?
    det_checked = 0
    if not found_at and not errors and os.environ.get("DST_NODET") is None:
        first = {i: h for r in res for i, h in r["sample_hashes"]}
        f = os.path.join(work, "det")
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--start", "0", "--stride", "1", "--runs", str(min(24, runs)), "--wall", "30", "--out", f,
               "--replaydir", work, "--known", ",".join(k[0] for k in known) or "-"] + (["--thorough", "1"] if thorough else [])
        subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(f):
            for i, h in json.load(open(f))["sample_hashes"]:
                if i in first:
                    det_checked += 1
                    if first[i] != h:
                        errors.append("run %d is not repeatable (%s, then %s)" % (i, first[i], h))
    # Violations: believed only when the replay file reproduces the same execution in a fresh process.
    violation = None
    cands = sorted((r["violation"] for r in res if "violation" in r), key=lambda v: v["run"])
    for v in cands:
        code, m = replay(exe, v["path"], env)
        if v["deterministic"] and code == 1 and m and m[3] == v["class"] and m[1] == v["hash"]:
            violation = v
            break
        errors.append("violation %s (%s: %s) did not replay exactly: %s" % (v["path"], v["class"], v["message"], m))
    known_hits = total("known_hits")
    for cls, plan, text in known:
        path = os.path.join(VERIF, "findings", plan)
        code, m = replay(exe, path, env)
        if m and m[3] == cls:
            log("KNOWN-FINDING: property=%s %s" % (prop, text))
        elif m and m[3] != "-":
            violation = violation or {"path": path, "class": m[3], "message": m[4], "run": -1, "ops": 0, "min_ops": 0}
        else:
            log("note: listed finding no longer occurs: %s" % text)

    sim_s = sum(r["sim_s"] for r in res)
    faults = total("faults")
    hours = wall_s / 3600.0
    sample = next((r["sample_plan"] for r in res if r["sample_plan"]), "")
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(nontriv),
            "rule": P["rule"],
            "samples": [sample[:3000]],
            "runs_per_hour": int(nruns / hours) if hours else 0,
            "seeds_per_hour": int(nruns / hours) if hours else 0,
            "operations_executed": sum(r["ops"] for r in res),
            "simulated_seconds": round(sim_s, 3),
            "faults_injected": faults,
            "runs_with_fault": total("fault_runs"),
            "distinct_histories": len(hashes),
            "distinct_states": len(states),
            "state_measure": P["states"],
            "rare_paths_reached": total("probes"),
            "determinism_checked_runs": det_checked,
            "real_code": P["real"],
            "stubs": P["stubs"],
            "known_finding_runs": known_hits,
            "build_s": round(build_s, 1),
        },
        "assumptions": P.get("assumptions", []) + COMMON_NOTES,
        "wall_s": round(time.time() - t_start, 2),
        "violations": 1 if violation else 0,
    }
    evdir = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d runs (%d distinct non-trivial), %d operations, %.0f simulated s, %.1f s search, %.1f s build; faults %s; rare %s"
        % (prop, nruns, len(nontriv), ev["coverage"]["operations_executed"], sim_s, wall_s, build_s, faults, total("probes")))
    if violation:
        log("class %s: %s (seed %d, run %s, %s operations minimised to %s)" % (violation["class"], violation["message"], seed,
            violation["run"], violation["ops"], violation["min_ops"]))
        log("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        return 1
    if errors:
        for e in errors:
            log("ERROR: " + e)
        return 2
    if nruns == 0:
        log("ERROR: nothing ran")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
