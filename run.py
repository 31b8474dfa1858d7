#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and decides one property.

  run.py ID [--replay FILE]   check property ID (VERIF_SEED, VERIF_TIER from the environment)
  run.py --setup              build everything once
  run.py --build BIN...       build harness binaries and print their paths
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DRO_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")

COMMON = ["-g1", "-O1", "-w", "-Wno-error=int-conversion",
          "-Wno-error=incompatible-function-pointer-types", "-Wno-error=implicit-function-declaration", "-fno-omit-frame-pointer", "-DNDEBUG", "-I" + SRC]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
VARIANTS = {
    "asan": ASAN,
    "nts": ASAN + ["-DNO_THREAD_SAFETY"],
    "prof": ASAN + ["-DPROFILING"],
    "tsan": ["-fsanitize=thread"],
    "asan_sched": ASAN,
    "tsan_sched": ["-fsanitize=thread"],
}
# schedules are placed at the edges of the library's code
LIB_FLAGS = {v: ["-fsanitize-coverage=trace-pc-guard"] for v in ("asan_sched", "tsan_sched")}
# binary -> (variant, harness sources, with the C++ wrapper library: True, the Python module: "py")
BINARIES = {
    "binout": ("asan", ["pbt.cpp", "h_binout.cpp"], False),
    "d3plot": ("asan", ["pbt.cpp", "h_d3plot.cpp"], False),
    "key": ("asan", ["pbt.cpp", "h_key.cpp"], False),
    "cpp": ("asan", ["pbt.cpp", "h_cpp.cpp", "h_own.cpp", "h_print.cpp"], True),
    "py": ("asan", ["pbt.cpp", "h_python.cpp"], "py"),
    "peer": ("asan", ["pbt.cpp", "h_peer.cpp"], False),
    "nts": ("nts", ["pbt.cpp", "h_peer.cpp"], False),
    "prof": ("prof", ["pbt.cpp", "h_peer.cpp", "h_prof.cpp", "h_binout.cpp", "h_d3plot.cpp", "h_key.cpp",
                     "h_faults.cpp"], True),
    "faults": ("asan", ["pbt.cpp", "h_faults.cpp"], True),
    "faults_nts": ("nts", ["pbt.cpp", "h_faults.cpp"], True),
    "threads": ("tsan_sched", ["pbt.cpp", "h_threads.cpp"], True),
    "threads_asan": ("asan_sched", ["pbt.cpp", "h_threads.cpp"], True),
    "leaks": ("asan", ["pbt.cpp", "h_leaks.cpp"], True),
}
LINK_FLAGS = {"prof": ["-Wl,--wrap=_END_PROFILE_SECTION"]}
PYFLAGS = ["-I/usr/include/python3.12", "-I" + SRC + "/cpp"]
# property -> list of (binary, share of the planned cases)
PROPS = {p: ["binout"] for p in ("B01", "B02", "B03", "B04", "B05", "B06", "B07")}
PROPS.update({"D%02d" % i: ["d3plot"] for i in range(1, 11)})
PROPS.update({"K%02d" % i: ["key"] for i in range(1, 9)})
PROPS.update({"C01": ["cpp"], "C02": ["cpp"], "C03": ["cpp"], "C04": ["cpp", "py"], "P01": ["py"], "P02": ["py"], "P03": ["py"], "T02": ["peer"], "T03": ["prof"], "M01": ["leaks"],
              "T01": ["threads", "threads_asan"], "R01": ["faults", "faults_nts"]})
# other builds that a property compares with: binary -> environment variable with its path
PEERS = {"nts": "PBT_PEER_NTS", "peer": "PBT_PEER_DEFAULT"}
PEER_PROPS = {"nts": ("T02",), "peer": ("T03",)}


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".tmp%d" % os.getpid() + ".o"
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    os.replace(tmp, out)
    return None


def build(names):
    """Build harness binaries; returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        prune()
        repo_headers = sorted(glob.glob(SRC + "/*.h") + glob.glob(SRC + "/cpp/*.hpp") +
                              glob.glob(SRC + "/python/*.hpp"))
        hh = h(*[os.path.basename(p).encode() + read(p) for p in repo_headers])
        own_headers = sorted(glob.glob(ROOT + "/src/*.hpp") + glob.glob(ROOT + "/src/*.inc"))
        oh = h(*[read(p) for p in own_headers])
        jobs, links, paths = {}, [], {}
        for name in names:
            variant, sources, cpp = BINARIES[name]
            flags = COMMON + VARIANTS[variant]
            lib = flags + LIB_FLAGS.get(variant, [])
            objs = []
            for c in sorted(glob.glob(SRC + "/*.c")):
                if os.path.basename(c) == "profiling.c" and variant != "prof":
                    continue
                cmd = ["clang", "-ansi"] + lib + ["-c", c]
                objs.append((cmd, "c", c, hh))
            if cpp:
                for c in sorted(glob.glob(SRC + "/cpp/*.cpp")):
                    cmd = ["clang++", "-std=c++17"] + lib + ["-c", c]
                    objs.append((cmd, "cpp", c, hh))
            if cpp == "py":
                for c in sorted(glob.glob(SRC + "/python/*.cpp")):
                    cmd = ["clang++", "-std=c++17"] + flags + PYFLAGS + ["-c", c]
                    objs.append((cmd, "py", c, hh))
            for s in sources:
                c = os.path.join(ROOT, "src", s)
                cmd = ["clang++", "-std=c++17", "-DHARNESS_" + name, "-I" + ROOT + "/src"] + flags + ["-c", c]
                if cpp == "py" and s != "pbt.cpp":
                    cmd[2:2] = PYFLAGS
                if s == "pbt.cpp":
                    cmd.remove("-DHARNESS_" + name)
                objs.append((cmd, "h", c, hh + oh))
            outs = []
            for cmd, kind, c, dep in objs:
                out = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(c), h(" ".join(cmd), read(c), dep)))
                jobs[out] = (cmd, out)
                outs.append(out)
            bin_path = os.path.join(BUILD, "%s-%s" % (name, h(*outs, *LINK_FLAGS.get(variant, []))))
            paths[name] = bin_path
            links.append((["clang++"] + VARIANTS[variant] + LINK_FLAGS.get(variant, []) + outs +
                          (["-lpython3.12"] if cpp == "py" else []) + ["-lpthread"], bin_path))
        # big harness files first
        order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0][-1]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(compile_one, order) if e]
            if errs:
                raise BuildError("\n".join(errs[:3]))
            errs = [e for e in ex.map(compile_one, links) if e]
            if errs:
                raise BuildError("\n".join(errs[:3]))
        return paths


def prune():
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    total = 0
    st = []
    for f in files:
        try:
            s = os.stat(f)
        except OSError:
            continue
        total += s.st_size
        st.append((s.st_mtime, s.st_size, f))
    if total < 3 << 30:
        return
    for m, s, f in sorted(st):
        if total < 1 << 30 or time.time() - m < 600:
            break
        if os.path.isfile(f):
            os.unlink(f)
            total -= s


def env_for(paths):
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS"):
        env.pop(k, None)
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env["ASAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or \
        shutil.which("llvm-symbolizer-18") or ""
    for name, var in PEERS.items():
        if name in paths:
            env[var] = paths[name]
    return env


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup":
        build(list(BINARIES))
        return 0
    if args[0] == "--build":
        for n, p in build(args[1:] or list(BINARIES)).items():
            print(n, p)
        return 0
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = args[1:]
    t0 = time.time()
    if pid not in PROPS:
        print("unknown property", pid)
        return 2
    names = PROPS[pid]
    need = [n for n in names if not n.startswith("@")] + [p for p in PEERS if pid in PEER_PROPS.get(p, ())]
    try:
        paths = build(need)
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    env = env_for(paths)
    if "--replay" in extra:
        f = extra[extra.index("--replay") + 1]
        bin_name = names[0]
        for l in open(f, errors="replace"):
            if l.startswith("binary: "):
                bin_name = l.split()[1]
        return subprocess.run([paths[bin_name], "--prop", pid, "--replay", f], env=env).returncode
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    cap = 260 if tier == "quick" else 3000
    rc = 0
    stats = []
    for n in names:
        js = os.path.join(OUT, "%s-%s.json" % (pid, n))
        if os.path.exists(js):
            os.unlink(js)
        cmd = [paths[n], "--prop", pid, "--seed", str(seed), "--json", js, "--out", OUT, "--time",
               str(cap / len(names))]
        if tier == "thorough":
            cmd.append("--thorough")
        cmd += extra
        sys.stdout.flush()
        r = subprocess.run(cmd, env=env)
        if os.path.exists(js):
            s = json.load(open(js))
            s["binary"] = n
            stats.append(s)
            if s.get("replay"):
                with open(s["replay"], "a") as f:
                    f.write("\nbinary: %s\n" % n)
        if r.returncode != 0:
            rc = r.returncode
            break
    write_evidence(pid, tier, seed, stats, time.time() - t0)
    return rc


def write_evidence(pid, tier, seed, stats, wall):
    cov = dict(
        evaluations=sum(s["evaluations"] for s in stats),
        distinct_nontrivial=sum(s["distinct_nontrivial"] for s in stats),
        rule=" || ".join(dict.fromkeys(s["rule"] for s in stats)),
        samples=[x for s in stats for x in s["samples"]][:6] or ["(none)"],
        planned=sum(s["planned"] for s in stats),
        discarded=sum(s["discarded"] for s in stats),
        unreproduced_failures=sum(s["unreproduced"] for s in stats),
        time_capped=any(s["timed_out"] for s in stats),
        classes={},
        binaries=[s["binary"] for s in stats],
    )
    for s in stats:
        for k, v in s["labels"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["case counts are planned per tier; a time cap only stops early (time_capped)"],
              wall_s=round(wall, 2), violations=sum(s["violations"] for s in stats))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
