#!/usr/bin/env python3
"""Builds and runs the check of one property against the sources in /repo.

  check.py C01                  quick or thorough according to VERIF_TIER
  check.py C01 --thorough
  check.py C01 --replay FILE    re-runs one recorded case, verbosely
  check.py --build C01 C02 ...  only builds

Exit 0: the property held on everything explored.
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
Anything else: the check itself failed.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")  # overridden only while developing, to try planted bugs in scratch copies
KEY = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
BUILD = os.path.join(HERE, ".build" + KEY)

sys.path.insert(0, HERE)
from harness.targets import TARGETS  # noqa: E402

COMMON = "-std=gnu++17 -g1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DBOOST_ALL_NO_LIB -DBOOST_ALL_DYN_LINK=1 " \
         f"-I{REPO}/include -I{REPO}/src -I{BUILD}/gen -I{HERE}/pbt -I{HERE}/harness -I{HERE}/harness/fmilib -I{HERE}/harness/proxylib"
UB = "-fsanitize=signed-integer-overflow,shift,bounds,integer-divide-by-zero,return,unreachable,bool,enum,vla-bound -fno-sanitize-recover=all"
VARIANTS = {
    "asan": ("-O1 -fsanitize=address " + UB, "-fsanitize=address,undefined"),
    "tsan": ("-O1 -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("-O1", ""),
    # coverage-guided fuzzing
    "fuzz": ("-O1 -fsanitize=fuzzer-no-link,address " + UB, "-fsanitize=address,undefined $$(clang++ -print-resource-dir)/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"),
}
COMPILER = {"fuzz": "clang++"}
LIBS = "-lboost_log -lboost_log_setup -lboost_date_time -lboost_filesystem -lboost_thread -lboost_system " \
       "-lyaml-cpp -lzip -lz -lxerces-c -latomic -lstdc++fs -lpthread"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def all_repo_sources():
    r = []
    for p in glob.glob(f"{REPO}/src/cosim/**/*.cpp", recursive=True):
        rel = os.path.relpath(p, f"{REPO}/src/cosim")
        if not rel.startswith(("fmi/", "proxy/")):
            r.append(rel)
    return sorted(r)


def generate():
    # the generated headers/sources that /repo's CMake would make
    try:
        xsd = open(f"{REPO}/data/xsd/OspSystemStructure.xsd", encoding="utf-8").read()
        # CMake's file(READ)+file(WRITE) keep the text as it is
        write_if_changed(f"{BUILD}/gen/osp_system_structure_schema.hpp", f'const char* osp_xsd=R"({xsd})";')
    except OSError:
        pass
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"project\([^)]*VERSION\s+\"?([0-9.]+)", cm)
    ver = (m.group(1) if m else "0.0.0").split(".") + ["0", "0", "0"]
    try:
        t = open(f"{REPO}/src/cosim/lib_info.cpp.in").read()
        name = re.search(r"project\(\s*\"?(\w+)", cm)
        for k, v in {"PROJECT_NAME": name.group(1) if name else "libcosim", "PROJECT_VERSION_MAJOR": ver[0],
                     "PROJECT_VERSION_MINOR": ver[1], "PROJECT_VERSION_PATCH": ver[2]}.items():
            t = t.replace("@" + k + "@", v)
        write_if_changed(f"{BUILD}/gen/cosim/lib_info.cpp", t)
    except OSError:
        pass
    out = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    for v, (cf, lf) in VARIANTS.items():
        cc = COMPILER.get(v, "g++")
        out += [f"rule cxx_{v}", f"  command = {cc} {COMMON} {cf} -MMD -MF $out.d -c $in -o $out", "  deps = gcc", "  depfile = $out.d",
                f"rule link_{v}", f"  command = {cc} $in -o $out {lf} {LIBS}",
                f"rule ar_{v}", "  command = rm -f $out && ar crs $out $in"]
    done = set()

    def obj(variant, src):
        if src.startswith(HERE + "/"):
            o = f"{BUILD}/{variant}/h/" + os.path.relpath(src, HERE).replace("/", "_") + ".o"
        else:
            o = f"{BUILD}/{variant}/r/" + os.path.relpath(src, f"{REPO}/src/cosim").replace("/", "_") + ".o"
        if o not in done:
            done.add(o)
            out.append(f"build {esc(o)}: cxx_{variant} {esc(src)}")
        return o

    srcs = all_repo_sources()
    for v in VARIANTS:
        objs = [obj(v, f"{REPO}/src/cosim/{s}") for s in srcs]
        out.append(f"build {esc(BUILD)}/{v}/libcosim.a: ar_{v} " + " ".join(map(esc, objs)))
    for tid, t in TARGETS.items():
        v = t["variant"]
        hs = ([] if t.get("own_driver") else [obj(v, f"{HERE}/pbt/engine.cpp")]) + [obj(v, f"{HERE}/harness/{h}") for h in t["harness"]]
        rs = [obj(v, f"{REPO}/src/cosim/{s}") for s in t["repo"] if os.path.exists(f"{REPO}/src/cosim/{s}")]
        out.append(f"build {esc(BUILD)}/bin/{tid}: link_{v} " + " ".join(map(esc, hs + rs)))
        # what the archive leaves out because it needs a library that is not available here
        extra = [obj(v, p) for d in t.get("extra", []) for p in sorted(glob.glob(f"{REPO}/src/cosim/{d}/**/*.cpp", recursive=True))]
        out.append(f"build {esc(BUILD)}/bin/{tid}_full: link_{v} " + " ".join(map(esc, hs + extra)) + f" {esc(BUILD)}/{v}/libcosim.a")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(out) + "\n")


def ninja(*targets):
    return subprocess.run(["ninja", "-C", BUILD, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(tid):
    """Returns the path of the harness binary built from the current sources."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate()
        b = f"{BUILD}/bin/{tid}"
        r = ninja(b)
        if r.returncode == 0:
            return b
        # Perhaps code has moved between source files: link with all of the library.
        if "undefined reference" in r.stdout or "No such file" in r.stdout or "missing and no known rule" in r.stdout:
            r2 = ninja(b + "_full")
            if r2.returncode == 0:
                return b + "_full"
            r = r2
    print(r.stdout[-6000:])
    print(f"check.py: the harness for {tid} does not build")
    sys.exit(3)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    r.append(e)
    return r


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGTERM)
    except OSError:
        pass
    try:
        p.wait(5)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--max-seconds", type=float)
    a = ap.parse_args()
    if a.build:
        ids = a.ids or list(TARGETS)
        os.makedirs(BUILD, exist_ok=True)
        generate()
        r = ninja("-k", "0", *[f"{BUILD}/bin/{i}" for i in ids])
        print(r.stdout[-4000:])
        sys.exit(r.returncode)
    pid = a.ids[0]
    t = TARGETS[pid]
    t0 = time.time()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    binary = build(pid)
    built = time.time()
    info = json.loads(subprocess.run([binary, "--info"], stdout=subprocess.PIPE, text=True, check=True).stdout)

    run = f"/tmp/vp-{pid}-{os.getpid()}"
    os.makedirs(run)
    os.chmod(run, 0o755)
    try:
        rc = explore(a, pid, t, tier, seed, binary, info, run, t0, built)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", run], stderr=subprocess.DEVNULL)
        shutil.rmtree(run, ignore_errors=True)
    sys.exit(rc)


def explore(a, pid, t, tier, seed, binary, info, run, t0, built):
    if a.replay:
        return subprocess.run([binary, "--out", run, "--replay", os.path.abspath(a.replay), "--verbose"]).returncode
    nw = info["workers"] or int(os.environ.get("VP_WORKERS", "8"))
    known = known_findings(pid)
    max_s = a.max_seconds or (t.get("max_thorough", 540) if tier == "thorough" else t.get("max_quick", 150))
    procs = []
    for w in range(nw):
        cmd = [binary, "--out", run, "--seed", str(seed), "--worker", str(w), "--workers", str(nw), "--max-seconds", str(max_s)]
        if tier == "thorough":
            cmd += ["--thorough", "--shrink-seconds", "60"]
        if a.cases:
            cmd += ["--cases", str(a.cases)]
        for k in known:
            if k.get("tag"):
                cmd += ["--known", k["tag"]]
        procs.append(subprocess.Popen(cmd, start_new_session=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    deadline = time.time() + max_s + 600  # a hang takes a while to confirm
    failing = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if failing is None:
            for w, p in enumerate(procs):
                if os.path.exists(f"{run}/w{w}/failing"):
                    failing = w
                    # let the others be: only the first one is shrunk with the machine to itself
                    for v, q in enumerate(procs):
                        if v != w and q.poll() is None:
                            kill_group(q)
                    break
        elif not os.path.exists(f"{run}/w{failing}/failing") and procs[failing].poll() is None:
            failing = None  # it could not be confirmed
        if time.time() > deadline:
            for p in procs:
                if p.poll() is None:
                    kill_group(p)
            print("check.py: workers did not finish in time; stopped (inconclusive)")
            break
    errors = []
    for w, p in enumerate(procs):
        if p.returncode not in (0, 1, -15, -9):
            errors.append(f"worker {w} exited with {p.returncode}: {p.stderr.read()[-500:]}")
    st = dict(evaluations=0, discarded=0, nontrivial=0, labels={}, known={}, samples=[])
    capped = False
    distinct = set()
    for f in sorted(glob.glob(f"{run}/w*/stats*.json")):
        d = json.load(open(f))
        capped |= d["capped"]
        for k in ("evaluations", "discarded", "nontrivial"):
            st[k] += d[k]
        for m in ("labels", "known"):
            for k, v in d[m].items():
                st[m][k] = st[m].get(k, 0) + v
        if len(st["samples"]) < 8:
            st["samples"] += d["samples"][:2]
    for f in glob.glob(f"{run}/w*/distinct*.bin"):
        b = open(f, "rb").read()
        distinct.update(struct.unpack(f"<{len(b)//8}Q", b))
    violation = None
    for w in range(nw):
        if os.path.exists(f"{run}/w{w}/violation"):
            violation = w
            break
    unconfirmed = sorted(glob.glob(f"{run}/w*/unconfirmed*.txt"))

    for k in known:
        if k.get("replay"):
            # a recorded finding is shown on every run, if it is still there
            r = subprocess.run([binary, "--out", run + "/k", "--replay", os.path.join(HERE, k["replay"])], stdout=subprocess.PIPE, text=True)
            if r.returncode == 1 and f"tag={k['tag']}" in r.stdout:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")

    cov = dict(evaluations=st["evaluations"], distinct_nontrivial=len(distinct), rule=info["rule"],
               samples=st["samples"] or ["(none)"], nontrivial=st["nontrivial"], discarded=st["discarded"],
               labels=dict(sorted(st["labels"].items())), stopped_by_time_limit=capped,
               unconfirmed_failures=len(unconfirmed), excluded_known_findings=st["known"],
               build_s=round(built - t0, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=t.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation is not None else 0)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if unconfirmed:
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
        for i, u in enumerate(unconfirmed[:5]):
            shutil.copy(u, f"{HERE}/evidence/replay/{pid}-unconfirmed{i}.txt")
        print(f"note: {len(unconfirmed)} failure(s) could not be reproduced and are not reported")
    if violation is not None:
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
        rep = f"{HERE}/evidence/replay/{pid}.txt"
        shutil.copy(f"{run}/w{violation}/replay.txt", rep)
        print(open(f"{run}/w{violation}/violation", errors="replace").read()[:4000])
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if errors:
        print("\n".join(errors))
        return 3
    print(f"{pid}: {st['evaluations']} cases ({len(distinct)} distinct non-trivial, {st['discarded']} discarded) in "
          f"{time.time()-built:.1f} s after {built-t0:.1f} s of building; labels: " +
          ", ".join(f"{k}={v}" for k, v in sorted(st["labels"].items())))
    if st["evaluations"] == 0 or len(distinct) == 0:
        print("check.py: no non-trivial case was run")
        return 3
    return 0


if __name__ == "__main__":
    main()
