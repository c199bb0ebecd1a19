#!/usr/bin/env python3
"""Builds what one property needs from /repo's working tree, runs its explorations, writes evidence.

  check.py C01 [--tier quick|thorough] [--only SPACE] [--jobs N]
  check.py --replay evidence/replay/FILE      runs one recorded execution again

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed (build error, internal error).
"""
import argparse, concurrent.futures as cf, json, os, shlex, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MSHIO_REPO", "/repo")
OUT = os.environ.get("MSHIO_MC_OUT", HERE)  # (tools/try.py)
BUILD = os.path.join(OUT, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402


class Failed(Exception):
    pass


def run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(map(shlex.quote, cmd)) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        with open(log, errors="replace") as f:
            tail = f.read()[-4000:]
        raise Failed("command failed: %s\n%s" % (" ".join(cmd), tail))


def build_lib(name):
    """The project's own CMake build of the library, out of tree.  Returns the build directory."""
    v = VARIANTS[name]
    d = os.path.join(BUILD, "lib-" + name)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    open(log, "w").close()
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
           "-DCMAKE_C_COMPILER=" + ("clang" if v.get("clang") else "gcc"),
           "-DCMAKE_CXX_COMPILER=" + ("clang++" if v.get("clang") else "g++"),
           "-DMSHIO_EXT_NANOSPLINE=" + ("ON" if v["ext"] else "OFF"),
           "-DMSHIO_BUILD_EXAMPLES=ON",
           "-DCMAKE_CXX_FLAGS=" + v.get("flags", "") + " " + v.get("libflags", "")] + v.get("cmake", [])
    run(cmd, log)
    run(["ninja", "-C", d] + v.get("targets", ["mshio"]), log)
    return d


def build_exe(part):
    v = VARIANTS[part["lib"]]
    exe = os.path.join(BUILD, part["exe"])
    log = exe + ".log"
    open(log, "w").close()
    cmd = ["clang++" if v.get("clang") else "g++", "-std=c++17", part.get("opt", "-O1"), "-g0", "-Wall", "-Wextra", "-Wno-mismatched-new-delete",
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "src")]
    cmd += [a.replace("@REPO@", REPO).replace("@HERE@", HERE) for a in part.get("cxx", [])]
    if v["ext"]:
        cmd.append("-DMSHIO_EXT_NANOSPLINE")
    cmd += v.get("flags", "").split()
    obj = exe + ".o"
    run(cmd + ["-c", os.path.join(HERE, "src", part["src"]), "-o", obj], log)
    return cmd, obj, exe, log


def link_exe(built, part, libdir):
    cmd, obj, exe, log = built
    pre = ["-Wl,--whole-archive"] if part.get("whole") else []
    lib = [] if part.get("nolib") else [os.path.join(libdir, "libmshio.a")]
    lib += ["-Wl,--no-whole-archive"] if pre else []
    run(cmd + pre + [obj] + lib + ["-o", exe] + [x.replace("@BUILD@", BUILD) for x in part.get("link", ["-lpthread"])], log)
    return exe


def findings(pid):
    """known: property=<id> <key>: <text>   -- a defect recorded and not repaired; the program that finds it knows the key."""
    known = []
    p = os.path.join(HERE, "findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                key, text = line[len("known: property=%s " % pid):].rstrip("\n").split(": ", 1)
                known.append((key, text))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default="")
    ap.add_argument("--part", default="")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay", default="")
    ap.add_argument("--deadline", type=float, default=0)
    a = ap.parse_args()
    if a.replay:
        for line in open(a.replay, errors="replace"):
            if line.startswith("property: "):
                a.property = line.split()[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    if pid not in CHECKS:
        print("unknown property", pid)
        return 2
    ck = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay_dir = os.path.join(OUT, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    if not a.replay:
        for f in os.listdir(replay_dir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(replay_dir, f))
    parts = [p for p in ck["parts"] if a.tier == "thorough" or not p.get("thorough_only")]
    if a.part:
        parts = [p for p in parts if p["exe"] == a.part]
    aux = []
    for p in parts:
        for x in p.get("aux", []):
            if x not in aux:
                aux.append(x)
    libs = sorted({l for p in parts + aux for l in [p["lib"]] + p.get("also", [])})
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fl = {l: ex.submit(build_lib, l) for l in libs}
            exes = {}
            for p in parts + aux:
                if p["exe"] not in exes:
                    exes[p["exe"]] = (p, ex.submit(build_exe, p))
            dirs = {l: f.result() for l, f in fl.items()}
            for e, (p, f) in sorted(exes.items(), key=lambda x: bool(x[1][0].get("nolib"))):
                link_exe(f.result(), p, dirs[p["lib"]])
    except Failed as e:
        print(e)
        return 2
    build_s = time.time() - t0
    env = dict(os.environ)
    env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0",
               TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_bugs=1")
    for l, d in dirs.items():
        env["MSHIO_LIB_" + l.upper().replace("-", "_")] = d
    env["MSHIO_BUILD"] = BUILD
    spaces, code, violations = [], 0, 0
    known = findings(pid)
    seen = set()
    limit = a.deadline or ck.get("deadline", {}).get(a.tier, 700 if a.tier == "quick" else 7200)
    for p in parts:
        out = os.path.join(BUILD, "out-%s-%s.json" % (pid, p["exe"]))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [os.path.join(BUILD, p["exe"]), "--property", pid, "--out", out, "--replay-dir", replay_dir,
               "--tier", a.tier, "--seed", str(seed), "--jobs", str(p.get("jobs", a.jobs)),
               "--deadline", str(max(20, limit - (time.time() - t0)))]
        if a.only:
            cmd += ["--only", a.only]
        if a.replay:
            cmd += ["--replay", a.replay]
        for k, _ in known:
            cmd += ["--known", k]
        cmd += p.get("args", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=BUILD)
        text = r.stdout.decode("utf-8", "replace")
        if a.replay:
            print(text)
            if "unknown space" in text:
                continue
            return r.returncode
        lines = text.splitlines()
        viol = [x for x in lines if x.startswith("VIOLATION ")]
        print("\n".join(lines))
        if os.path.exists(out):
            o = json.load(open(out))
            for s in o["spaces"]:
                s["part"] = p["exe"]
                s["library"] = p["lib"]
                spaces.append(s)
                seen |= {t[6:] for t in s["outcomes"] if t.startswith("known ")}
        if r.returncode == 1 and viol:
            code = 1
            violations += 1
            break
        if r.returncode != 0:
            print("internal error: %s exited with %d" % (p["exe"], r.returncode))
            return 2
    if a.replay:
        return 2
    if not spaces:
        print("internal error: nothing was explored")
        return 2
    for k, t in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, t))
    # a space that explores next to nothing means that the machinery is broken
    tot = lambda k: sum(s[k] for s in spaces)
    samples = []
    for s in spaces:
        for x in s["samples"][:2]:
            samples.append("[%s/%s] %s" % (s["part"], s["name"], x[:1200]))
    cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces_validated"),
           "executions": tot("executions"), "choice_points": tot("choice_points"),
           "exhaustive": all(s["complete"] for s in spaces), "samples": samples[:12],
           "spaces": [{k: v for k, v in s.items() if k != "samples"} for s in spaces]}
    if ck["level"] in ("fault_enumeration", "exploration"):
        cov["evaluations"] = tot("evaluations") or tot("executions")
        cov["distinct_nontrivial"] = tot("nontrivial")
        cov["rule"] = ck["rule"]
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": ck["level"], "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": violations}
    path = os.path.join(OUT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s: %s, %d executions, %d states, %d transitions, build %.1f s, total %.1f s" % (
        pid, a.tier, "violated" if code else ("held on every execution explored" if cov["exhaustive"] else "held on what was explored (bound not completed)"),
        cov["executions"], cov["states"], cov["transitions"], build_s, time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
