#!/usr/bin/env python3
"""Runs checks against a changed copy of /repo (nothing in /repo or /verif changes).

  tools/try.py DIFF CHECK...            e.g. tools/try.py /tmp/x.diff C01 C15
  tools/try.py seeded/ID [CHECK...]     the demo and the tests too; without CHECK: the check of meta.json
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    what, checks = os.path.abspath(sys.argv[1]), sys.argv[2:]
    top = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    repo = os.path.join(top, "repo")
    try:
        sh(["cp", "-a", "/repo", repo])
        seeded = os.path.isdir(what)
        diff = os.path.join(what, "patch.diff") if seeded else what
        line = os.path.basename(what)

        def build():
            ok = True
            for conf, ext in (("default", "OFF"), ("nanospline", "ON")):
                d = os.path.join(repo, "_build", conf)
                if not os.path.exists(os.path.join(d, ".moved")):
                    shutil.rmtree(d, ignore_errors=True)
                r = sh(["cmake", "-S", repo, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_PROJECT_MshIO_INCLUDE=/opt/vp/deps.cmake", "-DMSHIO_BUILD_TESTS=ON", "-DMSHIO_BUILD_EXAMPLES=ON", "-DMSHIO_EXT_NANOSPLINE=" + ext])
                r2 = sh(["ninja", "-C", d])
                open(os.path.join(d, ".moved"), "w").close()
                if r.returncode or r2.returncode:
                    print(r.stdout[-1500:], r2.stdout[-3000:])
                    ok = False
            return ok

        def tests():
            return all("100% tests passed" in sh(["ctest", "--test-dir", os.path.join(repo, "_build", c), "-j8", "--timeout", "300"]).stdout for c in ("default", "nanospline"))

        def demo():
            d = os.path.join(top, "demo")
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(what, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            # (a demo runs in /repo; here in the copy)
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
            return r.returncode, r.stdout[-800:]
        if seeded:
            if not build():
                print(line, "the unchanged tree does not build"); return 1
            c, t = demo()
            if c:
                print(line, "DEMO FAILS on the unchanged tree", t)
        r = sh(["git", "-C", repo, "apply", diff])
        if r.returncode:
            print(line, "does not apply", r.stdout); return 1
        if seeded:
            if not build():
                print(line, "DOES NOT BUILD"); return 1
            if not tests():
                print(line, "TESTS FAIL")
            c, t = demo()
            if not c:
                print(line, "DEMO PASSES with the change")
            if not checks:
                checks = [json.load(open(os.path.join(what, "meta.json")))["property"]]
        env = dict(os.environ, MSHIO_REPO=repo, MSHIO_MC_OUT=top)
        for k in checks:
            r = sh(["python3", os.path.join(HERE, "check.py"), k], env=env)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION") or x.startswith("  ")]
            print("%s %s: exit %d %s" % (line, k, r.returncode, "caught: " + " ".join(v)[:300] if r.returncode == 1 else "NOT CAUGHT" if r.returncode == 0 else r.stdout[-1500:]), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()
