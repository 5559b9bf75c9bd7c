#!/usr/bin/env python3
"""plant.py [--no-tests] [--no-check] ID...: confirm planted changes in scratch copies of /repo under /tmp: the patch applies
to HEAD, everything builds, the stable tests pass, the demonstration passes without it and fails with it; then
run the quick check of its property against the changed copy and say whether it catches the change."""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd, env=None, timeout=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(i, tests, check):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/plant-{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    out = []
    try:
        demo = w + "/demo"
        os.makedirs(demo)
        for f in os.listdir(d):
            if not f.endswith(".diff") and f != "meta.json":
                shutil.copy(f"{d}/{f}", demo)
        subprocess.run(["git", "clone", "-q", R, w + "/repo"], check=True)
        rc, o = sh(f"bash {demo}/demo.sh", w + "/repo", timeout=300)
        out.append("demo clean " + ("ok" if rc == 0 else f"FAILS {rc} {o[-300:]}"))
        rc, o = sh(f"git apply {d}/patch.diff", w + "/repo")
        if rc:
            return i, meta["property"], out + ["DOES NOT APPLY " + o[-300:]]
        t = time.time()
        rc, o = sh(f"bash {demo}/demo.sh", w + "/repo", timeout=300)
        out.append(("demo patched fails %d (%.0f s)" % (rc, time.time() - t)) if rc else "DEMO PASSES WITH THE PATCH")
        if tests:
            for f in ("build.sh", "test.sh"):
                s = open("/opt/vp/" + f).read().replace("/repo", w + "/repo").replace("/opt/vp/build.sh", w + "/build.sh")
                open(f"{w}/{f}", "w").write(s)
            rc, o = sh(f"bash {w}/build.sh", w)
            if rc:
                out.append("DOES NOT BUILD " + o[-300:])
            rc, o = sh(f"bash {w}/test.sh {w}/out.json", w)
            try:
                got = set(json.load(open(w + "/out.json"))["passed"])
            except Exception:
                got = set()
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got
            out.append("tests ok" if not miss else f"TESTS FAIL {sorted(miss)[:5]} of {len(miss)}")
            shutil.rmtree(w + "/repo/_build", ignore_errors=True)
        if not check:
            return i, meta["property"], out
        t = time.time()
        rc, o = sh(f"python3 run.py {meta['property']}", V, env=dict(os.environ, EVALROUND_REPO=w + "/repo", VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")), timeout=900)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        why = [l for l in o.splitlines() if l.startswith("  ")][:1]
        out.append(("caught" if rc == 1 and v else f"MISSED rc={rc}") + " %.0f s %s" % (time.time() - t, (why[0] if why else "")[:200]))
        for l in v:
            p = l.split("replay=")[1]
            if os.path.exists(p) and os.path.dirname(p) == V + "/replays":
                os.unlink(p)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, meta["property"], out


if __name__ == "__main__":
    a = sys.argv[1:]
    tests, check = "--no-tests" not in a, "--no-check" not in a
    for i in [x for x in a if not x.startswith("--")]:
        print(*one(i, tests, check), sep=" | ", flush=True)
