#!/usr/bin/env python3
"""Validates planted changes (run by hand): plant.py [ID...]

For each /verif/seeded/<id>: the patch applies to HEAD, removes or changes a line of the original repository, touches only
non-test sources, builds, keeps the stable tests, and demo.sh passes without and fails with it. Works in a scratch copy of /repo.
"""
import json, os, shutil, subprocess, sys
V, S = "/verif", os.environ.get("PLANT_SCRATCH", "/tmp/plant")
BASE = "e84ddea"


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.isdir(S + "/repo"):
        os.makedirs(S, exist_ok=True)
        run(["cp", "-a", "/repo", S + "/repo"], check=True)
    run(["git", "-C", S + "/repo", "checkout", "-q", "--", "."], check=True)
    run(["git", "-C", S + "/repo", "pull", "-q", "--ff-only", "/repo", "HEAD"])
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", S + "/repo")
        open(S + "/" + f, "w").write(t)


def lost():
    b = run(["bash", S + "/build.sh"])
    if b.returncode:
        return "does not build:\n" + b.stdout[-2500:]
    run(["bash", S + "/test.sh", S + "/o.json"])
    base, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(S + "/o.json"))
    l = [t for t in base["stable"] if t not in o["passed"]]
    return "loses tests: %s" % l if l else ""


def original(patch):
    """some removed line comes from the original repository"""
    f, n, hits = None, 0, 0
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            if any(x in f for x in ("/tests/", "bench", "examples/", "build.rs")):
                return "touches " + f
        elif line.startswith("@@"):
            n = int(line.split("-")[1].split(",")[0].split(" ")[0])
        elif line.startswith("-") and not line.startswith("---"):
            b = run(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", "-L", "%d,%d" % (n, n), "HEAD", "--", f]).stdout
            hits += b.lstrip("^").startswith(BASE[:6])
            n += 1
        elif line.startswith(" ") or line == "\n":
            n += 1
    return "" if hits else "changes no original line"


def main(ids):
    prepare()
    bad = 0
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        demo = S + "/demo"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        run(["git", "-C", S + "/repo", "checkout", "-q", "--", "."], check=True)
        why = original(d + "/patch.diff")
        if not why:
            r = run(["bash", demo + "/demo.sh"], cwd=S + "/repo", timeout=300)
            if r.returncode:
                why = "demo fails on the unchanged tree:\n" + r.stdout[-2500:]
        if not why:
            r = run(["git", "-C", S + "/repo", "apply", d + "/patch.diff"])
            why = r.stdout if r.returncode else lost()
            if not why:
                r = run(["bash", demo + "/demo.sh"], cwd=S + "/repo", timeout=300)
                if r.returncode == 0:
                    why = "demo passes with the change"
                else:
                    last = [x for x in r.stdout.splitlines() if x.strip()]
                    why = ""
                    print("ok  %s   [%s]" % (i, (next((x for x in last if "panicked" in x or x.startswith("error")), last[-1] if last else ""))[:150]), flush=True)
            run(["git", "-C", S + "/repo", "checkout", "-q", "--", "."], check=True)
        if why:
            bad += 1
            print("BAD %s: %s" % (i, why), flush=True)
    return bad


sys.exit(1 if main(sys.argv[1:]) else 0)
