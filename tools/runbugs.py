#!/usr/bin/env python3
"""Runs checks against planted changes (by hand): runbugs.py [-j SLOTS] [-s SEED] ID[:PROP]...   (no ID: all of /verif/seeded; PROP any: every check until one catches it)

Works in scratch copies of /verif and /repo under /tmp/bv, never in the real ones. PATCH files outside seeded: path.diff:PROP.
"""
import json, os, subprocess, sys, threading, queue, time, shutil
V, S = "/verif", os.environ.get("BUG_SCRATCH", "/tmp/bv")
ANY = "C02 C08 C05 C03 C09 C11 C12 C25 C10 C15 C22 C04 C07 C26 C17 C23 C13 C14 C19 C18 C21 C01 C28 C29 C27 C30 C20".split()


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def slot(n):
    d = "%s/%d" % (S, n)
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + "/repo"):
        run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    run(["git", "-C", d + "/repo", "pull", "-q", "--ff-only"], check=True)
    os.makedirs(d + "/verif", exist_ok=True)
    for x in ("pd", "rt"):
        shutil.rmtree("%s/verif/%s" % (d, x), ignore_errors=True)
        shutil.copytree("%s/%s" % (V, x), "%s/verif/%s" % (d, x), ignore=shutil.ignore_patterns("target"))
    for x in ("known_findings.jsonl", "properties.jsonl", "MANIFEST.json"):
        shutil.copyfile("%s/%s" % (V, x), "%s/verif/%s" % (d, x))
    p = d + "/verif/rt/Cargo.toml"
    t = open(p).read().replace("/repo/", d + "/repo/")
    open(p, "w").write(t)
    if not os.path.isdir(d + "/verif/target"):
        run(["cp", "-a", V + "/target", d + "/verif/target"])
    return d


def main():
    a = sys.argv[1:]
    j, seed = 2, "1"
    while a and a[0] in ("-j", "-s"):
        if a[0] == "-j":
            j = int(a[1])
        else:
            seed = a[1]
        a = a[2:]
    jobs = queue.Queue()
    for x in a or sorted(os.listdir(V + "/seeded")):
        name, _, prop = x.partition(":")
        patch = name if name.endswith((".diff", ".patch")) else "%s/seeded/%s/patch.diff" % (V, name)
        prop = prop or json.load(open("%s/seeded/%s/meta.json" % (V, name)))["property"]
        for p in [ANY] if prop == "any" else prop.split(","):
            jobs.put((os.path.basename(name), os.path.abspath(patch), p))
    quick = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    lock = threading.Lock()
    os.makedirs(S + "/log", exist_ok=True)

    def work(n):
        try:
            d = slot(n)
        except Exception as e:
            print("slot", n, e)
            return
        while True:
            try:
                name, patch, prop = jobs.get_nowait()
            except queue.Empty:
                return
            r = run(["git", "-C", d + "/repo", "apply", patch])
            if r.returncode:
                print(name, prop, "NOAPPLY", r.stdout[:300])
                continue
            t = time.time()
            for prop in prop if isinstance(prop, list) else [prop]:
                try:
                    r = run(["bash", "-c", quick[prop]["quick_cmd"]], cwd=d + "/verif", timeout=900, env=dict(os.environ, VRT_REPO=d + "/repo", VERIF_SEED=seed, VERIF_TIER="quick"))
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, out = "timeout", ""
                open("%s/log/%s.%s.log" % (S, name, prop), "w").write(out)
                if rc:
                    break
            run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            with lock:
                v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                print("%-22s %s rc=%s %3ds %s" % (name, prop, rc, time.time() - t, (v or [out.strip().split("\n")[-1]])[0][:160]), flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
