"""Building and running corpora, collecting verdicts and evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VRT_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
STABLE = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()


class Inconclusive(Exception):
    """The check cannot give an answer (harness trouble, code under test does not build)."""


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET,
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(kw)
    return e


def repo_hash():
    h = hashlib.sha256()
    for d in ("parse-display", "parse-display-derive", "parse-display-with"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class TargetLock:
    def __init__(self, target):
        self.target = target

    def __enter__(self):
        os.makedirs(self.target, exist_ok=True)
        self.f = open(os.path.join(self.target, ".vlock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def fresh_stamp(target):
    """Makes cargo rebuild the code under test whenever its content changed, whatever the mtimes say."""
    stamp, now = os.path.join(target, ".repo-hash"), repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for root, dirs, _ in os.walk(target):
            if os.path.basename(root) == ".fingerprint":
                for d in list(dirs):
                    if d.startswith(("parse-display", "vrt-")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
            elif os.path.basename(root) in ("deps", "build", "examples", "incremental"):
                dirs[:] = []
        with open(stamp, "w") as f:
            f.write(now)


PROFILE = """
[profile.dev]
debug = false
panic = "unwind"
[profile.dev.package."*"]
opt-level = 2
[profile.dev.package.vrt]
opt-level = 1
[profile.dev.package.parse-display]
opt-level = 0
[profile.dev.package.parse-display-with]
opt-level = 0
[profile.dev.build-override]
opt-level = 1
[profile.release]
debug = false
"""

# as users ship it: no debug assertions and no overflow checks in the generated code, the library and the macro
PROFILE_ND = PROFILE.replace('panic = "unwind"', 'panic = "unwind"\ndebug-assertions = false\noverflow-checks = false')
PROFILE_ND = PROFILE_ND.replace('[profile.dev.package."*"]', '[profile.dev.package."*"]\ndebug-assertions = true\noverflow-checks = true')
PROFILE_ND = re.sub(r"(\[profile.dev.package.parse-display(-with)?\]\n)", r"\1debug-assertions = false\noverflow-checks = false\n", PROFILE_ND)
PROFILE_ND += "[profile.dev.package.parse-display-derive]\ndebug-assertions = false\noverflow-checks = false\n"


def write_if_changed(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def package(name, dirname, deps, bins, lib=None, profile=PROFILE, edition="2024", lock=True):
    """Writes a package; bins maps a bin name to its source text."""
    shutil.rmtree(os.path.join(dirname, "src"), ignore_errors=True)
    t = ['[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\nautobins = false' % (name, edition)]
    if lib is not None:
        t.append('[lib]\npath = "src/lib.rs"')
        write_if_changed(os.path.join(dirname, "src/lib.rs"), lib)
    for b, src in bins.items():
        t.append('[[bin]]\nname = "%s"\npath = "src/bin/%s.rs"\ntest = false' % (b, b))
        write_if_changed(os.path.join(dirname, "src/bin/%s.rs" % b), src)
    t.append("[dependencies]\n" + deps)
    t.append("[workspace]\n" + profile)
    write_if_changed(os.path.join(dirname, "Cargo.toml"), "\n".join(t))
    if lock:
        shutil.copyfile(os.path.join(VERIF, "rt/Cargo.lock"), os.path.join(dirname, "Cargo.lock"))


DEPS = '''vrt = { path = "%s/rt" }
parse-display = { path = "%s/parse-display" }
regex = "1"
''' % (VERIF, REPO)
DEPS_WITH = DEPS + 'parse-display-with = { path = "%s/parse-display-with" }\n' % REPO


class BuildResult:
    def __init__(self, ok, errors, log):
        self.ok, self.errors, self.log = ok, errors, log
        self.warnings = []


def cargo(args, cwd, timeout=800, target=TARGET, extra_env=None):
    e = env(CARGO_TARGET_DIR=target)
    e.update(extra_env or {})
    with TargetLock(target):
        fresh_stamp(target)
        try:
            p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("cargo %s timed out" % " ".join(args))
    errors, warnings = [], []
    for line in p.stdout.decode("utf8", "replace").splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            msg = m["message"]
            if msg.get("level", "").startswith("error"):
                errors.append((m.get("target", {}).get("name", ""), m.get("target", {}).get("src_path", ""), msg))
            elif msg.get("level") == "warning":
                warnings.append(msg)
    b = BuildResult(p.returncode == 0, errors, p.stderr.decode("utf8", "replace"))
    b.warnings = warnings
    return b


def outer_spans(msg):
    """(file, line) of every span, following macro expansions to the source."""
    out = []

    def follow(sp):
        while sp is not None:
            out.append((sp["file_name"], sp["line_start"], sp.get("is_primary", False)))
            ex = sp.get("expansion")
            sp = ex["span"] if ex else None
    for sp in msg.get("spans", []):
        follow(sp)
    for ch in msg.get("children", []):
        for sp in ch.get("spans", []):
            follow(sp)
    return out


PRE = """#![allow(warnings, bindings_with_variant_name)]
#![recursion_limit = "512"]
use vrt::*;
"""
MODPRE = "    #[allow(unused_imports)] use vrt::*; use parse_display::{Display, FromStr};\n"


class Shard:
    def __init__(self, name, cases, pre=PRE, modpre=MODPRE):
        self.name, self.cases = name, cases
        lines = pre.rstrip("\n").split("\n")
        self.ranges = []
        for c in cases:
            start = len(lines) + 1
            lines.append("mod %s {" % c.id)
            lines += (getattr(c, "modpre", None) or modpre).rstrip("\n").split("\n")
            lines += c.source().split("\n")
            lines.append("}")
            self.ranges.append((start, len(lines), c))
        lines.append("fn main() {\n    let mut m = Mon::from_env();")
        for c in cases:
            lines.append("    if m.wants(%s) { m.begin(%s); %s::run(&mut m); }" % (json.dumps(c.id), json.dumps(c.id), c.id))
        lines.append("    m.finish();\n}")
        self.text = "\n".join(lines) + "\n"

    def case_at(self, line):
        for a, b, c in self.ranges:
            if a <= line <= b:
                return c
        return None


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evals = self.distinct = 0
        self.bins, self.samples, self.found = {}, [], []     # found: dict(case, kind, detail, source)
        self.cases = 0
        self.extra = {}

    def add(self, j, cases):
        self.evals += j["evaluations"]
        self.distinct += j["distinct"]
        for k, v in j["bins"].items():
            self.bins[k] = self.bins.get(k, 0) + v
        self.samples += j["samples"]
        src = {c.id: c for c in cases}
        for f in j["found"]:
            c = src.get(f["case"])
            self.found.append(dict(f, source=c.source() if c else ""))

    def violation(self, case, kind, detail, source=""):
        self.found.append(dict(case=case, kind=kind, detail=detail, source=source))


def rng_for(prop, batch, *more):
    import random
    return random.Random("-".join(str(x) for x in (prop, SEED, batch) + more))


def standard(prop, only, corpus, rule, quick=2, thorough=8, assumptions=(), min_evals=1000, scale=4, after=None, budget=1500, **kw):
    """Runs corpus(batch) for one or more batches; `after` may add more observations."""
    res = Result(prop)
    env_extra = dict(kw.pop("env_extra", {}))
    if THOROUGH:
        env_extra.setdefault("VRT_SCALE", str(scale))
    n = thorough if THOROUGH else quick
    done = 0
    for b in range(n):
        cases = corpus(b)
        if only:
            cases = [c for c in cases if c.id == only]
            if not cases:
                continue
        # every other batch is built without debug assertions
        run_corpus(res, cases, prop, env_extra=env_extra, only=only, **{"profile": PROFILE_ND if b % 2 else PROFILE, **kw})
        done += 1
        if res.found or time.time() - T0 > budget:
            break
    if after and not only:
        after(res)
    res.extra["batches"] = done
    res.extra["batches without debug assertions"] = done if "profile" in kw else done // 2
    return finish(res, rule, assumptions, min_evals=1 if only else min_evals)


def shard(cases, n):
    out = [[] for _ in range(n)]
    load = [0] * n
    for c in sorted(cases, key=lambda c: -len(c.source())):
        i = load.index(min(load))
        out[i].append(c)
        load[i] += len(c.source()) + 500
    return [x for x in out if x]


def run_corpus(res, cases, prop, deps=DEPS, nshards=8, batch="", env_extra=None, timeout=600, pre=PRE, modpre=MODPRE,
               release=False, only=None, rounds=1, san=None, edition="2024", profile=PROFILE):
    """san: None or "thread": built by nightly with std instrumented as well."""
    ids = [c.id for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    pkg = "w%s%s" % (prop.lower(), batch)
    d = os.path.join(VERIF, "work", pkg)
    shards = [Shard("%s_s%d" % (pkg, i), cs, pre, modpre) for i, cs in enumerate(shard(cases, nshards))]
    package(pkg, d, deps, {s.name: s.text for s in shards}, edition=edition, profile=profile)
    t = time.time()
    base = os.path.join(TARGET, "release" if release else "debug")
    args = ["build", "--offline", "--message-format=json", "--keep-going"] + (["--release"] if release else [])
    if san:
        tdir = os.path.join(TARGET, "san-" + san)
        base = os.path.join(tdir, "x86_64-unknown-linux-gnu/debug")
        b = cargo(args + ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], d, target=tdir,
                  extra_env=dict(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=" + san))
        env_extra = dict(env_extra or {}, TSAN_OPTIONS="halt_on_error=1 exitcode=66")
    else:
        b = cargo(args, d)
    res.extra["build_s"] = round(res.extra.get("build_s", 0) + time.time() - t, 1)
    if not b.ok and san:
        # the same code has been built without; only the instrumentation is missing
        res.extra["sanitizer"] = "not available: " + b.log[-300:]
        return
    if not b.ok:
        compile_failure(res, b, shards)
        cleanup(d, shards, base)
        return
    t = time.time()
    late = []
    for rnd in range(rounds):
        run_shards(res, d, shards, rnd, env_extra, timeout, base, only, late)
        if late or res.found:
            break
    res.cases += len(cases)
    res.extra["run_s"] = round(res.extra.get("run_s", 0) + time.time() - t, 1)
    cleanup(d, shards, base)
    if late and not res.found:
        cur = [open(o + ".cur").read() if os.path.exists(o + ".cur") else "?" for _, o in late]
        raise Inconclusive("timed out in cases %s" % cur)


def run_shards(res, d, shards, rnd, env_extra, timeout, base, only, late):
    procs = []
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    for s in shards:
        o = os.path.join(out, s.name + ".json")
        for x in (o, o + ".cur"):
            if os.path.exists(x):
                os.remove(x)
        e = env(VERIF_SEED=str(SEED + 1000003 * rnd), VERIF_TIER=TIER)
        e.update(env_extra or {})
        exe = os.path.join(base, s.name)
        cmd = [exe, o] + ([only] if only else [])
        procs.append((s, o, subprocess.Popen(cmd, env=e, cwd=out, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    end = time.time() + timeout
    for s, o, p in procs:
        try:
            so, se = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            late.append((s, o))
            continue
        if os.environ.get("VRT_SLOW"):
            print(se.decode("utf8", "replace")[-int(os.environ["VRT_SLOW"]):], end="")
        if p.returncode != 0:
            cur = open(o + ".cur").read() if os.path.exists(o + ".cur") else ""
            c = next((c for c in s.cases if c.id == cur), None)
            err = se.decode("utf8", "replace")[-1500:]
            if "FATAL: ThreadSanitizer" in err or "ThreadSanitizer failed to" in err:
                res.extra["sanitizer"] = "did not start: " + err[:200]
                continue
            if "harness:" in err or c is None:
                raise Inconclusive("%s exited with %s in case %r: %s" % (s.name, p.returncode, cur, err))
            res.violation(cur, "process died", "exit status %s while running this case\n%s" % (p.returncode, err), c.source())
            continue
        with open(o) as f:
            res.add(json.load(f), s.cases)


def cleanup(d, shards, base):
    """Keeps the shared target directory small."""
    for s in shards:
        for p in (os.path.join(base, s.name), os.path.join(base, s.name + ".d")):
            if os.path.exists(p):
                os.remove(p)
    deps = os.path.join(base, "deps")
    names = tuple(s.name + "-" for s in shards)
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(names):
                try:
                    os.remove(os.path.join(deps, f))
                except OSError:
                    pass
    fp = os.path.join(base, ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith(os.path.basename(d) + "-"):
                shutil.rmtree(os.path.join(fp, f), ignore_errors=True)


def compile_failure(res, b, shards):
    """Attributes compiler errors to cases: a declaration of the corpus that is no longer accepted."""
    files = {"src/bin/%s.rs" % s.name: s for s in shards}
    bad, unattributed = {}, []
    for target, src, msg in b.errors:
        text = msg.get("rendered") or msg.get("message", "")
        if msg.get("message", "").startswith(("aborting due to", "could not compile")):
            continue
        hit = None
        for fn, line, _ in outer_spans(msg):
            if fn in files:
                hit = files[fn].case_at(line)
                if hit:
                    break
        if hit is None:
            unattributed.append(text)
        else:
            bad.setdefault(hit.id, (hit, []))[1].append(text)
    if unattributed or not bad:
        raise Inconclusive("does not build:\n" + ("\n".join(unattributed) or b.log)[-4000:])
    for cid, (c, texts) in bad.items():
        res.violation(cid, "compile error", "a declaration that must be accepted does not compile:\n" + "\n".join(texts)[:3000], c.source())
    res.cases += sum(len(s.cases) for s in shards)


# ---------------------------------------------------------------- verdict
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                j = json.loads(line)
                if j.get("status") == "known" and j["property"] == prop:
                    out.append(j)
    return out


def finish(res, rule, assumptions=(), level="exploration", min_evals=1):
    prop = res.prop
    known = known_findings(prop)
    fresh, seen = [], set()
    for f in res.found:
        k = next((k for k in known if k["case"] == f["case"] and k.get("kind", f["kind"]) == f["kind"] and k.get("detail", "") in f["detail"]), None)
        if k is not None:
            if k["case"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            seen.add(k["case"])
        else:
            fresh.append(f)
    cov = dict(evaluations=res.evals, distinct_nontrivial=res.distinct, rule=rule, samples=res.samples[:12] or ["(none)"],
               cases=res.cases, observed=dict(sorted(res.bins.items())), **res.extra)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - T0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write("\n")
    rdir = os.path.join(VERIF, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        for i, f in enumerate(fresh[:20]):
            p = os.path.join(rdir, "%02d_%s.txt" % (i, re.sub(r"\W", "_", f["case"])[:40]))
            with open(p, "w") as fh:
                fh.write("property %s, case %s: %s\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s/pd/check.py %s --case %s\n\n%s\n" % (
                    prop, f["case"], f["kind"], f["detail"], SEED, TIER, VERIF, prop, f["case"], f.get("source", "")))
            if i < 3:
                print("--- %s %s\n%s" % (f["case"], f["kind"], f["detail"][:1500]))
            if i == 0:
                first = p
        print("%d violations in %d cases" % (len(fresh), res.cases))
        print("VIOLATION property=%s replay=%s" % (prop, first))
        sys.stdout.flush()
        return 1
    if res.evals < min_evals or not res.distinct:
        print("inconclusive: only %d evaluations observed" % res.evals)
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %d cases, %.1f s %s" % (
        prop, res.evals, res.distinct, res.cases, time.time() - T0, {k: v for k, v in res.extra.items()}))
    return 0
