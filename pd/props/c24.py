"""The release script, compiled from the working tree, run by an unprivileged user in scratch repositories; a monitor compares the state of
every file before and after with the announced changes."""
from common import *
import concurrent.futures, random, stat, tempfile

RULE = ("A case is a random scratch repository (manifests, lock file, changelog, documents, git history, line ends) and one to three runs of the script: without a version, dry, "
        "real, with a broken precondition. After every run all files are compared with the state the property prescribes. Non-trivial: distinct (repository, arguments, fault).")

SCRIPT = ".codex/skills/prepare-release/scripts/prepare_release.rs"
UID = 65534
CATS = ["Added", "Changed", "Deprecated", "Removed", "Fixed", "Performance", "Security"]


def build(base):
    src = open(os.path.join(REPO, SCRIPT)).read().split("\n")
    if src[0].startswith("#!"):
        src[0] = ""
    edition, i = "2024", 0
    while i < len(src) and not src[i].strip():
        i += 1
    if i < len(src) and src[i].startswith("---"):
        j = next(j for j in range(i + 1, len(src)) if src[j].strip() == "---")
        m = re.search(r'edition\s*=\s*"(\d+)"', "\n".join(src[i:j]))
        edition = m.group(1) if m else edition
        src[i:j + 1] = [""] * (j + 1 - i)
    p = os.path.join(base, "prepare_release.rs")
    with open(p, "w") as f:
        f.write("\n".join(src))
    exe = os.path.join(base, "prepare_release")
    r = subprocess.run(["rustc", "--edition", edition, "-A", "warnings", "-C", "opt-level=0", "-o", exe, p], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode:
        raise Inconclusive("the script does not build: " + r.stdout.decode("utf8", "replace")[-2000:])
    os.chmod(exe, 0o755)
    return exe


# ------------------------------------------------------------- repositories
WORDS = ["Add", "Support", "`#[display(opt)]`", "fix", "regex", "[#36](https://github.com/frozenlib/parse-display/issues/36)", "pattern", "日本語", "v0.1", "1.2.3", "## x", "[dc14a2b]", "é", "a  b", "--", "{}"]


def words(r, n=6):
    return " ".join(r.choice(WORDS) for _ in range(r.randint(1, n)))


def ver(r):
    return "%d.%d.%d" % (r.choice([0, 0, 0, 1, 2, 10]), r.choice([0, 1, 8, 9, 10, 11, 25]), r.choice([0, 0, 1, 2, 9, 10]))


def key(v):
    return tuple(int(x) for x in v.split("."))


def body(r):
    out = []
    for _ in range(r.randint(1, 4)):
        out.append("- " + words(r))
        k = r.random()
        if k < .15:
            out += ["", "  ```rust", "  let x = 1;", "", "", "  ```"]
        elif k < .3:
            out += ["  - " + words(r), "    " + words(r) + "  "]
        elif k < .4:
            out += ["", "[`l%d`]: https://x.y/%d" % (r.randint(0, 9), r.randint(0, 99))]
        elif k < .5:
            out += [""]
        elif k < .55:
            out += ["", "#### " + words(r, 2), ""]
        elif k < .6:
            out += ["\tindented " + words(r) + " \t"]
    return out


def trim(ls):
    ls = list(ls)
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    return ls


class Repo:
    """the files as text with LF; which of them end their lines with CRLF"""

    def __init__(self, r):
        self.r = r
        self.old = ver(r)
        self.derive = self.old if r.random() < .5 else ver(r)
        self.files, self.crlf, self.raw = {}, set(), {}
        F = self.files
        F["Cargo.toml"] = '[workspace]\nresolver = "3"\nmembers = ["parse-display", "parse-display-derive", "parse-display-with"]\n\n[workspace.dependencies]\nregex = "1.12.3"\n'
        F["parse-display/Cargo.toml"] = self.manifest("parse-display", self.old)
        F["parse-display-derive/Cargo.toml"] = self.manifest("parse-display-derive", self.derive)
        self.wv = ver(r)
        F["parse-display-with/Cargo.toml"] = self.manifest("parse-display-with", self.wv)
        F["Cargo.lock"] = self.lock()
        F["CHANGELOG.md"] = self.changelog()
        for p in ["README.md", "parse-display/src/lib.rs", "parse-display/src/display.md", "parse-display/src/display.ja.md", "parse-display-with/README.md", "parse-display-with/src/lib.rs",
                  "parse-display-derive/src/lib.rs", "docs/a/b/c.md", "x.rs", ".github/x.md", "parse-display/tests/t.rs"]:
            if r.random() < .75 or p.endswith("src/lib.rs"):
                F[p] = self.doc(p)
        for p in ["notes.txt", "target/doc/x.md", ".codex/skills/y.md", "parse-display/target/z.rs", "README.MD", "docs/CHANGELOG.md", "Makefile", "ci.yml", "parse-display/x.toml", "a.mdx", "parse-display-benches/Cargo.toml"]:
            if r.random() < .5:
                F[p] = self.doc(p) + "version = \"%s\"\n" % self.old
        if r.random() < .2:
            F["empty.md"] = ""
        k = r.random()
        if k < .12:
            self.crlf = set(F)
        elif k < .3:
            self.crlf = {p for p in F if r.random() < .4}
        if r.random() < .3:
            for p in list(F):
                if p.endswith((".md", ".rs")) and p != "CHANGELOG.md" and F[p] and r.random() < .4:
                    F[p] = F[p].rstrip("\n") if r.random() < .5 else F[p] + "\n" * r.randint(1, 3)
        if r.random() < .3:
            self.raw["logo.bin"] = bytes(r.randint(0, 255) for _ in range(50))
        if r.random() < .1:
            self.raw["target/x.md"] = b"\xff\xfe"

    def manifest(self, name, v):
        r = self.r
        pk = ['name = "%s"' % name, 'version = "%s"' % v, 'edition = "2024"', 'authors = ["frozenlib"]', 'rust-version = "1.85.0"', 'description = "version = 1"', '# version = "9.9.9"', 'readme = "../README.md"']
        head = [pk[0], pk[1]] + r.sample(pk[2:], r.randint(1, len(pk) - 2))
        if r.random() < .4:
            r.shuffle(head)
        ls = ["[package]"] + head
        if r.random() < .3:
            ls = ["# The manifest of " + name, ""] + ls
        ls += ["", "[features]", 'default = ["std"]', "std = []", ""]
        deps = ['regex = { workspace = true, optional = true }', 'regex-syntax = { version = "0.8.10" }', 'quote = "1.0.45"', 'syn = { version = "2.0.117", features = ["visit"] }']
        if name == "parse-display":
            deps.append(r.choice(['parse-display-derive = { version = "=%s", path = "../parse-display-derive" }', 'parse-display-derive = { path = "../parse-display-derive", version = "=%s" }', 'parse-display-derive = { version = "=%s", path = "../parse-display-derive", features = ["std"] } # exact']) % self.derive)
        if name == "parse-display-with":
            deps.append(r.choice(['parse-display = { version = "%s", path = "../parse-display", default-features = false }', 'parse-display = { path = "../parse-display", version = "%s" }']) % self.old)
        r.shuffle(deps)
        ls += ["[dependencies]"] + deps
        if r.random() < .4:
            ls += ["", "[dependencies.foo]", 'version = "%s"' % v, 'path = "x"']
        if r.random() < .5:
            ls += ["", "[dev-dependencies]", 'trybuild = "1.0.116"']
        return "\n".join(ls) + "\n"

    def lock(self):
        r = self.r
        names = ["parse-display", "parse-display-derive", "parse-display-with"] + r.sample(["regex", "quote", "syn", "parse-display-benches", "aho", "parse", "xparse-display", "zz"], r.randint(1, 6))
        if r.random() < .7:
            names.sort()
        else:
            r.shuffle(names)
        out = ["# This file is automatically @generated by Cargo.", "version = 4", ""]
        vs = {"parse-display": self.old, "parse-display-derive": self.derive, "parse-display-with": self.wv}
        for n in names:
            out += ["[[package]]", 'name = "%s"' % n, 'version = "%s"' % vs.get(n, r.choice([self.old, "1.0.0", "2.3.4"]))]
            if n not in vs:
                out += ['source = "registry+https://github.com/rust-lang/crates.io-index"', 'checksum = "%x"' % r.getrandbits(64)]
            if r.random() < .5:
                out += ["dependencies = [", ' "parse-display",', ' "%s",' % r.choice(names), "]"]
            out.append("")
        return "\n".join(out[:-1]) + "\n"

    def changelog(self):
        r = self.r
        out = ["# Changelog", ""]
        if r.random() < .3:
            out += [words(r), "", "See [%s] and [unreleased]." % self.old, ""]
        k = r.random()
        cats = list(CATS) if k < .7 else r.sample(CATS, r.randint(1, 6)) if k < .9 else r.sample(CATS, 3) + ["Documentation"]
        if r.random() < .1:
            r.shuffle(cats)
        out += ["## [Unreleased]"] + [""] * r.choice([1, 1, 1, 0, 2])
        self.unrel = []
        dens = r.choice([0, .3, .6, 1])
        for c in cats:
            b = body(r) if r.random() < dens else []
            self.unrel.append((c, b))
            out += ["### " + c] + [""] * r.choice([1, 1, 1, 0, 2]) + b + [""] * (r.choice([1, 1, 1, 2]) if b else r.choice([0, 0, 0, 1]))
        if r.random() < .03:
            self.unrel = []
            out = out[:out.index("## [Unreleased]") + 1] + [""]
        self.prev = self.old
        vs = sorted({self.old} | {ver(r) for _ in range(r.randint(0, 4))}, key=key, reverse=True)
        vs = [self.old] + [v for v in vs if v != self.old]
        self.rels = vs
        for v in vs:
            out += ["## [%s] - 20%02d-%02d-%02d" % (v, r.randint(0, 30), r.randint(1, 12), r.randint(1, 28)), ""]
            for c in r.sample(CATS, r.randint(0, 3)):
                out += ["### " + c, ""] + body(r) + [""]
        k = r.random()
        self.links = k < .85
        if self.links:
            base = "https://github.com/frozenlib/parse-display/compare/"
            out += [r.choice(["[unreleased]: ", "[unreleased]: ", "[Unreleased]: "]) + base + "v%s...HEAD" % self.old]
            for a, b in zip(vs, vs[1:]):
                out += ["[%s]: %sv%s...v%s" % (a, base, b, a)]
        return "\n".join(out).rstrip("\n") + "\n"

    def doc(self, p):
        r = self.r
        out = []
        pre = lambda: r.choice(["/// ", "//! ", "    /// ", "///", ""]) if p.endswith(".rs") else ""
        for _ in range(r.randint(3, 25)):
            k = r.random()
            v = self.old if r.random() < .7 else ver(r)
            if k < .2:
                t = "[dependencies]\nparse-display = \"%s\"" % v
            elif k < .25:
                t = "    parse-display = \"%s\" # and parse-display = \"%s\"" % (v, self.old)
            elif k < .45:
                t = "See [`x`](https://docs.rs/parse-display/%s/parse_display/x.html) and [y](https://docs.rs/parse-display/%s/y)." % (v, self.old)
            elif k < .5:
                t = "https://docs.rs/parse-display-with/%s/x https://docs.rs/parse-display-derive/%s/ parse-display-with = \"%s\" parse-display %s" % (v, v, v, v)
            elif k < .6:
                t = r.choice(["## Deprecated features", "## 非推奨機能", "## Examples", "## Not so old", "### Deprecated", "Deprecated ## x", "##Deprecated", "#### 非推奨"])
            elif k < .7:
                t = ""
            elif k < .75:
                t = "version = \"%s\" v%s %s" % (v, v, v)
            elif k < .8:
                t = "trailing space   \t"
            else:
                t = words(r)
            out += [pre() + x for x in t.split("\n")]
        return "\n".join(out) + "\n"

    def bytes(self):
        out = {p: (t.replace("\n", "\r\n") if p in self.crlf else t).encode() for p, t in self.files.items()}
        out.update(self.raw)
        return out


# ------------------------------------------------------------------ the spec
def sub_first(text, rx, new):
    """replaces group 1 of the first match"""
    m = re.search(rx, text, re.M)
    return text[:m.start(1)] + new + text[m.end(1):]


def spec_files(files, old, version, derive_changed):
    """the files a release of `version` leaves, the changelog apart"""
    out = dict(files)
    m = "parse-display/Cargo.toml"
    setv = lambda t: sub_first(t, r'^version = "([^"]*)"', version)
    out[m] = setv(out[m])
    lock = lambda t, n: re.sub(r'(?m)^(name = "%s"\nversion = ")[^"]*"' % n, r'\g<1>%s"' % version, t)
    out["Cargo.lock"] = lock(out["Cargo.lock"], "parse-display")
    w = "parse-display-with/Cargo.toml"
    out[w] = sub_first(out[w], r'^parse-display = \{.*?version = "([^"]*)"', version)
    if derive_changed:
        out["parse-display-derive/Cargo.toml"] = setv(out["parse-display-derive/Cargo.toml"])
        out[m] = sub_first(out[m], r'^parse-display-derive = \{.*?version = "([^"]*)"', "=" + version)
        out["Cargo.lock"] = lock(out["Cargo.lock"], "parse-display-derive")
    for p, t in files.items():
        parts = p.split("/")
        if not p.endswith((".md", ".rs")) or parts[-1] == "CHANGELOG.md" or {".git", "target", ".codex"} & set(parts[:-1]):
            continue
        dep, ls = False, t.split("\n")
        for i, l in enumerate(ls):
            h = re.match(r"\s*(?:///|//!)?\s*(## .*)", l)
            if h:
                dep = "Deprecated" in h.group(1) or "非推奨" in h.group(1)
            ls[i] = l.replace('parse-display = "%s"' % old, 'parse-display = "%s"' % version)
            if not dep:
                ls[i] = ls[i].replace("docs.rs/parse-display/%s/" % old, "docs.rs/parse-display/%s/" % version)
        out[p] = "\n".join(ls)
    return out


def sections(lines):
    """[(heading, lines)] of a block under ### headings"""
    out = [(None, [])]
    for l in lines:
        if l.startswith("### "):
            out.append((l[4:].strip(), []))
        else:
            out[-1][1].append(l)
    return out


def changelog_errors(before, after, version, date):
    """monitor of the changelog: where the release changed something else than it should"""
    errs = []
    b, a = before.split("\n"), after.split("\n")
    un = b.index("## [Unreleased]")
    nx = next(i for i in range(un + 1, len(b)) if b[i].startswith("## ["))
    prev = re.match(r"## \[(.*?)\]", b[nx]).group(1)
    if a[:un + 1] != b[:un + 1]:
        errs.append("lines before Unreleased changed")
        return errs
    head = "## [%s] - %s" % (version, date)
    if a.count(head) != 1:
        return ["%d headings %r" % (a.count(head), head)]
    at = a.index(head)
    if at < un:
        return ["the new section is not under Unreleased"]
    cats = sections(b[un + 1:nx])[1:]
    new = sections(a[un + 1:at])
    want = [c for c, _ in cats] + [c for c in CATS if c not in [c for c, _ in cats]]
    if any(l.strip() for _, ls in new for l in ls):
        errs.append("something is left under Unreleased")
    if [c for c, _ in new[1:]] != want:
        errs.append("categories under Unreleased: %s, not %s" % ([c for c, _ in new[1:]], want))
    # the rest: the new section, then the old lines with the links updated
    end = next((i for i in range(at + 1, len(a)) if a[i].startswith("## [")), None)
    if end is None:
        return errs + ["the previous releases are gone"]
    sec = sections(a[at + 1:end])
    if any(l.strip() for l in sec[0][1]):
        errs.append("text before the first category: %r" % sec[0][1])
    got = [(c, trim(ls)) for c, ls in sec[1:]]
    exp = [(c, trim(ls)) for c, ls in cats if trim(ls)]
    if got != exp:
        errs.append("the new section has %r instead of %r" % (got, exp))
    for i, l in enumerate(a[at:end]):
        if l.startswith("##") and not l.startswith("####") and (a[at + i - 1].strip() or a[at + i + 1].strip()):
            errs.append("no blank line around %r" % l)
    rest = list(b[nx:])
    base = "https://github.com/frozenlib/parse-display/compare/"
    link = ["[unreleased]: %sv%s...HEAD" % (base, version), "[%s]: %sv%s...v%s" % (version, base, prev, version)]
    idx = next((i for i, l in enumerate(rest) if l.lower().startswith("[unreleased]:")), None)
    if idx is None:
        rest = trim(rest) + link
    else:
        rest[idx:idx + 1] = link
    if trim(a[end:]) != trim(rest):
        d = next(i for i, (x, y) in enumerate(zip(a[end:] + [None] * len(rest), rest + [None])) if x != y)
        errs.append("after the new section, line %d: %r instead of %r" % (d, (a[end:] + [None] * (d + 1))[d], (rest + [None] * (d + 1))[d]))
    return errs


# ------------------------------------------------------------------- running
class Box:
    def __init__(self, base, name, exe):
        self.top = os.path.join(base, name)
        self.root = os.path.join(self.top, "repo")
        self.exe = exe
        os.makedirs(self.root)
        self.bin = os.path.join(self.top, "bin")
        os.makedirs(self.bin)
        self.git_exe = shutil.which("git")
        os.symlink(self.git_exe, os.path.join(self.bin, "git"))
        self.own(self.top, self.root, self.bin)

    def own(self, *ps):
        for p in ps:
            os.chown(p, UID, UID, follow_symlinks=False)

    def run(self, cmd, cwd=None):
        e = dict(PATH=self.bin, HOME=self.top, LANG="C.UTF-8", GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
                 GIT_CEILING_DIRECTORIES=self.top)
        return subprocess.run(cmd, cwd=cwd or self.root, env=e, user=UID, group=UID, extra_groups=[], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)

    def git(self, *args):
        r = self.run([self.git_exe, "-c", "core.autocrlf=false", "-c", "init.defaultBranch=m", "-c", "gc.auto=0"] + list(args))
        if r.returncode:
            raise Inconclusive("git %s: %s" % (args, r.stderr.decode()))

    def powershell(self, kind, date):
        p = os.path.join(self.bin, "powershell")
        if os.path.exists(p):
            os.remove(p)
        if kind == "missing":
            return
        with open(p, "w") as f:
            f.write("#!/bin/sh\n" + ("exit 3\n" if kind == "fails" else "printf '%s\\r\\n'\n" % date))
        os.chmod(p, 0o755)

    def put(self, p, data):
        q = os.path.join(self.root, p)
        d = os.path.dirname(q)
        if not os.path.isdir(d):
            os.makedirs(d)
            while d != self.root:
                self.own(d)
                d = os.path.dirname(d)
        with open(q, "wb") as f:
            f.write(data)
        self.own(q)

    def remove(self, p):
        os.remove(os.path.join(self.root, p))

    def state(self):
        out = {}
        for d, dirs, fs in os.walk(self.root):
            dirs[:] = [x for x in dirs if not (x == ".git" and d == self.root)]
            for f in fs:
                q = os.path.join(d, f)
                with open(q, "rb") as fh:
                    out[os.path.relpath(q, self.root)] = fh.read()
        return out


MSGS = ["Add x.", "Fix y", "Version 1.2", "Version 1.2.3", "Bump to Version 1.2.3.", "version 1.2.3.", "Version 1.2.3.4.", "Version x.y.z.", "Version 1.2.3 ."]


def history(box, r, repo):
    """commits with known effect; tells whether parse-display-derive changed since the last version commit"""
    box.git("init", "-q")
    D = "parse-display-derive/src/lib.rs"
    orig = repo.bytes()[D]
    cur, at = orig, None

    def commit(msg, derive=None, other=False):
        nonlocal cur
        if derive is not None:
            cur = derive
            box.put(D, cur)
        if other:
            box.put("parse-display/src/other.txt", b"%d" % r.getrandbits(60))
        box.git("add", "-A")
        box.git("commit", "-q", "--allow-empty", "-m", msg)
    box.put(".gitignore", b"target\nignored*\n" if r.random() < .7 else b"target\r\nignored*\r\n".replace(b"\r", b""))
    with_version = r.random() < .85
    n = r.randint(0, 4)
    vat = r.randint(0, n) if with_version else None
    for i in range(n + 1):
        d = None
        if i and r.random() < .4:
            d = orig if r.random() < .3 else orig + b"// %d\n" % r.randint(0, 3)
        commit(r.choice(["Version %s." % repo.old, "Version 0.10.12."]) if i == vat else r.choice(MSGS), d, r.random() < .6)
        if i == vat:
            at = cur
    box.put(D, orig)        # the files of the model
    changed = at is None or cur != at
    if cur != orig:
        changed = True      # not committed
    k = r.random()
    if k < .1:
        box.put("parse-display-derive/new.txt", b"x")
        changed = True
    elif k < .2:
        box.put("parse-display-derive/ignored.txt", b"x")
    elif k < .3:
        box.put("parse-display-derivex.txt", b"x")
    elif k < .35:
        box.put("parse-display-derive/new2.txt", b"x")
        box.git("add", "-A")
        changed = True
    return changed


FAULTS = ["bad version", "second version", "exists", "exists bare", "no unreleased", "no release", "stray text", "no lock", "lock without package", "manifest without version", "no date", "date fails", "no git repository", "document not UTF-8",
          "changelog not UTF-8", "derive: lock without package", "derive: no dependency", "derive: dependency without version", "derive: manifest without version", "outside", "no manifest", "with: no dependency"]


def inject(box, r, repo, fault, version, st):
    """breaks a precondition; arguments, working directory"""
    args, cwd = [version], None
    ed = lambda p, f: box.put(p, f(st[p].decode()).encode())
    if fault == "bad version":
        args = [r.choice(["1.2", "1.2.3.4", "v1.2.3", "1.2.x", "", "1..2", "1.2.3-rc1", " 1.2.3", "--version", "1.2.", "1,2,3", "99999999999999999999999.0.0", "１.0.0", "+1.0.0", "-1.0.0"])]
    elif fault == "second version":
        args = [version, r.choice(["1.2.3", "x"])]
    elif fault in ("exists", "exists bare"):
        v = r.choice(repo.rels) if fault == "exists" else version
        if fault == "exists bare":
            ed("CHANGELOG.md", lambda t: t + ("\r\n" if "\r\n" in t else "\n") + "## [%s]" % v + ("\r\n" if "\r\n" in t else "\n"))
        args = [v]
    elif fault == "no unreleased":
        ed("CHANGELOG.md", lambda t: t.replace("## [Unreleased]", r.choice(["## Unreleased", "## [unreleased]", "### [Unreleased]"])))
    elif fault == "no release":
        ed("CHANGELOG.md", lambda t: t[:t.index("## [%s]" % repo.old)] + "end\n")
    elif fault == "stray text":
        ed("CHANGELOG.md", lambda t: t.replace("## [Unreleased]", "## [Unreleased]\n\nSome text.", 1) if "\r" not in t else t.replace("## [Unreleased]", "## [Unreleased]\r\n- stray", 1))
    elif fault == "no lock":
        box.remove("Cargo.lock")
    elif fault == "lock without package":
        ed("Cargo.lock", lambda t: t.replace('name = "parse-display"', 'name = "parse-displays"'))
    elif fault == "manifest without version":
        ed("parse-display/Cargo.toml", lambda t: re.sub(r'(?m)^version = ', "vers = ", t))
    elif fault == "no manifest":
        box.remove("parse-display/Cargo.toml")
    elif fault == "no date":
        box.powershell("missing", "")
    elif fault == "date fails":
        box.powershell("fails", "")
    elif fault == "no git repository":
        shutil.rmtree(os.path.join(box.root, ".git"))
    elif fault == "document not UTF-8":
        box.put(r.choice(["README.md", "zz/last.md", "parse-display/src/lib.rs"]), b"a\xff\n")
    elif fault == "changelog not UTF-8":
        box.put("CHANGELOG.md", st["CHANGELOG.md"] + b"\xff\n")
    elif fault == "derive: lock without package":
        ed("Cargo.lock", lambda t: t.replace('name = "parse-display-derive"', 'name = "parse-displays"'))
    elif fault == "derive: no dependency":
        ed("parse-display/Cargo.toml", lambda t: t.replace("parse-display-derive = {", "parse-display-derived = {"))
    elif fault == "derive: dependency without version":
        ed("parse-display/Cargo.toml", lambda t: re.sub(r"(?m)^parse-display-derive = \{.*?\}", 'parse-display-derive = { path = "../parse-display-derive" }', t))
    elif fault == "derive: manifest without version":
        ed("parse-display-derive/Cargo.toml", lambda t: re.sub(r'(?m)^version = ', "vers = ", t))
    elif fault == "with: no dependency":
        ed("parse-display-with/Cargo.toml", lambda t: t.replace("parse-display = {", "parse-displays = {"))
    elif fault == "outside":
        cwd = os.path.join(box.top, "elsewhere")
        os.makedirs(cwd)
        box.own(cwd)
    return args, cwd


def show(st):
    return "\n".join("===== %s\n%s" % (p, b.decode("utf8", "replace")) for p, b in sorted(st.items()))


def diff(before, after):
    out = []
    for p in sorted(set(before) | set(after)):
        b, a = before.get(p), after.get(p)
        if a == b:
            continue
        if a is None or b is None:
            out.append("%s %s" % (p, "removed" if a is None else "created"))
            continue
        bl, al = b.split(b"\n"), a.split(b"\n")
        i = next((i for i, (x, y) in enumerate(zip(bl + [None], al + [None])) if x != y), -1)
        out.append("%s line %d: %r became %r" % (p, i + 1, (bl + [b"(end)"])[i], (al + [b"(end)"])[i]))
    return out


def case(args):
    base, exe, cid, seed = args
    r = random.Random(seed)
    obs, found, keys = {}, [], []

    def count(k):
        obs[k] = obs.get(k, 0) + 1
    repo = Repo(r)
    box = Box(base, cid, exe)
    for p, d in repo.bytes().items():
        box.put(p, d)
    changed = history(box, r, repo)
    fault = r.choice(FAULTS) if r.random() < .45 else None
    if fault and fault.startswith("derive:") and not changed:
        box.put("parse-display-derive/new3.txt", b"y")
        changed = True
    dirs = [""] + [os.path.dirname(p) for p in repo.files if "/" in p]
    steps = [None] if fault else ["list"] * (r.random() < .4) + ["dry"] * (r.random() < .7) + ["real"] * r.choice([0, 1, 1, 1, 2])
    files = dict(repo.files)
    old = repo.old
    for step in steps or ["dry"]:
        date = "20%02d-%02d-%02d" % (r.randint(0, 99), r.randint(1, 12), r.randint(1, 28))
        box.powershell("ok", date)
        taken = set(re.findall(r"## \[(\d+\.\d+\.\d+)\]", files["CHANGELOG.md"]))
        major, minor, patch = key(old)
        while True:
            version = r.choice(["%d.%d.%d" % (major, minor, patch + 1), "%d.%d.0" % (major, minor + 1), "%d.0.0" % (major + 1), ver(r)])
            if version not in taken and version != old:
                break
        st = box.state()
        cwd = os.path.join(box.root, r.choice(dirs))
        if fault:
            argv, elsewhere = inject(box, r, repo, fault, version, st)
            cwd = elsewhere or (box.root if fault == "no manifest" else cwd)
            if not os.path.isdir(cwd):
                cwd = box.root
            if r.random() < .25:
                argv.insert(r.randint(0, len(argv)), "--dry-run")
        else:
            argv = [] if step == "list" else ["--dry-run", version] if step == "dry" and r.random() < .7 else [version, "--dry-run"] if step == "dry" else [version]
            if step == "list" and r.random() < .3:
                argv = ["--dry-run"]
        before = box.state()
        p = box.run([box.exe] + argv, cwd)
        after = box.state()
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        keys.append(hashlib.sha1(repr((sorted(before.items()), argv, fault)).encode()).hexdigest())
        what = fault and "fault: " + fault or step
        count(what)
        count("files compared") if False else None
        obs["files compared"] = obs.get("files compared", 0) + len(set(before) | set(after))

        def bad(kind, detail):
            found.append(dict(case=cid, kind=kind, detail="arguments %r, %s, derive changed %s, exit status %s\n%s\nstdout:\n%s\nstderr:\n%s" % (argv, what, changed, p.returncode, detail, out[-1500:], err[-800:]), source=show(before)[:60000]))
        if p.returncode not in (0, 1):
            bad("died", "exit status")
            break
        if fault:
            if p.returncode == 0:
                bad("no error", "a failed precondition is not reported")
            elif not err.strip():
                bad("silent", "no error message")
            if diff(before, after):
                bad("files changed by a failed run", "\n".join(diff(before, after)))
            break
        if p.returncode != 0:
            bad("fails", "a release that should succeed fails")
            break
        if step == "list":
            if diff(before, after):
                bad("files changed", "\n".join(diff(before, after)))
            want = ["%d.%d.%d" % (major, minor, patch + 1), "%d.%d.0" % (major, minor + 1), "%d.0.0" % (major + 1)]
            got = [next(iter(re.findall(r"(?m)^- %s: (\S+)$" % k, out)), None) for k in ("patch", "minor", "major")]
            if got != want or old not in out:
                bad("candidates", "candidates %s instead of %s" % (got, want))
            break_ = None
            cats = {c for c, b in sections(files["CHANGELOG.md"].split("\n")[files["CHANGELOG.md"].split("\n").index("## [Unreleased]") + 1:next(i for i, l in enumerate(files["CHANGELOG.md"].split("\n")) if re.match(r"## \[\d", l))])[1:] if trim(b)}
            rec = re.findall(r"(?m)^Recommended.*: (\S+)$", out)
            exp = want[1] if cats & {"Added", "Changed", "Deprecated", "Removed"} else want[0] if cats & {"Fixed", "Performance", "Security"} else want[1]
            if rec != [exp]:
                bad("candidates", "recommends %s instead of %s" % (rec, exp))
            continue
        want = spec_files(files, old, version, changed)
        announced = set(re.findall(r"(?m)^(\S+/?\S*\.(?:md|rs|toml|lock))$", out))
        expected = {q for q in want if want[q] != files[q]} | {"CHANGELOG.md"}
        if announced != expected:
            bad("announced", "announces %s\nbut the release changes %s" % (sorted(announced - expected), sorted(expected - announced)))
        m = re.search(r"parse-display-derive changed since.*: (true|false)", out)
        if not m or (m.group(1) == "true") != changed:
            bad("announced", "says parse-display-derive changed: %s" % (m and m.group(1)))
        if step == "dry":
            if diff(before, after):
                bad("a dry run changed files", "\n".join(diff(before, after)))
            count("dry: derive %s" % ("changed" if changed else "unchanged"))
            continue
        count("real: derive %s" % ("changed" if changed else "unchanged"))
        exp = dict(before)
        for q in want:
            exp[q] = (want[q].replace("\n", "\r\n") if q in repo.crlf else want[q]).encode()
        got_log = after.get("CHANGELOG.md", b"")
        exp["CHANGELOG.md"] = got_log
        if diff(exp, after):
            bad("files", "expected against found:\n" + "\n".join(diff(exp, after)))
            break
        t = got_log.decode()
        if "CHANGELOG.md" in repo.crlf:
            count("changelog with CRLF")
            if t.count("\r\n") != t.count("\n"):
                bad("changelog", "line ends changed")
                break
            t = t.replace("\r\n", "\n")
        errs = changelog_errors(files["CHANGELOG.md"], t, version, date)
        if errs:
            bad("changelog", "\n".join(errs) + "\n----- after\n" + t[:6000])
            break
        files = dict(want)
        files["CHANGELOG.md"] = t
        old = version
        # the release is committed; the next one follows
        box.git("add", "-A")
        box.git("commit", "-q", "-m", "Version %s." % version)
        changed = False
        if r.random() < .6:
            box.put("parse-display-derive/n%d.txt" % r.randint(0, 99), b"%d" % r.getrandbits(50))
            changed = True
        count("release")
        # the same version again
        if r.random() < .4:
            b2 = box.state()
            p = box.run([box.exe, version])
            if p.returncode != 1 or diff(b2, box.state()):
                bad("again", "releasing %s again: exit status %s, %s" % (version, p.returncode, diff(b2, box.state())))
            count("same version again")
    sample = "%s: %s, version %s, derive changed %s, fault %s" % (cid, steps, repo.old, changed, fault)
    shutil.rmtree(box.top)
    return obs, found, keys, sample


def real_tree(res, base, exe):
    """a copy of the repository itself, released: cargo must still resolve the workspace from it"""
    box = Box(base, "real", exe)
    shutil.rmtree(box.root)
    shutil.copytree(REPO, box.root, ignore=shutil.ignore_patterns("target", ".git"))
    for d, _, fs in os.walk(box.root):
        box.own(d, *[os.path.join(d, f) for f in fs])
    box.git("init", "-q")
    box.git("add", "-A")
    box.git("commit", "-q", "-m", "Version 0.0.1.")
    box.powershell("ok", "2030-01-02")
    cur = re.search(r'(?m)^version = "(\d+)\.(\d+)\.(\d+)"', open(os.path.join(box.root, "parse-display/Cargo.toml")).read())
    a, b, c = (int(x) for x in cur.groups())

    def resolve():
        r = subprocess.run(["cargo", "metadata", "--offline", "--locked", "--format-version", "1"], cwd=box.root, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        return r.returncode == 0, r.stderr.decode("utf8", "replace")[-1500:], r.stdout
    # the lock file of the working tree may be stale: make it current first
    subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=box.root, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    if not resolve()[0]:
        res.extra["real tree"] = "does not resolve offline before"
        return
    n = 0
    for k, (v, touch) in enumerate([("%d.%d.%d" % (a, b, c + 1), False), ("%d.%d.0" % (a, b + 1), True), ("%d.%d.0" % (a, b + 2), False), ("%d.0.0" % (a + 1), True), ("%d.0.1" % (a + 1), True)]):
        if touch:
            box.put("parse-display-derive/src/touched%d.txt" % k, b"x")
        p = box.run([box.exe, v])
        ok, err, meta = resolve()
        if p.returncode or not ok:
            res.violation("real", "workspace", "after releasing %s (parse-display-derive %s) from a copy of the repository: exit status %s\n%s\n%s" % (v, "changed" if touch else "unchanged", p.returncode, p.stderr.decode()[-500:], err))
            break
        pk = {x["name"]: x for x in json.loads(meta)["packages"]}
        if pk["parse-display"]["version"] != v or (pk["parse-display-derive"]["version"] == v) != touch:
            res.violation("real", "workspace", "after releasing %s cargo sees %s" % (v, {n: pk[n]["version"] for n in pk if n.startswith("parse-display")}))
            break
        box.git("add", "-A")
        box.git("commit", "-q", "-m", "Version %s." % v)
        n += 1
        res.evals += 1
        res.distinct += 1
    res.bins["releases of the real tree that cargo resolves"] = n
    shutil.rmtree(box.top)


def main(prop, only=None):
    res = Result(prop)
    base = tempfile.mkdtemp(prefix="vrt-c24-")
    try:
        os.chmod(base, 0o755)
        exe = build(base)
        try:
            subprocess.run(["/bin/true"], user=UID, group=UID, extra_groups=[])
        except OSError as e:
            raise Inconclusive("cannot run as another user: %s" % e)
        n = (6000 if THOROUGH else 800)
        jobs = [(base, exe, "r%d" % i, "c24-%d-%d" % (SEED, i)) for i in range(n)]
        if only:
            jobs = [j for j in jobs if j[2] == only]
        keys = set()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for obs, found, ks, sample in ex.map(case, jobs):
                res.cases += 1
                res.evals += len(ks)
                keys.update(ks)
                for k, v in obs.items():
                    res.bins[k] = res.bins.get(k, 0) + v
                res.found += found
                if len(res.samples) < 8:
                    res.samples.append(sample)
        res.distinct += len(keys)
        if not only or only == "real":
            real_tree(res, base, exe)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return finish(res, RULE, ["the user nobody may be assumed"], level="fault_enumeration", min_evals=1 if only else 700)
