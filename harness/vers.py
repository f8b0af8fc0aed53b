"""Scenarios of the version properties: real projects under git in scratch directories.

Every directory is made below a fresh temporary directory and removed with it;
the code under test is a copy of /repo's working tree.
"""
import datetime
import glob
import hashlib
import importlib.util
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tarfile
import tempfile
import warnings
import zipfile
import zipimport

import numpy as np

REPO = "/repo"
SRCV = "src/kalmankit/_version.py"
TAGS = ["v1.0", "v1.0rc1", "v0.9.1", "v10.2", "v2.0+local", "vx", "release-3", "1.0", "v1.2.post3", "v3-rc-1"]
ODD = ["v1.0-dirty", "v1.0-dirty.2", "v2.0+ubuntu.1", "v2.0+a", "v1-2-gabcdef0", "v1.0.post12", "v1.0.post0", "v20.1", "v2024.11.3",
       "v1.0.dev4", "v0", "v1.0-beta-2", "v-1.0", "vv1", "V3.0", "dev-v1.0", "v1_2", "v1.0.post", "v3a", "va1", "v.1", "v1.0-5-gdirty", "v007", "v1.0-é", "v3.0größe", "v1.0rc10", "v1.0+a.b", "v1.0,x", "v1.0(a)", "v2.0/x"]
# what setuptools accepts as it stands
BUILDABLE = ["v1.0", "v1.0rc1", "v0.9.1", "v10.2", "v2.0+local", "vx", "release-3", "1.0", "v1.2.post3", "v2.0+ubuntu.1", "v2.0+a",
             "v1.0.post12", "v1.0.post0", "v20.1", "v2024.11.3", "v1.0.dev4", "v0", "v-1.0", "vv1", "V3.0", "dev-v1.0", "va1", "v.1", "v3a1"]
STYLES = ["pep440", "pep440-branch", "pep440-pre", "pep440-post", "pep440-post-branch", "pep440-old", "git-describe",
          "git-describe-long"]
PY = sys.executable
IGNORE = shutil.ignore_patterns(".git", "__pycache__", "*.egg-info", "build", "dist", ".pytest_cache", "docs", "img", "*.png", "*.ipynb",
                                "examples", "tests")


class VCase:
    def __init__(self, tag):
        self.tag, self.events, self.log = tag, [], []

    def ev(self, **e):
        self.events.append(e)

    def encode(self):
        return {"events": self.events}


def report(call):
    """Calls and turns a version dictionary into a report of the specification."""
    try:
        d = call()
        dash = lambda v: "-" if v is None else str(v)
        return {"version": str(d["version"]), "full": dash(d["full-revisionid"]),
                "dirty": {True: "T", False: "F", None: "-"}.get(d["dirty"], "bad"), "error": "F" if d["error"] is None else "T",
                "date": dash(d.get("date")), "raised": ""}
    except BaseException as ex:
        return {"version": "", "full": "?", "dirty": "?", "error": "?", "date": "?", "raised": type(ex).__name__ + " " + str(ex)[:80]}


def only_version(call):
    try:
        return {"version": call(), "full": "?", "dirty": "?", "error": "?", "date": "?", "raised": ""}
    except BaseException as ex:
        return {"version": "", "full": "?", "dirty": "?", "error": "?", "date": "?", "raised": type(ex).__name__}


_count = 0


def load(path):
    """A fresh module object of a file; nothing is left in sys.modules."""
    global _count
    _count += 1
    spec = importlib.util.spec_from_file_location("scratch_module_%d" % _count, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.modules.pop(spec.name, None)
    return mod


def digest(path):
    try:
        return hashlib.sha256(open(path, "rb").read()).hexdigest()[:16]
    except OSError:
        return "missing"


GONE = "gone"


class env:
    """Environment variables and working directory for a while; output is dropped."""

    def __init__(self, cwd=None, **kw):
        self.cwd, self.kw = cwd, kw

    def __enter__(self):
        self.old, self.oldcwd = dict(os.environ), os.getcwd()
        os.environ.update({k: v for k, v in self.kw.items() if v is not None})
        for k, v in self.kw.items():
            if v is None:
                os.environ.pop(k, None)
        if self.cwd == GONE:            # a working directory that was removed
            d = tempfile.mkdtemp(prefix="verif-gone-")
            os.chdir(d)
            os.rmdir(d)
        elif self.cwd:
            os.chdir(self.cwd)
        self.fd, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        self.out = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *_):
        sys.stdout.close()
        sys.stdout = self.out
        os.dup2(self.fd, 2)
        os.close(self.fd)
        os.chdir(self.oldcwd)
        os.environ.clear()
        os.environ.update(self.old)


def sh(args, cwd, **e):
    p = subprocess.run(args, cwd=cwd, env=dict(os.environ, **e), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace",
                       timeout=120)
    if p.returncode:
        raise RuntimeError("%s failed in the scratch repository" % args[:3])
    return p.stdout.strip()


def sources(dst):
    shutil.copytree(REPO, dst, ignore=IGNORE, symlinks=True)


def module_report(root, **e):
    with env(**e):
        return report(lambda: load(os.path.join(root, SRCV)).get_versions())


def versioneer_report(root, **e):
    with env(cwd=root, **e):
        return report(lambda: load(os.path.join(root, "versioneer.py")).get_versions())


def import_report(src, cwd="/", **e):
    """The version that importing the package from src gives, in a process of its own."""
    ev = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1")
    ev.update(e)
    code = "import kalmankit; kalmankit.KalmanFilter, kalmankit.ExtendedKalmanFilter, kalmankit.utils; print(kalmankit.__version__)"

    def call():
        p = subprocess.run([PY, "-S", "-B", "-c", "import sys; sys.path[1:1] = %r\n" % [q for q in sys.path if "site-packages" in q] + code],
                           cwd=cwd, env=ev, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
        if p.returncode:
            raise RuntimeError("import failed")
        return p.stdout.strip().splitlines()[-1]
    return only_version(call)


def setup_py(root, *args, **e):
    ev = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    ev.update(e)
    ev.update(BUILD_ENV)
    p = subprocess.run([PY, "-B", "setup.py", *args], cwd=root, env=ev, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                       timeout=240)
    if p.returncode:
        raise RuntimeError("setup.py %s failed" % args[0])
    return p.stdout.strip()


BUILD_ENV = {}          # set per history: what a builder's environment may hold


def setup_report(root):
    return only_version(lambda: setup_py(root, "--version").splitlines()[-1])


def template_of(root, dst):
    """The version file versioneer would install, written below dst."""
    v = load(os.path.join(root, "versioneer.py"))
    path = os.path.join(dst, SRCV)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        fh.write(v.LONG_VERSION_PY["git"] % {"DOLLAR": "$", "STYLE": "pep440", "TAG_PREFIX": "v", "PARENTDIR_PREFIX": "kalmankit-",
                                              "VERSIONFILE_SOURCE": SRCV})
    return path


# ---------------------------------------------------------------- the project
class Project:
    def __init__(self, base, rng, cs, branch="main", name=None, sub=""):
        """sub: the project is in this directory of a larger repository."""
        self.base, self.rng, self.cs, self.sub = base, rng, cs, sub
        self.top = os.path.join(base, name or "checkout")
        self.root = os.path.join(self.top, sub) if sub else self.top
        sources(self.root)
        self.hashes, self.arts, self.clock = [], [], 1_600_000_000 + int(rng.integers(10 ** 7))
        sh(["git", "init", "-q", "-b", branch, "--template=", "."], self.top)
        if sub:
            open(os.path.join(self.top, "README.md"), "w").write("# larger\n")
        sh(["git", "add", "-A"], self.top)
        self.commit("start", ["commit", "-q", "-m", "start"], name=shown(branch))

    def git(self, *a, **e):
        return sh(["git", *a], self.root, **e)

    def tick(self):
        """The date of the next commit."""
        self.clock += int(self.rng.integers(60, 10 ** 6))
        tz = str(self.rng.choice(["+0000", "+0100", "-0730", "+0545"]))
        off = (1 if tz[0] == "+" else -1) * (int(tz[1:3]) * 60 + int(tz[3:]))
        d = datetime.datetime.fromtimestamp(self.clock, datetime.timezone(datetime.timedelta(minutes=off)))
        e = {"GIT_COMMITTER_DATE": "%d %s" % (self.clock, tz), "GIT_AUTHOR_DATE": "%d +0300" % (self.clock - 86401)}
        return e, d.strftime("%Y-%m-%dT%H:%M:%S") + tz

    def commit(self, op, args, **ev):
        e, date = self.tick()
        self.git(*args, **e)
        self.hashes.append(self.git("rev-parse", "HEAD"))
        self.cs.ev(op=op, full=self.hashes[-1], date=date, **ev)

    def do(self, o):
        """One operation of the specification; False when it does not apply."""
        op, name, cs, rng = o["op"], o.get("name", ""), self.cs, self.rng
        said = shown(name)
        if op == "commit":
            f = "c%d.txt" % len(self.hashes)
            open(os.path.join(self.root, f), "w").write(f)
            self.git("add", f)
            self.commit("commit", ["commit", "-q", "-m", "more", "--", f])
        elif op == "commits":
            e, date = self.tick()
            fulls = []
            for _ in range(o["c"]):
                at = self.git("commit-tree", "HEAD^{tree}", "-p", fulls[-1] if fulls else "HEAD", "-m", "m%d" % len(fulls), **e)
                fulls.append(at)
            self.git("reset", "-q", "--soft", fulls[-1])
            self.hashes += fulls
            cs.ev(op="commits", fulls=fulls, date=date)
        elif op == "abbrev":
            self.git("config", "core.abbrev", str(o["c"]))
            cs.ev(op="abbrev", c=o["c"])
        elif op == "merge":
            self.commit("merge", ["merge", "-q", "--no-ff", "-m", "merge", name], name=said)
        elif op == "tag":
            # several tags on a commit, lightweight and annotated
            self.git("tag", *(["-a", "-m", "t"] if rng.random() < .5 else []), name, GIT_COMMITTER_DATE="%d +0000" % self.clock)
            cs.ev(op="tag", name=name)
        elif op == "untag":
            self.git("tag", "-d", name)
            cs.ev(op="untag", name=name)
        elif op == "branch":
            self.git("checkout", "-q", "-b", name)
            cs.ev(op="branch", name=said)
        elif op == "switch":
            self.git("checkout", "-q", name)
            cs.ev(op="switch", name=said)
        elif op == "detach":
            self.git("checkout", "-q", "--detach", self.hashes[o["c"] - 1])
            cs.ev(op="detach", c=o["c"])
        elif op == "edit":
            kind = str(rng.choice(["append", "stage", "new", "remove", "mode", "version-file", "stage-deletion", "part"]))
            readme = os.path.join(self.root if rng.random() < .5 else self.top, "README.md")
            if kind == "version-file":
                readme = os.path.join(self.root, "src/kalmankit/standard.py")
            if kind in ("append", "stage", "version-file"):
                open(readme, "a").write("\n# more\n")
            if kind == "stage":
                self.git("add", readme)
            if kind == "new":
                open(os.path.join(self.root, "staged.txt"), "w").write("x")
                self.git("add", "staged.txt")
            if kind == "remove":
                os.unlink(os.path.join(self.root, "CHANGELOG.md"))
            if kind == "stage-deletion":
                self.git("rm", "-q", "CHANGELOG.md")
            if kind == "part":                       # one change staged, another not
                open(readme, "a").write("\n# more\n")
                self.git("add", readme)
                open(readme, "a").write("\n# and more\n")
            if kind == "mode":
                os.chmod(readme, 0o755)
            cs.log.append("edit:" + kind)
            cs.ev(op="edit")
        elif op == "discard":
            self.git("reset", "-q", "--hard")
            cs.ev(op="discard")
        elif op == "untracked":
            if rng.random() < .5:
                os.utime(os.path.join(self.root, "README.md"))
            else:
                open(os.path.join(self.root, "junk%d.txt" % len(cs.events)), "w").write("x")
            cs.ev(op="untracked")
        elif op == "build":
            self.build()
        elif op == "archive":
            d = self.fresh("archive")
            with tempfile.NamedTemporaryFile(dir=self.base, suffix=".tar") as t:
                self.git("archive", "--prefix=%s/" % os.path.basename(d), "-o", t.name, "HEAD")
                with tarfile.open(t.name) as tf:
                    tf.extractall(os.path.dirname(d), filter="tar")
            self.arts.append(("source", d))
            cs.ev(op="archive")
        elif op == "rebuild":
            kind, d = self.arts[o["c"] - 1]
            new = self.fresh("re")
            if kind == "source":
                self.from_source(d, new, source_must_stay=True)
            else:
                shutil.copytree(d, new, symlinks=True)
                self.arts.append((kind, new))
            cs.ev(op="rebuild", c=o["c"])
        else:
            raise ValueError(op)

    def fresh(self, kind):
        """A new place, perhaps one that invites wrong conclusions about the version."""
        where = str(self.rng.choice(["plain", "parentdir", "foreign-git", "inside"]))
        d = os.path.join(self.base, "%s%d" % (kind, len(self.cs.events)))
        if where == "parentdir":
            d = os.path.join(d, "kalmankit-9.9", "x")
        elif where == "foreign-git":
            os.makedirs(d)
            sh(["git", "init", "-q", "-b", "main", "--template=", "."], d)
            sh(["git", "commit", "-q", "--allow-empty", "-m", "x"], d)
            sh(["git", "tag", "v7.7"], d)
            d = os.path.join(d, "sub")
        elif where == "inside":
            d = os.path.join(self.root, "build", "%s%d" % (kind, len(self.cs.events)))
        os.makedirs(os.path.dirname(d), exist_ok=True)
        return d

    def from_source(self, root, new, source_must_stay):
        """Builds from the tree root into new; appends the artefact."""
        before = digest(os.path.join(root, SRCV))
        how = str(self.rng.choice(["build_py", "sdist", "wheel", "build"]))
        self.cs.log.append("build:" + how)
        os.makedirs(new)
        try:
            if how == "build_py":
                setup_py(root, "-q", "build_py", "-d", new)
                self.arts.append(("lib", new))
            elif how == "build":
                setup_py(root, "-q", "build", "--build-base", new + ".b")
                self.arts.append(("lib", os.path.join(new + ".b", "lib")))
            elif how == "wheel":
                setup_py(root, "-q", "bdist_wheel", "-d", new + ".w", "-b", new + ".b")
                with zipfile.ZipFile(glob.glob(new + ".w/*.whl")[0]) as z:
                    z.extractall(new)
                self.arts.append(("lib", new))
            else:
                setup_py(root, "-q", "sdist", "-d", new + ".s")
                with tarfile.open(glob.glob(new + ".s/*.tar.gz")[0]) as tf:
                    tf.extractall(new, filter="tar")
                d = os.path.join(new, os.listdir(new)[0])
                if self.rng.random() < .5:
                    os.rename(d, os.path.join(new, "renamed"))
                    d = os.path.join(new, "renamed")
                self.arts.append(("source", d))
        except Exception as ex:
            self.cs.log.append("build failed: %r" % ex)
            self.arts.append(("none", new))
        self.cs.ev(op="same", name="version-file-untouched", a=before, b=digest(os.path.join(root, SRCV)))

    def build(self):
        self.from_source(self.root, self.fresh("built"), True)
        self.cs.ev(op="build")

    # -- observations
    def obs(self, who, out, style="pep440"):
        self.cs.ev(op="obs", who=who, style=style, out=out)

    def environment(self):
        """Variables that must not matter."""
        kind = str(self.rng.choice(["none", "none", "gitdir", "gitdir-relative", "gitdir-missing", "lang"]))
        if kind in ("gitdir", "gitdir-relative"):
            other = os.path.join(self.base, "other")
            if not os.path.isdir(other):
                os.makedirs(other)
                sh(["git", "init", "-q", "-b", "main", "--template=", "."], other)
                sh(["git", "commit", "-q", "--allow-empty", "-m", "x"], other)
                sh(["git", "tag", "v8.8"], other)
            return {"GIT_DIR": os.path.join(other, ".git") if kind == "gitdir" else os.path.join("..", "other", ".git")}
        if kind == "gitdir-missing":
            return {"GIT_DIR": os.path.join(self.base, "nowhere")}
        if kind == "lang":
            return {"LANG": "de_DE.UTF-8", "LANGUAGE": "de"}
        return {}

    def observe(self, packaging=False):
        """Versions of the checkout as it is now."""
        e = self.environment()
        root = linked(self.root, self.base, str(self.rng.choice(["", "", "root", "src", "package"])))
        self.obs("module", module_report(root, cwd=str(self.rng.choice([self.base, root, "/", GONE])), **e))
        if packaging:
            self.obs("versioneer", versioneer_report(self.root, **e))
        return e

    def observe_more(self, packaging=False, buildable=False):
        """Slower observations: processes of their own, other working trees."""
        self.obs("import", import_report(os.path.join(self.root, "src"), **self.environment()))
        if buildable:
            self.obs("setup.py", setup_report(self.root))
        self.elsewhere(packaging)

    def elsewhere(self, packaging=False):
        """The version of HEAD in another working tree: linked, cloned, or a submodule."""
        how = str(self.rng.choice(["linked", "linked", "clone", "submodule", "separate"]))
        d = os.path.join(self.base, "else%d" % len(self.cs.events))
        if how == "linked":
            self.git("worktree", "add", "-q", "--detach", d, "HEAD")
        elif how == "submodule":
            os.makedirs(d)
            sh(["git", "init", "-q", "-b", "main", "--template=", "."], d)
            sh(["git", "commit", "-q", "--allow-empty", "-m", "x"], d)
            sh(["git", "tag", "v6.6"], d)
            sh(["git", "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", self.top, "sub"], d)
            d = os.path.join(d, "sub")
            sh(["git", "checkout", "-q", "--detach", self.hashes_at()], d)
        else:
            extra = ["--separate-git-dir", d + ".gitdir"] if how == "separate" else []
            sh(["git", "clone", "-q", *extra, self.top, d], self.base)
            if sh(["git", "rev-parse", "HEAD"], d) != self.hashes_at():
                return
        self.cs.log.append("elsewhere:" + how)
        e = self.environment()
        top, d = d, os.path.join(d, self.sub) if self.sub else d
        for who, f in [("module", module_report)] + ([("versioneer", versioneer_report)] if packaging else []):
            self.cs.ev(op="elsewhere", who=who + " in " + how, how="linked" if how == "linked" else "clone", out=f(d, **e))
        if how == "linked":
            self.git("worktree", "remove", "--force", top)

    def hashes_at(self):
        return self.git("rev-parse", "HEAD")

    def styles(self):
        for who, f in (("module", SRCV), ("versioneer", "versioneer.py")):
            def pieces():
                return load(os.path.join(self.root, f))
            with env(cwd=self.root):
                try:
                    m = pieces()
                    p = m.git_pieces_from_vcs("v", self.root, False)
                except BaseException as ex:
                    m, p = None, ex
                outs = []
                for s in STYLES:
                    outs.append(report(lambda: m.render(dict(p), s)) if m is not None else report(lambda: (_ for _ in ()).throw(p)))
            for s, o in zip(STYLES, outs):
                self.obs("%s:%s" % (who, s), o, style=s)

    def observe_art(self, j):
        kind, d = self.arts[j - 1]
        path = os.path.join(d, SRCV) if kind == "source" else os.path.join(d, "kalmankit", "_version.py")
        nogit = {"PATH": os.path.join(self.base, "empty-path")} if self.rng.random() < .5 else {}
        with env(cwd="/", **nogit):
            out = report(lambda: load(path).get_versions())
        self.cs.ev(op="obsart", c=j, who="artefact-" + kind, out=out)
        if kind == "source":
            self.cs.ev(op="obsart", c=j, who="versioneer-in-artefact", out=versioneer_report(d, **nogit))

    def observe_art_more(self, j):
        kind, d = self.arts[j - 1]
        src = os.path.join(d, "src") if kind == "source" else d
        nogit = {"PATH": os.path.join(self.base, "empty-path")} if self.rng.random() < .5 else {}
        self.cs.ev(op="obsart", c=j, who="import-of-artefact", out=import_report(src, **nogit))
        if kind == "source":
            self.cs.ev(op="obsart", c=j, who="setup.py-of-artefact", out=setup_report(d))


BRANCHES = ["main", "master", "dev", "feature/x"]
ODDBRANCHES = ["größe", os.fsdecode(b"gr\xf6\xdfe"), "v9.9", "HEADS", "a,b", "main-dirty"]


def shown(name):
    """A name as it reads where it is not UTF-8."""
    return os.fsencode(name).decode("utf-8", "replace")


def linked(root, base, level):
    """The same tree reached through a symbolic link: to the root, src, the package, or the version file."""
    if not level:
        return root
    d = os.path.join(base, "link-" + level)
    if not os.path.lexists(d):
        if level == "root":
            os.symlink(root, d)
        elif level == "src":
            os.makedirs(d)
            os.symlink(os.path.join(root, "src"), os.path.join(d, "src"))
        elif level == "file":
            os.makedirs(os.path.join(d, "src", "kalmankit"))
            os.symlink(os.path.join(root, SRCV), os.path.join(d, SRCV))
        else:
            os.makedirs(os.path.join(d, "src"))
            os.symlink(os.path.join(root, "src", "kalmankit"), os.path.join(d, "src", "kalmankit"))
    return d



def merge_script(rng):
    """Tags on both sides of merges."""
    pool = list(TAGS)[:4] + [t for t in ODD if t[1].isdigit()]
    rng.shuffle(pool)
    out = [{"op": "start", "name": "main"}]

    def some(k, p):
        for _ in range(int(rng.integers(0, k + 1))):
            out.append({"op": "commit"})
            if rng.random() < p:
                out.append({"op": "tag", "name": pool.pop()})
    if rng.random() < .6:
        out.append({"op": "tag", "name": pool.pop()})
    some(2, .3)
    out.append({"op": "branch", "name": "dev"})
    out.append({"op": "commit"})
    some(2, .6)
    if rng.random() < .6:
        out.append({"op": "tag", "name": pool.pop()})
    some(1, .3)
    out.append({"op": "switch", "name": "main"})
    some(3, .3)
    out.append({"op": "merge", "name": "dev"})
    some(1, .2)
    if rng.random() < .4:
        out.append({"op": "switch", "name": "dev"})
        out.append({"op": "commit"})
        some(1, .5)
        if rng.random() < .5:
            out.append({"op": "merge", "name": "main"})
        else:
            out.append({"op": "switch", "name": "main"})
            out.append({"op": "merge", "name": "dev"})
    return out


def applicable(r, packaging):
    """Operations that apply to the tracked state r (a light mirror, to draw random histories)."""
    ops = [{"op": "commit"}] * 3 + [{"op": "untracked"}]
    ops += [{"op": "tag", "name": t} for t in r["pool"] if t not in r["tags"]][:6]
    ops += [{"op": "untag", "name": t} for t in r["tags"]][:1]
    ops += [{"op": "branch", "name": b} for b in r["names"] if b not in r["br"]]
    ops += [{"op": "abbrev", "c": k} for k in (7, 9, 12, 20) if k != r["abbrev"]]
    if not packaging and not r["many"]:
        ops += [{"op": "commits", "c": k} for k in (9, 10, 99, 101)]
    ops += [{"op": "switch", "name": b} for b in r["br"] if b != r["on"]] * 2
    ops += [{"op": "detach", "c": c} for c in range(1, r["n"] + 1) if r["on"] or c != r["at"]]
    ops += [{"op": "discard"}] * 2 if r["dirty"] else [{"op": "edit"}] * 2
    if r["on"] and not r["dirty"]:
        ops += [{"op": "merge", "name": b} for b in r["br"] if r["br"][b] not in r["anc"][r["at"]]] * 4
    if packaging:
        ops += [{"op": "build"}] * 3 + [{"op": "archive"}] * 2 + [{"op": "rebuild", "c": j + 1} for j in range(r["arts"])]
    return ops


def mirror(r, o):
    op = o["op"]
    if op in ("commit", "merge"):
        r["n"] += 1
        r["anc"][r["n"]] = r["anc"][r["at"]] | {r["n"]} | (r["anc"][r["br"][o["name"]]] if op == "merge" else set())
        r["at"] = r["n"]
        if r["on"]:
            r["br"][r["on"]] = r["n"]
    elif op == "commits":
        r["many"] = True
        for _ in range(o["c"]):
            r["n"] += 1
            r["anc"][r["n"]] = r["anc"][r["at"]] | {r["n"]}
            r["at"] = r["n"]
        if r["on"]:
            r["br"][r["on"]] = r["n"]
    elif op == "abbrev":
        r["abbrev"] = o["c"]
    elif op == "tag":
        r["tags"].append(o["name"])
    elif op == "untag":
        r["tags"].remove(o["name"])
    elif op == "branch":
        r["br"][o["name"]] = r["at"]
        r["on"] = o["name"]
    elif op == "switch":
        r["on"], r["at"] = o["name"], r["br"][o["name"]]
    elif op == "detach":
        r["on"], r["at"] = "", o["c"]
    elif op in ("edit", "discard"):
        r["dirty"] = op == "edit"
    elif op in ("build", "archive", "rebuild"):
        r["arts"] += 1


def random_script(rng, length, packaging):
    names = [str(x) for x in rng.permutation(BRANCHES + ([] if packaging else ODDBRANCHES))[:4]]
    b = str(rng.choice(BRANCHES[:2])) if packaging or rng.random() < .7 else names[0]
    r = {"n": 1, "at": 1, "on": b, "br": {b: 1}, "tags": [], "dirty": False, "anc": {1: {1}}, "arts": 0, "names": names,
         "abbrev": 7, "many": rng.random() < .6,
         "pool": [str(t) for t in rng.permutation(BUILDABLE if packaging else TAGS + ODD if rng.random() < .6 else TAGS)]}
    out = [{"op": "start", "name": b}]
    for _ in range(length):
        ops = applicable(r, packaging)
        kinds = sorted({o["op"] for o in ops})
        kind = kinds[rng.integers(len(kinds))]
        if kind == "untracked" and rng.random() < .7:
            kind = "commit"
        if packaging and r["dirty"] and rng.random() < .4:
            kind = "build"
        ch = [o for o in ops if o["op"] == kind]
        o = ch[rng.integers(len(ch))]
        mirror(r, o)
        out.append(o)
    return out


def play(job):
    """One history on a real repository (runs in a worker process)."""
    pid, tag, script, seed, more = job
    rng = np.random.default_rng(seed)
    cs = VCase(tag)
    cs.log.append(" ".join("%s/%s%s" % (o["op"], o.get("name", ""), o.get("c", "")) for o in script))
    base = tempfile.mkdtemp(prefix="verif-git-")
    home = os.path.join(base, "home")
    os.makedirs(home)
    os.makedirs(os.path.join(base, "empty-path"))
    for k in [k for k in os.environ if k.startswith("GIT_")]:
        del os.environ[k]
    os.environ.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
                      GIT_COMMITTER_EMAIL="a@b", XDG_CONFIG_HOME=home, PYTHONDONTWRITEBYTECODE="1", GIT_CEILING_DIRECTORIES=base)
    try:
        sub = str(rng.choice(["", "", "", "sub", "a/b"]))
        if sub:
            cs.log.append("in " + sub)
        pr = Project(base, rng, cs, script[0]["name"], sub=sub)
        pack = pid == "V04"
        BUILD_ENV.clear()
        if rng.random() < .6:
            BUILD_ENV.update({"SOURCE_DATE_EPOCH": "1600000000", "CI": "true"} if rng.random() < .7 else
                             {"SETUPTOOLS_USE_DISTUTILS": "local", "PYTHONHASHSEED": "0", "LANG": "C", "TZ": "Asia/Kathmandu"})
            cs.log.append("build env %s" % sorted(BUILD_ENV))
        for k, o in enumerate(script[1:] + [None]):
            if pid == "V02":
                if o is None or rng.random() < .5:
                    pr.styles()
            elif pack or o is None or rng.random() < .8:
                pr.observe(packaging=pack)
            for j in range(1, len(pr.arts) + 1):
                if o is None or rng.random() < .5:
                    pr.observe_art(j)
            if o is not None:
                pr.do(o)
        if more and pid != "V02":
            pr.observe_more(pack, pack and all(o["name"] in BUILDABLE for o in script if o["op"] == "tag"))
            for j in range(1, len(pr.arts) + 1):
                pr.observe_art_more(j)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return cs


def pool(jobs, fn):
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=20) as p:
        yield from p.imap(fn, jobs)


def sample(rng, xs, k):
    return xs if len(xs) <= k else [xs[j] for j in np.sort(rng.choice(len(xs), size=k, replace=False))]


def histories(pid, rng, tier, export, nspec, nrand, length, moreevery):
    f = 1 if tier == "quick" else 10
    pack = pid == "V04"
    jobs = []
    scripts = sorted(export["scripts"], key=lambda s: json.dumps(s))
    for s in sample(rng, scripts, nspec * f):
        jobs.append((pid, pid + "-spec", s, int(rng.integers(2 ** 31)), len(jobs) % moreevery == 0))
    for _ in range(nrand * f):
        bare = pack and rng.random() < .3          # nothing is built: names setuptools would refuse are possible
        script = merge_script(rng) if (bare or not pack) and rng.random() < .3 else \
            random_script(rng, int(rng.integers(3, length + 1)), pack and not bare)
        jobs.append((pid, pid + "-random", script, int(rng.integers(2 ** 31)),
                     len(jobs) % moreevery == 0))
    yield from pool(jobs, play)


def V01(rng, tier, export):
    yield from histories("V01", rng, tier, export, 110, 90, 14, 6)


def mutate(rng, s):
    k = int(rng.integers(len(s)))
    return [s[:k] + s[k + 1:], s + str(rng.choice(list("-x s"))), s[:k] + str(rng.choice(list("abex-_4"))) + s[k:], s.replace("-", "_"), s.upper(),
            s.split("-")[0] + "-" + str(rng.choice(["old", "next", "brnch", "dev", "long", "post-pre", "tag"])), s[:k + 1],
            s + "-branch"][int(rng.integers(8))]


def V02(rng, tier, export):
    ver, vsr = load(os.path.join(REPO, SRCV)), load(os.path.join(REPO, "versioneer.py"))
    base = tempfile.mkdtemp(prefix="verif-git-")
    try:
        tpl = load(template_of(REPO, base))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    cases = export["cases"]
    for who, m in (("module", ver), ("versioneer", vsr), ("template", tpl)):
        cs = VCase("V02-" + who)
        for p in cases:
            pieces = {"long": p["long"], "short": p["short"], "branch": p["branch"] or None, "dirty": p["dirty"], "error": p["error"] or None,
                      "closest-tag": p["tag"] or None, "distance": p["distance"], "date": p["date"]}
            if p["error"] and rng.random() < .5:      # a failed parse stops early
                for k in ("closest-tag", "distance", "date"):
                    del pieces[k]
            for s in STYLES + ["", "default", "pep441", "PEP440"][:4 if p["distance"] == 1 else 2]:
                arg = dict(pieces)
                out = report(lambda: m.render(arg, s if s or rng.random() < .5 else None))
                cs.ev(op="render", who="%s:%s" % (who, s), style=s, p=p, out=out)
            for _ in range(2):                        # misspelt styles
                s = mutate(rng, str(rng.choice(STYLES)))
                if s not in STYLES + ["", "default"]:
                    cs.ev(op="render", who="%s:unknown-style" % who, style=s, p=p, out=report(lambda: m.render(dict(pieces), s)))
            if len(cs.events) > 4000:
                yield cs
                cs = VCase("V02-" + who)
        yield cs
    yield from histories("V02", rng, tier, export, 40, 24, 12, 10 ** 9)


# ---------------------------------------------------------------- layouts
SUBS = ["rev-parse --git-dir", "describe", "rev-parse HEAD", "rev-parse --abbrev-ref", "branch", "rev-list", "show", "log", "status"]


def stub_git(d, kind, what):
    """A git that fails for one of its commands, or describes in a way nobody can parse."""
    os.makedirs(d)
    real = shutil.which("git")
    p = os.path.join(d, "git")
    if kind == "flaky":
        body = "case \"$*\" in *'%s'*) exit %s;; esac\nexec %s \"$@\"\n" % (what[0], what[1], real)
    else:
        body = "case \"$1\" in describe) echo '%s'; exit 0;; esac\nexec %s \"$@\"\n" % (what[0], real)
    open(p, "w").write("#!/bin/sh\n" + body)
    os.chmod(p, 0o755)
    return d


def decorate(refs, rng):
    """The %d of git for a set of refs."""
    names = [("tag: " if r["tag"] else "") + r["name"] for r in refs]
    rng.shuffle(names)
    return " (" + ", ".join(names) + ")" if names else ""


def lay(job):
    pid, l, seed, more = job
    rng = np.random.default_rng(seed)
    cs = VCase(pid + "-layout")
    base = tempfile.mkdtemp(prefix="verif-git-")
    home = os.path.join(base, "home")
    os.makedirs(home)
    for k in [k for k in os.environ if k.startswith("GIT_")]:
        del os.environ[k]
    os.environ.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
                      GIT_COMMITTER_EMAIL="a@b", XDG_CONFIG_HOME=home, PYTHONDONTWRITEBYTECODE="1", GIT_CEILING_DIRECTORIES=base)
    try:
        l = json.loads(json.dumps(l))
        up = os.path.join(base, *reversed(l["dirs"][1:]))
        os.makedirs(up)
        root = os.path.join(up, l["dirs"][0])
        e, note = {}, ""
        if l["repo"]:
            pr = Project(up, rng, VCase("x"), "main", name=l["dirs"][0])
            r = l["repo"][0]
            for t in r["tags"]:
                pr.do({"op": "tag", "name": t[0]})
            pr.do({"op": "commit"})
            if r["on"] == "":
                pr.do({"op": "detach", "c": 2})
            if r["dirty"]:
                pr.do({"op": "edit"})
            dates = [x["date"] for x in pr.cs.events if "date" in x]
            for j in range(2):
                r["cm"][j].update(full=pr.hashes[j], date=dates[j])
        else:
            sources(root)
        if l["kw"]:
            kw = l["kw"][0]
            p = os.path.join(root, SRCV)
            s = open(p).read()
            refs = decorate(kw["refs"], rng)
            s = s.replace("$Format:%d$", refs).replace("$Format:%H$", kw["full"]).replace("$Format:%ci$", "2024-01-02 03:04:05 +0100")
            open(p, "w").write(s)
            note = refs
            if l["git"] == "works" and not l["repo"] and rng.random() < .5:      # unpacked inside some other project
                sh(["git", "init", "-q", "-b", "main", "--template=", "."], up)
                sh(["git", "commit", "-q", "--allow-empty", "-m", "x"], up)
                sh(["git", "tag", "v7.7"], up)
                note += " in another repository"
        elif not l["repo"] and l["git"] == "works" and rng.random() < .3:
            # a repository without any commit
            sh(["git", "init", "-q", "-b", "main", "--template=", "."], root)
            note = "unborn"
        if l["git"] == "none":
            os.makedirs(os.path.join(base, "nogit"))
            kind = str(rng.choice(["absent", "absent", "not executable", "no program", "directory", "dangling"]))
            p = os.path.join(base, "nogit", "git")
            note += " git:" + kind
            if kind in ("not executable", "no program"):
                open(p, "wb").write(b"no program" if kind == "not executable" else b"\x00\x01\x02\xff" * 10)
                os.chmod(p, 0o644 if kind == "not executable" else 0o755)
            elif kind == "directory":
                os.makedirs(p)
            elif kind == "dangling":
                os.symlink(os.path.join(base, "nowhere"), p)
            e["PATH"] = os.path.join(base, "nogit")
        elif l["git"] == "broken":
            kind = str(rng.choice(["all", "describe", "corrupt", "head"]))
            note += " broken:" + kind
            if kind == "all":
                e["PATH"] = stub_git(os.path.join(base, "stub"), "flaky", ("", 128)) + os.pathsep + os.environ["PATH"]
            elif kind == "describe":
                e["PATH"] = stub_git(os.path.join(base, "stub"), "flaky", ("describe", 1)) + os.pathsep + os.environ["PATH"]
            elif kind == "corrupt":
                h = pr.hashes[1]
                os.unlink(os.path.join(root, ".git", "objects", h[:2], h[2:]))
            else:
                open(os.path.join(root, ".git", "HEAD"), "w").write("ref: refs/heads/nowhere\n")
        elif l["git"] == "flaky":
            w = str(rng.choice(SUBS + ["missing-parent"] * 3))
            note += " flaky:" + w
            if w == "missing-parent":
                h = pr.hashes[0]
                os.unlink(os.path.join(root, ".git", "objects", h[:2], h[2:]))
            else:
                e["PATH"] = stub_git(os.path.join(base, "stub"), "flaky", (w, int(rng.choice([1, 128, 255])))) + os.pathsep + os.environ["PATH"]
        elif l["git"] == "garbage":
            w = str(rng.choice(["v1.0-2-xyz", "v1.0-gabc-", "w1.0-3-gabcdef1", "1.0-3-gabcdef1", "v1.0-3-gABCDEFG"]))
            note += " garbage:" + w
            e["PATH"] = stub_git(os.path.join(base, "stub"), "garbage", (w,)) + os.pathsep + os.environ["PATH"]
        # the same place through a symbolic link (with a git that can be cut off, or there is one around the link)
        level = str(rng.choice(["", "", "root", "src", "package", "file"]))
        note += " link:" + level
        cs.log.append(note)
        if pid == "V03":
            seen = linked(root, base, level)
            cs.ev(op="layout", l=l, who="module", out=module_report(seen, cwd=str(rng.choice(["/", root, GONE])), **e))
            if more:
                seen = linked(root, base, "package" if level == "file" else level)
                cs.ev(op="layout", l=l, who="import", out=import_report(os.path.join(seen, "src"), **e))
            unplaced(cs, l, root, e)
            if not l["repo"]:
                zipped(cs, l, root, more, e)
        else:
            cs.ev(op="layout", l=l, who="module", out=module_report(root, cwd="/", **e))
            cs.ev(op="layout", l=l, who="versioneer", out=versioneer_report(root, **e))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return cs


def unplaced(cs, l, root, e):
    """Executed by something that sets no __file__: only the keywords can tell."""
    code = compile(open(os.path.join(root, SRCV), encoding="utf-8").read(), "frozen", "exec")

    def call():
        ns = {"__name__": "kalmankit._version"}
        exec(code, ns)
        return ns["get_versions"]()
    with env(cwd=root, **e):
        out = report(call)
    cs.ev(op="layout", l=dict(l, git="none", repo=[], dirs=[]), who="without-a-file", out=out)


def zipped(cs, l, root, more, e):
    """The package imported from an archive file, which no git looks into."""
    name = root + ".zip"
    with zipfile.ZipFile(name, "w") as z:
        for f in sorted(glob.glob(os.path.join(root, "src", "kalmankit", "*.py"))):
            z.write(f, os.path.relpath(f, root))
    l = dict(l, git="none", dirs=[l["dirs"][0] + ".zip"] + l["dirs"][1:])

    def call():
        m = zipimport.zipimporter(os.path.join(name, "src", "kalmankit")).load_module("_version")
        sys.modules.pop("_version", None)
        return m.get_versions()
    with env(cwd="/", **e), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = report(call)
    cs.ev(op="layout", l=l, who="zip", out=out)
    if more:
        cs.ev(op="layout", l=l, who="import-of-zip", out=import_report(os.path.join(name, "src"), **e))


def layouts(pid, rng, tier, export, count, moreevery):
    cases = sorted(export["cases"], key=lambda s: json.dumps(s, sort_keys=True))
    group = {}
    for l in cases:       # evenly over what decides
        group.setdefault((bool(l["kw"]), bool(l["repo"]), l["git"]), []).append(l)
    f = 1 if tier == "quick" else 8
    jobs = []
    for k in sorted(group):
        for l in sample(rng, group[k], max(1, count * f // len(group))):
            jobs.append((pid, l, int(rng.integers(2 ** 31)), len(jobs) % moreevery == 0))
    yield from pool(jobs, lay)


def peculiar(tag, refs):
    """An archive whose ref names do not go into a Python string as they are."""
    cs = VCase(tag)
    base = tempfile.mkdtemp(prefix="verif-git-")
    try:
        root = os.path.join(base, "src0")
        sources(root)
        kw = {"refs": refs, "full": "1076c978a8d3cfc70f408fe5974aa6c092c949ac", "date": "2024-01-02T03:04:05+0100"}
        p = os.path.join(root, SRCV)
        s = open(p).read().replace("$Format:%d$", " (" + ", ".join(("tag: " if f["tag"] else "") + f["name"] for f in refs) + ")")
        s = s.replace("$Format:%H$", kw["full"]).replace("$Format:%ci$", "2024-01-02 03:04:05 +0100")
        with open(p, "wb") as fh:
            fh.write(s.encode("utf-8", "surrogateescape"))
        l = {"frozen": [], "git": "works", "repo": [], "dirs": ["src0", "x", "y", "z"],
             "kw": [dict(kw, refs=[dict(f, name=shown(f["name"])) for f in refs])]}
        cs.ev(op="layout", l=l, who="module", out=module_report(root, cwd="/"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return cs


def V03(rng, tier, export):
    yield from layouts("V03", rng, tier, export, 260, 6)
    v = {"tag": True, "name": "v1.0"}
    yield peculiar("V03-quote-in-ref", [v, {"tag": False, "name": 'a"b'}])
    yield peculiar("V03-ref-not-utf8", [v, {"tag": False, "name": os.fsdecode(b"gr\xf6n")}])
    yield peculiar("V03-quotes-and-more", [v, {"tag": False, "name": "it's"}, {"tag": False, "name": "größe"}, {"tag": True, "name": "{x}%s"}])


def V04(rng, tier, export):
    yield from layouts("V04", rng, tier, export, 90, 6)
    yield from histories("V04", rng, tier, export, 40, 24, 9, 4)
