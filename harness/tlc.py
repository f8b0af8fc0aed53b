"""Builds the Java operator overrides and runs TLC."""
import hashlib
import json
import os
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (exit status 2), nothing is said about the code."""


def classes():
    """Directory of the compiled overrides, built when absent or out of date."""
    src = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    out = os.path.join(ROOT, "build", "java-" + h)
    if os.path.isdir(out):
        return out
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
    subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", JAR] + src, check=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(module, cfg=None, env=None, workers=8, timeout=600, extra=(), heap="6g", grace=None):
    """Runs TLC; returns a dict with the output lines and the state counts.
    grace: what was printed counts even when TLC does not come to its end in time, which is
    then at most so many seconds after the first verdict against the code ("cut" in the result)."""
    md = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-cp", ":".join([classes(), JAR, CM]), "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", md, "-workers", str(workers), "-lncheck", "final", *extra]
        if cfg:
            cmd += ["-config", cfg]
        cmd.append(module)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out = os.path.join(md, "out")
        end, cut = time.time() + timeout, False
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            seen = 0
            try:
                while True:
                    try:
                        p.wait(min(2.0, max(end - time.time(), 0.01)))
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if grace is not None and not seen:
                        with open(out) as g:
                            seen = any(line.lstrip().startswith('"BAD ') for line in g)
                        if seen:
                            end = min(end, time.time() + grace)
                    if time.time() >= end:
                        cut = True
                        break
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        text = open(out, errors="replace").read()
        if cut and grace is None:
            raise Machinery("TLC timed out on %s %s" % (module, cfg or ""))
        if cut:
            text = text[:text.rfind("\n") + 1]
    finally:
        shutil.rmtree(md, ignore_errors=True)
    res = {"rc": p.returncode, "lines": [], "generated": 0, "distinct": 0, "text": text, "cut": cut}
    for line in text.splitlines():
        if line.startswith("Loading "):
            continue
        if "states generated" in line and "distinct states found" in line and not line.startswith("Progress"):
            w = line.replace(",", "").split()
            res["generated"], res["distinct"] = int(w[0]), int(w[3])
        res["lines"].append(line)
    return res


def payloads(res, key):
    """JSON payloads of the PrintT lines that start with key."""
    out = []
    for line in res["lines"]:
        s = line.strip()
        if s.startswith('"') and s.endswith('"') and s[1:].startswith(key + " "):
            out.append(json.loads(json.loads(s)[len(key) + 1:]))
    return out


def check_model(module, cfg, **kw):
    """Model checks a configuration (a file, or a dict with the constants
    const, and the names inv, prop); any error is a failure of the specification."""
    if isinstance(cfg, dict):
        val = lambda v: ("TRUE" if v else "FALSE") if isinstance(v, bool) else str(v)
        text = "CONSTANTS\n" + "".join("  %s %s %s\n" % (k, "<-" if isinstance(v, str) and v.startswith("MC") else "=", val(v))
                                       for k, v in cfg["const"].items()) if cfg.get("const") else ""
        text += "SPECIFICATION %s\n" % cfg.get("spec", "Spec")
        for key, word in (("inv", "INVARIANTS"), ("prop", "PROPERTIES")):
            if cfg.get(key):
                text += word + " " + " ".join(cfg[key]) + "\n"
        if cfg.get("view"):
            text += "VIEW " + cfg["view"] + "\n"
        text += "CHECK_DEADLOCK FALSE\n"
        fd, path = tempfile.mkstemp(suffix=".cfg")
        os.write(fd, text.encode())
        os.close(fd)
        try:
            return check_model(module, path, **kw)
        finally:
            os.unlink(path)
    r = run(module, cfg, **kw)
    if r["rc"] != 0 or not any("No error has been found" in l for l in r["lines"]):
        raise Machinery("model checking %s/%s failed:\n%s" % (module, cfg, "\n".join(r["lines"][-40:])))
    return r
