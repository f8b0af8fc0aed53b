"""bug.py make SPEC.py...   writes seeded/<id>/ for every entry of BUGS in SPEC.py that is a valid planted bug
   bug.py run [-p PID,PID] [-j N] ID...   runs the check of each bug's property (or the given ones) on the changed tree
   bug.py quiet [-p ...] [-j N] NAME...   runs the checks (default: all) on the behaviour-preserving edits tools/refactorings/NAME.diff
   bug.py demo ID...        re-validates: applies, builds, passes the tests, demo passes on clean and fails on changed
Everything happens in copies under /tmp, bind-mounted over /repo (and a copy of the committed /verif) in a mount
namespace of its own: nothing of this touches /repo or /verif except the files written in seeded/."""
import sys, json, pathlib, subprocess, shutil, tempfile, runpy, os, concurrent.futures as cf, time
V = pathlib.Path("/verif"); S = V/"seeded"; T = pathlib.Path("/tmp/bugwt"); T.mkdir(exist_ok=True)
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'

def ns(tree, cmd, verif=None, timeout=1200):
    pre = f"mount --bind {tree} /repo; "
    if verif: pre += f"mount --bind {verif} /verif; "
    r = subprocess.run(["unshare", "-m", "bash", "-c", f"{pre} {cmd}"], capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout+r.stderr

def copy(tag):
    d = pathlib.Path(tempfile.mkdtemp(prefix=tag+".", dir=T)); subprocess.run(["cp","-a","/repo/.",str(d)],check=True); return d

def rm(d): shutil.rmtree(d, ignore_errors=True)

def validate(src, patch):
    """src: directory with demo.sh, patch: path; returns list of complaints"""
    w = copy("w"); out = []
    dd = pathlib.Path(tempfile.mkdtemp(prefix="demo.", dir=T))
    for f in src.iterdir():
        if f.suffix not in (".diff",".patch") and f.name != "meta.json": shutil.copy(f, dd/f.name)
    try:
        rc, o = ns(w, f"cd /repo && timeout 300 bash {dd}/demo.sh")
        if rc: out.append("demo fails on clean tree: "+o[-600:])
        r = subprocess.run(["git","-C",str(w),"apply",str(patch)],capture_output=True,text=True)
        if r.returncode: return out+["does not apply: "+r.stderr]
        rc, o = ns(w, "bash /opt/vp/build.sh")
        if rc: out.append("build: "+o[-600:])
        rc, o = ns(w, f"bash /opt/vp/test.sh {dd}/o.json")
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(dd/"o.json"))
        want = base.get("passed") or base.get("stable") or base.get("tests"); got = res.get("passed", [])
        miss = [t for t in want if t not in got]
        if miss: out.append(f"tests fail: {miss}")
        rc, o = ns(w, f"cd /repo && timeout 300 bash {dd}/demo.sh")
        if rc == 0: out.append("demo passes with the patch")
        elif "--show" in sys.argv: print(o[-400:])
    finally: rm(w); rm(dd)
    return out

def make1(b):
    d = pathlib.Path(tempfile.mkdtemp(prefix="mk.", dir=T)); w = copy("e")
    try:
        for f, old, new, *n in b["edits"]:
            p = w/f; s = p.read_text(); c = s.count(old)
            if n == ["last"] and c: k = s.rindex(old); p.write_text(s[:k]+new+s[k+len(old):]); continue
            if c != (n[0] if n else 1): return b["id"], [f"{f}: {c} matches of {old!r}"]
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git","-C",str(w),"diff"],capture_output=True,text=True).stdout
        (d/"patch.diff").write_text(diff); (d/"demo.py").write_text(b["demo"].lstrip()); (d/"demo.sh").write_text(DEMO_SH)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d/"meta.json","w"), indent=1)
        bad = validate(d, d/"patch.diff")
        if not bad:
            dst = S/b["id"]
            if dst.exists(): shutil.rmtree(dst)
            shutil.copytree(d, dst)
        return b["id"], bad
    finally: rm(d); rm(w)

def run1(id, pids, seed="1", tier="quick", patch=None):
    w = copy("r"); v = pathlib.Path(tempfile.mkdtemp(prefix="v.", dir=T))
    try:
        subprocess.run(f"git -C /verif archive HEAD | tar x -C {v} && rm -rf {v}/seeded", shell=True, check=True)
        if os.environ.get("WORKTREE"): subprocess.run(f"cp -a /verif/spec /verif/harness /verif/java /verif/tools {v}/", shell=True, check=True)
        if (V/"build").exists(): subprocess.run(f"cp -a /verif/build {v}/", shell=True)
        r = subprocess.run(["git","-C",str(w),"apply",str(patch or S/id/"patch.diff")],capture_output=True,text=True)
        if r.returncode: return id, "does not apply"
        subprocess.run(["git","-C",str(w),"commit","-qam","x"]) if os.environ.get("COMMITTED") else None
        res = []
        for p in pids:
            t0 = time.time()
            rc, o = ns(w, f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} timeout 900 /opt/venv/bin/python -B harness/check.py {p} --seed {seed} --tier {tier}", v)
            line = next((l for l in o.splitlines() if l.startswith("VIOLATION")), "")
            res.append(f"{p}:{'CAUGHT' if rc==1 and f'VIOLATION property={p} ' in line else ('quiet' if rc==0 else f'rc={rc} {o[-500:]}')} ({time.time()-t0:.0f}s)")
        return id, " ".join(res)
    finally: rm(w); rm(v)

if __name__ == "__main__":
    a = sys.argv[1:]; cmd = a.pop(0); j = 4; pids = None
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j": j = int(a.pop(0))
        elif o == "-p": pids = a.pop(0).split(",")
    with cf.ThreadPoolExecutor(j) as ex:
        if cmd == "make":
            bs = [b for f in a for b in runpy.run_path(f)["BUGS"]]
            for id, bad in ex.map(make1, bs): print(id, "ok" if not bad else bad, flush=True)
        elif cmd == "demo":
            ids = a or sorted(p.name for p in S.iterdir())
            for id, bad in zip(ids, ex.map(lambda i: validate(S/i, S/i/"patch.diff"), ids)): print(id, "ok" if not bad else bad, flush=True)
        elif cmd == "quiet":
            D = V/"tools"/"refactorings"; ids = a or sorted(p.stem for p in D.iterdir())
            allp = [json.loads(l)["id"] for l in open(V/"properties.jsonl")]
            for id, r in ex.map(lambda i: run1(i, pids or allp, os.environ.get("SEED","1"), os.environ.get("TIER","quick"), D/(i+".diff")), ids): print(id, r, flush=True)
        elif cmd == "run":
            ids = a or sorted(p.name for p in S.iterdir())
            f = lambda i: run1(i, pids or [json.load(open(S/i/"meta.json"))["property"]], os.environ.get("SEED","1"), os.environ.get("TIER","quick"))
            for id, r in ex.map(f, ids): print(id, r, flush=True)
