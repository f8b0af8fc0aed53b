"""Runs the scenarios of one property on the code in /repo and writes the traces.

usage: drive.py PID TIER SEED OUTDIR [EXPORT.json] [--only N]
"""
import inspect
import json
import os
import sys
import warnings

import numpy as np

REPO_SRC = "/repo/src"


def main():
    pid, tier, seed, out = sys.argv[1:5]
    export = json.load(open(sys.argv[5])) if len(sys.argv) > 5 and sys.argv[5] != "-" else None
    only = int(sys.argv[7]) if len(sys.argv) > 7 and sys.argv[6] == "--only" else None
    sys.path.insert(0, REPO_SRC)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import kalmankit
    assert os.path.abspath(kalmankit.__file__).startswith(REPO_SRC), kalmankit.__file__
    if pid.startswith("V"):
        import vers as scen
    else:
        import scen
    fn = getattr(scen, pid)
    rng = np.random.default_rng([int(seed), sum(map(ord, pid))])
    kw = {"export": export} if "export" in inspect.signature(fn).parameters else {}
    chunk, size, part, index = [], 0, 0, 0
    manifest = []

    def flush():
        nonlocal chunk, size, part
        if chunk:
            with open(os.path.join(out, "trace%03d.json" % part), "w") as fh:
                fh.write("[" + ",".join(chunk) + "]")
            part += 1
            chunk, size = [], 0

    for case in fn(rng, tier, **kw):
        if only is None or index == only:
            s = json.dumps(case.encode(), separators=(",", ":"))
            manifest.append({"index": index, "part": part, "pos": len(chunk) + 1, "tag": case.tag, "how": case.log,
                             "events": [e["op"] for e in case.events], "bytes": len(s)})
            chunk.append(s)
            size += len(s)
            if size > 6_000_000:
                flush()
        index += 1
    flush()
    json.dump(manifest, open(os.path.join(out, "manifest.json"), "w"))


if __name__ == "__main__":
    main()
