#!/usr/bin/env python3
"""Own sensitivity runs: apply small edits to a scratch copy of /repo and run checks on it.
usage: mutate.py FILE.json [name ...]   FILE: [{name, file, old, new, props:[...]}]"""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
muts = json.loads(open(sys.argv[1]).read(), strict=False); only = sys.argv[2:]
def one(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for x in ("src", "include"): shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/" + x, d + "/" + x)
        p = d + "/" + m["file"]; s = open(p).read()
        if s.count(m["old"]) < 1: return m["name"], "NO MATCH", ""
        s = s.replace(m["old"], m["new"], m.get("n", 1)); open(p, "w").write(s)
        res = []
        for prop in m["props"]:
            t = time.time()
            r = subprocess.run([HERE + "/../bin/check", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVID="0"))
            line = [l for l in r.stdout.splitlines() if l.startswith("deviation")]
            res.append("%s:%s(%ds) %s" % (prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d %s" % (r.returncode, r.stdout[-300:] + r.stderr[-500:])), time.time() - t, (line[0][:170] if line else "")))
        return m["name"], "; ".join(res), ""
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [m for m in muts if not only or m["name"] in only]): print(*r, flush=True)
