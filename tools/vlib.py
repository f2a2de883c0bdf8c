"""Build, run, project, validate: the machinery shared by all checks."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
NPROC = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Infra(Exception):
    """the machinery itself could not give an answer"""

def sh(cmd, timeout=600, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return 124, out

# ---------------------------------------------------------------- build
CXX = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + REPO + "/include"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute,vptr", "-fno-omit-frame-pointer"]

def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        for d, dn, fn in sorted(os.walk(top)):
            for f in sorted(fn):
                if f.endswith((".cpp", ".hpp", ".h")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def compile_all(jobs):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (rc, out), cmd in zip(ex.map(lambda c: sh(c, 600), jobs), jobs):
            if rc != 0:
                raise Infra("compilation failed: %s\n%s" % (" ".join(cmd), out[-4000:]))

def build(drivers, san=False):
    """drivers from harness/<name>.cpp, linked with every source of the repository's library, from its current tree"""
    tag = tree_hash([REPO + "/src", REPO + "/include", VERIF + "/harness"]) + ("s" if san else "")
    d = os.path.join(BUILD, tag)
    os.makedirs(d, exist_ok=True)
    flags = SAN if san else []
    srcs = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".cpp"))
    skip = set()
    jobs = []
    for x in drivers:
        o = "%s/%s.o" % (d, x)
        if not os.path.exists(o): jobs.append(CXX + flags + ["-I" + VERIF + "/harness", "-I" + REPO, "-c", VERIF + "/harness/" + x + ".cpp", "-o", o])
    objs = []
    for s in srcs:
        o = "%s/lib_%s.o" % (d, s[:-4]); objs.append(o)
        if not os.path.exists(o): jobs.append(CXX + flags + ["-c", REPO + "/src/" + s, "-o", o])
    compile_all(jobs)
    links = []
    for x in drivers:
        exe = "%s/%s" % (d, x)
        if not os.path.exists(exe):
            links.append(["g++"] + flags + ["-o", exe, "%s/%s.o" % (d, x)] + objs + ["-lcrypto", "-lpthread", "-ldl"])
    compile_all(links)
    return {x: "%s/%s" % (d, x) for x in drivers}

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, timeout=600, heap="2g", workers=1, extra=(), work=None):
    """-> dict(rc, out, states, distinct, wall)"""
    md = tempfile.mkdtemp(prefix="md-", dir=work)
    e = dict(os.environ); e.update(env or {})
    t0 = time.time()
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + md, "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-lncheck", "final", "-config", cfg] + list(extra) + [module + ".tla"]
    rc, out = sh(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(md, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated,? ([\d,]+) distinct", out): pass
    g = lambda i: int(m.group(i).replace(",", "")) if m else 0
    return dict(rc=rc, out=out, states=g(1), distinct=g(2), wall=time.time() - t0)

def reject_info(out):
    """what a trace specification printed when it refused a line"""
    m = re.search(r'<<\s*"REJECT",.*?(?=\n(?:Error|Model checking|Finished|\d+ states|TLC|The |Progress)|\Z)', out, re.S)
    return re.sub(r"\s+", " ", m.group(0)) if m else None

def write_lines(path, scen):
    with open(path, "w") as f:
        n = 0
        for s in scen:
            for l in s:
                f.write(json.dumps(l, separators=(",", ":"))); f.write("\n"); n += 1
        f.write('{"e":"eof"}\n')
    return n + 1

def validate(module, scen, focus, work, name, timeout=600, heap="2g"):
    """run TLC over one shard of projected scenarios"""
    path = os.path.join(work, name + ".ndjson"); fpath = os.path.join(work, "focus.json")
    n = write_lines(path, scen)
    with open(fpath + "." + name, "w") as f: f.write(json.dumps(dict(focus=sorted(focus))) + "\n")
    r = tlc(module, module + ".cfg", dict(TRACE=path, FOCUS=fpath + "." + name), timeout, heap, 1, work=work)
    r["lines"] = n; r["path"] = path
    out = r["out"]
    r["skipped"] = 0
    m = re.search(r'<<"EOF", (\d+), (\d+)>>', out)
    if m: r["skipped"] = int(m.group(2))
    r["others"] = len(re.findall(r'<<\s*"OTHER"', out))
    if r["rc"] == 0 and "No error has been found" in out and m:
        r["verdict"] = "accepted"
    elif r["rc"] == 124 or "OutOfMemoryError" in out or "Parsing or semantic analysis failed" in out or r["states"] == 0:
        r["verdict"] = "infra"
    else:
        r["verdict"] = "rejected"
        info = reject_info(out)
        if info is None:
            m = re.search(r"Error: (.*?)(?=\nThe error occurred|\nError: The behavior|\Z)", out, re.S)
            info = "no behaviour of the specification explains the trace: " + re.sub(r"\s+", " ", (m.group(1) if m else out[-800:]))[:800]
        r["info"] = info
        m = re.search(r'<<\s*"REJECT",\s*(\d+)', out)
        r["line"] = int(m.group(1)) if m else r["states"]
    return r
