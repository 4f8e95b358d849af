"""Shared machinery of the checks: build, explore, validate with TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
H = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
T0 = time.time()
LIBS = ["ucf", "pm", "clevel"]


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, **kw)


# ------------------------------------------------------------------ build
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                if "/.git" in d or "/_build" in d:
                    continue
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h", ".cpp", ".ipp", ".in")):
                        q = os.path.join(d, f)
                        h.update(q.encode())
                        h.update(open(q, "rb").read())
        else:
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


INC = ["-I" + H, "-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/containers", "-I" + REPO + "/hashing",
       "-I" + REPO + "/tests"]
REPO_SRC = [os.path.join(REPO, d) for d in ("include", "containers", "hashing", "tests")]


def _build(out, inputs, cmds):
    """Builds BUILD/out (content addressed) with the given commands ('OUT' is replaced)."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(inputs)
    path = os.path.join(BUILD, "%s-%s" % (key, out))
    if os.path.exists(path):
        return path
    for old in os.listdir(BUILD):
        if old.endswith("-" + out):
            try:
                os.remove(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = path + ".tmp%d" % os.getpid()
    for c in cmds:
        r = sh([x.replace("OUT", tmp) for x in c], timeout=800)
        if r.returncode:
            raise CheckError("build of %s failed:\n%s" % (out, r.stderr[-4000:]))
    os.rename(tmp, path)
    return path


def build_explore():
    return _build("explore", [H + "/explore.cpp", H + "/vrt.cpp", H + "/vrt_rt.hpp", H + "/fakeobj.hpp", H + "/ops.hpp"],
                  [["g++", "-std=c++20", "-O2", "-w", "-rdynamic", H + "/explore.cpp", H + "/vrt.cpp", "-o", "OUT", "-ldl"]])


def build_lib(name="ucf"):
    src = H + "/lib_%s.cpp" % name
    return _build("lib%s.so" % name, [src, H + "/vrt.hpp", H + "/ops.hpp"] + REPO_SRC,
                  [["g++", "-std=c++2a", "-w", "-O1", "-g1", "-fPIC", "-shared", "-DDEFAULT_CACHELINE_SIZE=64",
                    "-include", H + "/vrt.hpp"] + INC + [src, "-o", "OUT"]])


# ------------------------------------------------------------------ scenarios
class Scn:
    def __init__(self, name, threads=(), setup="", post="", kind="map", len=8, keys=None, vals=None, rpost="",
                 rthreads=(), nkeys=12, path=None, fresh2=False, pool=0, fill="", skip=0, renew=False, late=""):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def text(self):
        l = ["scn " + self.name, "kind " + self.kind, "len %d" % self.len]
        keys = self.keys or [(i if self.kind != "map" else i << 3) for i in range(1, self.nkeys + 1)]
        l.append("keys " + " ".join(str(k) for k in keys))
        if self.vals:
            l.append("vals " + " ".join(str(v) for v in self.vals))
        if self.pool:
            l.append("pool %d" % self.pool)
        if self.path:
            l.append("path " + self.path)
        if self.fill:
            l.append("fill " + self.fill)
        if self.late:
            l.append("late " + self.late)
        if self.setup:
            l.append("setup " + self.setup)
        for t in self.threads:
            l.append("thr " + t)
        if self.post:
            l.append("post " + self.post)
        for t in self.rthreads:
            l.append("rthr " + t)
        if self.rpost:
            l.append("rpost " + self.rpost)
        if self.skip:
            l.append("skip %d" % self.skip)
        if self.renew:
            l.append("renew")
        if self.fresh2:
            l.append("fresh2")
        return "\n".join(l) + "\nend\n"


class Job:
    """One exploration: scenarios + options."""

    def __init__(self, scns, lib="ucf", **opt):
        self.scns = scns if isinstance(scns, list) else [scns]
        self.lib, self.opt = lib, opt


def arg(v, work):
    """A long schedule is passed in a file."""
    v = str(v)
    if len(v) < 50000:
        return v
    f = tempfile.NamedTemporaryFile("w", suffix=".arg", dir=work, delete=False)
    f.write(v)
    f.close()
    return "@" + f.name


def run_job(job, work):
    exe, lib = build_explore(), build_lib(job.lib)
    f = tempfile.NamedTemporaryFile("w", suffix=".scn", dir=work, delete=False)
    for s in job.scns:
        f.write(s.text())
    f.close()
    cmd = [exe, lib, f.name]
    opt = dict(job.opt)
    opt.setdefault("seed", SEED)
    for k, v in opt.items():
        cmd += ["-" + k, arg(v, work)]
    try:
        r = sh(cmd, timeout=opt.get("time", 500) * len(job.scns) + 120, cwd=work)
    except subprocess.TimeoutExpired:
        raise CheckError("exploration timed out: " + " ".join(cmd))
    if r.returncode != 0:
        raise CheckError("exploration failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-2000:]))
    hs, st = [], []
    by = {s.name: s for s in job.scns}
    for l in r.stdout.splitlines():
        o = json.loads(l)
        if "stat" in o:
            st.append(o)
        else:
            o["scn"] = by[o["s"]]
            o["lib"] = job.lib
            o["opt"] = job.opt
            hs.append(o)
    if len(st) != len(job.scns):
        raise CheckError("exploration ended early: " + " ".join(cmd))
    return hs, st


def run_jobs(jobs, work):
    build_explore()
    for l in sorted(set(j.lib for j in jobs)):
        build_lib(l)
    hs, st = [], []
    with ThreadPoolExecutor(CORES) as ex:
        for a, b in ex.map(lambda j: run_job(j, work), jobs):
            hs += a
            st += b
    return hs, st


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=CORES, timeout=600, heap="8g", extra=(), pcal=None):
    work = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    try:
        e = dict(os.environ)
        e.update(env or {})
        where = SPEC
        if pcal:   # the algorithm is translated here
            where = os.path.join(work, "spec")
            shutil.copytree(SPEC, where)
            r = sh(["java", "-cp", JARS, "pcal.trans", "-nocfg", pcal], timeout=120, cwd=where)
            if r.returncode:
                raise CheckError("cannot translate " + pcal + r.stdout)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", work,
               "-noGenerateSpecTE", "-lncheck", "final", "-config", cfg] + list(extra) + [module]
        return sh(cmd, timeout=timeout, cwd=where, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def encode_events(ev, kind):
    """Events of the explorer -> events of HistTrace (operation names carry the flavour of the container)."""
    cont = {"ucf": {"cins": "cinsU", "cget": "cgetU", "cinc": "cinc", "ccnt": "size"},
            "stl": {"cins": "cinsS", "cget": "cgetS", "cinc": "cinc", "ccnt": "count"},
            "pm": {"cins": "cinsS", "cget": "cgetS", "cinc": "cincI", "ccnt": "size"},
            "clevel": {"cins": "cinsS", "cget": "cgetS", "cinc": "cincI"}}.get(kind, {})
    out = []
    for e in ev:
        if e[0] == "c":
            out.append(["c", e[1], cont.get(e[2], e[2]), e[3], e[4], e[5]])
        else:
            out.append(e)
    return out


def build_forest(hists, nkeys, track, floors, sizes, stale=False, durable=False):
    """Histories with common prefixes shared: one node per event."""
    ev, ch, leaf, roots, idx = [], [], [], [], {}
    ends = []
    threads = 1
    for h in hists:
        parent = 0
        for e in h:
            key = (parent, json.dumps(e))
            n = idx.get(key)
            if n is None:
                ev.append(e)
                ch.append([])
                leaf.append(False)
                n = len(ev)
                idx[key] = n
                (roots if parent == 0 else ch[parent - 1]).append(n)
                if e[0] == "c":
                    threads = max(threads, e[1])
            parent = n
        leaf[parent - 1] = True
        ends.append(parent)
    return {"keys": nkeys, "threads": threads, "track": track, "floors": floors, "sizes": sizes, "stale": stale, "durable": durable,
            "ev": ev, "ch": ch, "leaf": leaf, "roots": roots}, ends


_n = [0]


def validate_forest(module, forest, ends, work, timeout=700):
    _n[0] += 1
    p = os.path.join(work, "forest%d-%d.json" % (os.getpid(), _n[0]))
    with open(p, "w") as f:
        json.dump(forest, f)
    r = tlc(module + ".tla", module + ".cfg", {"FOREST": p}, timeout=timeout, heap="10g")
    os.remove(p)
    if r.returncode != 0 or "No error has been found" not in r.stdout:
        raise CheckError("TLC failed on recorded traces:\n" + r.stdout[-3000:] + r.stderr[-1000:])
    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.stdout))
    g, d = tlc_stats(r.stdout)
    return [i for i, e in enumerate(ends) if e not in acc], {"states": d, "transitions": g, "nodes": len(forest["ev"])}


def validate(hists, nkeys, work, track=False, floors=True, sizes=True, module="HistTrace", stale=False, durable=False):
    """hists: lists of encoded events. Returns (rejected indexes, stats). Chunks keep the forest small."""
    rej, tot = [], {"states": 0, "transitions": 0, "nodes": 0}
    CH = 40000
    for c in range(0, len(hists), CH):
        f, ends = build_forest(hists[c:c + CH], nkeys, track, floors, sizes, stale, durable)
        a, st = validate_forest(module, f, ends, work)
        rej += [c + i for i in a]
        for k in tot:
            tot[k] += st[k]
    return rej, tot


# ------------------------------------------------------------------ sequences generated from the specification
def seqgen(work, num=None, **cfg):
    """Call sequences with the results that the specification prescribes. num: simulate that many; otherwise all."""
    cfg.setdefault("cont", False)
    cfg.setdefault("fillop", "cinsU")
    cfg.setdefault("fill", [0])
    cfg["random"] = num is not None
    _n[0] += 1
    p = os.path.join(work, "seq%d-%d.json" % (os.getpid(), _n[0]))
    json.dump(cfg, open(p, "w"))
    extra = ["-simulate", "num=%d" % num, "-seed", str(SEED), "-depth", str(cfg["depth"] + 5)] if num else []
    r = tlc("SeqGen.tla", "SeqGen.cfg", {"SEQCFG": p}, workers=1 if num else CORES, extra=extra)
    out = [json.loads(json.loads(l[len('<<"SEQ", '):-2])) for l in r.stdout.splitlines() if l.startswith('<<"SEQ", ')]
    if r.returncode != 0 or not out:
        raise CheckError("TLC failed to generate sequences:\n" + r.stdout[-2000:] + r.stderr[-1000:])
    if num:
        m = re.findall(r"number of states generated: (\d+)", r.stdout)
        st = {"states": sum(len(h) for h in out), "transitions": int(m[-1]) if m else 0}
    else:
        g, d = tlc_stats(r.stdout)
        st = {"states": d, "transitions": g}
    return sorted(out), st
