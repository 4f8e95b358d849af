#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property
   check.py replay <file>               repeats a recorded violation
Exit 0: held on everything explored.  1: VIOLATION.  2: the check could not do its work."""
import json, os, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.states = self.trans = self.traces = self.runs = self.crashes = self.events = 0
        self.samples, self.parts, self.assume = [], [], []
        self.violation = None
        self.listed = known_findings(pid)
        self.seen = {}

    def add_model(self, name, out):
        g, d = tlc_stats(out)
        self.states += d
        self.trans += g
        self.parts.append({"model": name, "distinct_states": d, "states_generated": g})


def known_findings(pid):
    """Lines 'KNOWN pid key' of the known-findings file: findings that were not repaired."""
    r = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        w = l.split(None, 3)
        if len(w) >= 3 and w[0] == "KNOWN-FINDING:" and w[1] == "property=" + pid:
            r[w[2]] = l.strip()
    return r


def model(res, module, cfg, expect_ok=True, **kw):
    """Exhaustive TLC run of a specification."""
    r = tlc(module + ".tla", cfg + ".cfg", **kw)
    ok = r.returncode == 0 and "No error has been found" in r.stdout
    if not ok:
        raise CheckError("model %s/%s: TLC does not accept the specification\n%s" % (module, cfg, r.stdout[-3000:]))
    res.add_model(cfg, r.stdout)


def describe(h, module="HistTrace"):
    return {"scenario": h["s"], "schedule": h.get("sched", ""), "crash": h.get("crash", ""), "events": h["ev"]}


def repeats(h, flags, work):
    """Repeats the run and its validation."""
    job = Job([h["scn"]], lib=h["lib"], sched=h["sched"], only=h["s"], **dict({"crashat": h["crash"]} if h["crash"] else {}, **{k: h["opt"][k] for k in ("kill", "slots", "deref") if k in h["opt"]}))
    again, _ = run_jobs([job], work)
    if not any(x["ev"] == h["ev"] for x in again):
        return False
    rej, _ = validate([encode_events(h["ev"], h["scn"].kind)], work=work, **flags)
    if not rej:
        raise CheckError("a rejection could not be repeated: %s" % json.dumps(describe(h)))
    return True


def confirm(res, hs, flags, work):
    """The first of the rejected runs that can be repeated, and its replay file. (None can if the code reads what it never wrote: then it is the first.)"""
    rep = next((h for h in hs[:8] if repeats(h, flags, work)), None)
    h = rep or hs[0]
    if not rep:
        print("(the run differs when it is repeated: the code depends on uninitialized or freed memory, or on time)")
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "violation-%s.json" % res.pid)
    json.dump({"property": res.pid, "lib": h["lib"], "scenario": h["scn"].text(), "name": h["s"], "kind": h["scn"].kind,
               "schedule": h["sched"], "crash": h["crash"], "kill": h["opt"].get("kill", 0), "slots": h["opt"].get("slots", 0), "deref": h["opt"].get("deref", 0), "events": h["ev"], "flags": flags}, open(p, "w"), indent=1)
    return h, p


def histories(res, jobs, work, track=False, floors=True, sizes=True, durable=False, module="HistTrace", label="", nkeys=None):
    """Explores, validates the recorded histories with TLC, confirms the first rejection."""
    if res.violation:
        return
    hs, st = run_jobs(jobs, work)
    nk = nkeys or max(len(s.keys) if s.keys else s.nkeys for j in jobs for s in j.scns)
    flags = dict(nkeys=nk, track=track, floors=floors, sizes=sizes, durable=durable)
    ts = {"states": 0, "transitions": 0, "nodes": 0}
    for flags["module"] in module.split("+"):       # judged by each of these specifications
        rej, t1 = validate([encode_events(h["ev"], h["scn"].kind) for h in hs], work=work, **flags)
        for k in ts:
            ts[k] += t1[k]
        if rej:
            break
    res.states += ts["states"]
    res.trans += ts["transitions"]
    res.traces += len(hs)
    res.events += ts["nodes"]
    res.runs += sum(s["runs"] for s in st)
    res.crashes += sum(s["crashes"] for s in st)
    res.parts.append({"family": label, "scenarios": len(st), "schedules_run": sum(s["runs"] for s in st), "recoveries_run": sum(s["crashes"] for s in st),
                      "crash_images": sum(s["images"] for s in st), "nested_crashes": sum(s["nested"] for s in st),
                      "distinct_histories": len(hs), "dropped": sum(s["dropped"] for s in st), "tlc_states": ts["states"], "rejected": len(rej)})
    if rej and track:
        # Known finding persist-stale: only histories in which it happened, judged by the specification that admits it.
        st = [i for i in rej if any(e[0] == "B" for e in hs[i]["ev"])]
        if st and "persist-stale" in res.listed:
            bad, _ = validate([encode_events(hs[i]["ev"], hs[i]["scn"].kind) for i in st], work=work, stale=True, **flags)
            ok = set(st) - set(st[j] for j in bad)
            res.seen["persist-stale"] = res.seen.get("persist-stale", 0) + len(ok)
            rej = [i for i in rej if i not in ok]
            res.parts[-1]["known_finding_histories"] = len(ok)
    if len(res.samples) < 4 and hs:
        h = hs[len(hs) // 2]
        res.samples.append(describe(h))
    if rej:
        rej.sort(key=lambda i: (len(hs[i]["crash"]), len(hs[i]["sched"]), len(hs[i]["ev"])))
        h, res.violation = confirm(res, [hs[i] for i in rej], flags, work)
        print("rejected %d of %d histories; the shortest (scenario %s, schedule '%s', crash '%s'):" % (len(rej), len(hs), h["s"], h["sched"], h["crash"]))
        for e in h["ev"]:
            print("   ", e)


def prog(seq):
    return "; ".join(" ".join(str(x) for x in c[:4]) for c in seq)


def sequences(res, work, label, kind="map", lib="ucf", len_=8, rawkeys=None, rawvals=None, num=None, waits=(), opt={}, pool=0, listed=None, filler="", **cfg):
    """Sequences generated by TLC from the specification, replayed into the real code; every result is compared."""
    if res.violation:
        return
    seqs, st = seqgen(work, num=num, big=rawkeys is not None, **cfg)
    res.states += st["states"]
    res.trans += st["transitions"]
    ren = {"cinsU": "cins", "cinsS": "cins", "cgetU": "cget", "cgetS": "cget", "cincI": "cinc", "count": "ccnt"}
    scns = []
    for i, s in enumerate(seqs):
        c = [[ren.get(o[0], o[0])] + o[1:] for o in s]
        if kind != "map":
            c = [x for o in c for x in ([["wait"]] if o[0] in waits else []) + [["ccnt" if o[0] == "size" else o[0], o[1], 0, 0]]]
        scns.append(Scn("%s.%d" % (re.sub(r"[^A-Za-z0-9]+", "_", label), i), [prog(c)], kind=kind, len=len_, keys=rawkeys, vals=rawvals, nkeys=cfg["keys"], pool=pool, fill=filler))
    hs, es = run_jobs(split(scns, **dict(dict(bound=0, max=1, rand=0, lib=lib), **opt)), work)
    res.runs += sum(e["runs"] for e in es)
    res.traces += len(hs)
    exp = {s.name: q for s, q in zip(scns, seqs)}
    bad = []
    for h in hs:
        got = [e[2] for e in h["ev"] if e[0] == "r"]
        want = [o[4] for o in exp[h["s"]]]
        if got != want and listed and listed[0] in res.listed and listed[1](h, exp[h["s"]], got):
            res.seen[listed[0]] = res.seen.get(listed[0], 0) + 1
        elif got != want:
            bad.append((h, next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)))
    res.parts.append({"family": label, "sequences": len(seqs), "calls": sum(len(s) for s in seqs), "table_length": len_, "mismatches": len(bad)})
    if set(h["s"] for h in hs) != set(s.name for s in scns):
        raise CheckError("not every sequence was replayed")
    if len(res.samples) < 3:
        res.samples.append({"family": label, "calls_with_expected_results": seqs[len(seqs) // 2][:40]})
    if bad:
        bad.sort(key=lambda x: (x[1], len(x[0]["ev"])))
        h, res.violation = confirm(res, [x[0] for x in bad], dict(nkeys=cfg["keys"], track=False, floors=True, sizes=True, module="HistTrace"), work)
        i = next(x[1] for x in bad if x[0] is h)
        e = exp[h["s"]]
        print("%d of %d sequences differ; in %s call %d, %s, should give %s" % (len(bad), len(seqs), h["s"], i + 1, e[i][:4], e[i][4]))


def split(scns, n=None, **opt):
    lib = opt.pop("lib", "ucf")
    n = n or min(len(scns), 3 * CORES)
    return [Job(scns[i::n], lib=lib, **opt) for i in range(n)]


def finish(res, level, rule, t0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": res.pid, "tier": vlib.TIER, "seed": SEED, "level": level,
          "coverage": {"states": res.states, "transitions": res.trans, "traces_validated_against_impl": res.traces,
                       "runs_of_the_code": res.runs, "recoveries_run": res.crashes, "trace_events": res.events,
                       "rule": rule,
                       "parts": res.parts, "samples": res.samples},
          "assumptions": res.assume, "wall_s": round(time.time() - t0, 1), "violations": 1 if res.violation else 0}
    json.dump(ev, open(os.path.join(d, res.pid + ".json"), "w"), indent=1)
    for k in res.listed:
        print("%s [seen in %d of the runs]" % (res.listed[k], res.seen.get(k, 0)))
    if res.violation:
        print("VIOLATION property=%s replay=%s" % (res.pid, res.violation))
        return 1
    print("%s: held: %d runs, %d recoveries, %d distinct traces accepted, %d states, %.0f s" %
          (res.pid, res.runs, res.crashes, res.traces, res.states, time.time() - t0))
    return 0


def replay(path):
    import props
    o = json.load(open(path))
    if "flags" not in o:
        return props.replay(o)
    work = tempfile.mkdtemp(prefix="work", dir=BUILD)
    try:
        f = os.path.join(work, "r.scn")
        open(f, "w").write(o["scenario"])
        cmd = [build_explore(), build_lib(o["lib"]), f, "-sched", arg(o["schedule"], work), "-only", o["name"]]
        if o["crash"]:
            cmd += ["-crashat", arg(o["crash"], work)]
        for k in ("kill", "slots", "deref"):
            if o.get(k):
                cmd += ["-" + k, str(o[k])]
        r = sh(cmd)
        hs = [json.loads(l) for l in r.stdout.splitlines() if "ev" in json.loads(l)]
        for h in hs:
            print(json.dumps(h["ev"]))
        rej, _ = validate([encode_events(h["ev"], o["kind"]) for h in hs], work=work, **o["flags"])
        print("rejected" if rej else "accepted")
        return 1 if rej else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    t0 = time.time()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
    import props
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work", dir=BUILD)
    try:
        res = Result(pid)
        level, rule = props.CHECKS[pid](res, work, vlib.TIER == "thorough")
        return finish(res, level, rule, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: " + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
