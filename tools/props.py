"""One function per property: what is explored, and which specification judges it."""
import scen
from scen import MENU
from vlib import *
from check import *

RULE = ("Programs for 1-4 threads over few keys are run on the compiled code under an own scheduler (all schedules with few preemptions, then random ones; "
        "crash images at sampled instants); every distinct history is one trace, validated by TLC. Distinct: no two have the same events.")
EVERY = 1000000


def spec(res):
    model(res, "LinMap", "LinMap")
    res.assume += ["sequentially consistent memory (the code uses seq_cst atomics; x86)",
                   "hash function std::hash<size_t> (identity), as instantiated by the containers"]


def cliff(res, cfg, **kw):
    """The algorithm itself, step by step: it obeys Slots, its calls are atomic, they return."""
    model(res, "MCCliff", cfg, pcal="CliffMap.tla", timeout=3600, **kw)


def crashspec(res):
    spec(res)
    res.assume += ["a cache line reaches memory as some prefix of its stores; a flush is complete at the next fence of the same thread",
                   "creation, truncation, renaming and removal of files are durable at once"]


def c01(res, work, deep):
    spec(res)
    histories(res, split(scen.pairs(), bound=3, max=20000, rand=0), work, sizes=False, label="every pair of operations on one key")
    histories(res, split(scen.small(SEED, 6000 if deep else 500, "s"), bound=3 if deep else 2, max=6000 if deep else 2500, rand=2000 if deep else 200), work, sizes=False,
              label="random programs, colliding keys")
    return "model_checking", RULE


def c02(res, work, deep):
    spec(res)
    if deep:
        cliff(res, "CliffMap")
    histories(res, split(scen.growing(SEED, 2000 if deep else 200, "g"), bound=2, max=20000 if deep else 2500, rand=3000 if deep else 400), work, sizes=False, label="one growth")
    histories(res, split(scen.nested(SEED, 400 if deep else 64, "n"), bound=2, max=6000 if deep else 1500, rand=2000 if deep else 300), work, sizes=False, label="nested growth")
    histories(res, split(scen.large(SEED, 300 if deep else 48, "L"), bound=2, max=3000 if deep else 300, rand=1000 if deep else 150), work, sizes=False, label="growth in several chunks")
    histories(res, split(scen.third(SEED, 160 if deep else 24, "x"), bound=2, max=6000 if deep else 1200, rand=2000 if deep else 200), work, sizes=False, label="three tables at once")
    return "model_checking", RULE


MAPOPS = ["get", "has", "put", "pia", "rem", "remv", "repl", "inc"]


def c03(res, work, deep):
    n = 5 if deep else 1
    def q(label, raw, vals_raw=None, **kw):
        sequences(res, work, label, rawkeys=raw, rawvals=vals_raw, **kw)
    q("every sequence of %d calls on one key" % (5 if deep else 4), None, keys=1, depth=5 if deep else 4, vals=[1, 2] if not deep else [1], ops=MAPOPS + ["empty"])
    q("every sequence of 3 calls on two colliding keys", [8, 72], len_=64, keys=2, depth=3, vals=[1, 2], ops=MAPOPS)
    q("long sequences, growth from 8 slots", None, num=400 * n, keys=12, depth=80, vals=[1, 2, 3], ops=MAPOPS + ["size", "empty"], fill=[0, 7, 8, 9, 12])
    q("long sequences, many keys, several growths", None, num=60 * n, keys=40, depth=200, vals=[1, 2, 3], ops=MAPOPS + ["size", "empty", "put"], fill=[0, 8, 13, 14, 20, 30, 40])
    q("long sequences, one collision chain", [56 + 64 * i for i in range(30)], len_=64, num=60 * n, keys=30, depth=150, vals=[1, 2, 3], ops=MAPOPS + ["size", "empty"], fill=[0, 9, 10, 18, 25, 26, 30])
    q("long sequences, chain around the end of the table", [2040 + 2048 * i for i in range(24)], len_=256, num=40 * n, keys=24, depth=120, vals=[1, 2, 3], ops=MAPOPS, fill=[0, 10, 20, 24])
    for ln in (1024, 2048, 4096):
        h = 8 * (ln // 32)
        q("growth of a table of %d slots" % ln, [h + ln * 100 * i for i in range(1, 7)] + [8 * i * (ln // 64) + ln * 1000 for i in range(8)], len_=ln, num=24 * n, keys=14, depth=60, vals=[1, 2, 3], ops=MAPOPS, fill=[0, 8],
          filler="%d %d 8 9 %d %d" % (ln // 4 + 2, 8 * 11, h + 8 * ln, ln))
    for ln in (2 ** 17, 2 ** 20) if deep else (2 ** 17,):
        q("table of %d slots" % ln, [8 * (ln // 8 - 1), 8 * (ln // 16), 8 * (ln // 16) + 8 * ln, 8 * (ln // 16 - 1), 2 ** 31, 2 ** 32, 2 ** 63 + 8 * (ln // 16), 8 * 2 ** 10, 8 * 2 ** 12, 0], len_=ln, num=3 * n, keys=10, depth=80,
          vals=[1, 2, 3], ops=MAPOPS + ["size"], fill=[0])
    big = [0, 8, 2 ** 63, 2 ** 64 - 40, 2 ** 64 - 48, 2 ** 32, 2 ** 31, 2 ** 33 - 8, 2 ** 61, 16, 2 ** 62 + 8]
    q("extreme keys and values", big, vals_raw=[0, 8, 2 ** 63, 2 ** 64 - 40, 2 ** 32, 2 ** 61, 2 ** 64 - 48], num=300 * n, keys=len(big), depth=100, vals=[0, 1, 2, 3, 4, 5, 6],
      ops=[o for o in MAPOPS if o != "inc"] + ["size", "empty"], fill=[0])
    return "model_checking", ("Call sequences with their results are generated by TLC from MapOps (all of them for few calls, random ones for long histories) and replayed into the compiled map; "
                              "every result is compared. Each sequence is one trace.")


def c04(res, work, deep):
    spec(res)
    m = ["inc", "inc", "inc", "get"]
    histories(res, split(scen.small(SEED, 2000 if deep else 200, "i", menu=m), bound=3 if deep else 2, max=3000, rand=300), work, sizes=False, label="increments, no growth")
    histories(res, split(scen.growing(SEED, 1500 if deep else 150, "ig", menu=m + ["put"]), bound=2, max=10000 if deep else 2500, rand=400), work, sizes=False, label="increments during growth")
    histories(res, split(scen.nested(SEED, 300 if deep else 40, "in", menu=m), bound=2, max=5000 if deep else 1500, rand=300), work, sizes=False, label="increments during nested growth")
    return "model_checking", RULE


def c05(res, work, deep):
    spec(res)
    histories(res, split(scen.pairs(size=True), bound=3, max=20000, rand=0), work, label="every pair of operations on one key, then size")
    histories(res, split(scen.small(SEED, 2000 if deep else 200, "z", size=True), bound=2, max=2500, rand=200), work, label="random programs, then size")
    histories(res, split(scen.growing(SEED, 1500 if deep else 150, "zg", size=True), bound=2, max=10000 if deep else 2500, rand=400), work, label="growth, then size")
    histories(res, split(scen.nested(SEED, 300 if deep else 40, "zn", size=True), bound=2, max=5000 if deep else 1500, rand=300), work, label="nested growth, then size")
    histories(res, split(scen.third(SEED, 100 if deep else 16, "zx", size=True), bound=2, max=4000 if deep else 1000, rand=1000 if deep else 100), work, label="three tables at once")
    return "model_checking", RULE


def c06(res, work, deep):
    kw = dict(module="DoneTrace", sizes=False)
    cliff(res, "CliffLiveAll" if deep else "CliffLive")
    histories(res, split(scen.pairs(), bound=3, max=20000, rand=0), work, label="every pair of operations on one key", **kw)
    histories(res, split(scen.small(SEED, 2000 if deep else 200, "t"), bound=2, max=2500, rand=200), work, label="random programs", **kw)
    histories(res, split(scen.growing(SEED, 2000 if deep else 250, "tg"), bound=3 if deep else 2, max=20000 if deep else 4000, rand=1000), work, label="growth", **kw)
    histories(res, split(scen.nested(SEED, 400 if deep else 64, "tn"), bound=2, max=5000 if deep else 2000, rand=400), work, label="nested growth", **kw)
    histories(res, split(scen.large(SEED, 300 if deep else 32, "tL"), bound=2, max=2000 if deep else 200, rand=1000 if deep else 150), work, label="growth in several chunks", **kw)
    def again(ss, more=""):     # further calls drive a growth: reads of a few keys, new keys where the newest table but one is crowded
        for s in ss:
            s.post = more + "; ".join(["get 1; get 2; get 3; get 4"] * 2)
        return ss
    g = dict(slots=2, found=1000)
    kw["module"] = "GrowTrace"
    histories(res, split(again(scen.growing(SEED, 1000 if deep else 150, "tf")), bound=2, max=10000 if deep else 1500, rand=500, **g), work, label="growth finishes", **kw)
    histories(res, split(again(scen.nested(SEED, 400 if deep else 64, "tfn"), "put 22 600; put 21 601; "), bound=2, max=6000 if deep else 1000, rand=500, **g), work, label="nested growth finishes", **kw)
    histories(res, split(again(scen.large(SEED, 200 if deep else 32, "tfL")), bound=2, max=2000 if deep else 200, rand=200, **g), work, label="growth in several chunks finishes", **kw)
    histories(res, split(again(scen.third(SEED, 100 if deep else 16, "tfx"), "put 10 600; "), bound=2, max=4000 if deep else 1000, rand=1000 if deep else 100, **g), work, label="three tables at once, growth finishes", **kw)
    res.assume += ["sequentially consistent memory", "fair scheduler: no thread is paused forever"]
    return "model_checking", RULE


def c07(res, work, deep):
    crashspec(res)
    c = dict(crash=EVERY, points=300 if deep else 120, images=8 if deep else 4, nested=0.01, npoints=10, crashes=60000 if deep else 8000)
    histories(res, split(scen.seen(scen.pairs()), bound=1, max=3000, rand=10, **c), work, track=True, sizes=False, label="crash of every pair of operations on one key")
    histories(res, split(scen.seen(scen.small(SEED, 1500 if deep else 200, "c")), bound=2 if deep else 1, max=1500, rand=60, **c), work, track=True, sizes=False, label="crash of random programs")
    return "model_checking", RULE


def c08(res, work, deep):
    crashspec(res)
    c = dict(crash=EVERY, points=300 if deep else 80, images=8 if deep else 3, nested=0.01, npoints=10, crashes=60000 if deep else 6000)
    histories(res, split(scen.seen(scen.growing(SEED, 1000 if deep else 120, "cg")), bound=2 if deep else 1, max=600, rand=40, **c), work, track=True, sizes=False, label="crash during growth")
    c["crashes"] //= 2
    histories(res, split(scen.seen(scen.nested(SEED, 200 if deep else 30, "cn")), bound=1, max=400, rand=40, **c), work, track=True, sizes=False, label="crash during nested growth")
    histories(res, split(scen.seen(scen.large(SEED, 120 if deep else 16, "cL")), bound=1, max=40, rand=40, **dict(c, crashes=8000 if deep else 1000)), work, track=True, sizes=False, label="crash during a growth in several chunks")
    histories(res, split(scen.seen(scen.third(SEED, 80 if deep else 16, "cx")), bound=1, max=1000 if deep else 400, rand=40, **dict(c, points=200 if deep else 40, light=6, crashes=20000 if deep else 3000)), work, track=True, sizes=False, label="crash with three tables at once")
    return "model_checking", RULE


def c09(res, work, deep):
    crashspec(res)
    c = dict(crash=EVERY, images=8 if deep else 3, npoints=30, crashes=40000 if deep else 5000, depth=2)
    kw = dict(track=True, floors=False, sizes=False)
    ss = scen.small(SEED, 600 if deep else 80, "r")
    for i, s in enumerate(ss):
        s.rpost = ""
    histories(res, split(ss, bound=1, max=300, rand=30, points=120, nested=0.05, **c), work, label="crash, recovery, crash of the recovery", **kw)
    gs = scen.growing(SEED, 400 if deep else 60, "rg", rpost=False)
    histories(res, split(gs, bound=1, max=300, rand=30, points=80, nested=0.05, **c), work, label="the same during growth", **kw)
    ns = scen.nested(SEED, 100 if deep else 16, "rn", rpost=False)
    histories(res, split(ns, bound=1, max=200, rand=20, points=80, nested=0.05, **c), work, label="the same during nested growth", **kw)
    ls = scen.large(SEED, 60 if deep else 16, "rL", rpost=False)
    histories(res, split(ls, bound=1, max=40, rand=40, points=80, nested=0.02, **dict(c, crashes=4000 if deep else 600)), work, label="the same during a growth in several chunks", **kw)
    xs = scen.third(SEED, 60 if deep else 8, "rx", rpost=False)
    histories(res, split(xs, bound=1, max=800 if deep else 300, rand=30, points=40, nested=0.05, **dict(c, crashes=8000 if deep else 1000)), work, label="the same with three tables at once", **kw)
    for k in (8, 9, 99) if deep else (9,):      # table files are found by number, not by name: 9 -> 10 tables and more
        xs = scen.growing(SEED, 100 if deep else 16, "rs%d" % k, rpost=False, nkeys=21) + scen.nested(SEED, 30 if deep else 6, "rsn%d" % k, rpost=False)
        for s in xs:
            s.skip = k
        histories(res, split(xs, bound=0, max=3, rand=5, points=40, nested=0.05, **dict(c, crashes=4000 if deep else 600)), work, label="the same with table numbers from %d" % k, **kw)
    ws = scen.growing(SEED, 200 if deep else 24, "rw", rpost=False)
    for s in ws:
        s.renew, s.rthreads = True, ["put 1 900; put 2 901; rem 1; get 2"]
    histories(res, split(ws, bound=0, max=3, rand=3, points=20, nested=1, **dict(c, depth=1, images=2, npoints=20, crashes=20000 if deep else 3000)), work, track=True,
              label="a map created without recovery after a crash, crash and recovery of it")
    fs = scen.small(SEED, 60, "f")
    for s in fs:
        s.fresh2, s.rpost = True, "put 1 900; get 1; get 2; size"
    histories(res, split(fs, bound=0, max=20, rand=0), work, sizes=False, label="a map created without recovery is empty")
    return "model_checking", RULE


def c10(res, work, deep):
    crashspec(res)
    c = dict(crash=EVERY, images=4 if deep else 2, npoints=20, crashes=20000 if deep else 1200, depth=1)
    out = []
    for i, s in enumerate(scen.small(SEED, 300 if deep else 40, "u") + scen.growing(SEED, 600 if deep else 80, "ug") + scen.nested(SEED, 100 if deep else 16, "un")):
        import random
        rng = random.Random("%s-%d" % (SEED, i))
        g = scen.Gen(rng, 600)
        ks = rng.sample(range(1, 5), 2)
        s.rthreads = g.threads(rng.choice(((2, 2), (1, 2), (2, 1, 1))), ks, MENU, {k: [101, 102] for k in ks})
        if not s.keys or s.keys[:2] == [8, 16]:
            s.keys, s.nkeys = [8 * k for k in range(1, 25)] + [0], 25
        if s.nkeys == 25 and rng.random() < 0.5:
            s.rthreads[0] += "; " + "; ".join("put %d %d" % (k, g.fresh()) for k in range(12, 12 + rng.choice((3, 8))))
        s.post = ""
        s.rpost = scen.gets(ks) + "; size"
        out.append(s)
    scen.seen(out, 0.5)
    for s in out[::5]:
        s.skip = 9
    k1 = [s for s in out if s.nkeys != 25]
    k2 = [s for s in out if s.nkeys == 25]
    histories(res, split(k2, bound=1, max=60, rand=10, points=40, nested=0.01, **c), work, track=True, label="threads on the recovered map, growth of it, second crash")
    histories(res, split(k1, bound=1, max=60, rand=10, points=40, nested=0.01, **c), work, track=True, label="threads on the recovered map") if k1 else None
    return "model_checking", RULE


U = ["cinsU", "cinsU", "cera", "chas", "cgetU", "cinc"]
S = ["cinsS", "cinsS", "cera", "chas", "cgetS", "cinc"]
P = ["cinsS", "cinsS", "cera", "chas", "cgetS", "cincI"]


def erased_while_expanding(h, exp, got):
    """Known finding clevel-erase-expanding: an erase frees an entry twice, or the first wrong result follows an erase that found its key
    (the key comes back, or the freed entry, still in the table, is reused for another key)."""
    last = h["ev"][-1]
    if last[0] == "a":
        open_call = [e for e in h["ev"] if e[0] == "c"][-1]
        return open_call[2] == "cera" and last[2] in ("abort: object freed twice", "abort: free of an invalid object", "crash: invalid memory access")
    i = next(i for i, e in enumerate(exp) if got[i] != e[4])
    return any(e[0] == "cera" and e[4] == 1 for e in exp[:i + 1])


def c11(res, work, deep):
    n = 6 if deep else 1
    d = 5 if deep else 4
    def q(kind, label, ops, **kw):
        sequences(res, work, "%s: %s" % (kind, label), kind=kind, lib=kind if kind in ("pm", "clevel") else "ucf", cont=True, vals=[0], ops=ops,
                  fillop="cinsU" if kind == "ucf" else "cinsS", **kw)
    for kind, ops, size in (("ucf", U, ["size"]), ("stl", S, ["count"]), ("pm", P, ["size"]), ("clevel", P, [])):
        q(kind, "every sequence of %d calls on one key" % (d + 1), ops[1:], keys=1, depth=d + 1)
        q(kind, "every sequence of %d calls on two keys" % (d - 1), ops[1:] + size, keys=2, depth=d - 1)
    long = [0, 1, 5, 12, 30]
    q("ucf", "long sequences", U + ["size"], num=200 * n, keys=30, depth=120, fill=long)
    q("ucf", "extreme keys", U + ["size"], num=60 * n, keys=6, depth=80, fill=[0, 6], rawkeys=[2 ** 61 - 100, 2 ** 60, 2 ** 32, 2 ** 31 - 1, 5000, 2 ** 61 - 4000])
    q("stl", "long sequences", S + ["count"], num=200 * n, keys=30, depth=120, fill=long)
    q("pm", "long sequences, growth", P + ["size"], num=200 * n, keys=40, depth=150, fill=long + [40])
    q("pm", "second segment of buckets", P, num=40 * n, keys=8, depth=80, fill=[0, 4], rawkeys=[51200 + x for x in (100, 356, 612, 101, 357, 868, 5000, 255)], filler="250 65536 1")
    q("pm", "extreme keys", P + ["size"], num=60 * n, keys=6, depth=80, fill=[0, 6], rawkeys=[2 ** 64 - 100, 2 ** 63, 2 ** 32, 2 ** 31 - 1, 5000, 2 ** 61])
    col = scen.collide
    q("clevel", "long sequences", P, num=60 * n, keys=20, depth=120, fill=[0, 1, 5, 12, 20], rawkeys=[5000 + 7 * i * i * i for i in range(18)] + [2 ** 63, 2 ** 64 - 100])
    q("clevel", "full buckets", P, num=60 * n, keys=24, depth=160, fill=[0, 8, 16, 24], rawkeys=col(24), opt=dict(bound=1, max=10, rand=5))
    q("clevel", "insertions during expansion", [o for o in P if o != "cera"], num=40 * n, keys=60, depth=120, fill=[0, 24, 31, 32], rawkeys=col(60),
      opt=dict(bound=1, max=40, rand=20), pool=32 << 20)
    q("clevel", "removals after expansion", P, num=24 * n, keys=80, depth=160, fill=[24, 32, 40], rawkeys=col(80), opt=dict(bound=1, max=10, rand=10), pool=32 << 20, waits=("cera",))
    q("clevel", "removals after expansion, last bucket", P, num=12 * n, keys=80, depth=160, fill=[24, 32, 40], rawkeys=col(80, True), opt=dict(bound=1, max=10, rand=10), pool=32 << 20, waits=("cera",))
    q("clevel", "removals during expansion", P, num=32 * n, keys=60, depth=110, fill=[30], rawkeys=col(60), opt=dict(bound=1, max=20, rand=40), pool=32 << 20,
      listed=("clevel-erase-expanding", erased_while_expanding))
    res.assume += ["libpmemobj itself (not part of the repository) is represented by harness/fakeobj.hpp", "sequentially consistent memory (background thread of clevel)"]
    return "model_checking", ("Call sequences with their results are generated by TLC from MapOps with the contract of each container, and replayed into the compiled containers; "
                              "every result is compared. Each sequence is one trace; clevel runs under many schedules of its background thread.")


def c12(res, work, deep):
    spec(res)
    out = []
    import random
    for i in range(3000 if deep else 300):
        rng = random.Random("stl-%s-%d" % (SEED, i))
        ops = ["cins", "cins", "cera", "chas", "cget", "cinc", "ccnt"]
        def prog(n):
            l = []
            for _ in range(n):
                o = rng.choice(ops)
                l.append(o if o == "ccnt" else "%s %d" % (o, rng.choice((1, 1, 2, 3))))
            return "; ".join(l)
        setup = "; ".join("cins %d" % k for k in (1, 2, 3) if rng.random() < 0.5)
        out.append(Scn("stl%d" % i, [prog(n) for n in rng.choice(((2, 2), (3, 2), (2, 1, 2), (1, 1, 1)))], setup=setup, post="cget 1; cget 2; chas 3; ccnt", kind="stl", nkeys=3))
    histories(res, split(out, bound=3 if deep else 2, max=3000, rand=100), work, label="std::map container under threads")
    return "model_checking", RULE


def c13(res, work, deep):
    spec(res)
    res.assume.append("libpmemobj itself (not part of the repository) is represented by harness/fakeobj.hpp")
    histories(res, split(scen.pmsmall(SEED, 1500 if deep else 150, "h"), bound=3 if deep else 2, max=4000 if deep else 1000, rand=300 if deep else 60, lib="pm"), work, label="few keys")
    histories(res, split(scen.pmgrow(SEED, 1500 if deep else 200, "hg"), bound=3 if deep else 2, max=6000 if deep else 1500, rand=500 if deep else 80, lib="pm"), work, label="new segments, lazy bucket split")
    histories(res, split(scen.pmempty(SEED, 1500 if deep else 200, "he"), bound=3 if deep else 2, max=6000 if deep else 1500, rand=500 if deep else 80, lib="pm"), work, label="first segment of buckets")
    histories(res, split(scen.pmsecond(SEED, 600 if deep else 60, "hs"), bound=2, max=3000 if deep else 800, rand=500 if deep else 80, lib="pm"), work, sizes=False, label="second segment of buckets")
    histories(res, split(scen.pmsplit(SEED, 600 if deep else 80, "hp"), bound=2, max=3000 if deep else 800, rand=500 if deep else 80, lib="pm"), work, sizes=False, label="split of a crowded bucket")
    d = dict(lib="pm", deref=1, rand=200 if deep else 60)   # also between the nodes of a bucket
    histories(res, split(scen.pmgrow(SEED, 1000 if deep else 120, "hdg"), bound=2, max=10000 if deep else 2500, **d), work, label="node by node: new segments, lazy bucket split")
    histories(res, split(scen.pmempty(SEED, 1000 if deep else 120, "hde"), bound=2, max=10000 if deep else 2500, **d), work, label="node by node: first segment of buckets")
    histories(res, split(scen.pmsecond(SEED, 400 if deep else 40, "hds"), bound=2, max=6000 if deep else 1500, **d), work, sizes=False, label="node by node: second segment of buckets")
    histories(res, split(scen.pmsplit(SEED, 600 if deep else 80, "hdp"), bound=2, max=6000 if deep else 2000, **d), work, sizes=False, label="node by node: split of a crowded bucket")
    return "model_checking", RULE


def c14(res, work, deep):
    model(res, "LinMap", "LinMapDurable")
    crashspec(res)
    res.assume.append("libpmemobj itself (not part of the repository) is represented by harness/fakeobj.hpp")
    kw = dict(track=True, durable=True)
    c = dict(crash=EVERY, points=200 if deep else 60, images=8 if deep else 3, nested=0.02, npoints=10)
    for kill, how in ((0, "power failure"), (1, "process killed")):
        o = dict(c, kill=kill)
        n = 8 if deep else 1
        histories(res, split(scen.pmsmall(SEED, 40 * n, "k", rpost="cera 1; cget 1; cins 2; cget 2; ccnt"), bound=1, max=100, rand=10, crashes=20000 if deep else 2000, lib="pm", **o),
                  work, label="pm, %s" % how, **kw)
        histories(res, split(scen.pmgrow(SEED, 48 * n, "kg", rpost=True), bound=1, max=100, rand=10, crashes=20000 if deep else 2000, lib="pm", **o),
                  work, label="pm with growth, %s" % how, **kw)
        histories(res, split(scen.pmempty(SEED, 48 * n, "ke", rpost=True), bound=1, max=100, rand=10, crashes=20000 if deep else 2000, lib="pm", **o),
                  work, label="pm, first segment of buckets, %s" % how, **kw)
        histories(res, split(scen.pmsecond(SEED, 16 * n, "ks", rpost=True), bound=1, max=100, rand=10, crashes=8000 if deep else 800, lib="pm", **o),
                  work, sizes=False, label="pm, second segment of buckets, %s" % how, **kw)
        histories(res, split(scen.pmsplit(SEED, 24 * n, "kp", rpost=True), bound=1, max=100, rand=10, crashes=8000 if deep else 1000, lib="pm", **o),
                  work, sizes=False, label="pm, split of a crowded bucket, %s" % how, **kw)
        histories(res, split(scen.clevel(SEED, 16 * n, "l", 10, 6, 2 << 20, rpost="cins 2; cera 1; cget 1; cget 2"), bound=0, max=3, rand=3, crashes=20000 if deep else 2000, lib="clevel", **o),
                  work, sizes=False, label="clevel, %s" % how, **kw)
        histories(res, split(scen.clevel(SEED, 16 * n, "lg", 8, 60, 16 << 20, pre=28, erase=False, rpost="cins 2; cins 59; cget 1; cget 2"), bound=0, max=3, rand=3, crashes=8000 if deep else 800, lib="clevel", **o),
                  work, sizes=False, label="clevel with expansion, %s" % how, **kw)
        histories(res, split(scen.clevelmove(SEED, 24 * n, "lm", rpost="cget 1; cins 43; wait; " + scen.gets(range(1, 45)).replace("get", "cget")), bound=0, max=2, rand=1, crashes=8000 if deep else 600,
                             lib="clevel", **dict(o, points=3000 if deep else 500)),
                  work, sizes=False, label="clevel, entries moved, %s" % how, **kw)
    return "model_checking", RULE


def c15(res, work, deep):
    model(res, "MCSlots", "Slots" if deep else "SlotsQuick")
    cliff(res, "CliffMap" if deep else "CliffQuick")
    res.assume.append("sequentially consistent memory")
    kw = dict(sizes=False, module="SlotTrace")
    histories(res, split(scen.pairs(), bound=3, max=20000, rand=0, slots=1), work, label="every pair of operations on one key", **kw)
    histories(res, split(scen.small(SEED, 4000 if deep else 400, "w"), bound=3 if deep else 2, max=3000, rand=200, slots=1), work, label="random programs, colliding keys", **kw)
    histories(res, split(scen.growing(SEED, 2000 if deep else 200, "wg"), bound=2, max=20000 if deep else 1500, rand=1000 if deep else 200, slots=1, found=600), work, label="one growth", **kw)
    histories(res, split(scen.nested(SEED, 600 if deep else 64, "wn"), bound=2, max=6000 if deep else 800, rand=1000 if deep else 200, slots=1, found=300), work, label="nested growth", **kw)
    return "model_checking", ("The words of the table files and the current-table pointer are recorded while small programs run on the compiled code under an own scheduler; "
                              "every distinct sequence of changes is one trace, validated by TLC against Slots.")


def c18(res, work, deep):
    spec(res)
    o = dict(bound=2, stops=1)
    def both(ss, label, **k):
        jobs = split(ss, **dict(o, **k))
        histories(res, jobs, work, module="DoneTrace+HistTrace", sizes=False, label=label)
    def watch(ss):      # the last thread reads and writes whatever the others do
        for s in ss:
            s.threads = s.threads + ["get 1; put 2 777"]
        return ss
    both(scen.pairs(), "every pair of operations on one key", max=20000, rand=0)
    both(scen.small(SEED, 2000 if deep else 150, "b"), "random programs", max=2500, rand=200)
    both(watch(scen.growing(SEED, 1000 if deep else 150, "bg", shapes=((1, 1), (1, 2), (2, 1)))), "growth", max=10000 if deep else 2000, rand=1000)
    both(watch(scen.nested(SEED, 400 if deep else 48, "bn")), "nested growth", max=6000 if deep else 1000, rand=1000)
    both(scen.large(SEED, 200 if deep else 24, "bL"), "growth in several chunks", max=2000 if deep else 200, rand=300)
    res.assume.append("sequentially consistent memory")
    return "model_checking", RULE


CHECKS = {"C18": c18, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
