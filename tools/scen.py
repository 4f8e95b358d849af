"""Scenarios: what the real code is made to do. Every choice depends on the seed only."""
import random
from vlib import Scn

MENU = ["get", "has", "put", "pia", "rem", "remv", "repl", "inc"]


def fmt(op, k, vals, rng, fresh):
    if op in ("get", "has", "rem", "inc"):
        return "%s %d" % (op, k)
    if op in ("put", "pia"):
        return "%s %d %d" % (op, k, fresh())
    exp = rng.choice(vals) if vals and rng.random() < 0.85 else 999
    if op == "remv":
        return "remv %d %d" % (k, exp)
    return "repl %d %d %d" % (k, exp, fresh())


class Gen:
    """Random programs over a few keys with distinguishable values."""

    def __init__(self, rng, base=100):
        self.rng, self.next = rng, base

    def fresh(self):
        self.next += 1
        return self.next

    def prog(self, n, keys, menu, known):
        ops = []
        for _ in range(n):
            k = self.rng.choice(keys)
            op = self.rng.choice(menu)
            ops.append((op, k))
        return ops

    def threads(self, shapes, keys, menu, known):
        """known: key -> values it may hold. Expected values are drawn from everything any thread may write."""
        raw = [self.prog(n, keys, menu, known) for n in shapes]
        kn = {k: list(v) for k, v in known.items()}
        vals = {}
        for t, p in enumerate(raw):
            for i, (op, k) in enumerate(p):
                if op in ("put", "pia", "repl"):
                    vals[t, i] = self.fresh()
                    kn.setdefault(k, []).append(vals[t, i])
                if op == "inc":
                    kn.setdefault(k, []).extend([1, 2])
        out = []
        for t, p in enumerate(raw):
            l = []
            for i, (op, k) in enumerate(p):
                if op in ("get", "has", "rem", "inc"):
                    l.append("%s %d" % (op, k))
                elif op in ("put", "pia"):
                    l.append("%s %d %d" % (op, k, vals[t, i]))
                else:
                    c = kn.get(k, [])
                    e = self.rng.choice(c) if c and self.rng.random() < 0.9 else 99
                    l.append("remv %d %d" % (k, e) if op == "remv" else "repl %d %d %d" % (k, e, vals[t, i]))
            out.append("; ".join(l))
        return out


def gets(keys):
    return "; ".join("get %d" % k for k in keys)


def seen(ss, p=0.7):
    """Most entries have been read before the threads start: they must survive."""
    for s in ss:
        rng = random.Random("seen-" + s.name)
        ks = sorted({int(x.split()[1]) for x in s.setup.split("; ") if x})
        if ks and rng.random() < p:
            s.setup += "; " + gets(ks)
    return ss


def pairs(size=False):
    """Every pair of operations on one key, from every initial state of the key."""
    r, n = [], 0
    one = {"get": "get 1", "has": "has 1", "put": "put 1 %d", "pia": "pia 1 %d", "rem": "rem 1", "remv": "remv 1 11",
           "repl": "repl 1 11 %d", "inc": "inc 1"}
    for ini, setup in (("abs", ""), ("pre", "put 1 11"), ("rem", "put 1 11; rem 1")):
        for i, a in enumerate(MENU):
            for b in MENU[i:]:
                if a in ("get", "has") and b in ("get", "has"):
                    continue
                x = one[a] % 21 if "%" in one[a] else one[a]
                y = one[b] % 22 if "%" in one[b] else one[b]
                n += 1
                r.append(Scn("p%d.%s.%s.%s" % (n, ini, a, b), [x + "; get 1", y], setup=setup, post="get 1" + ("; size; empty" if size else ""), nkeys=4))
    return r


def small(seed, n, tag, shapes=((2, 2), (3, 2), (1, 1, 2), (2, 1, 1), (2, 2, 1)), menu=MENU, size=False, lens=(8, 8, 16, 64), nk=3, post=True, rpost=""):
    """Random programs in a table that does not grow. Keys collide (low bits of a key are zero)."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        g = Gen(rng)
        ln = rng.choice(lens)
        keys = list(range(1, 1 + rng.choice((1, 2, nk))))
        known, setup = {}, []
        for k in keys:
            x = rng.random()
            if x < 0.65:
                v = g.fresh()
                known[k] = [v]
                setup.append("put %d %d" % (k, v))
                if x < 0.15:
                    setup.append("rem %d" % k)
        rng.shuffle(keys)
        th = g.threads(rng.choice(shapes), keys, menu, known)
        raw = None
        m = rng.random()
        if m < 0.2:     # all in the last slots: probing wraps around
            raw = [((ln - 8) + ln * j) if ln > 8 else 8 * (j + 1) for j in range(6)]
        elif m < 0.4:   # extreme keys
            raw = [0, 2 ** 63, 2 ** 64 - 32, 2 ** 64 - 40, 8, 2 ** 32]
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join(setup), post=(gets(range(1, 4)) + ("; size; empty" if size else "")) if post else "",
                     len=ln, nkeys=6, keys=raw, rpost=rpost))
    return r


def full(rng, g, n=8, holes=0.25):
    """Fills a table of 8 slots; some keys are removed again."""
    known, setup = {}, []
    for k in range(1, n + 1):
        v = g.fresh()
        known[k] = [v]
        setup.append("put %d %d" % (k, v))
    for k in range(1, n + 1):
        x = rng.random()
        if x < holes:
            setup.append("rem %d" % k)
            if x < holes / 4:
                v = g.fresh()
                setup.append("put %d %d" % (k, v))
                known[k].append(v)
    return known, setup


def growing(seed, n, tag, menu=MENU, size=False, shapes=((1, 2), (2, 2), (1, 3), (1, 1, 2), (2, 1, 1)), rpost=True, post=True, nkeys=12):
    """A full table; one thread inserts a new key (growth), others operate at the same time."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        g = Gen(rng)
        known, setup = full(rng, g)
        old = rng.sample(range(1, 9), 2)
        keys = old + [9, 10][:rng.choice((1, 2))]
        sh = rng.choice(shapes)
        th = g.threads([max(1, s - (1 if j == 0 else 0)) for j, s in enumerate(sh)], keys, menu, known)
        ins = rng.choice(("put 9 %d", "put 9 %d", "pia 9 %d", "inc 9"))
        ins = ins % g.fresh() if "%" in ins else ins
        th[0] = ins + ("; " + th[0] if rng.random() < 0.6 else "")
        chk = sorted(set(old + [9, 10, rng.randrange(1, 9)]))
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join(setup), post=(gets(chk) + ("; size; empty" if size else "")) if post else "", nkeys=nkeys + 1,
                     keys=[8 * k for k in range(1, nkeys + 1)] + [0],     # key 0 is never inserted
                     rpost=("put 11 500; get 11; put %d 501; get %d; rem %d; get %d" % (old[0], old[0], old[1], old[1])
                            + ("; size; empty" if size else "")) if rpost else ""))
    return r


def nested(seed, n, tag, menu=MENU, size=False, rpost=True, post=True):
    """Growth of the growing table: a delayed thread meets a table two generations later."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        g = Gen(rng)
        known, setup = full(rng, g, holes=0.15)
        old = rng.sample(range(1, 9), 2)
        th = g.threads((1, 2, 1), old + [9], menu, known)
        many = ["put %d %d" % (k, g.fresh()) for k in range(10, 10 + rng.choice((7, 9, 10)))]
        a = th[1].split("; ")
        th[0] = "put 9 %d" % g.fresh() + ("; " + th[0] if rng.random() < 0.3 else "")
        th[1] = "; ".join([rng.choice(("rem %d", "rem %d", "inc %d", "get %d")) % old[0]] + many + a)
        if rng.random() < 0.5:
            th = th[:2]
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join(setup), post=(gets(old + [9, 10]) + ("; size; empty" if size else "")) if post else "", nkeys=22,
                     keys=[8 * k for k in range(1, 22)] + [0],
                     rpost=("get %d; put 20 500; get 20; put %d 501; get %d" % (old[0], old[1], old[1]) + ("; size; empty" if size else "")) if rpost else ""))
    return r


def contprog(rng, ops, ks, n):
    return "; ".join(o if o == "ccnt" else "%s %d" % (o, rng.choice(ks)) for o in (rng.choice(ops) for _ in range(n)))


CONT = ["cins", "cins", "cera", "chas", "cget", "cinc"]


def pmsmall(seed, n, tag, ccnt=True, rpost=""):
    """Random programs on few keys of the pmem container: one node per bucket, or all of them in one bucket."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        raw = rng.choice((None, None, [2 ** 20 * (j + 1) for j in range(4)], [2 ** 63, 2 ** 64 - 2 ** 20, 2 ** 40, 4096]))
        shape = rng.choice(((2, 2), (3, 2), (2, 1, 2), (1, 1, 1)))
        setup = "; ".join("cins %d" % k for k in (1, 2, 3) if rng.random() < 0.5)
        r.append(Scn("%s%d" % (tag, i), [contprog(rng, CONT, (1, 1, 2, 3), m) for m in shape], setup=setup,
                     post="cget 1; cget 2; chas 3" + ("; ccnt" if ccnt else ""), kind="pm", nkeys=4, keys=raw, rpost=rpost))
    return r


def pmgrow(seed, n, tag, ccnt=True, rpost=False):
    """The same while a segment of buckets is added and buckets are split lazily."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        n0 = rng.choice((1, 2, 3, 6, 7, 8, 14, 15, 16))
        ks = [rng.randrange(1, n0 + 1), n0 + 1, n0 + 2]
        ks.append(rng.choice(ks))
        setup = "; ".join("cins %d" % k for k in range(1, n0 + 1))
        if rng.random() < 0.3:
            setup += "; cera %d" % rng.randrange(1, n0 + 1)
        shape = rng.choice(((2, 2), (2, 1, 2), (3, 2), (1, 1, 1)))
        r.append(Scn("%s%d" % (tag, i), [contprog(rng, CONT, ks, m) for m in shape], setup=setup,
                     post="; ".join("cget %d" % k for k in sorted(set(ks))) + ("; ccnt" if ccnt else ""), kind="pm", nkeys=19,
                     rpost=("cins 19; cera %d; cget %d; cins %d; cget %d" % (ks[0], ks[0], ks[1], ks[1]) + ("; ccnt" if ccnt else "")) if rpost else ""))
    return r


def pmempty(seed, n, tag, ccnt=True, rpost=False):
    """The first insertion adds 254 buckets at once: chains of buckets that are split lazily, each from its parent."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        raw = rng.choice(([2, 6, 14, 0, 4, 10], [3, 7, 15, 1, 5, 11], [64, 192, 0, 128, 2, 66], [128, 384, 256, 0, 255, 127], [0, 2, 6, 1, 3, 7]))
        ks = rng.sample(range(1, 7), 4)
        setup = "; ".join("cins %d" % k for k in ks if rng.random() < 0.15)
        shape = rng.choice(((2, 2), (2, 1, 2), (3, 2), (1, 1, 1), (2, 2, 2)))
        th = [contprog(rng, CONT, ks[:3], m) for m in shape]
        th[0] = "cins %d; " % ks[0] + th[0]
        r.append(Scn("%s%d" % (tag, i), th, setup=setup,
                     post="; ".join("cget %d" % k for k in ks) + ("; ccnt" if ccnt else ""), kind="pm", nkeys=6, keys=raw,
                     rpost=("cins %d; cera %d; cget %d; cget %d" % (ks[3], ks[0], ks[0], ks[1]) + ("; ccnt" if ccnt else "")) if rpost else ""))
    return r


def pmsecond(seed, n, tag, rpost=False):
    """The second segment of buckets: most entries are not part of the history."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        b = rng.randrange(4, 250)
        raw = [b + 256, b + 768, b + 512, (b ^ 1) + 256, b + 1024, 4096 + rng.randrange(512)]
        ks = rng.sample(range(1, 7), 4)
        setup = "; ".join("cins %d" % k for k in ks[:rng.choice((1, 2, 3))])
        n0 = rng.choice((253, 254, 255, 256)) - setup.count("cins")
        shape = rng.choice(((2, 2), (2, 1, 2), (3, 2), (1, 1, 1)))
        th = [contprog(rng, CONT, ks[:3], m) for m in shape]
        th[0] = "cins %d; " % ks[3] + th[0]
        r.append(Scn("%s%d" % (tag, i), th, setup=setup, post="; ".join("cget %d" % k for k in ks), kind="pm", nkeys=6, keys=raw,
                     fill="%d %d 1" % (n0, 65536), rpost=("cera %d; cget %d; cget %d" % (ks[0], ks[0], ks[1])) if rpost else ""))
    return r


def pmsplit(seed, n, tag, rpost=False):
    """One crowded bucket that is split while its entries, those that move and those that stay, are used."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        b = rng.randrange(100, 250)
        raw = [b, b + 512, b + 1024, b + 256, b + 768, b + 1280]      # 4-6 move
        ks = rng.sample(range(1, 7), rng.choice((4, 5, 6)))
        a, c = [k for k in ks if k < 4], [k for k in ks if k > 3]
        th = [contprog(rng, CONT, ks if rng.random() < 0.3 else a, rng.choice((1, 2))), contprog(rng, CONT, c, rng.choice((1, 2)))]
        if rng.random() < 0.4:
            th.append(contprog(rng, CONT, ks, 1))
        n0 = 256 - len(ks)
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join("cins %d" % k for k in ks), post="; ".join("cget %d" % k for k in ks), kind="pm", nkeys=6, keys=raw,
                     fill="%d 65536 1" % (n0 - 60), late="60 131072 1", rpost=("cera %d; cget %d; cget %d" % (ks[0], ks[0], ks[1])) if rpost else ""))
    return r


# The last bucket of every level: the second bucket of these keys.
LASTB = ~0xc6a4a7935bd1e995 & 8191


def collide(n, last=False):
    """Keys of the clevel container that share both buckets."""
    return [8192 * (j + 1) + (LASTB if last else 0) for j in range(n)]


def clevel(seed, n, tag, calls, nkeys, pool, pre=0, erase=True, rpost=""):
    """One client of the clevel container; all keys share their buckets, so few of them start an expansion."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        raw = collide(nkeys, i % 4 == 3)
        ops = ["cins", "cins", "cget", "chas", "cinc"] + (["cera", "cera"] if erase else [])
        setup = "; ".join("cins %d" % k for k in range(1, pre + 1))
        r.append(Scn("%s%d" % (tag, i), [contprog(rng, ops, range(1, nkeys + 1), calls)], setup=setup, kind="clevel", nkeys=nkeys, keys=raw, pool=pool, rpost=rpost))
    return r


def clevelmove(seed, n, tag, rpost=""):
    """clevel: the client lets the background thread finish what it began; entries are removed only while it is idle."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        raw = collide(44, i % 4 == 3)
        pre = rng.choice((31, 32, 32, 33, 34))
        l, new, ks = [], pre, list(range(1, pre + 1))
        for _ in range(rng.choice((1, 1, 2))):
            for _ in range(rng.choice((1, 2))):
                new += 1
                l.append("cins %d" % new)
                if rng.random() < 0.4:
                    l.append("%s %d" % (rng.choice(("cget", "chas", "cins", "cinc")), rng.choice(ks)))
            l.append("wait")
            for _ in range(rng.choice((0, 1, 2))):
                l.append("%s %d" % (rng.choice(("cget", "cera", "cins", "cinc")), rng.choice(ks + [new])))
        r.append(Scn("%s%d" % (tag, i), ["; ".join(l)], setup="; ".join("cins %d" % k for k in range(1, pre + 1)), kind="clevel", nkeys=44, keys=raw, pool=8 << 20, rpost=rpost))
    return r


def large(seed, n, tag, menu=MENU, rpost=True, post=True):
    """Growth of tables whose content is handed over in several chunks; most entries are not part of the history."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        g = Gen(rng)
        ln = rng.choice((1024, 2048, 2048, 4096))
        h = 8 * rng.randrange(2, ln // 8 - 2)
        fill = "%d %d %d" % (ln // 4 + 2, 8 * rng.randrange(8, 40), 8) + " %d %d %d" % (9, h + 8 * ln, ln)
        # watched keys: at the borders of the chunks, in the crowded place, anywhere
        homes = [0, ln - 8, ln - 16, 1016, 1024 % ln, (ln // 2), (ln // 2 - 8), h, h, 8 * rng.randrange(ln // 8), 8 * rng.randrange(ln // 8)]
        raw = [x + 64 * ln * (j + 1) for j, x in enumerate(rng.sample(homes, 5))] + [h + ln * 100, h + ln * 101, h + ln * 102]
        known, setup = {}, []
        for k in range(1, 6):
            if rng.random() < 0.8:
                v = g.fresh()
                known[k] = [v]
                setup.append("put %d %d" % (k, v))
                if rng.random() < 0.15:
                    setup.append("rem %d" % k)
        setup.append("put 6 %d" % g.fresh())
        th = g.threads(rng.choice(((1, 2), (2, 2), (1, 1, 2), (1, 2, 1), (1, 1, 1, 1))), [1, 2, 3, 4, 5], menu, known)
        th[0] = "put 7 %d" % g.fresh() + ("; " + th[0] if rng.random() < 0.6 else "")
        if rng.random() < 0.5:
            th[1] = "put 8 %d" % g.fresh() + "; " + th[1]
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join(setup), post=gets(range(1, 9)) if post else "", len=ln, nkeys=8, keys=raw, fill=fill,
                     rpost="get 1; put 2 501; get 2; rem 3; get 3" if rpost else ""))
    return r


def third(seed, n, tag, menu=MENU, size=False, rpost=True, post=True):
    """A third table while the first still holds entries: removed keys are put again in the new table, which nobody helps to fill, until it is full."""
    r = []
    for i in range(n):
        rng = random.Random("%s-%s-%d" % (tag, seed, i))
        g = Gen(rng)
        raw = [1024 * j for j in range(5, 11)] + [rng.choice((120, 120, 120, 112, 248)) + 1024 * j for j in (1, 2, 3)] + [1024 * 11]   # 1-5 removed, 6 starts the growth, 7-9 at the end of the table
        known, setup = {}, []
        for k in (1, 2, 3, 4, 5, 7, 8, 9):
            v = g.fresh()
            known[k] = [v]
            setup.append("put %d %d" % (k, v))
            if k < 6:
                setup.append("rem %d" % k)
        late = ["7 %d 1024" % (8 + 1024 * 20)] + ["%d %d 1024" % (8 if h < 112 else 4, h + 128 * rng.randrange(2) + 1024 * 20) for h in range(16, 120, 8)]
        th = g.threads(rng.choice(((1, 2), (1, 1), (1, 1, 1))), [7, 8, 9, 1], menu, known)
        again = ["put %d %d" % (k, g.fresh()) for k in rng.sample(range(1, 6), 5)]
        th[0] = "put 6 %d" % g.fresh() + ("; " + th[0] if rng.random() < 0.4 else "")
        th[1] = "; ".join(again) + "; " + th[1]
        r.append(Scn("%s%d" % (tag, i), th, setup="; ".join(setup), len=128, fill="4 1024 1024", late=" ".join(late), nkeys=10, keys=raw,
                     post=(gets((1, 5, 6, 7, 8, 9)) + ("; size" if size else "")) if post else "",
                     rpost=(gets((7, 8, 9)) + "; put 10 500; get 10; put 7 501; get 7; rem 8; get 8") if rpost else ""))
    return r
