// Runs scenarios on the compiled library under many schedules and crashes; prints the distinct histories as JSON lines.
#include "vrt_rt.hpp"
#include "ops.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/time.h>
#include <unordered_map>
#include <unordered_set>

using namespace vrt;
namespace vrt
{
extern int curFiber;
extern bool inLib;
} // namespace vrt
typedef void *(*NewFn)(const char *, const char *, uint64_t, int);
typedef uint64_t (*OpFn)(void *, const char *, int, uint64_t, uint64_t, uint64_t);
static NewFn L_new_;
static OpFn L_op_;

struct Op
{
    int op;
    long k = 0, a = 0, b = 0;
};
struct Scn
{
    std::string name, kind = "map", path = "/mnt/pmem/pm1/tables/";
    uint64_t len = 8;
    std::vector<uint64_t> keys, vals;
    std::vector<uint64_t> late; // the same after the setup
    std::vector<uint64_t> fill; // raw keys that are put before the setup; they do not appear in the history
    std::vector<Op> setup, post, rpost;
    std::vector<std::vector<Op>> thr, rthr;
    bool cont = false;
    size_t pool = 0; // size of a libpmemobj pool
    int skip = 0;        // maps created before, whose names of tables are used up
    bool renew = false;  // after the first crash, a map is created without recovery
    bool fresh2 = false; // a second construction without recovery instead of a crash
};
static const uint64_t ABSENT = (uint64_t)0 - 8;
static const long V_ABSENT = -1, V_GARBAGE = -7777;

static uint64_t rawKey(const Scn &s, long id)
{
    if (s.keys.empty())
        return s.cont ? id : (uint64_t)id << 3;
    return s.keys.at(id - 1);
}
static uint64_t rawVal(const Scn &s, long id)
{
    if (s.vals.empty())
        return (uint64_t)id << 3;
    return s.vals.at(id);
}
static long encCont(const Scn &s, uint64_t raw)
{
    if (raw <= 1000)
        return raw;
    for (size_t i = 0; i < s.keys.size(); i++)
        if (s.keys[i] == raw)
            return 200000 + (i + 1) * 100;
    // a count on top of a large key
    for (size_t i = 0; i < s.keys.size(); i++)
        if (raw > s.keys[i] && raw - s.keys[i] < 50)
            return 200000 + (i + 1) * 100 + (raw - s.keys[i]);
    return V_GARBAGE;
}
static long decVal(const Scn &s, uint64_t raw)
{
    if (raw == ABSENT)
        return V_ABSENT;
    for (size_t i = 0; i < s.vals.size(); i++)
        if (s.vals[i] == raw)
            return i;
    if (!s.vals.empty())
        return V_GARBAGE;
    return (raw & 7) == 0 && (raw >> 3) < 1000000 ? (long)(raw >> 3) : V_GARBAGE;
}

// ------------------------------------------------------------ events
struct Ev
{
    char t; // c r B X R N a S
    int f;
    int op = 0;
    long k = 0, a = 0, b = 0; // for r: a = result
    std::string txt;          // R: list of values; a: message
    size_t logPos = 0;
};
static std::vector<Ev> evs;
static long unseen = 0; // entries that are present but not part of the history

static long doOp(const Scn &s, void *obj, const Op &o, bool record)
{
    if (o.op == O_WAIT)
    {
        settle();
        return 0;
    }
    int f = curFiber;
    uint64_t k = 0, a = 0, b = 0;
    long ek = o.k, ea = o.a;
    if (o.op < O_CINS)
    {
        if (o.op < O_SIZE)
            k = rawKey(s, o.k);
        if (o.op == O_PUT || o.op == O_PIA || o.op == O_REMV || o.op == O_REPL)
            a = rawVal(s, o.a);
        if (o.op == O_REPL)
            b = rawVal(s, o.b);
    }
    else if (o.op != O_CCNT)
    {
        k = rawKey(s, o.k);
        ea = encCont(s, k);
    }
    if (record)
        evs.push_back({'c', f, o.op, ek, ea, o.b, "", log_.size()});
    inLib = true;
    uint64_t r = L_op_(obj, s.kind.c_str(), o.op, k, a, b);
    inLib = false;
    long x;
    switch (o.op)
    {
    case O_GET:
    case O_PUT:
    case O_PIA:
    case O_INC:
        x = decVal(s, r);
        break;
    case O_SIZE:
    case O_CCNT:
        x = r > 1000000000ull ? (long)-7777 : (long)r - unseen;
        break;
    case O_CGET:
        if (s.kind == "ucf")
            x = r == (ABSENT >> 3) ? V_ABSENT : encCont(s, r);
        else
            x = encCont(s, r);
        break;
    case O_CINC:
        x = 0;
        break;
    default:
        x = (r & 0xff) != 0;
    }
    if (record)
        evs.push_back({'r', f, o.op, ek, x, 0, "", log_.size()});
    return x;
}

// Normal form: neighbouring calls commute, neighbouring returns commute.
static std::string render(const std::vector<Ev> &e0, size_t n)
{
    std::vector<const Ev *> e;
    for (size_t i = 0; i < n; i++)
        e.push_back(&e0[i]);
    for (size_t i = 0; i < e.size();)
    {
        size_t j = i + 1;
        if (e[i]->t == 'c' || e[i]->t == 'r')
        {
            while (j < e.size() && e[j]->t == e[i]->t)
                j++;
            std::stable_sort(e.begin() + i, e.begin() + j, [](const Ev *x, const Ev *y) { return x->f < y->f; });
        }
        i = j;
    }
    std::string s = "[";
    char buf[256];
    for (size_t i = 0; i < e.size(); i++)
    {
        const Ev &v = *e[i];
        if (i)
            s += ",";
        switch (v.t)
        {
        case 'c':
            snprintf(buf, sizeof buf, "[\"c\",%d,\"%s\",%ld,%ld,%ld]", v.f, opNames[v.op], v.k, v.a, v.b);
            s += buf;
            break;
        case 'r':
            snprintf(buf, sizeof buf, "[\"r\",%d,%ld]", v.f, v.a);
            s += buf;
            break;
        case 'B':
            s += "[\"B\"," + std::to_string(v.k) + "]";
            break;
        case 'X':
            s += "[\"X\"]";
            break;
        case 'N':
            s += "[\"N\"]";
            break;
        case 'S':
            s += "[\"S\"," + std::to_string(v.f) + "]";
            break;
        case 'R':
            s += "[\"R\",[" + v.txt + "]," + std::to_string(v.a) + "]";
            break;
        default:
            s += "[\"a\"," + std::to_string(v.f) + ",\"" + v.txt + "\"]";
        }
    }
    return s + "]";
}
static uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

struct Found
{
    uint64_t count = 0;
    std::string sched, crash;
};
static std::unordered_map<std::string, Found> found;
static size_t maxFound = 1000000;
static uint64_t dropped = 0, nRuns = 0, nCrashes = 0, nImages = 0, nSteps = 0, nAborts = 0, nNested = 0;
static std::string schedStr(const std::vector<Choice> &c)
{
    std::string s;
    for (auto &x : c)
        s += (s.empty() ? "" : ",") + std::to_string(x.step) + ":" + std::to_string(x.target);
    return s;
}
static void add(const std::string &h, const std::string &sched, const std::string &crash)
{
    auto it = found.find(h);
    if (it == found.end())
    {
        if (found.size() >= maxFound)
        {
            dropped++;
            return;
        }
        it = found.emplace(h, Found{0, sched, crash}).first;
    }
    it->second.count++;
}
static std::string clean(std::string m)
{
    for (auto &c : m)
        if (c == '"' || c == '\\' || (unsigned char)c < 32)
            c = '\'';
    return m;
}
static bool outcome(const RunResult &r)
{
    if (r.out == OK)
        return true;
    static const char *const n[] = {"", "abort: ", "hang: ", "crash: "};
    evs.push_back({'a', r.fiber < 0 ? 0 : r.fiber, 0, 0, 0, 0, clean(n[r.out] + r.msg), log_.size()});
    nAborts++;
    return false;
}

// ------------------------------------------------------------ phases
static uint64_t orderSeed = 0; // 0: ascending
static bool runNew(const Scn &s, void *&obj, bool recon, bool readAll)
{
    std::vector<std::function<void()>> b{[&]() {
        inLib = true;
        for (int i = 0; i < s.skip && !recon && !readAll; i++)
            L_new_(s.kind.c_str(), s.path.c_str(), 8, false);
        obj = L_new_(s.kind.c_str(), s.path.c_str(), s.len, recon);
        inLib = false;
        if (readAll)
        {
            std::string t;
            size_t n = s.keys.empty() ? 12 : s.keys.size();
            // The order matters (reading can complete a migration): it differs from image to image.
            std::vector<long> ord(n), val(n);
            for (size_t i = 0; i < n; i++)
                ord[i] = i;
            uint64_t h = orderSeed;
            for (size_t i = n; i > 1; i--)
            {
                h = h * 6364136223846793005ull + 1442695040888963407ull;
                std::swap(ord[i - 1], ord[(h >> 33) % i]);
            }
            for (long i : ord)
                if (s.cont)
                    val[i] = doOp(s, obj, {O_CHAS, i + 1}, false) ? doOp(s, obj, {O_CGET, i + 1}, false) : V_ABSENT;
                else
                    val[i] = doOp(s, obj, {O_GET, i + 1}, false);
            for (size_t i = 0; i < n; i++)
                t += (i ? "," : "") + std::to_string(val[i]);
            long z = s.kind == "clevel" ? std::count_if(val.begin(), val.end(), [](long v) { return v != V_ABSENT; })
                                        : doOp(s, obj, {s.cont ? O_CCNT : O_SIZE}, false);
            evs.push_back({'R', 0, 0, 0, z, 0, t, log_.size()});
        }
    }};
    quietCand = true;
    bool ok = outcome(runFibers(b, 0));
    quietCand = false;
    nSteps += totalSteps;
    return ok;
}
static bool runSeq(const Scn &s, void *obj, const std::vector<Op> &ops)
{
    if (ops.empty())
        return true;
    std::vector<std::function<void()>> b{[&]() {
        for (auto &o : ops)
            doOp(s, obj, o, true);
    }};
    quietCand = true;
    bool ok = outcome(runFibers(b, 0));
    quietCand = false;
    nSteps += totalSteps;
    return ok;
}
static bool runFill(const Scn &s, const std::vector<uint64_t> &keys, void *obj)
{
    if (keys.empty())
        return true;
    unseen += keys.size();
    std::vector<std::function<void()>> b{[&]() {
        inLib = true;
        for (uint64_t k : keys)
            L_op_(obj, s.kind.c_str(), s.cont ? O_CINS : O_PUT, k, 8, 0);
        inLib = false;
    }};
    quietCand = true;
    bool ok = outcome(runFibers(b, 0));
    quietCand = false;
    nSteps += totalSteps;
    return ok;
}
static bool runPar(const Scn &s, void *obj, const std::vector<std::vector<Op>> &thr)
{
    std::vector<std::function<void()>> b;
    for (auto &t : thr)
        b.push_back([&s, obj, &t]() {
            for (auto &o : t)
                doOp(s, obj, o, true);
        });
    if (b.empty())
        return true;
    trace.clear();
    taken.clear();
    onStop = [](int f) { evs.push_back({'S', f, 0, 0, 0, 0, "", log_.size()}); };
    bool ok = outcome(runFibers(b, 1));
    nSteps += totalSteps;
    return ok;
}

static size_t setupLog = 0;
struct MainRun
{
    bool ok;
    std::vector<Choice> taken;
    std::vector<TracePoint> trace;
};
static MainRun mainRun(const Scn &s, const std::vector<Choice> &f)
{
    MainRun m;
    resetWorld();
    evs.clear();
    unseen = 0;
    void *obj = nullptr;
    forced.clear();
    m.ok = runNew(s, obj, false, false) && runFill(s, s.fill, obj) && runSeq(s, obj, s.setup) && runFill(s, s.late, obj);
    setupLog = log_.size();
    if (m.ok)
    {
        forced = f;
        m.ok = runPar(s, obj, s.thr);
        m.taken = taken;
        m.trace = trace;
        forced.clear();
    }
    double rs = randomSwitch;
    randomSwitch = 0;
    if (m.ok)
        m.ok = runSeq(s, obj, s.post);
    if (m.ok && s.fresh2)
    {
        // A second map is created next to the first one, without recovery: it must be empty and independent.
        evs.push_back({'N', 0, 0, 0, 0, 0, "", log_.size()});
        void *obj2 = nullptr;
        m.ok = runNew(s, obj2, false, true) && runSeq(s, obj2, s.rpost);
    }
    randomSwitch = rs;
    syncPlain();
    nRuns++;
    return m;
}

// ------------------------------------------------------------ crashes
static std::unordered_set<uint64_t> seenImage;
static int imagesPerPoint = 3;
static double nestedProb = 0.05;
static int crashDepth = 1;
static bool killOnly = false;       // the process dies, the machine does not
static size_t maxPoints = 400;      // crash points per run
static size_t maxNestPoints = 60;   // crash points per recovery
static uint64_t maxAborts = 60; // enough evidence
static uint64_t maxCrashes = 100000; // recoveries per scenario
static uint64_t hashImage(const Image &im, uint64_t h = 1469598103934665603ull)
{
    for (auto &f : im)
    {
        h = hashStr(f.name, h) * 31 + f.data.size();
        const char *p = f.data.data();
        size_t n = f.data.size(), i = 0;
        for (; i + 8 <= n; i += 8)
        {
            uint64_t w;
            memcpy(&w, p + i, 8);
            if (w)
                h = (h ^ (w + i)) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        }
        for (; i < n; i++)
            h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    }
    return h;
}
static std::string crashSpec; // replay: p:picks;p:picks

struct CrashAt
{
    size_t p;
    std::vector<int> pick;
};
static std::string crashStr(const std::vector<CrashAt> &c)
{
    std::string s;
    for (auto &x : c)
    {
        s += (s.empty() ? "" : ";") + std::to_string(x.p) + ":";
        for (size_t i = 0; i < x.pick.size(); i++)
            s += (i ? "." : "") + std::to_string(x.pick[i]);
    }
    return s;
}
static void explore(const Scn &s, const Image &start, const std::vector<LogEnt> &lg, const std::vector<Ev> &ev, size_t evFrom,
                    const std::string &sched, std::vector<CrashAt> chain, int depth, size_t from, const std::vector<CrashAt> *replay);

static void recoverOnce(const Scn &s, const Image &im, std::vector<Ev> pre, const std::string &sched, const std::vector<CrashAt> &chain, int depth,
                        const std::vector<CrashAt> *replay)
{
    bool nest = replay ? replay->size() > chain.size() : depth > 0 && (double)(rnd() & 0xffffff) / 0x1000000 < nestedProb;
    crashMode = wantLog = nest;
    resetWorld();
    loadImage(im);
    unseen = 0;
    pre.push_back({'X', 0});
    evs = pre;
    size_t n0 = evs.size();
    void *obj = nullptr;
    nCrashes++;
    uint64_t ih = hashImage(im) | 1;
    orderSeed = ih;
    bool renew = s.renew && chain.size() == 1;
    if (renew)
        evs.push_back({'N', 0});
    bool ok = runNew(s, obj, !renew, true);
    size_t made = renew ? log_.size() : 0;
    if (ok && !s.rthr.empty())
    {
        double rs = randomSwitch;
        uint64_t save = rng;
        // schedule of the threads after recovery: a function of the image, so that a replay repeats it
        rng = ih;
        randomSwitch = 0.15;
        allCand = true;
        forced.clear();
        ok = runPar(s, obj, s.rthr);
        allCand = false;
        randomSwitch = rs;
        rng = save;
        ok = ok && runSeq(s, obj, s.rpost);
    }
    else if (ok)
        ok = runSeq(s, obj, s.rpost);
    syncPlain();
    if (!replay || replay->size() == chain.size())
        add(render(evs, evs.size()), sched, crashStr(chain));
    crashMode = wantLog = true;
    if (nest)
    {
        nNested++;
        std::vector<LogEnt> lg = log_;
        std::vector<Ev> ev = evs;
        explore(s, im, lg, ev, n0, sched, chain, depth - 1, made, replay);
    }
}

// The dirty flag of a word says that it may not be durable yet. A thread that flushes a word and then clears its
// flag may meet a later store of the same value, which it did not flush: events 'B' mark these moments.
static std::vector<Ev> addStale(const Scn &s, const Image &start, const std::vector<LogEnt> &lg, const std::vector<Ev> &ev)
{
    struct Flush
    {
        size_t at;
        bool fenced;
    };
    std::map<std::pair<int, uint32_t>, std::vector<std::pair<size_t, LogEnt>>> hist; // stores of a word
    std::map<std::pair<int, uint32_t>, Flush> fl[16];                                // by thread: line -> flush
    std::vector<Ev> b;
    for (size_t i = 0; i < lg.size(); i++)
    {
        const LogEnt &e = lg[i];
        int f = e.fiber < 0 ? 15 : e.fiber & 15;
        if (e.k == L_FLUSH)
            fl[f][{e.ino, e.off & ~63u}] = {i, false};
        else if (e.k == L_FENCE)
            for (auto &x : fl[f])
                x.second.fenced = true;
        else if (e.k == L_WRITE)
        {
            auto &h = hist[{e.ino, e.off}];
            auto it = fl[f].find({e.ino, e.off & ~63u});
            if (it != fl[f].end() && it->second.fenced && (e.o & 1) && e.n == (e.o & ~1ull) && !h.empty() && h.back().first > it->second.at)
            {
                uint64_t then = h.front().second.o;
                for (auto &x : h)
                    if (x.first < it->second.at)
                        then = x.second.n;
                if (then == e.o && e.off >= 8)
                {
                    uint64_t key = 0;
                    auto k = hist.find({e.ino, e.off - 8});
                    if (k != hist.end() && !k->second.empty())
                        key = k->second.back().second.n;
                    else if ((size_t)e.ino < start.size() && start[e.ino].data.size() >= e.off)
                        memcpy(&key, start[e.ino].data.data() + e.off - 8, 8);
                    key &= ~7ull;
                    for (long id = 1; id <= (s.keys.empty() ? 64 : (long)s.keys.size()); id++)
                        if (rawKey(s, id) == key)
                            b.push_back({'B', f, 0, id, 0, 0, "", i + 1});
                }
            }
            h.push_back({i, e});
            fl[f].clear();
        }
    }
    std::vector<Ev> r;
    size_t j = 0;
    for (auto &e : ev)
    {
        while (j < b.size() && b[j].logPos <= e.logPos)
            r.push_back(b[j++]);
        r.push_back(e);
    }
    while (j < b.size())
        r.push_back(b[j++]);
    return r;
}

static void explore(const Scn &s, const Image &start, const std::vector<LogEnt> &lg, const std::vector<Ev> &ev0, size_t evFrom,
                    const std::string &sched, std::vector<CrashAt> chain, int depth, size_t from, const std::vector<CrashAt> *replay)
{
    // the events of earlier lives of the map keep their place
    std::vector<Ev> ev(ev0.begin(), ev0.begin() + evFrom), tail(ev0.begin() + evFrom, ev0.end());
    for (auto &x : addStale(s, start, lg, tail))
        ev.push_back(x);
    CrashWalker w(start);
    size_t ei = evFrom;
    // candidate points: where the set of possible images changes
    std::vector<char> cand(lg.size() + 1, 0);
    if (!replay)
    {
        std::vector<size_t> pts;
        for (size_t p = from; p <= lg.size(); p++)
            if (!p || (lg[p - 1].k != L_PTR && lg[p - 1].k != L_FLUSH && !lg[p - 1].glue))
                pts.push_back(p);
        size_t cap = depth == crashDepth ? maxPoints : maxNestPoints;
        for (size_t i = 0; i < pts.size() && i < cap; i++)
        {
            std::swap(pts[i], pts[i + rnd(pts.size() - i)]);
            cand[pts[i]] = 1;
        }
    }
    for (size_t p = 0; p <= lg.size(); p++)
    {
        if (p)
            w.step(lg[p - 1]);
        while (ei < ev.size() && ev[ei].logPos <= p)
            ei++;
        if (replay)
        {
            if (p != (*replay)[chain.size()].p)
                continue;
        }
        else
        {
            if (!cand[p])
                continue;
            if (nCrashes >= maxCrashes || nAborts >= maxAborts)
                break;
        }
        if (ei > evFrom && ev[ei - 1].t == 'a')
            break;
        std::vector<Ev> pre(ev.begin(), ev.begin() + ei);
        std::string h = render(pre, pre.size());
        std::vector<int> lim = w.limits();
        std::vector<std::vector<int>> picks;
        if (replay)
        {
            std::vector<int> k = (*replay)[chain.size()].pick;
            k.resize(lim.size());
            picks.push_back(k);
        }
        else
        {
            std::vector<int> z(lim.size(), 0);
            if (!killOnly)
                picks.push_back(z);
            picks.push_back(lim);
            double prod = killOnly ? 1e9 : 1;
            for (int l : lim)
                prod *= l + 1;
            if (prod <= imagesPerPoint + 2)
            {
                while (true)
                {
                    size_t i = 0;
                    while (i < z.size() && z[i] == lim[i])
                        z[i++] = 0;
                    if (i == z.size())
                        break;
                    z[i]++;
                    picks.push_back(z);
                }
            }
            else
                for (int r = 0; r < imagesPerPoint && !killOnly; r++)
                {
                    bool all = rnd(2);
                    for (size_t i = 0; i < lim.size(); i++)
                        z[i] = all ? (rnd(2) ? lim[i] : 0) : rnd(lim[i] + 1);
                    picks.push_back(z);
                }
        }
        for (auto &pk : picks)
        {
            Image im = w.build(pk);
            nImages++;
            uint64_t key = hashStr(h, hashImage(im));
            if (!replay && !seenImage.insert(key).second)
                continue;
            auto c2 = chain;
            c2.push_back({p, pk});
            recoverOnce(s, im, pre, sched, c2, depth, replay);
        }
        if (replay)
            break;
    }
}

// ------------------------------------------------------------ input
static std::vector<Op> parseOps(const std::string &t)
{
    std::vector<Op> v;
    std::stringstream ss(t);
    std::string one;
    while (std::getline(ss, one, ';'))
    {
        std::stringstream q(one);
        std::string n;
        if (!(q >> n))
            continue;
        Op o{-1};
        for (int i = 0; i < O_NOPS; i++)
            if (n == opNames[i])
                o.op = i;
        if (o.op < 0)
        {
            fprintf(stderr, "bad op %s\n", n.c_str());
            _exit(64);
        }
        q >> o.k >> o.a >> o.b;
        v.push_back(o);
    }
    return v;
}
static std::vector<Scn> parse(const char *file)
{
    std::ifstream in(file);
    std::vector<Scn> r;
    std::string l;
    Scn s;
    while (std::getline(in, l))
    {
        std::stringstream q(l);
        std::string w;
        if (!(q >> w))
            continue;
        std::string rest;
        std::getline(q, rest);
        std::stringstream z(rest);
        if (w == "scn")
        {
            s = Scn();
            z >> s.name;
        }
        else if (w == "kind")
        {
            z >> s.kind;
            s.cont = s.kind != "map";
            if (s.kind == "pm" || s.kind == "clevel")
                s.path = "./vrt/pool";
        }
        else if (w == "pool")
            z >> s.pool;
        else if (w == "len")
            z >> s.len;
        else if (w == "path")
            z >> s.path;
        else if (w == "keys" || w == "vals")
        {
            std::string x;
            while (z >> x)
                (w == "keys" ? s.keys : s.vals).push_back(strtoull(x.c_str(), nullptr, 0));
        }
        else if (w == "fill" || w == "late")
        {
            // fill N FIRST STEP: a run of raw keys
            uint64_t n, a, d;
            while (z >> n >> a >> d)
                for (uint64_t i = 0; i < n; i++)
                    (w == "fill" ? s.fill : s.late).push_back(a + i * d);
        }
        else if (w == "setup")
            s.setup = parseOps(rest);
        else if (w == "post")
            s.post = parseOps(rest);
        else if (w == "rpost")
            s.rpost = parseOps(rest);
        else if (w == "thr")
            s.thr.push_back(parseOps(rest));
        else if (w == "rthr")
            s.rthr.push_back(parseOps(rest));
        else if (w == "skip")
            z >> s.skip;
        else if (w == "renew")
            s.renew = true;
        else if (w == "fresh2")
            s.fresh2 = true;
        else if (w == "end")
            r.push_back(s);
    }
    return r;
}

// ------------------------------------------------------------ table memory
static int slotsMode = 0; // 1: slotTrace, 2: only its tables, and "Q" once everything has returned
// What happened to the words of the tables that are in use, as events of Slots.tla:
//  T len       a new table is put to use        P a b   table a is replaced by table b as the current one
//  K t i key   key of a slot                    V t i v m   value of a slot: number (0: none, 1: removed), 1 if frozen
static std::string slotTrace(const Scn &s, const std::vector<LogEnt> &lg)
{
    const uint64_t TOMB = ABSENT - 8;
    struct F
    {
        std::vector<uint64_t> w;
        int id = 0;
    };
    std::map<int, F> f;
    std::map<uint64_t, int> vals;
    int tables = 0;
    std::string r = "[";
    auto put = [&](const std::string &e) { r += (r.size() > 1 ? "," : "") + e; };
    for (auto &e : lg)
    {
        if (e.k == L_TRUNC)
            f[e.ino].w.resize(e.off / 8);
        else if (e.k == L_PTR && e.name2 >= 0)
        {
            F &x = f[e.name2];
            if (!x.id)
            {
                bool empty = true;
                for (auto w : x.w)
                    empty = empty && (w & ~1ull) == ABSENT;
                x.id = ++tables;
                put(std::string(empty ? "[\"T\"," : "[\"t\",") + std::to_string(x.w.size() / 2) + "]");
            }
            if (e.name >= 0 && f[e.name].id && e.name != e.name2)
                put("[\"P\"," + std::to_string(f[e.name].id) + "," + std::to_string(x.id) + "]");
        }
        else if (e.k == L_WRITE)
        {
            F &x = f[e.ino];
            if (e.off / 8 >= x.w.size() || (e.off & 7) || e.size != 8)
                continue;
            uint64_t o = x.w[e.off / 8] & ~1ull, n = e.n & ~1ull;
            x.w[e.off / 8] = e.n;
            if (!x.id || o == n || slotsMode == 2)
                continue;
            std::string at = std::to_string(x.id) + "," + std::to_string(e.off / 16 + 1);
            if (!(e.off & 8))
            {
                int k = 9999;
                if (n == ABSENT || n == TOMB)
                    k = n == ABSENT ? 0 : -1;
                else
                    for (long id = 1; id <= (s.keys.empty() ? 64 : (long)s.keys.size()); id++)
                        if (rawKey(s, id) == n)
                            k = id;
                put("[\"K\"," + at + "," + std::to_string(k) + "]");
            }
            else
            {
                uint64_t v = n & ~2ull;
                int c = v == ABSENT ? 0 : v == TOMB ? 1 : vals.emplace(v, (int)vals.size() + 2).first->second;
                put("[\"V\"," + at + "," + std::to_string(c) + "," + ((n & 2) ? "1" : "0") + "]");
            }
        }
    }
    return r + "]";
}

static double now()
{
    timeval t;
    gettimeofday(&t, nullptr);
    return t.tv_sec + t.tv_usec * 1e-6;
}
static int crashEvery = 0;     // every n-th run, and those with new histories, get many crash points
static size_t lightPoints = 0; // the others get few, as far as the budget goes
static double runsPlanned = 1;


static bool complete()
{
    for (auto &e : evs)
        if (e.t == 'a')
            return false;
    return !evs.empty();
}

static void afterRun(const Scn &s, const MainRun &m)
{
    std::string sched = schedStr(m.taken);
    if (slotsMode)
    {
        std::string e = slotTrace(s, log_);
        if (slotsMode == 2 && complete())
            e.insert(e.size() - 1, ",[\"Q\"]");
        add(e, sched, "");
        return;
    }
    std::string h = render(evs, evs.size());
    bool fresh = !found.count(h);
    add(h, sched, "");
    static uint64_t c = 0;
    if (crashEvery && (fresh || c++ % crashEvery == 0) && (!lightPoints || nCrashes < maxCrashes * 0.7))
    {
        std::vector<LogEnt> lg = log_;
        std::vector<Ev> ev = evs;
        explore(s, {}, lg, ev, 0, sched, {}, crashDepth, nRuns == 1 ? poolReady : setupLog, nullptr);
    }
    else if (crashEvery && lightPoints && nCrashes < maxCrashes * (0.3 + 0.7 * nRuns / runsPlanned))
    {
        std::vector<LogEnt> lg = log_;
        std::vector<Ev> ev = evs;
        std::swap(maxPoints, lightPoints);
        explore(s, {}, lg, ev, 0, sched, {}, crashDepth, setupLog, nullptr);
        std::swap(maxPoints, lightPoints);
    }
}

// An argument, or the content of the file it names.
static std::string text(const std::string &v)
{
    if (v.empty() || v[0] != '@')
        return v;
    std::string r;
    if (FILE *f = fopen(v.c_str() + 1, "r"))
    {
        char b[65536];
        for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
            r.append(b, n);
        fclose(f);
    }
    return r;
}

int main(int argc, char **argv)
{
    if (argc < 3)
        return 64;
    const char *lib = argv[1];
    std::vector<Scn> scns = parse(argv[2]);
    int bound = 2;
    long maxRuns = 20000, randRuns = 1000;
    double timeCap = 1e9;
    uint64_t seed = 1;
    std::string sched, crash, only;
    bool replay = false;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "-bound") bound = atoi(v.c_str());
        else if (a == "-max") maxRuns = atol(v.c_str());
        else if (a == "-rand") randRuns = atol(v.c_str());
        else if (a == "-seed") seed = atol(v.c_str());
        else if (a == "-time") timeCap = atof(v.c_str());
        else if (a == "-crash") crashEvery = atoi(v.c_str());
        else if (a == "-images") imagesPerPoint = atoi(v.c_str());
        else if (a == "-slots") wantPtr = slotsMode = atoi(v.c_str());
        else if (a == "-stops") maxStops = atoi(v.c_str());
        else if (a == "-kill") killOnly = atoi(v.c_str());
        else if (a == "-deref") derefPoints = atoi(v.c_str());
        else if (a == "-nested") nestedProb = atof(v.c_str());
        else if (a == "-depth") crashDepth = atoi(v.c_str());
        else if (a == "-points") maxPoints = atol(v.c_str());
        else if (a == "-npoints") maxNestPoints = atol(v.c_str());
        else if (a == "-light") lightPoints = atol(v.c_str());
        else if (a == "-crashes") maxCrashes = strtoull(v.c_str(), nullptr, 0);
        else if (a == "-found") maxFound = atol(v.c_str());
        else if (a == "-only") only = v;
        else if (a == "-sched") sched = text(v), replay = true;
        else if (a == "-crashat") crash = text(v), replay = true;
    }
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    std::cout.rdbuf(nullptr); // the library prints
    void *d = dlopen(lib, RTLD_NOW | RTLD_GLOBAL);
    if (!d)
    {
        fprintf(stderr, "%s\n", dlerror());
        return 65;
    }
    L_new_ = (NewFn)dlsym(d, "L_new");
    L_op_ = (OpFn)dlsym(d, "L_op");
    std::string base = lib;
    size_t sl = base.rfind('/');
    addModule(base.substr(sl == std::string::npos ? 0 : sl + 1).c_str());
    if (!getenv("VRT_STDERR"))
    {
        freopen("/dev/null", "w", stderr);
        std::cerr.setstate(std::ios::failbit);
    }

    crashMode = wantLog = crashEvery || !crash.empty();
    for (auto &s : scns)
    {
        if (!only.empty() && s.name != only)
            continue;
        found.clear();
        seenImage.clear();
        forgetSharing();
        randomSwitch = 0;
        rng = (seed * 0x9E3779B97F4A7C15ull ^ hashStr(s.name)) | 1;
        dropped = nRuns = nCrashes = nImages = nSteps = nAborts = nNested = 0;
        poolSize = s.pool ? s.pool : s.kind == "pm" ? 384 << 10 : 12 << 20;
        poolReady = 0;
        double t0 = now();
        if (replay)
        {
            std::vector<Choice> f;
            std::stringstream z(sched);
            std::string x;
            while (std::getline(z, x, ','))
                if (!x.empty())
                    f.push_back({atoi(x.c_str()), atoi(x.substr(x.find(':') + 1).c_str())});
            MainRun m = mainRun(s, f);
            if (getenv("VRT_DUMPLOG"))
                for (size_t i = 0; i < log_.size(); i++)
                    printf("# %zu kind=%d fiber=%d ino=%d off=%u o=%lx n=%lx\n", i, log_[i].k, log_[i].fiber, log_[i].ino, log_[i].off, log_[i].o, log_[i].n);
            if (slotsMode)
                afterRun(s, m);
            else if (crash.empty())
                add(render(evs, evs.size()), schedStr(m.taken), "");
            else
            {
                std::vector<CrashAt> chain;
                std::stringstream y(crash);
                while (std::getline(y, x, ';'))
                {
                    CrashAt c;
                    c.p = atoi(x.c_str());
                    std::stringstream w(x.substr(x.find(':') + 1));
                    std::string n;
                    while (std::getline(w, n, '.'))
                        if (!n.empty())
                            c.pick.push_back(atoi(n.c_str()));
                    chain.push_back(c);
                }
                std::vector<LogEnt> lg = log_;
                std::vector<Ev> ev = evs;
                explore(s, {}, lg, ev, 0, schedStr(m.taken), {}, (int)chain.size(), 0, &chain);
            }
        }
        else
        {
            long left = maxRuns;
            runsPlanned = maxRuns + randRuns;
            bool complete = true;
            int done = -1;
            std::set<std::string> ran;
            // Level by level: all schedules with b preemptions come from those with b-1.
            struct Node
            {
                std::vector<Choice> sched;
                std::vector<TracePoint> trace;
            };
            std::vector<std::vector<Choice>> level{{}};
            // the empty schedule and every order of the threads are preemption-free
            for (int b = 0; b <= bound && !level.empty() && left > 0; b++)
            {
                std::vector<std::vector<Choice>> next;
                // closure under free choices, then collection of the preemptive children
                std::vector<std::vector<Choice>> work = level;
                // fair sample when the budget does not allow all
                for (size_t i = work.size(); i > 1; i--)
                    std::swap(work[i - 1], work[rnd(i)]);
                size_t wi = 0;
                std::vector<std::vector<Choice>> stack;
                while (true)
                {
                    std::vector<Choice> f;
                    if (!stack.empty())
                    {
                        f = stack.back();
                        stack.pop_back();
                    }
                    else if (wi < work.size())
                        f = work[wi++];
                    else
                        break;
                    if (left <= 0 || nAborts >= maxAborts || now() - t0 > timeCap)
                    {
                        complete = false;
                        break;
                    }
                    left--;
                    MainRun m = mainRun(s, f);
                    afterRun(s, m);
                    int last = f.empty() ? -1 : f.back().step;
                    for (auto &tp : m.trace)
                        if (tp.step > last)
                            for (int t = 0; t < 16; t++)
                                if ((tp.enabled >> t & 1) && t != tp.chosen)
                                {
                                    auto g = f;
                                    g.push_back({tp.step, t});
                                    if (!tp.free && b < bound && tp.cur < 8 && next.size() < 3000000 &&
                                        std::count_if(f.begin(), f.end(), [](const Choice &c) { return c.target >= 32; }) < maxStops)
                                    {
                                        auto h = g;
                                        h.back().target += 32;
                                        next.push_back(h);
                                    }
                                    if (tp.free)
                                        stack.push_back(g);
                                    else if (b < bound && next.size() < 3000000)
                                        next.push_back(g);
                                }
                }
                if (complete)
                    done = b;
                level.swap(next);
            }
            std::string bounds = std::to_string(done);
            for (long r = 0; r < randRuns && nAborts < maxAborts && now() - t0 < timeCap; r++)
            {
                static const double P[] = {0.02, 0.05, 0.1, 0.25, 0.5};
                randomSwitch = P[r % 5];
                MainRun m = mainRun(s, {});
                randomSwitch = 0;
                afterRun(s, m);
            }
        }
        std::vector<const std::pair<const std::string, Found> *> out;
        for (auto &x : found)
            out.push_back(&x);
        std::sort(out.begin(), out.end(), [](auto *a, auto *b) { return a->first < b->first; });
        for (auto *x : out)
            printf("{\"s\":\"%s\",\"n\":%lu,\"sched\":\"%s\",\"crash\":\"%s\",\"ev\":%s}\n", s.name.c_str(), x->second.count, x->second.sched.c_str(),
                   x->second.crash.c_str(), x->first.c_str());
        printf("{\"stat\":\"%s\",\"runs\":%lu,\"steps\":%lu,\"crashes\":%lu,\"images\":%lu,\"nested\":%lu,\"aborts\":%lu,\"distinct\":%zu,\"dropped\":%lu,\"wall\":%.2f}\n",
               s.name.c_str(), nRuns, nSteps, nCrashes, nImages, nNested, nAborts, found.size(), dropped, now() - t0);
        fflush(stdout);
    }
    fflush(stdout);
    _exit(0); // the library's destructors would run outside of the runtime
}
