#define _GNU_SOURCE 1
#include "vrt_rt.hpp"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <link.h>
#include <memory>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <unordered_map>

namespace vrt
{
int curFiber = -1;
bool inLib = false;
std::vector<Choice> forced, taken;
std::vector<TracePoint> trace;
int totalSteps, stepCap = 400000;
double randomSwitch = 0;
bool quietCand = false, allCand = false, derefPoints = false;
uint64_t rng = 88172645463325252ull;
uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 2685821657736338717ull >> 11;
}

// =============================================================== fibers
extern "C" void vrt_switch(void **save, void *to);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vrt_switch,.-vrt_switch
)");

static void fakeReset();
void wake(const void *l);
static const size_t STACK = 1 << 18;
static const int MAXF = 12;
static const int DAEMON = 8; // fibers from here on are threads started by the library
struct Fiber
{
    bool asleep = false;
    bool stopped = false; // never runs again
    std::string tls; // thread-local storage of the library
    std::vector<std::pair<void (*)(void *), void *>> atExit;
    void *sp = nullptr;
    char *stack = nullptr;
    bool live = false;
    const void *waits = nullptr;
    const std::function<void()> *body = nullptr;
};
static Fiber fib[MAXF];
static int nf = 0, firstId_ = 0;
static void *mainSp;
static sigjmp_buf mainJmp;
static RunResult res;
static size_t forcedPos;
static int fiberRun;
static bool stored[MAXF + 1]; // the last shared access was a store to a file
static const int QUANTUM = 3000;

static int idx(int id) { return id >= DAEMON ? id : id - firstId_; }
static int idOf(int t) { return t >= DAEMON ? t : firstId_ + t; }
static bool multi() // more than one thread
{
    if (nf > 1)
        return true;
    for (int i = DAEMON; i < MAXF; i++)
        if (fib[i].live)
            return true;
    return false;
}
static uint16_t enabledMask()
{
    uint16_t m = 0;
    for (int i = 0; i < MAXF; i++)
        if (fib[i].live && !fib[i].waits && !fib[i].stopped)
            m |= 1 << i;
    return m;
}
static bool clientsLeft()
{
    for (int i = 0; i < nf; i++)
        if (fib[i].live && !fib[i].stopped)
            return true;
    return false;
}
static uint16_t awake(uint16_t m)
{
    uint16_t a = m;
    for (int i = 0; i < MAXF; i++)
        if (fib[i].asleep)
            a &= ~(1 << i);
    return a ? a : m;
}
static int low(uint16_t m) { return __builtin_ctz(m); }
static int nextRR(uint16_t m, int cur)
{
    for (int i = 1; i <= MAXF; i++)
        if (m >> ((cur + i) % MAXF) & 1)
            return (cur + i) % MAXF;
    return cur;
}

// ---- thread-local storage of the library: one copy per fiber
static char *tlsBase = nullptr;
static std::string tlsInit;
static void tlsSave(int f)
{
    if (tlsBase)
        fib[f].tls.assign(tlsBase, tlsInit.size());
}
static void tlsLoad(int f)
{
    if (tlsBase)
        memcpy(tlsBase, fib[f].tls.data(), tlsInit.size());
}

[[noreturn]] static void leave(Outcome o, const std::string &msg)
{
    res.out = o;
    res.fiber = curFiber;
    res.msg = msg;
    inLib = false;
    siglongjmp(mainJmp, 1);
}

static void go(int t)
{
    int from = idx(curFiber);
    curFiber = idOf(t);
    fiberRun = 0;
    tlsSave(from);
    tlsLoad(t);
    vrt_switch(&fib[from].sp, fib[t].sp);
}

int maxStops = 0;
std::function<void(int)> onStop;
static int stops;
static void stop(int f)
{
    stops++;
    fib[f].stopped = true;
    if (onStop)
        onStop(idOf(f));
}

// A choice among the enabled fibers; cur < 0 or not enabled: somebody has to be chosen.
// A target of 32 and more: the current fiber is stopped for ever.
static int decide(uint16_t en, int cur, bool free, bool record)
{
    int def = free ? (cur >= 0 ? nextRR(awake(en), cur) : low(awake(en))) : cur;
    int t = def;
    int step = totalSteps;
    while (forcedPos < forced.size() && forced[forcedPos].step < step)
        forcedPos++;
    if (forcedPos < forced.size() && forced[forcedPos].step == step)
    {
        t = forced[forcedPos].target;
        if (t >= 32 && !free && (en >> (t - 32) & 1) && t - 32 != cur)
        {
            stop(cur);
            taken.push_back({step, t});
            return t - 32;
        }
        if (t >= 32 || !(en >> t & 1))
            t = def;
    }
    else if (randomSwitch > 0 && record && (free || (double)(rnd() & 0xffffff) / 0x1000000 < randomSwitch))
    {
        int n = __builtin_popcount(en), k = rnd(n);
        uint16_t m = en;
        while (k--)
            m &= m - 1;
        t = low(m);
        if (stops < maxStops && t != cur && !free && cur < nf && rnd(4) == 0)
        {
            stop(cur);
            taken.push_back({step, t + 32});
            return t;
        }
    }
    if (t != def)
        taken.push_back({step, t});
    if (record && (en & (en - 1)))
        trace.push_back({step, (uint8_t)(cur < 0 ? 255 : cur), (uint8_t)t, en, free});
    return t;
}

static void fiberMain();
static void entry() { fiberMain(); }

static void fiberMain()
{
    int me = idx(curFiber);
    try
    {
        (*fib[me].body)();
        while (!fib[me].atExit.empty())
        {
            inLib = false;
            auto d = fib[me].atExit.back();
            fib[me].atExit.pop_back();
            inLib = true;
            d.first(d.second);
        }
    }
    catch (const std::exception &e)
    {
        inLib = false;
        leave(ABORT, std::string("exception: ") + e.what());
    }
    catch (...)
    {
        inLib = false;
        leave(ABORT, "exception");
    }
    inLib = false;
    fib[me].live = false;
    wake(&fib[me]);
    totalSteps++;
    uint16_t en = enabledMask();
    if (!clientsLeft())
        siglongjmp(mainJmp, 2);
    if (!en)
        leave(HANG, "deadlock");
    int t = decide(en, me, true, !quietCand);
    void *dummy;
    curFiber = idOf(t);
    fiberRun = 0;
    tlsLoad(t);
    vrt_switch(&dummy, fib[t].sp);
    abort();
}

static void onSegv(int sig, siginfo_t *si, void *)
{
    if (curFiber < 0)
    {
        const char m[] = "vrt: fault outside of the library\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(70);
    }
    char b[64];
    snprintf(b, sizeof b, "%s", sig == SIGFPE ? "arithmetic fault" : sig == SIGILL ? "illegal instruction" : "invalid memory access");
    (void)si;
    leave(SEGV, b);
}
static volatile int alarmSteps = -1;
static void onAlarm(int)
{
    if (curFiber >= 0 && inLib)
    {
        if (alarmSteps == totalSteps)
        {
            alarmSteps = -1;
            leave(HANG, "endless loop without shared accesses");
        }
        alarmSteps = totalSteps;
    }
    else
        alarmSteps = -1;
}

static void initOnce()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    stack_t ss{};
    ss.ss_size = 1 << 16;
    ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL})
        sigaction(s, &sa, nullptr);
    struct sigaction al{};
    al.sa_handler = onAlarm;
    al.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &al, nullptr);
    itimerval it{{3, 0}, {3, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    for (int i = 0; i < MAXF; i++)
    {
        char *p = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(p, 4096, PROT_NONE);
        fib[i].stack = p + 4096;
    }
}

static void startFiber(int i, const std::function<void()> *body)
{
    fib[i].live = true;
    fib[i].waits = nullptr;
    fib[i].asleep = fib[i].stopped = false;
    fib[i].atExit.clear();
    fib[i].tls = tlsInit;
    fib[i].body = body;
    uintptr_t top = (uintptr_t)(fib[i].stack + STACK) & ~(uintptr_t)15;
    void **sp = (void **)top;
    *--sp = nullptr; // return address of entry: never used, keeps alignment
    *--sp = (void *)&entry;
    for (int r = 0; r < 6; r++)
        *--sp = nullptr;
    fib[i].sp = sp;
}

RunResult runFibers(const std::vector<std::function<void()>> &bodies, int firstId)
{
    initOnce();
    nf = bodies.size();
    firstId_ = firstId;
    res = RunResult();
    memset(stored, 0, sizeof stored);
    forcedPos = 0;
    fiberRun = 0;
    stops = 0;
    for (int i = 0; i < DAEMON; i++)
        fib[i].live = false;
    for (int i = 0; i < nf; i++)
        startFiber(i, &bodies[i]);
    int rc = sigsetjmp(mainJmp, 0);
    if (rc == 0)
    {
        totalSteps++;
        int t = decide(enabledMask(), -1, true, !quietCand);
        curFiber = idOf(t);
        tlsLoad(t);
        vrt_switch(&mainSp, fib[t].sp);
    }
    curFiber = -1;
    inLib = false;
    return res;
}

// ---- which accesses are worth a preemption
static const size_t SH = 1 << 18;
static uint16_t *touch = (uint16_t *)calloc(SH, 2);
static std::vector<uint32_t> touched;
void forgetSharing()
{
    for (auto i : touched)
        touch[i] = 0;
    touched.clear();
}
struct Inode;
static bool filePrivate(const void *a, int fiber, bool &first);
static bool unmapped(const void *a);

static bool candidate(const void *a, bool)
{
    if (!multi())
        return false;
    if (allCand)
        return true;
    uint64_t h = (uintptr_t)a >> 3;
    h = (h * 0x9E3779B97F4A7C15ull) >> 46;
    uint16_t &t = touch[h];
    if (!t)
        touched.push_back(h);
    t |= 1 << idx(curFiber);
    bool first;
    if (filePrivate(a, curFiber, first))
        return first;
    return (t & (t - 1)) != 0;
}

void point(const void *a, bool w)
{
    if (curFiber < 0 || !inLib)
        return;
    stored[idx(curFiber)] = false;
    inLib = false;
    if (unmapped(a))
        leave(SEGV, "access to an unmapped table");
    totalSteps++;
    fiberRun++;
    if (totalSteps > stepCap)
        leave(HANG, "no progress under a fair scheduler");
    int cur = idx(curFiber);
    bool cand = candidate(a, w) && !quietCand;
    uint16_t en = enabledMask();
    int t = cur;
    if (en & (en - 1))
        t = decide(en, cur, false, cand);
    if (t == cur && fiberRun >= QUANTUM)
        t = nextRR(en, cur);
    if (t != cur)
        go(t);
    inLib = true;
}

void lockWait(const void *l)
{
    if (curFiber < 0)
        abort();
    inLib = false;
    int cur = idx(curFiber);
    fib[cur].waits = l;
    totalSteps++;
    uint16_t en = enabledMask();
    if (!en)
        leave(HANG, "deadlock");
    go(decide(en, cur, true, !quietCand));
    inLib = true;
}
// The current fiber lets others run: for a while (it sleeps) or once.
static void giveWay(bool sleep)
{
    if (curFiber < 0)
        return;
    bool il = inLib;
    inLib = false;
    int cur = idx(curFiber);
    static int n;
    totalSteps++;
    if (totalSteps > stepCap)
        leave(HANG, "no progress under a fair scheduler");
    uint16_t en = enabledMask();
    fib[cur].asleep = sleep;
    int t = cur;
    if (en & (en - 1))
        t = !sleep && ++n % 16 == 0 ? nextRR(en, cur) : decide(en, cur, true, !quietCand);
    if (t != cur)
        go(t);
    fib[cur].asleep = false;
    inLib = il;
}
void settle()
{
    while (true)
    {
        bool idle = true;
        for (int i = DAEMON; i < MAXF; i++)
            idle = idle && (!fib[i].live || fib[i].asleep);
        if (idle)
            return;
        giveWay(true);
    }
}
void wake(const void *l)
{
    for (int i = 0; i < MAXF; i++)
        if (fib[i].waits == l)
            fib[i].waits = nullptr;
}

// Non-atomic shared objects: two overlapping accesses of which one writes are a data race.
static std::map<const void *, std::pair<int, int>> accesses; // readers, writers
void raceBegin(const void *o, bool w)
{
    if (curFiber < 0)
        return;
    bool il = inLib;
    inLib = false;
    auto &p = accesses[o];
    if (p.second || (w && p.first))
        leave(ABORT, "data race: two threads access the container at the same time and one of them writes");
    (w ? p.second : p.first)++;
    inLib = il;
    point(o, w);
}
void raceEnd(const void *o, bool w)
{
    if (curFiber < 0)
        return;
    bool il = inLib;
    inLib = false;
    auto &p = accesses[o];
    (w ? p.second : p.first)--;
    inLib = il;
}

// =============================================================== arena
static const size_t ARENA = (size_t)512 << 20;
static char *arena = nullptr;
static size_t arenaPos = 0;
size_t arenaUsed() { return arenaPos; }
static bool inArena(const void *p) { return arena && (char *)p >= arena && (char *)p < arena + ARENA; }
static const uint64_t LIVE = 0xA11C0DEA11C0DE00ull, DEAD = 0xDEADDEADDEADDEADull;
static void *arenaAlloc(size_t n, size_t al)
{
    if (!arena)
        arena = (char *)mmap((void *)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (al < 16)
        al = 16;
    size_t p = (arenaPos + 16 + al - 1) & ~(al - 1);
    if (p + n > ARENA)
        throw std::bad_alloc();
    arenaPos = p + n;
    uint64_t *h = (uint64_t *)(arena + p - 16);
    h[0] = LIVE;
    h[1] = n;
    memset(arena + p, 0xCD, n);
    return arena + p;
}
static void arenaFree(void *p)
{
    uint64_t *h = (uint64_t *)((char *)p - 16);
    if (h[0] == DEAD)
    {
        if (curFiber >= 0)
            leave(ABORT, "double free");
        return;
    }
    if (h[0] != LIVE)
    {
        if (curFiber >= 0)
            leave(ABORT, "free of an invalid pointer");
        return;
    }
    h[0] = DEAD;
    memset(p, 0xDD, h[1]);
}

// =============================================================== files
static const char *PREF[] = {"/mnt/pmem/", "./data/tables", "data/tables", "./vrt/"};
static const size_t REGION = (size_t)256 << 20;
static char *region = nullptr, *shadow = nullptr;
static size_t regionPos = 0;
static int16_t *pageIno = nullptr;
struct Inode
{
    char *base = nullptr;
    size_t cap = 0, len = 0;
    bool linked = true;
    int name = -1;
    uint16_t who = 0;
    int priv = 0;
    int maps = 0; // live mappings
    int gone = 0; // was mapped, is not any more
};
static std::vector<Inode> inodes;
static int unmappedFiles = 0;
static std::map<std::string, int> dir;
static std::map<int, std::pair<int, size_t>> fds; // fd -> inode, position
static int nextFd;
std::vector<LogEnt> log_;
std::vector<std::string> names_;
static bool logging = true;

static bool ours(const char *p)
{
    if (curFiber < 0 || !p)
        return false;
    for (auto q : PREF)
        if (!strncmp(p, q, strlen(q)))
            return true;
    return false;
}
static std::string norm(const char *p)
{
    std::string s = std::filesystem::path(p).lexically_normal().string();
    while (s.size() > 1 && s.back() == '/')
        s.pop_back();
    return s;
}
static int nameId(const std::string &s)
{
    for (size_t i = 0; i < names_.size(); i++)
        if (names_[i] == s)
            return i;
    names_.push_back(s);
    return names_.size() - 1;
}
static void regionInit()
{
    if (region)
        return;
    region = (char *)mmap((void *)0x100000000000ull, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (char *)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pageIno = (int16_t *)malloc(REGION / 4096 * 2);
    memset(pageIno, 0xff, REGION / 4096 * 2);
}
static int inoOf(const void *a)
{
    if (!region || (char *)a < region || (char *)a >= region + REGION)
        return -1;
    return pageIno[((char *)a - region) >> 12];
}
const char *baseOf(uint64_t p, int &ino)
{
    ino = inoOf((void *)p);
    return ino < 0 ? nullptr : inodes[ino].base;
}
static bool unmapped(const void *a)
{
    int i = unmappedFiles ? inoOf(a) : -1;
    return i >= 0 && inodes[i].gone;
}
static bool filePrivate(const void *a, int fiber, bool &first)
{
    int i = inoOf(a);
    if (i < 0)
        return false;
    Inode &n = inodes[i];
    n.who |= 1 << fiber;
    if (n.who & (n.who - 1))
        return false;
    first = (n.priv++ % 24) == 0;
    return true;
}
static void put(LogEnt e)
{
    if (!logging)
        return;
    e.fiber = curFiber;
    log_.push_back(e);
}
static LogEnt ent(LogKind k, int ino, uint32_t off = 0, uint64_t o = 0, uint64_t n = 0, uint8_t size = 0)
{
    LogEnt e{};
    e.k = k;
    e.ino = ino;
    e.off = off;
    e.o = o;
    e.n = n;
    e.size = size;
    e.name = e.name2 = -1;
    return e;
}
bool crashMode = false;
size_t poolSize = (size_t)4 << 20, poolReady = 0;
bool wantLog = false; // the stores to files matter
static std::vector<bool> lines(REGION / 64); // lines that were stored to
static void mark(const void *a) { lines[((char *)a - region) >> 6] = true; }
static bool dirtyLine(int i, size_t off) { return lines[(inodes[i].base + off - region) >> 6]; }
static void diffRange(int i, size_t from, size_t to);
bool wantPtr = false; // which tables pointers refer to matters
// The file whose mapping an object in the arena refers to (a table), or -1.
static int fileOf(uint64_t obj)
{
    if (!inArena((void *)obj) || ((uint64_t *)obj)[-2] != LIVE)
        return -1;
    for (uint64_t i = 0; i < 16 && i < ((uint64_t *)obj)[-1] / 8; i++)
    {
        uint64_t w;
        memcpy(&w, (char *)obj + 8 * i, 8);
        int f = inoOf((void *)w);
        if (f >= 0 && inodes[f].base == (char *)w)
            return f;
    }
    return -1;
}
void logWrite(const void *a, uint64_t o, uint64_t n, unsigned size, bool isPtr)
{
    int i = inoOf(a);
    if (i < 0)
    {
        if (isPtr && curFiber >= 0)
        {
            bool il = inLib;
            inLib = false;
            LogEnt e = ent(L_PTR, -1, 0, o, n, size);
            if (wantPtr)
                e.name = fileOf(o), e.name2 = fileOf(n);
            put(e);
            // which object: the address itself
            log_.back().off = (uint32_t)(((uintptr_t)a) & 0xffffffff);
            inLib = il;
        }
        return;
    }
    bool il = inLib;
    inLib = false;
    size_t off = (char *)a - inodes[i].base;
    put(ent(L_WRITE, i, off, o, n, size));
    mark(a);
    memcpy(shadow + ((char *)a - region), a, size);
    if (curFiber >= 0)
        stored[idx(curFiber)] = true;
    inLib = il;
}
static void diffRange(int i, size_t from, size_t to)
{
    if (!wantLog)
        return;
    Inode &n = inodes[i];
    for (size_t off = from & ~(size_t)7; off < to && off < n.len; off += 8)
    {
        while (!(off & 511) && off + 512 <= to && off + 512 <= n.len && !memcmp(n.base + off, shadow + (n.base + off - region), 512))
            off += 512;
        if (off >= to || off >= n.len)
            break;
        char *p = n.base + off, *q = shadow + (p - region);
        if (memcmp(p, q, 8))
        {
            uint64_t o, v;
            memcpy(&o, q, 8);
            memcpy(&v, p, 8);
            put(ent(L_WRITE, i, off, o, v, 8));
            mark(p);
            memcpy(q, p, 8);
        }
    }
}
void syncPlain()
{
    for (size_t i = 0; i < inodes.size(); i++)
        if (inodes[i].base)
            diffRange(i, 0, inodes[i].len);
}
// A flush or fence is a scheduling point if it comes after a store of the same thread: the store is visible,
// but not yet durable.
static void flushPoint(const void *p)
{
    if (curFiber >= 0 && multi() && inLib && stored[idx(curFiber)])
        point(p, false);
}
void clflush(const void *p)
{
    int i = inoOf(p);
    if (i < 0)
        return;
    flushPoint(p);
    bool il = inLib;
    inLib = false;
    size_t off = ((char *)p - inodes[i].base) & ~(size_t)63;
    diffRange(i, off, off + 64);
    put(ent(L_FLUSH, i, off));
    inLib = il;
}
void sfence()
{
    if (curFiber < 0)
        return;
    if (!log_.empty() && log_.back().k == L_FLUSH && log_.back().fiber == curFiber)
        flushPoint(inodes[log_.back().ino].base + log_.back().off);
    bool il = inLib;
    inLib = false;
    if (!log_.empty())
        put(ent(L_FENCE, -1));
    inLib = il;
}
static int newInode(const std::string &name)
{
    Inode n;
    n.name = nameId(name);
    inodes.push_back(n);
    dir[name] = inodes.size() - 1;
    return inodes.size() - 1;
}
static bool growInode(int i, size_t len)
{
    regionInit();
    Inode &n = inodes[i];
    if (len > n.cap)
    {
        if (n.base && n.cap)
        {
            if (n.len || n.maps)
                return false; // not needed by any code seen so far
            // an empty file that nobody has mapped: give it a larger place
            for (size_t p = 0; p < n.cap; p += 4096)
                pageIno[((n.base - region) + p) >> 12] = -1;
        }
        size_t cap = (len + 4095) & ~(size_t)4095;
        if (regionPos + cap + 4096 > REGION)
            return false;
        n.base = region + regionPos;
        n.cap = cap;
        for (size_t p = 0; p < cap; p += 4096)
            pageIno[(regionPos + p) >> 12] = i;
        regionPos += cap + 4096;
    }
    if (len < n.len)
        memset(n.base + len, 0, n.len - len);
    n.len = len;
    return true;
}
static void clearFs()
{
    if (region && regionPos)
    {
        if (regionPos > (1 << 20))
        {
            madvise(region, regionPos, MADV_DONTNEED);
            madvise(shadow, regionPos, MADV_DONTNEED);
        }
        else
        {
            memset(region, 0, regionPos);
            memset(shadow, 0, regionPos);
        }
        memset(pageIno, 0xff, (regionPos >> 12) * 2);
    }
    if (regionPos)
        std::fill(lines.begin(), lines.begin() + regionPos / 64 + 1, false);
    regionPos = 0;
    unmappedFiles = 0;
    inodes.clear();
    dir.clear();
    fds.clear();
    nextFd = 1 << 20;
    log_.clear();
}
Image liveImage()
{
    Image im;
    for (auto &d : dir)
    {
        Inode &n = inodes[d.second];
        im.push_back({d.first, n.base ? std::string(n.base, n.len) : std::string()});
    }
    return im;
}

// ---- process state
struct Seg
{
    char *p;
    size_t n;
    std::string copy;
};
static std::vector<Seg> segs;
static std::string wantModule;
static int phdr(struct dl_phdr_info *in, size_t, void *)
{
    if (!in->dlpi_name || !strstr(in->dlpi_name, wantModule.c_str()))
        return 0;
    size_t relroLo = 0, relroHi = 0;
    for (int i = 0; i < in->dlpi_phnum; i++)
        if (in->dlpi_phdr[i].p_type == PT_GNU_RELRO)
        {
            relroLo = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr;
            relroHi = (relroLo + in->dlpi_phdr[i].p_memsz + 4095) & ~(size_t)4095;
        }
    for (int i = 0; i < in->dlpi_phnum; i++)
    {
        auto &h = in->dlpi_phdr[i];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W))
        {
            size_t lo = in->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
            if (relroLo >= (lo & ~(size_t)4095) && relroHi > lo && relroHi <= hi)
                lo = relroHi;
            if (lo < hi)
                segs.push_back({(char *)lo, hi - lo, std::string((char *)lo, hi - lo)});
        }
    }
    return 0;
}
extern "C" void *__tls_get_addr(void *);
static int phdrTls(struct dl_phdr_info *in, size_t, void *)
{
    if (!in->dlpi_name || !strstr(in->dlpi_name, wantModule.c_str()))
        return 0;
    for (int i = 0; i < in->dlpi_phnum; i++)
        if (in->dlpi_phdr[i].p_type == PT_TLS)
        {
            auto &h = in->dlpi_phdr[i];
            size_t ti[2] = {in->dlpi_tls_modid, 0};
            tlsBase = (char *)__tls_get_addr(ti);
            tlsInit.assign((char *)in->dlpi_addr + h.p_vaddr, h.p_filesz);
            tlsInit.resize(h.p_memsz, 0);
        }
    return 0;
}
void addModule(const char *so)
{
    wantModule = so;
    dl_iterate_phdr(phdr, nullptr);
    dl_iterate_phdr(phdrTls, nullptr);
}
static void resetMem()
{
    for (auto &s : segs)
        memcpy(s.p, s.copy.data(), s.n);
    if (arena && arenaPos > (8 << 20))
        madvise(arena, arenaPos, MADV_DONTNEED);
    arenaPos = 0;
    for (int i = 0; i < MAXF; i++)
        fib[i].live = false;
    fakeReset();
    accesses.clear();
    fds.clear();
    totalSteps = 0;
    taken.clear();
    trace.clear();
}
void resetWorld()
{
    resetMem();
    clearFs();
}
void resetProcess()
{
    Image im = liveImage();
    resetMem();
    loadImage(im);
}
void loadImage(const Image &im)
{
    clearFs();
    for (auto &f : im)
    {
        int i = newInode(f.name);
        if (f.data.size())
        {
            growInode(i, f.data.size());
            static const char zero[4096] = {};
            for (size_t p = 0; p < f.data.size(); p += 4096)
            {
                size_t n = std::min<size_t>(4096, f.data.size() - p);
                if (!memcmp(f.data.data() + p, zero, n))
                    continue;
                memcpy(inodes[i].base + p, f.data.data() + p, n);
                if (wantLog)
                    memcpy(shadow + (inodes[i].base - region) + p, f.data.data() + p, n);
            }
        }
    }
    log_.clear();
}

// =============================================================== crash images
CrashWalker::CrashWalker(const Image &start)
{
    for (auto &x : start)
    {
        F q;
        q.name = x.name;
        q.durable = x.data;
        f.push_back(q);
    }
}
void CrashWalker::step(const LogEnt &e)
{
    switch (e.k)
    {
    case L_CREATE:
    {
        F q;
        q.name = names_[e.name];
        f.push_back(q);
        break;
    }
    case L_TRUNC:
        if (e.off < f[e.ino].durable.size())
        {
            auto &p = f[e.ino].pend;
            p.erase(p.lower_bound(e.off & ~63u), p.end());
        }
        f[e.ino].durable.resize(e.off);
        break;
    case L_UNLINK:
        f[e.ino].linked = false;
        break;
    case L_RENAME:
        for (auto &x : f)
            if (x.linked && x.name == names_[e.name2])
                x.linked = false;
        f[e.ino].name = names_[e.name2];
        f[e.ino].linked = true;
        break;
    case L_WRITE:
        f[e.ino].pend[e.off & ~63u].push_back(e);
        break;
    case L_DUR:
    {
        // durable at once, after every earlier store of its line
        F &x = f[e.ino];
        auto it = x.pend.find(e.off & ~63u);
        if (it != x.pend.end())
        {
            for (auto &w : it->second)
                if (w.off + w.size <= x.durable.size())
                    memcpy(&x.durable[w.off], &w.n, w.size);
            x.drained[e.off & ~63u] += it->second.size();
            x.pend.erase(it);
        }
        if (e.off + e.size <= x.durable.size())
            memcpy(&x.durable[e.off], &e.n, e.size);
        break;
    }
    case L_FLUSH:
    {
        F &x = f[e.ino];
        auto it = x.pend.find(e.off);
        uint64_t up = x.drained[e.off] + (it == x.pend.end() ? 0 : it->second.size());
        flushed[e.fiber].push_back({e.ino, e.off, up});
        break;
    }
    case L_FENCE:
    {
        for (auto &q : flushed[e.fiber])
        {
            F &x = f[q.ino];
            auto it = x.pend.find(q.line);
            if (it == x.pend.end())
                continue;
            uint64_t &d = x.drained[q.line];
            while (d < q.upto && !it->second.empty())
            {
                auto &w = it->second.front();
                if (w.off + w.size <= x.durable.size())
                    memcpy(&x.durable[w.off], &w.n, w.size);
                it->second.erase(it->second.begin());
                d++;
            }
            if (it->second.empty())
                x.pend.erase(it);
        }
        flushed[e.fiber].clear();
        break;
    }
    case L_PTR:
        break;
    }
}
size_t CrashWalker::openLines() const
{
    size_t n = 0;
    for (auto &x : f)
        if (x.linked)
            n += x.pend.size();
    return n;
}
std::vector<int> CrashWalker::limits() const
{
    std::vector<int> v;
    for (auto &x : f)
        if (x.linked)
            for (auto &l : x.pend)
                v.push_back(l.second.size());
    return v;
}
Image CrashWalker::build(const std::vector<int> &pick) const
{
    Image im;
    size_t i = 0;
    for (auto &x : f)
        if (x.linked)
        {
            FileImg g{x.name, x.durable};
            for (auto &l : x.pend)
            {
                for (int k = 0; k < pick[i]; k++)
                {
                    auto &w = l.second[k];
                    if (w.off + w.size <= g.data.size())
                        memcpy(&g.data[w.off], &w.n, w.size);
                }
                i++;
            }
            im.push_back(g);
        }
    return im;
}
} // namespace vrt

// =============================================================== interposed functions
using namespace vrt;
template <class Fn>
static Fn real(const char *n)
{
    return (Fn)dlsym(RTLD_NEXT, n);
}
struct Out
{
    bool s;
    Out() : s(inLib) { inLib = false; }
    ~Out() { inLib = s; }
};

void *operator new(size_t n)
{
    if (inLib)
        return arenaAlloc(n, 16);
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a)
{
    if (inLib)
        return arenaAlloc(n, (size_t)a);
    return aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1));
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept
{
    if (!p)
        return;
    if (inArena(p))
        arenaFree(p);
    else if (curFiber >= 0 && inLib && (inoOf(p) >= 0))
        leave(ABORT, "free of an invalid pointer");
    else
        free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { operator delete(p); }

extern "C"
{
    void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept
    {
        if (curFiber >= 0)
        {
            inLib = false;
            leave(ABORT, std::string("assertion failed: ") + e);
        }
        fprintf(stderr, "vrt: assertion %s\n", e);
        _exit(71);
    }
    void abort() noexcept
    {
        if (curFiber >= 0)
        {
            inLib = false;
            leave(ABORT, "abort");
        }
        _exit(72);
    }
    void exit(int c) noexcept
    {
        if (curFiber >= 0)
        {
            inLib = false;
            leave(ABORT, "exit");
        }
        static auto r = real<void (*)(int)>("exit");
        r(c);
        __builtin_unreachable();
    }

    int sched_yield() noexcept
    {
        if (curFiber >= 0)
        {
            giveWay(false);
            return 0;
        }
        static auto r = real<int (*)()>("sched_yield");
        return r();
    }
    int usleep(useconds_t t)
    {
        if (curFiber >= 0)
        {
            giveWay(true);
            return 0;
        }
        static auto r = real<int (*)(useconds_t)>("usleep");
        return r(t);
    }
    int nanosleep(const struct timespec *a, struct timespec *b)
    {
        if (curFiber >= 0)
        {
            giveWay(true);
            return 0;
        }
        static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
        return r(a, b);
    }
    int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
    {
        if (curFiber >= 0)
        {
            giveWay(true);
            return 0;
        }
        static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
        return r(c, f, a, b);
    }
    static std::function<void()> threadBody[MAXF];
    int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept
    {
        if (curFiber >= 0)
        {
            Out o;
            for (int i = DAEMON; i < MAXF; i++)
                if (!fib[i].live)
                {
                    threadBody[i] = [fn, arg]() {
                        inLib = true;
                        fn(arg);
                    };
                    startFiber(i, &threadBody[i]);
                    *t = (pthread_t)(0x1000 + i);
                    return 0;
                }
            return EAGAIN;
        }
        static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
        return r(t, at, fn, arg);
    }
    int pthread_join(pthread_t t, void **v)
    {
        if (curFiber >= 0)
        {
            int i = (int)t - 0x1000;
            if (i < DAEMON || i >= MAXF)
                return ESRCH; // a thread of another process
            while (fib[i].live)
                lockWait(&fib[i]);
            return 0;
        }
        static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
        return r(t, v);
    }
    int pthread_detach(pthread_t t) noexcept
    {
        if (curFiber >= 0)
            return 0;
        static auto r = real<int (*)(pthread_t)>("pthread_detach");
        return r(t);
    }
    int __cxa_thread_atexit(void (*d)(void *), void *obj, void *) noexcept
    {
        if (curFiber >= 0)
        {
            Out o;
            fib[idx(curFiber)].atExit.push_back({d, obj});
        }
        return 0;
    }

    static int doOpen(const char *p, int fl)
    {
        Out o;
        std::string s = norm(p);
        auto it = dir.find(s);
        int ino;
        if (it == dir.end())
        {
            if (!(fl & O_CREAT))
            {
                errno = ENOENT;
                return -1;
            }
            ino = newInode(s);
            LogEnt e = ent(L_CREATE, ino);
            e.name = nameId(s);
            put(e);
        }
        else
        {
            if ((fl & O_CREAT) && (fl & O_EXCL))
            {
                errno = EEXIST;
                return -1;
            }
            ino = it->second;
            if ((fl & O_TRUNC) && inodes[ino].len)
            {
                diffRange(ino, 0, inodes[ino].len);
                growInode(ino, 0);
                memset(shadow + (inodes[ino].base - region), 0, inodes[ino].cap);
                put(ent(L_TRUNC, ino, 0));
            }
        }
        int fd = nextFd++;
        fds[fd] = {ino, 0};
        return fd;
    }
    int open(const char *p, int fl, ...)
    {
        va_list a;
        va_start(a, fl);
        int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
        va_end(a);
        if (ours(p))
            return doOpen(p, fl);
        static auto r = real<int (*)(const char *, int, ...)>("open");
        return r(p, fl, m);
    }
    int open64(const char *p, int fl, ...)
    {
        va_list a;
        va_start(a, fl);
        int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
        va_end(a);
        if (ours(p))
            return doOpen(p, fl);
        static auto r = real<int (*)(const char *, int, ...)>("open64");
        return r(p, fl, m);
    }
    int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
    static int sizeFd(int fd, off_t len)
    {
        Out o;
        int ino = fds[fd].first;
        size_t before = inodes[ino].len;
        if (inodes[ino].base)
            diffRange(ino, 0, before);
        if (!growInode(ino, len))
        {
            errno = ENOSPC;
            return -1;
        }
        if ((size_t)len < before)
            memset(shadow + (inodes[ino].base - region) + len, 0, before - len);
        put(ent(L_TRUNC, ino, len));
        return 0;
    }
    int ftruncate(int fd, off_t len) noexcept
    {
        if (fds.count(fd))
            return sizeFd(fd, len);
        static auto r = real<int (*)(int, off_t)>("ftruncate");
        return r(fd, len);
    }
    int ftruncate64(int fd, off64_t len) noexcept { return ftruncate(fd, len); }
    int posix_fallocate(int fd, off_t o, off_t len)
    {
        if (fds.count(fd))
            return (size_t)(o + len) > inodes[fds[fd].first].len ? (sizeFd(fd, o + len) ? ENOSPC : 0) : 0;
        static auto r = real<int (*)(int, off_t, off_t)>("posix_fallocate");
        return r(fd, o, len);
    }
    static void fillStat(int ino, struct stat *st)
    {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0600;
        st->st_size = inodes[ino].len;
        st->st_ino = ino + 1;
        st->st_nlink = 1;
        st->st_blksize = 4096;
        st->st_blocks = (st->st_size + 511) / 512;
    }
    int fstat(int fd, struct stat *st) noexcept
    {
        if (fds.count(fd))
        {
            fillStat(fds[fd].first, st);
            return 0;
        }
        static auto r = real<int (*)(int, struct stat *)>("fstat");
        return r(fd, st);
    }
    int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
    int stat(const char *p, struct stat *st) noexcept
    {
        if (ours(p))
        {
            Out o;
            std::string s = norm(p);
            auto it = dir.find(s);
            if (it != dir.end())
            {
                fillStat(it->second, st);
                return 0;
            }
            if (s == "/mnt/pmem" || s == "/mnt/pmem/pm1" || s == "/mnt/pmem/pm1/tables" || s == "data/tables")
            {
                memset(st, 0, sizeof *st);
                st->st_mode = S_IFDIR | 0700;
                return 0;
            }
            errno = ENOENT;
            return -1;
        }
        static auto r = real<int (*)(const char *, struct stat *)>("stat");
        return r(p, st);
    }
    int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
    int lstat(const char *p, struct stat *st) noexcept
    {
        if (ours(p))
            return stat(p, st);
        static auto r = real<int (*)(const char *, struct stat *)>("lstat");
        return r(p, st);
    }
    int access(const char *p, int m) noexcept
    {
        if (ours(p))
        {
            struct stat st;
            return stat(p, &st);
        }
        static auto r = real<int (*)(const char *, int)>("access");
        return r(p, m);
    }
    int mkdir(const char *p, mode_t m) noexcept
    {
        if (ours(p))
        {
            errno = EEXIST;
            return -1;
        }
        static auto r = real<int (*)(const char *, mode_t)>("mkdir");
        return r(p, m);
    }
    void *mmap(void *a, size_t len, int prot, int fl, int fd, off_t off) noexcept
    {
        if (fd >= (1 << 20) && fds.count(fd))
        {
            Out o;
            Inode &n = inodes[fds[fd].first];
            if (len == 0 || !n.base)
            {
                errno = EINVAL;
                return MAP_FAILED;
            }
            if (fl & MAP_PRIVATE)
            {
                // a copy: stores never reach the file
                void *c = arenaAlloc(len, 4096);
                memcpy(c, n.base + off, len);
                return c;
            }
            if (n.maps == 0)
                unmappedFiles -= n.gone;
            n.gone = 0;
            n.maps++;
            return n.base + off;
        }
        static auto r = real<void *(*)(void *, size_t, int, int, int, off_t)>("mmap");
        return r(a, len, prot, fl, fd, off);
    }
    void *mmap64(void *a, size_t len, int prot, int fl, int fd, off64_t off) noexcept { return mmap(a, len, prot, fl, fd, off); }
    int munmap(void *a, size_t len) noexcept
    {
        if (curFiber >= 0 && inoOf(a) >= 0)
        {
            Out o;
            int i = inoOf(a);
            diffRange(i, 0, inodes[i].len);
            if (inodes[i].maps > 0 && --inodes[i].maps == 0)
            {
                inodes[i].gone = 1;
                unmappedFiles++;
            }
            return 0;
        }
        if (curFiber >= 0 && (inArena(a) || ((uintptr_t)a & 4095)))
        {
            // On a real system: EINVAL for a misaligned address; an aligned heap page would be torn out.
            if (((uintptr_t)a & 4095) == 0 && inArena(a))
                return 0; // a private mapping
            if (((uintptr_t)a & 4095) == 0)
                leave(ABORT, "munmap of memory that was not mapped");
            errno = EINVAL;
            return -1;
        }
        static auto r = real<int (*)(void *, size_t)>("munmap");
        return r(a, len);
    }
    int msync(void *a, size_t len, int fl)
    {
        if (inoOf(a) >= 0)
        {
            for (uintptr_t p = (uintptr_t)a & ~63ull; p < (uintptr_t)a + len; p += 64)
                clflush((void *)p);
            sfence();
            return 0;
        }
        static auto r = real<int (*)(void *, size_t, int)>("msync");
        return r(a, len, fl);
    }
    int fsync(int fd)
    {
        if (fds.count(fd))
        {
            Inode &n = inodes[fds[fd].first];
            return n.base ? msync(n.base, n.len, MS_SYNC) : 0;
        }
        static auto r = real<int (*)(int)>("fsync");
        return r(fd);
    }
    int fdatasync(int fd)
    {
        if (fds.count(fd))
            return fsync(fd);
        static auto r = real<int (*)(int)>("fdatasync");
        return r(fd);
    }
    int close(int fd)
    {
        if (fd >= (1 << 20) && fds.count(fd))
        {
            Out o;
            fds.erase(fd);
            return 0;
        }
        static auto r = real<int (*)(int)>("close");
        return r(fd);
    }
    static int doUnlink(const char *p)
    {
        Out o;
        std::string s = norm(p);
        auto it = dir.find(s);
        if (it == dir.end())
        {
            errno = ENOENT;
            return -1;
        }
        put(ent(L_UNLINK, it->second));
        inodes[it->second].linked = false;
        dir.erase(it);
        return 0;
    }
    int unlink(const char *p) noexcept
    {
        if (ours(p))
            return doUnlink(p);
        static auto r = real<int (*)(const char *)>("unlink");
        return r(p);
    }
    int remove(const char *p) noexcept
    {
        if (ours(p))
            return doUnlink(p);
        static auto r = real<int (*)(const char *)>("remove");
        return r(p);
    }
    int rename(const char *a, const char *b) noexcept
    {
        if (ours(a))
        {
            Out o;
            std::string s = norm(a), t = norm(b);
            auto it = dir.find(s);
            if (it == dir.end())
            {
                errno = ENOENT;
                return -1;
            }
            int ino = it->second;
            LogEnt e = ent(L_RENAME, ino);
            e.name = nameId(s);
            e.name2 = nameId(t);
            put(e);
            dir.erase(it);
            auto old = dir.find(t);
            if (old != dir.end())
                inodes[old->second].linked = false;
            dir[t] = ino;
            return 0;
        }
        static auto r = real<int (*)(const char *, const char *)>("rename");
        return r(a, b);
    }
    ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
    {
        if (fds.count(fd))
        {
            Out o;
            int i = fds[fd].first;
            if (off + n > inodes[i].len && sizeFd(fd, off + n))
                return -1;
            memcpy(inodes[i].base + off, b, n);
            diffRange(i, off, off + n);
            return n;
        }
        static auto r = real<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite");
        return r(fd, b, n, off);
    }
    ssize_t pread(int fd, void *b, size_t n, off_t off)
    {
        if (fds.count(fd))
        {
            Inode &x = inodes[fds[fd].first];
            if ((size_t)off >= x.len)
                return 0;
            if (off + n > x.len)
                n = x.len - off;
            memcpy(b, x.base + off, n);
            return n;
        }
        static auto r = real<ssize_t (*)(int, void *, size_t, off_t)>("pread");
        return r(fd, b, n, off);
    }
}

// ---- directory listing (declared in vrt.hpp)
namespace std::filesystem
{
struct vdirentry
{
    std::filesystem::path p;
};
struct vdirectory_iterator
{
    std::shared_ptr<std::vector<vdirentry>> e;
    size_t i = 0;
    explicit vdirectory_iterator(const std::filesystem::path &dir);
};
vdirectory_iterator::vdirectory_iterator(const std::filesystem::path &d)
{
    bool il = inLib;
    std::vector<std::string> v;
    bool found = false;
    {
        Out o;
        std::string s = norm(d.c_str());
        for (auto &x : dir)
        {
            auto q = std::filesystem::path(x.first);
            if (q.parent_path().string() == s)
            {
                v.push_back(x.first);
                found = true;
            }
        }
        if (s == "/mnt/pmem/pm1/tables" || s == "/mnt/pmem/pm1" || s == "data/tables")
            found = true;
        // Real directories come in no particular order.
        std::reverse(v.begin(), v.end());
        if (v.size() > 2)
            std::rotate(v.begin(), v.begin() + 1, v.end());
    }
    inLib = il;
    if (!found)
        throw std::filesystem::filesystem_error("directory iterator cannot open directory", d, std::make_error_code(std::errc::no_such_file_or_directory));
    if (!v.empty())
    {
        e = std::make_shared<std::vector<vdirentry>>();
        for (auto &x : v)
            e->push_back({x});
    }
}
} // namespace std::filesystem

#include "fakeobj.hpp"
