// A small libpmemobj on the simulated files (part of vrt.cpp). It is trusted: its own metadata changes are
// atomic and durable at once, its transactions undo what was not committed, its locks are known to the scheduler.
#define PMEMOBJ_DIRECT_NON_INLINE 1
#include <libpmemobj/base.h>
#include <libpmemobj/pool_base.h>
#include <libpmemobj/tx_base.h>
#include <libpmemobj/atomic_base.h>
#include <libpmemobj/thread.h>
#include <setjmp.h>

namespace vrt
{
namespace fake
{
static const uint64_t MAGIC = 0x31304a424f454b46ull, UUID = 0x5eed5eed5eed5eedull;
static const size_t LANE = 1 << 13, LANES = 4096, HEAP = LANES + MAXF * LANE;
struct Head
{
    uint64_t magic, size, root, rootSize, top;
    char layout[64];
};
struct Lane
{
    uint64_t used; // bytes of undo records: {offset, length, data}
    char data[LANE - 8];
};
struct Block // before every object
{
    uint64_t size, state; // state: 0 free, 1 used
    uint64_t type, pad;
};
struct Range
{
    uint64_t off, len;
};
struct Tx
{
    int depth = 0;
    pmemobj_tx_callback cb = nullptr;
    void *cbArg = nullptr;
    pobj_tx_stage stage = TX_STAGE_NONE;
    int err = 0;
    void *user = nullptr;
    std::vector<Range> ranges;
    std::vector<uint64_t> allocs, frees;
    std::vector<std::pair<int, void *>> locks;
};
struct Pool
{
    char *base = nullptr;
    int ino = -1;
    void *user = nullptr;
    std::map<size_t, std::vector<uint64_t>> free; // size -> blocks
    std::vector<Range> small;                     // where notice() looks
    void look(uint64_t off, uint64_t len)
    {
        if (len > (64 << 10))
            return;
        if (!small.empty() && small.back().off + small.back().len == off)
            small.back().len += len;
        else
            small.push_back({off, len});
    }
};
static Tx tx[MAXF];
static std::vector<Pool> pools;
struct Lock
{
    int held = 0; // -1: writer, n > 0: readers
};
static std::map<const void *, Lock> locks;
static std::string errmsg;

static Tx &me() { return tx[idx(curFiber)]; }
static Pool *byPtr(const void *p)
{
    int i = inoOf(p);
    for (auto &x : pools)
        if (i >= 0 && x.ino == i)
            return &x;
    return nullptr;
}
static Head &head(Pool &p) { return *(Head *)p.base; }
static Lane &lane(Pool &p) { return *(Lane *)(p.base + LANES + idx(curFiber) * LANE); }
static Block &block(Pool &p, uint64_t off) { return *(Block *)(p.base + off - sizeof(Block)); }

// Stores that are durable at once and together.
static bool groupOpen = false;
static void dur(Pool &p, void *dst, const void *src, size_t n)
{
    char *a = (char *)((uintptr_t)dst & ~(uintptr_t)7), *e = (char *)dst + n;
    size_t from = a - p.base;
    diffRange(p.ino, from & ~(size_t)63, ((e - p.base) + 63) & ~(size_t)63); // plain stores that came before
    memmove(dst, src, n);
    for (; a < e; a += 8)
    {
        char *q = shadow + (a - region);
        if (memcmp(a, q, 8))
        {
            uint64_t o, v;
            memcpy(&o, q, 8);
            memcpy(&v, a, 8);
            LogEnt l = ent(L_DUR, p.ino, a - p.base, o, v, 8);
            l.glue = groupOpen;
            put(l);
            memcpy(q, a, 8);
        }
    }
}
static void durW(Pool &p, uint64_t &dst, uint64_t v) { dur(p, &dst, &v, 8); }
struct Group
{
    Group() { groupOpen = true; }
    ~Group()
    {
        groupOpen = false;
        if (!log_.empty() && log_.back().glue)
        {
            put(ent(L_PTR, -1)); // ends the group
        }
    }
};
static void flushRange(Pool &p, const void *a, size_t n)
{
    size_t from = ((char *)a - p.base) & ~(size_t)63, to = ((char *)a - p.base) + n;
    diffRange(p.ino, from, (to + 63) & ~(size_t)63);
    for (size_t off = from; off < to; off += 64)
        if (dirtyLine(p.ino, off))
            put(ent(L_FLUSH, p.ino, off));
}
static void fence() { put(ent(L_FENCE, -1)); }

static uint64_t reserve(Pool &p, size_t size, uint64_t type)
{
    size_t n = (size + 63) & ~(size_t)63;
    auto &fl = p.free[n];
    uint64_t off;
    if (!fl.empty())
    {
        off = fl.back();
        fl.pop_back();
    }
    else
    {
        Head &h = head(p);
        if (h.top + n + 64 > h.size)
            return 0;
        off = h.top + 64;
        Group g;
        Block b{n, 0, type, 0};
        dur(p, &block(p, off), &b, sizeof b);
        durW(p, h.top, h.top + n + 64);
        p.look(off, n);
    }
    return off;
}
static void zero(Pool &p, uint64_t off)
{
    memset(p.base + off, 0, block(p, off).size);
}
static void checkFree(Pool &p, uint64_t off)
{
    bool ok = off >= HEAP + 64 && off < head(p).top && block(p, off).size && block(p, off).size % 64 == 0 && block(p, off).state < 2;
    if (!ok)
        leave(ABORT, "free of an invalid object");
    if (block(p, off).state == 0)
    {
        for (auto a : me().allocs)
            if (a == off)
                return;
        leave(ABORT, "object freed twice");
    }
}
static void undo(Pool &p, Lane &l)
{
    std::vector<uint64_t> recs;
    for (uint64_t i = 0; i < l.used;)
    {
        recs.push_back(i);
        uint64_t len;
        memcpy(&len, l.data + i + 8, 8);
        i += 16 + ((len + 7) & ~7ull);
    }
    while (!recs.empty())
    {
        uint64_t i = recs.back(), off, len;
        recs.pop_back();
        memcpy(&off, l.data + i, 8);
        memcpy(&len, l.data + i + 8, 8);
        dur(p, p.base + off, l.data + i + 16, len);
    }
    if (l.used)
        durW(p, l.used, 0);
}
// In crash explorations, plain stores are noticed at every call (in large objects: when they are flushed).
static void notice()
{
    if (crashMode)
        for (auto &p : pools)
            for (auto &r : p.small)
                diffRange(p.ino, r.off, r.off + r.len);
}
static void point_(const void *a)
{
    notice();
    inLib = true;
    point(a, true);
    inLib = false;
}
static void acquire(const void *l, bool w)
{
    point_(l);
    while (true)
    {
        Lock &k = locks[l];
        if (w ? k.held == 0 : k.held >= 0)
        {
            w ? (void)(k.held = -1) : (void)k.held++;
            return;
        }
        lockWait(l);
        inLib = false;
    }
}
static bool tryAcquire(const void *l, bool w)
{
    point_(l);
    Lock &k = locks[l];
    if (!(w ? k.held == 0 : k.held >= 0))
        return false;
    w ? (void)(k.held = -1) : (void)k.held++;
    return true;
}
static void release(const void *l)
{
    Lock &k = locks[l];
    if (k.held == 0)
        leave(ABORT, "unlock of a lock that is not held");
    k.held < 0 ? (void)(k.held = 0) : (void)k.held--;
    wake(l);
    point_(l);
}
static void finishTx(Tx &t)
{
    t.ranges.clear();
    t.allocs.clear();
    t.frees.clear();
}
static PMEMobjpool *openPool(const char *path, const char *layout)
{
    int fd = doOpen(path, O_RDWR);
    if (fd < 0)
    {
        errmsg = "cannot open the pool";
        return nullptr;
    }
    int i = fds[fd].first;
    fds.erase(fd);
    for (auto &x : pools)
        if (x.ino == i)
        {
            errno = EWOULDBLOCK;
            errmsg = "pool is already open";
            return nullptr;
        }
    if (inodes[i].len < HEAP || ((Head *)inodes[i].base)->magic != MAGIC || (layout && strcmp(((Head *)inodes[i].base)->layout, layout)))
    {
        errno = EINVAL;
        errmsg = "not a pool of this layout";
        return nullptr;
    }
    Pool p;
    p.base = inodes[i].base;
    p.ino = i;
    inodes[i].maps++;
    Group g;
    for (int k = 0; k < MAXF; k++)
        undo(p, *(Lane *)(p.base + LANES + k * LANE));
    for (uint64_t b = HEAP; b < head(p).top;)
    {
        Block &k = block(p, b + 64);
        if (!k.state)
            p.free[k.size].push_back(b + 64);
        p.look(b + 64, k.size);
        b += 64 + k.size;
    }
    pools.push_back(p);
    return (PMEMobjpool *)p.base;
}
} // namespace fake
static void fakeReset()
{
    using namespace fake;
    for (auto &t : tx)
        t = Tx();
    pools.clear();
    locks.clear();
    errmsg.clear();
    groupOpen = false;
}
} // namespace vrt

using namespace vrt::fake;
#define IN Out out_
extern "C"
{
    int _pobj_cache_invalidate = 0;
    __thread struct _pobj_pcache _pobj_cached_pool;

    const char *pmemobj_errormsg(void) { return errmsg.c_str(); }
    const char *pmemobj_check_version(unsigned, unsigned) { return nullptr; }
    PMEMobjpool *pmemobj_create(const char *path, const char *layout, size_t, mode_t)
    {
        IN;
        int fd = doOpen(path, O_RDWR | O_CREAT | O_EXCL);
        if (fd < 0)
        {
            errmsg = "cannot create the pool";
            return nullptr;
        }
        sizeFd(fd, vrt::poolSize);
        int i = fds[fd].first;
        fds.erase(fd);
        Pool p;
        p.base = inodes[i].base;
        p.ino = i;
        inodes[i].maps++;
        Head h{};
        h.magic = MAGIC;
        h.size = vrt::poolSize;
        h.top = HEAP;
        strncpy(h.layout, layout ? layout : "", sizeof h.layout - 1);
        Group g;
        dur(p, p.base, &h, sizeof h);
        vrt::poolReady = vrt::log_.size() + 1;
        pools.push_back(p);
        return (PMEMobjpool *)p.base;
    }
    PMEMobjpool *pmemobj_open(const char *path, const char *layout)
    {
        IN;
        return openPool(path, layout);
    }
    void pmemobj_close(PMEMobjpool *pop)
    {
        IN;
        for (size_t i = 0; i < pools.size(); i++)
            if (pools[i].base == (char *)pop)
            {
                diffRange(pools[i].ino, 0, inodes[pools[i].ino].len);
                pools.erase(pools.begin() + i);
                return;
            }
    }
    int pmemobj_check(const char *, const char *) { return 1; }
    void pmemobj_set_user_data(PMEMobjpool *pop, void *d) { byPtr(pop)->user = d; }
    void *pmemobj_get_user_data(PMEMobjpool *pop) { return byPtr(pop)->user; }
    int pmemobj_ctl_get(PMEMobjpool *, const char *, void *) { return -1; }
    int pmemobj_ctl_set(PMEMobjpool *, const char *, void *) { return -1; }
    int pmemobj_ctl_exec(PMEMobjpool *, const char *, void *) { return -1; }
    PMEMobjpool *pmemobj_pool_by_ptr(const void *a)
    {
        Pool *p = byPtr(a);
        return p ? (PMEMobjpool *)p->base : nullptr;
    }
    PMEMobjpool *pmemobj_pool_by_oid(PMEMoid o)
    {
        if (o.pool_uuid_lo == 0)
            return nullptr;
        for (auto &p : pools)
            if (o.pool_uuid_lo == UUID + p.ino)
                return (PMEMobjpool *)p.base;
        return nullptr;
    }
    static void *direct(PMEMoid o)
    {
        if (o.off == 0 || o.pool_uuid_lo == 0)
            return nullptr;
        char *b = (char *)pmemobj_pool_by_oid(o);
        return b ? b + o.off : nullptr;
    }
    void *pmemobj_direct(PMEMoid o)
    {
        void *a = direct(o);
        if (a && vrt::derefPoints)
            vrt::point(a, false);
        return a;
    }
    PMEMoid pmemobj_oid(const void *a)
    {
        Pool *p = byPtr(a);
        if (!p)
            return OID_NULL;
        return {UUID + p->ino, (uint64_t)((char *)a - p->base)};
    }
    size_t pmemobj_alloc_usable_size(PMEMoid o)
    {
        void *a = direct(o);
        return a ? block(*byPtr(a), o.off).size : 0;
    }
    uint64_t pmemobj_type_num(PMEMoid o)
    {
        void *a = direct(o);
        return a ? block(*byPtr(a), o.off).type : 0;
    }
    PMEMoid pmemobj_root(PMEMobjpool *pop, size_t size)
    {
        IN;
        Pool &p = *byPtr(pop);
        Head &h = head(p);
        if (!h.root && size)
        {
            uint64_t off = reserve(p, size, 0);
            Group g;
            zero(p, off);
            flushRange(p, p.base + off, size);
            fence();
            durW(p, block(p, off).state, 1);
            durW(p, h.rootSize, size);
            durW(p, h.root, off);
        }
        return {UUID + p.ino, h.root};
    }
    size_t pmemobj_root_size(PMEMobjpool *pop) { return head(*byPtr(pop)).rootSize; }

    void pmemobj_flush(PMEMobjpool *pop, const void *a, size_t n)
    {
        Pool *p = byPtr(a);
        if (!p)
            return;
        IN;
        point_(a);
        flushRange(*p, a, n);
    }
    int pmemobj_xflush(PMEMobjpool *pop, const void *a, size_t n, unsigned)
    {
        pmemobj_flush(pop, a, n);
        return 0;
    }
    void pmemobj_drain(PMEMobjpool *)
    {
        IN;
        fence();
    }
    void pmemobj_persist(PMEMobjpool *pop, const void *a, size_t n)
    {
        pmemobj_flush(pop, a, n);
        pmemobj_drain(pop);
    }
    int pmemobj_xpersist(PMEMobjpool *pop, const void *a, size_t n, unsigned)
    {
        pmemobj_persist(pop, a, n);
        return 0;
    }
    void *pmemobj_memcpy_persist(PMEMobjpool *pop, void *d, const void *s, size_t n)
    {
        memcpy(d, s, n);
        pmemobj_persist(pop, d, n);
        return d;
    }
    void *pmemobj_memset_persist(PMEMobjpool *pop, void *d, int c, size_t n)
    {
        memset(d, c, n);
        pmemobj_persist(pop, d, n);
        return d;
    }
    void *pmemobj_memcpy(PMEMobjpool *pop, void *d, const void *s, size_t n, unsigned) { return pmemobj_memcpy_persist(pop, d, s, n); }
    void *pmemobj_memmove(PMEMobjpool *pop, void *d, const void *s, size_t n, unsigned)
    {
        memmove(d, s, n);
        pmemobj_persist(pop, d, n);
        return d;
    }
    void *pmemobj_memset(PMEMobjpool *pop, void *d, int c, size_t n, unsigned) { return pmemobj_memset_persist(pop, d, c, n); }

    // ---- allocation outside of transactions
    int pmemobj_xalloc(PMEMobjpool *pop, PMEMoid *oidp, size_t size, uint64_t type, uint64_t flags, pmemobj_constr ctor, void *arg)
    {
        IN;
        point_(pop);
        Pool &p = *byPtr(pop);
        uint64_t off = size ? reserve(p, size, type) : 0;
        if (!off)
        {
            errno = ENOMEM;
            errmsg = "out of memory";
            return -1;
        }
        if (flags & POBJ_FLAG_ZERO)
        {
            zero(p, off);
            flushRange(p, p.base + off, size);
            fence();
        }
        if (ctor)
        {
            vrt::inLib = true;
            int r = ctor(pop, p.base + off, arg);
            vrt::inLib = false;
            if (r)
            {
                byPtr(pop)->free[block(p, off).size].push_back(off);
                errno = ECANCELED;
                return -1;
            }
        }
        Pool &q = *byPtr(pop);
        Group g;
        PMEMoid o{UUID + q.ino, off};
        durW(q, block(q, off).state, 1);
        durW(q, block(q, off).type, type);
        if (oidp)
        {
            if (byPtr(oidp) == &q)
                dur(q, oidp, &o, sizeof o);
            else
                *oidp = o;
        }
        return 0;
    }
    int pmemobj_alloc(PMEMobjpool *pop, PMEMoid *oidp, size_t size, uint64_t type, pmemobj_constr ctor, void *arg)
    {
        return pmemobj_xalloc(pop, oidp, size, type, 0, ctor, arg);
    }
    int pmemobj_zalloc(PMEMobjpool *pop, PMEMoid *oidp, size_t size, uint64_t type)
    {
        return pmemobj_xalloc(pop, oidp, size, type, POBJ_FLAG_ZERO, nullptr, nullptr);
    }
    void pmemobj_free(PMEMoid *oidp)
    {
        if (oidp->off == 0)
            return;
        char *a = (char *)direct(*oidp);
        IN;
        if (!byPtr(a))
            vrt::leave(vrt::ABORT, "free of an invalid object");
        point_(byPtr(a)->base);
        Pool &p = *byPtr(a);
        uint64_t off = oidp->off;
        checkFree(p, off);
        Group g;
        durW(p, block(p, off).state, 0);
        PMEMoid o = OID_NULL;
        if (byPtr(oidp) == &p)
            dur(p, oidp, &o, sizeof o);
        else
            *oidp = o;
        p.free[block(p, off).size].push_back(off);
    }

    // ---- transactions
    enum pobj_tx_stage pmemobj_tx_stage(void) { return vrt::curFiber < 0 ? TX_STAGE_NONE : me().stage; }
    int pmemobj_tx_errno(void) { return me().err; }
    static void txLock(int type, void *l)
    {
        Tx &t = me();
        for (auto &x : t.locks)
            if (x.second == l)
                return;
        acquire(l, true);
        me().locks.push_back({type, l});
    }
    static void txPoint(PMEMobjpool *pop) { point_((char *)pop + 8); }
    static PMEMobjpool *txPool[MAXF];
    int pmemobj_tx_begin(PMEMobjpool *pop, jmp_buf env, ...)
    {
        IN;
        Tx &t = me();
        if (t.stage == TX_STAGE_WORK && txPool[idx(vrt::curFiber)] != pop)
            vrt::leave(vrt::ABORT, "nested transaction of another pool");
        txPoint(pop);
        if (t.depth++ == 0)
        {
            t.err = 0;
            t.user = nullptr;
            t.cb = nullptr;
        }
        txPool[idx(vrt::curFiber)] = pop;
        t.stage = TX_STAGE_WORK;
        va_list a;
        va_start(a, env);
        for (int k; (k = va_arg(a, int)) != TX_PARAM_NONE;)
            if (k == TX_PARAM_CB)
            {
                t.cb = va_arg(a, pmemobj_tx_callback);
                t.cbArg = va_arg(a, void *);
            }
            else
                txLock(k, va_arg(a, void *));
        va_end(a);
        return 0;
    }
    static void txCall(enum pobj_tx_stage st)
    {
        Tx &t = me();
        if (t.cb && t.depth <= 1)
        {
            vrt::inLib = true;
            t.cb(txPool[idx(vrt::curFiber)], st, t.cbArg);
            vrt::inLib = false;
        }
    }
    int pmemobj_tx_lock(enum pobj_tx_param type, void *l)
    {
        IN;
        txLock(type, l);
        return 0;
    }
    static void txAbort(int e)
    {
        Tx &t = me();
        t.err = e;
        if (t.depth == 1)
        {
            Pool &p = *byPtr(txPool[idx(vrt::curFiber)]);
            Group g;
            undo(p, lane(p));
            for (auto o : t.allocs)
                p.free[block(p, o).size].push_back(o);
            finishTx(t);
        }
        t.stage = TX_STAGE_ONABORT;
        txCall(TX_STAGE_ONABORT);
    }
    void pmemobj_tx_abort(int e)
    {
        IN;
        txAbort(e ? e : ECANCELED);
    }
    void pmemobj_tx_commit(void)
    {
        IN;
        Tx &t = me();
        if (t.stage != TX_STAGE_WORK)
            vrt::leave(vrt::ABORT, "commit outside of a transaction");
        if (t.depth == 1)
        {
            PMEMobjpool *pop = txPool[idx(vrt::curFiber)];
            txPoint(pop);
            Pool &p = *byPtr(pop);
            for (auto &r : t.ranges)
                flushRange(p, p.base + r.off, r.len);
            for (auto o : t.allocs)
                flushRange(p, p.base + o, block(p, o).size);
            fence();
            Group g;
            for (auto o : t.allocs)
                durW(p, block(p, o).state, 1);
            for (auto o : t.frees)
            {
                durW(p, block(p, o).state, 0);
                p.free[block(p, o).size].push_back(o);
            }
            if (lane(p).used)
                durW(p, lane(p).used, 0);
            finishTx(t);
        }
        t.stage = TX_STAGE_ONCOMMIT;
        txCall(TX_STAGE_ONCOMMIT);
    }
    int pmemobj_tx_end(void)
    {
        IN;
        Tx &t = me();
        if (t.stage == TX_STAGE_WORK || t.depth == 0)
            vrt::leave(vrt::ABORT, "transaction ended without commit or abort");
        int e = t.err;
        if (--t.depth == 0)
        {
            t.stage = TX_STAGE_NONE;
            txCall(TX_STAGE_NONE);
            t.cb = nullptr;
            t.user = nullptr;
            auto l = t.locks;
            t.locks.clear();
            for (auto &x : l)
                release(x.second);
        }
        else
        {
            t.stage = TX_STAGE_WORK;
            if (e)
                txAbort(e);
        }
        return e;
    }
    static int txAdd(Pool *p, const void *a, size_t n, uint64_t flags)
    {
        Tx &t = me();
        if (t.stage != TX_STAGE_WORK)
            vrt::leave(vrt::ABORT, "range added outside of a transaction");
        if (!p)
        {
            txAbort(EINVAL);
            return EINVAL;
        }
        txPoint((PMEMobjpool *)p->base);
        p = byPtr(a);
        uint64_t off = (char *)a - p->base;
        t.ranges.push_back({off, n});
        if (flags & POBJ_FLAG_NO_SNAPSHOT)
            return 0;
        for (auto o : t.allocs)
            if (off >= o && off + n <= o + block(*p, o).size)
                return 0;
        Lane &l = lane(*p);
        size_t need = 16 + ((n + 7) & ~(size_t)7);
        if (l.used + need > sizeof l.data)
            vrt::leave(vrt::ABORT, "simulated undo log is full");
        std::string rec(need, 0);
        memcpy(&rec[0], &off, 8);
        memcpy(&rec[8], &n, 8);
        memcpy(&rec[16], a, n);
        vrt::put(vrt::ent(vrt::L_PTR, -1));
        Group g;
        dur(*p, l.data + l.used, rec.data(), need);
        durW(*p, l.used, l.used + need);
        return 0;
    }
    int pmemobj_tx_xadd_range_direct(const void *a, size_t n, uint64_t flags)
    {
        IN;
        return txAdd(byPtr(a), a, n, flags);
    }
    int pmemobj_tx_add_range_direct(const void *a, size_t n) { return pmemobj_tx_xadd_range_direct(a, n, 0); }
    int pmemobj_tx_xadd_range(PMEMoid o, uint64_t off, size_t n, uint64_t flags) { return pmemobj_tx_xadd_range_direct((char *)direct(o) + off, n, flags); }
    int pmemobj_tx_add_range(PMEMoid o, uint64_t off, size_t n) { return pmemobj_tx_xadd_range(o, off, n, 0); }
    PMEMoid pmemobj_tx_xalloc(size_t size, uint64_t type, uint64_t flags)
    {
        IN;
        Tx &t = me();
        if (t.stage != TX_STAGE_WORK)
            vrt::leave(vrt::ABORT, "allocation outside of a transaction");
        PMEMobjpool *pop = txPool[idx(vrt::curFiber)];
        txPoint(pop);
        Pool &p = *byPtr(pop);
        uint64_t off = size ? reserve(p, size, type) : 0;
        if (!off)
        {
            errmsg = "out of memory";
            errno = ENOMEM;
            if (!(flags & POBJ_FLAG_TX_NO_ABORT))
                txAbort(ENOMEM);
            return OID_NULL;
        }
        if (flags & POBJ_FLAG_ZERO)
            zero(p, off);
        durW(p, block(p, off).type, type);
        t.allocs.push_back(off);
        return {UUID + p.ino, off};
    }
    PMEMoid pmemobj_tx_alloc(size_t size, uint64_t type) { return pmemobj_tx_xalloc(size, type, 0); }
    PMEMoid pmemobj_tx_zalloc(size_t size, uint64_t type) { return pmemobj_tx_xalloc(size, type, POBJ_FLAG_ZERO); }
    int pmemobj_tx_xfree(PMEMoid o, uint64_t)
    {
        IN;
        Tx &t = me();
        if (t.stage != TX_STAGE_WORK)
            vrt::leave(vrt::ABORT, "free outside of a transaction");
        if (o.off == 0)
            return 0;
        PMEMobjpool *pop = txPool[idx(vrt::curFiber)];
        txPoint(pop);
        Pool &p = *byPtr(pop);
        checkFree(p, o.off);
        for (auto f : t.frees)
            if (f == o.off)
                vrt::leave(vrt::ABORT, "object freed twice");
        t.frees.push_back(o.off);
        return 0;
    }
    int pmemobj_tx_free(PMEMoid o) { return pmemobj_tx_xfree(o, 0); }
    void pmemobj_tx_set_user_data(void *d) { me().user = d; }
    void *pmemobj_tx_get_user_data(void) { return me().user; }

    // ---- locks
    void pmemobj_mutex_zero(PMEMobjpool *, PMEMmutex *) {}
    int pmemobj_mutex_lock(PMEMobjpool *, PMEMmutex *m)
    {
        IN;
        acquire(m, true);
        return 0;
    }
    int pmemobj_mutex_timedlock(PMEMobjpool *, PMEMmutex *m, const struct timespec *)
    {
        IN;
        return tryAcquire(m, true) ? 0 : ETIMEDOUT;
    }
    int pmemobj_mutex_trylock(PMEMobjpool *, PMEMmutex *m)
    {
        IN;
        return tryAcquire(m, true) ? 0 : EBUSY;
    }
    int pmemobj_mutex_unlock(PMEMobjpool *, PMEMmutex *m)
    {
        IN;
        release(m);
        return 0;
    }
    void pmemobj_rwlock_zero(PMEMobjpool *, PMEMrwlock *) {}
    int pmemobj_rwlock_rdlock(PMEMobjpool *, PMEMrwlock *m)
    {
        IN;
        acquire(m, false);
        return 0;
    }
    int pmemobj_rwlock_wrlock(PMEMobjpool *, PMEMrwlock *m)
    {
        IN;
        acquire(m, true);
        return 0;
    }
    int pmemobj_rwlock_tryrdlock(PMEMobjpool *, PMEMrwlock *m)
    {
        IN;
        return tryAcquire(m, false) ? 0 : EBUSY;
    }
    int pmemobj_rwlock_trywrlock(PMEMobjpool *, PMEMrwlock *m)
    {
        IN;
        return tryAcquire(m, true) ? 0 : EBUSY;
    }
    int pmemobj_rwlock_timedrdlock(PMEMobjpool *, PMEMrwlock *m, const struct timespec *)
    {
        IN;
        return tryAcquire(m, false) ? 0 : ETIMEDOUT;
    }
    int pmemobj_rwlock_timedwrlock(PMEMobjpool *, PMEMrwlock *m, const struct timespec *)
    {
        IN;
        return tryAcquire(m, true) ? 0 : ETIMEDOUT;
    }
    int pmemobj_rwlock_unlock(PMEMobjpool *, PMEMrwlock *m)
    {
        IN;
        release(m);
        return 0;
    }
}
