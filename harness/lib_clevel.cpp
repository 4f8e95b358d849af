// /repo's clevel container on the virtual runtime; libpmemobj itself is fakeobj.hpp.
#define PMEMOBJ_DIRECT_NON_INLINE 1
#include "vrt.hpp"
#include "levelMap.hpp"
#include "ops.hpp"

TestOptions::TestOptions() : numthreads(4), numops(1), numruns(1), capacity(3), filename(), recover(false), wipeFile(false) {}

extern "C" void *L_new(const char *, const char *path, uint64_t len, int reconstruct)
{
    TestOptions o;
    o.filename = path;
    o.capacity = 3;
    o.recover = reconstruct;
    return static_cast<Container *>(new clevel::container_type(o, reconstruct != 0));
}
extern "C" uint64_t L_op(void *p, const char *, int op, uint64_t k, uint64_t, uint64_t)
{
    Container *c = (Container *)p;
    switch (op)
    {
    case O_CINS: return c->insert(k);
    case O_CERA: return c->erase(k);
    case O_CHAS: return c->contains(k);
    case O_CGET: return c->get(k);
    case O_CCNT: return c->count();
    case O_CINC: return c->increment(k);
    }
    return 0;
}
