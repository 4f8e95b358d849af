// The library under test: /repo's containers, unchanged, on the virtual runtime.
#include "vrt.hpp"
namespace std
{
// std::map / unordered_map whose non-atomic accesses are visible to the scheduler.
template <class B>
struct vtree
{
    B b;
    typedef typename B::value_type value_type;
    typedef typename B::key_type key_type;
    typedef typename B::mapped_type mapped_type;
    typedef typename B::iterator iterator;
    typedef typename B::const_iterator const_iterator;
    struct G
    {
        const void *o;
        bool w;
        G(const void *o_, bool w_) : o(o_), w(w_) { vrt::raceBegin(o, w); }
        ~G() { vrt::raceEnd(o, w); }
    };
    template <class... A> auto insert(A &&...a) { G g(this, true); return b.insert(std::forward<A>(a)...); }
    template <class... A> auto emplace(A &&...a) { G g(this, true); return b.emplace(std::forward<A>(a)...); }
    template <class... A> auto try_emplace(A &&...a) { G g(this, true); return b.try_emplace(std::forward<A>(a)...); }
    template <class... A> auto insert_or_assign(A &&...a) { G g(this, true); return b.insert_or_assign(std::forward<A>(a)...); }
    template <class A> auto erase(A &&a) { G g(this, true); return b.erase(std::forward<A>(a)); }
    template <class A> auto count(A &&a) const { G g(this, false); return b.count(a); }
    template <class A> auto contains(A &&a) const { G g(this, false); return b.contains(a); }
    template <class A> auto find(A &&a) { G g(this, false); return b.find(a); }
    template <class A> auto find(A &&a) const { G g(this, false); return b.find(a); }
    template <class A> auto lower_bound(A &&a) { G g(this, false); return b.lower_bound(a); }
    template <class A> mapped_type &at(A &&a) { G g(this, false); return b.at(a); }
    template <class A> const mapped_type &at(A &&a) const { G g(this, false); return b.at(a); }
    template <class A> mapped_type &operator[](A &&a) { G g(this, true); return b[std::forward<A>(a)]; }
    size_t size() const { G g(this, false); return b.size(); }
    bool empty() const { G g(this, false); return b.empty(); }
    void clear() { G g(this, true); b.clear(); }
    iterator begin() { return b.begin(); }
    iterator end() { return b.end(); }
    const_iterator begin() const { return b.begin(); }
    const_iterator end() const { return b.end(); }
};
template <class K, class V> struct vmap : vtree<map<K, V>> {};
template <class K, class V> struct vunordered_map : vtree<unordered_map<K, V>> {};
} // namespace std
#include "ucfMap.hpp"
#define map vmap
#define unordered_map vunordered_map
#include "stlMap.hpp"
#undef map
#undef unordered_map
#include "ops.hpp"

TestOptions::TestOptions() : numthreads(4), numops(1), numruns(1), capacity(3), filename(), recover(false), wipeFile(false) {}

typedef ConcurrentHashMap<KeyT, ValT> Map;
static const int SH = Map::BITS_MARKED;

extern "C" void *L_new(const char *kind, const char *path, uint64_t len, int reconstruct)
{
    if (!strcmp(kind, "map"))
        return new Map(path, len, reconstruct != 0);
    TestOptions o;
    o.filename = path;
    o.capacity = 0;
    while (((uint64_t)1 << o.capacity) < len)
        o.capacity++;
    o.recover = reconstruct;
    if (!strcmp(kind, "ucf"))
        return static_cast<Container *>(new ucf::container_type(o, reconstruct != 0));
    return static_cast<Container *>(new stl::container_type(o, reconstruct != 0));
}
extern "C" uint64_t L_op(void *p, const char *, int op, uint64_t k, uint64_t a, uint64_t b)
{
    Map *m = (Map *)p;
    Container *c = (Container *)p;
    switch (op)
    {
    case O_GET: return m->get(k);
    case O_HAS: return m->containsKey(k);
    case O_PUT: return m->put(k, a);
    case O_PIA: return m->putIfAbsent(k, a);
    case O_REM: return m->remove(k);
    case O_REMV: return m->remove(k, a);
    case O_REPL: return m->replace(k, a, b);
    // as ucf::container_type::increment does
    case O_INC: return m->update(k, ((((size_t)1 << 61) - 3) << SH), Map::Table::increment);
    case O_SIZE: return m->size();
    case O_EMPTY: return m->isEmpty();
    case O_CINS: return c->insert(k);
    case O_CERA: return c->erase(k);
    case O_CHAS: return c->contains(k);
    case O_CGET: return c->get(k);
    case O_CCNT: return c->count();
    case O_CINC: return c->increment(k);
    }
    return 0;
}
