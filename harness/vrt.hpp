// Virtual runtime: the code of /repo is compiled unchanged against it.
//  * std::atomic is replaced by std::vatomic: every access is a scheduling point of a cooperative
//    scheduler, so that a schedule is data (a list of preemptions) and every run can be repeated.
//  * files of the table directory live in memory; every store to them is logged, clflush/sfence are
//    interpreted, so that every crash image (any subset of unflushed cache lines written back) of
//    every moment of a run can be built afterwards and recovered by the real recovery code.
// Include this before any header of /repo.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <immintrin.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <ctype.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

namespace vrt
{
// ---------------------------------------------------------------- scheduler interface
void point(const void *addr, bool isWrite); // a scheduling point, before the access
extern int curFiber;                        // -1: not inside a fiber
extern bool inLib;                          // library code is running: allocations go to the arena

void lockWait(const void *lock);             // the current fiber cannot go on until wake(lock)
void wake(const void *lock);
void raceBegin(const void *obj, bool isWrite); // non-atomic access to a shared object
void raceEnd(const void *obj, bool isWrite);

// __sync_bool_compare_and_swap and friends
template <class T, class A, class B>
bool syncCas(T *p, A o, B n);

// ---------------------------------------------------------------- simulated persistent files
void logWrite(const void *addr, uint64_t oldv, uint64_t newv, unsigned size, bool isPtr);
void clflush(const void *p);
void sfence();

template <class T>
inline uint64_t bits(const T &v)
{
    uint64_t r = 0;
    static_assert(sizeof(T) <= 8);
    memcpy(&r, &v, sizeof(T));
    return r;
}
template <class T, class A, class B>
inline bool syncCas(T *p, A o, B n)
{
    point(p, true);
    if (*p != (T)o)
        return false;
    uint64_t b = bits(*p);
    *p = (T)n;
    logWrite((const void *)p, b, bits(*p), sizeof(T), false);
    return true;
}
} // namespace vrt
#define __sync_bool_compare_and_swap(p, o, n) vrt::syncCas(p, o, n)

namespace std
{
template <class T>
struct vatomic
{
    T v;
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    vatomic() noexcept = default;
    constexpr vatomic(T x) noexcept : v(x) {}
    vatomic(const vatomic &) = delete;
    vatomic &operator=(const vatomic &) = delete;
    bool is_lock_free() const noexcept { return true; }
    bool is_lock_free() const volatile noexcept { return true; }
    void set(T x)
    {
        uint64_t o = vrt::bits(v);
        v = x;
        vrt::logWrite(&v, o, vrt::bits(v), sizeof(T), std::is_pointer_v<T>);
    }
    T load(memory_order = memory_order_seq_cst) const
    {
        vrt::point(&v, false);
        return v;
    }
    void store(T x, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        set(x);
    }
    T exchange(T x, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set(x);
        return o;
    }
    bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        if (memcmp(&v, &e, sizeof(T)) == 0)
        {
            set(d);
            return true;
        }
        e = v;
        return false;
    }
    bool compare_exchange_weak(T &e, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst)
    {
        return compare_exchange_strong(e, d, a, b);
    }
    operator T() const { return load(); }
    T operator=(T x)
    {
        store(x);
        return x;
    }
    template <class U>
    T fetch_add(U d, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set((T)(o + d));
        return o;
    }
    template <class U>
    T fetch_sub(U d, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set((T)(o - d));
        return o;
    }
    T fetch_or(T d, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set((T)(o | d));
        return o;
    }
    T fetch_and(T d, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set((T)(o & d));
        return o;
    }
    T fetch_xor(T d, memory_order = memory_order_seq_cst)
    {
        vrt::point(&v, true);
        T o = v;
        set((T)(o ^ d));
        return o;
    }
    void wait(T old, memory_order = memory_order_seq_cst) const
    {
        T x = load();
        while (memcmp(&x, &old, sizeof(T)) == 0)
            x = load();
    }
    void notify_one() noexcept {}
    void notify_all() noexcept {}
    T operator++() { return (T)(fetch_add(1) + 1); }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return (T)(fetch_sub(1) - 1); }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return (T)(fetch_add(d) + d); }
    T operator-=(T d) { return (T)(fetch_sub(d) - d); }
    T operator|=(T d) { return (T)(fetch_or(d) | d); }
    T operator&=(T d) { return (T)(fetch_and(d) & d); }
};
template <class T> T atomic_load(const vatomic<T> *a) { return a->load(); }
template <class T> T atomic_load_explicit(const vatomic<T> *a, memory_order) { return a->load(); }
template <class T> void atomic_store(vatomic<T> *a, T x) { a->store(x); }
template <class T> void atomic_store_explicit(vatomic<T> *a, T x, memory_order) { a->store(x); }
template <class T> T atomic_exchange(vatomic<T> *a, T x) { return a->exchange(x); }
template <class T> bool atomic_compare_exchange_strong(vatomic<T> *a, T *e, T d) { return a->compare_exchange_strong(*e, d); }
template <class T> bool atomic_compare_exchange_weak(vatomic<T> *a, T *e, T d) { return a->compare_exchange_strong(*e, d); }
template <class T> T atomic_fetch_add(vatomic<T> *a, T d) { return a->fetch_add(d); }
template <class T> T atomic_fetch_sub(vatomic<T> *a, T d) { return a->fetch_sub(d); }
template <class T> bool atomic_compare_exchange_strong_explicit(vatomic<T> *a, T *e, T d, memory_order, memory_order) { return a->compare_exchange_strong(*e, d); }
template <class T> bool atomic_compare_exchange_weak_explicit(vatomic<T> *a, T *e, T d, memory_order, memory_order) { return a->compare_exchange_strong(*e, d); }
template <class T> T atomic_fetch_or(vatomic<T> *a, T d) { return a->fetch_or(d); }
template <class T> T atomic_fetch_and(vatomic<T> *a, T d) { return a->fetch_and(d); }
template <class T> T atomic_exchange_explicit(vatomic<T> *a, T x, memory_order) { return a->exchange(x); }
template <class T> T atomic_fetch_add_explicit(vatomic<T> *a, T d, memory_order) { return a->fetch_add(d); }
template <class T> T atomic_fetch_sub_explicit(vatomic<T> *a, T d, memory_order) { return a->fetch_sub(d); }
struct vatomic_flag
{
    vatomic<unsigned char> f{0};
    constexpr vatomic_flag() noexcept = default;
    bool test_and_set(memory_order = memory_order_seq_cst) { return f.exchange(1); }
    void clear(memory_order = memory_order_seq_cst) { f.store(0); }
    bool test(memory_order = memory_order_seq_cst) const { return f.load(); }
};
template <class T> bool atomic_is_lock_free(const vatomic<T> *) { return true; }

// Locks: blocking is known to the scheduler.
struct vmutex
{
    int held = 0; // -1: exclusive, n > 0: n readers
    constexpr vmutex() noexcept = default;
    vmutex(const vmutex &) = delete;
    void lock()
    {
        vrt::point(this, true);
        while (held != 0)
            vrt::lockWait(this);
        held = -1;
    }
    bool try_lock()
    {
        vrt::point(this, true);
        if (held != 0)
            return false;
        held = -1;
        return true;
    }
    void unlock()
    {
        held = 0;
        vrt::wake(this);
        vrt::point(this, true);
    }
    void lock_shared()
    {
        vrt::point(this, true);
        while (held < 0)
            vrt::lockWait(this);
        held++;
    }
    bool try_lock_shared()
    {
        vrt::point(this, true);
        if (held < 0)
            return false;
        held++;
        return true;
    }
    void unlock_shared()
    {
        held--;
        vrt::wake(this);
        vrt::point(this, true);
    }
};
struct vshared_mutex : vmutex
{
};
struct vtimed_mutex : vmutex
{
};
struct vshared_timed_mutex : vmutex
{
};
struct vrmutex
{
    int depth = 0, owner = -1;
    void lock()
    {
        vrt::point(this, true);
        while (depth != 0 && owner != vrt::curFiber)
            vrt::lockWait(this);
        owner = vrt::curFiber;
        depth++;
    }
    bool try_lock()
    {
        vrt::point(this, true);
        if (depth != 0 && owner != vrt::curFiber)
            return false;
        owner = vrt::curFiber;
        depth++;
        return true;
    }
    void unlock()
    {
        if (--depth == 0)
            vrt::wake(this);
        vrt::point(this, true);
    }
};

namespace filesystem
{
// Lists the simulated table directory.
struct vdirentry
{
    std::filesystem::path p;
    const std::filesystem::path &path() const { return p; }
    operator const std::filesystem::path &() const { return p; }
    bool is_regular_file() const { return true; }
    bool is_regular_file(std::error_code &) const noexcept { return true; }
    bool is_directory() const { return false; }
    bool is_directory(std::error_code &) const noexcept { return false; }
    bool exists() const { return true; }
    bool exists(std::error_code &) const noexcept { return true; }
    bool is_symlink() const { return false; }
    void refresh() const {}
    uintmax_t file_size() const { return std::filesystem::file_size(p); }
    uintmax_t file_size(std::error_code &ec) const noexcept { return std::filesystem::file_size(p, ec); }
};
struct vdirectory_iterator
{
    std::shared_ptr<std::vector<vdirentry>> e;
    size_t i = 0;
    using value_type = vdirentry;
    using difference_type = ptrdiff_t;
    using pointer = const vdirentry *;
    using reference = const vdirentry &;
    using iterator_category = std::input_iterator_tag;
    vdirectory_iterator() {}
    explicit vdirectory_iterator(const std::filesystem::path &dir);
    vdirectory_iterator(const std::filesystem::path &dir, std::error_code &ec)
    {
        try
        {
            vdirectory_iterator t(dir);
            e = t.e;
            ec.clear();
        }
        catch (const std::filesystem::filesystem_error &x)
        {
            ec = x.code();
        }
    }
    vdirectory_iterator &increment(std::error_code &ec)
    {
        ec.clear();
        return ++*this;
    }
    vdirentry &operator*() const { return (*e)[i]; }
    vdirentry *operator->() const { return &(*e)[i]; }
    vdirectory_iterator &operator++()
    {
        if (++i >= e->size())
        {
            e.reset();
            i = 0;
        }
        return *this;
    }
    bool operator==(const vdirectory_iterator &o) const { return e == o.e && i == o.i; }
    bool operator!=(const vdirectory_iterator &o) const { return !(*this == o); }
};
inline vdirectory_iterator begin(vdirectory_iterator it) { return it; }
inline vdirectory_iterator end(const vdirectory_iterator &) { return {}; }
} // namespace filesystem
} // namespace std

#define atomic vatomic
#define atomic_flag vatomic_flag
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#define atomic_bool vatomic<bool>
#define atomic_int vatomic<int>
#define atomic_uint vatomic<unsigned>
#define atomic_long vatomic<long>
#define atomic_ulong vatomic<unsigned long>
#define atomic_size_t vatomic<size_t>
#define atomic_uint64_t vatomic<uint64_t>
#define atomic_uintptr_t vatomic<uintptr_t>
#define directory_iterator vdirectory_iterator
#define recursive_directory_iterator vdirectory_iterator
#define directory_entry vdirentry
#define _mm_clflush(p) vrt::clflush((const void *)(p))
#define _mm_clflushopt(p) vrt::clflush((const void *)(p))
#define _mm_clwb(p) vrt::clflush((const void *)(p))
#define pmem_clflushopt(p) vrt::clflush((const void *)(p))
#define pmem_clwb(p) vrt::clflush((const void *)(p))
#define _mm_sfence() vrt::sfence()
#define _mm_mfence() vrt::sfence()

#define mutex vmutex
#define timed_mutex vtimed_mutex
#define shared_mutex vshared_mutex
#define shared_timed_mutex vshared_timed_mutex
#define recursive_mutex vrmutex
