// A controlled scheduler for real threads, and a happens-before race detector.
//
// The library is compiled with -fsanitize=thread but linked against this file instead of the
// sanitizer's runtime: every memory access, function entry and atomic operation of the library calls a
// function below.  One controlled thread runs at a time; at a scheduling point the explorer decides
// which one goes on.  Lock, once and static-initialisation waits are known to the scheduler.
#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sched {
constexpr int T = 3;  // threads at most
using Clock = std::array<uint32_t, T>;

// ---- where memory is
struct Range { char* lo = nullptr; char* hi = nullptr; bool has(const void* p) const { return p >= lo && p < hi; } };
inline std::vector<Range> globals;            // the writable data of the library under test
inline thread_local Range my_stack;
inline thread_local int me = -1;

// Memory of controlled threads comes from one arena per thread, so that an address tells its owner.
struct Arena {
    static constexpr size_t SIZE = size_t(1) << 33;
    char* base = nullptr; char* next = nullptr; void* lists[40] = {};
    volatile char lock = 0;  // (threads that start or end are not under control)
    struct Hold { volatile char& l; explicit Hold(volatile char& x) : l(x) { while (__atomic_test_and_set(&l, __ATOMIC_ACQUIRE)) {} } ~Hold() { __atomic_clear(&l, __ATOMIC_RELEASE); } };
    void init() { base = next = static_cast<char*>(mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (base == MAP_FAILED) abort(); }
    static int cls(size_t n) { int k = 4; while ((size_t(1) << k) < n) k++; return k; }
    void* get(size_t n) {
        n += 16;
        const int k = cls(n);
        if (k >= 31) throw std::bad_alloc();
        Hold h(lock);
        void* p = lists[k];
        if (p) lists[k] = *reinterpret_cast<void**>(static_cast<char*>(p) + 16);
        else { p = next; next += (size_t(1) << k) + 16; if (next > base + SIZE) abort(); *static_cast<size_t*>(p) = static_cast<size_t>(k); }
        return static_cast<char*>(p) + 16;
    }
    void put(void* u) { Hold h(lock); char* p = static_cast<char*>(u) - 16; const size_t k = *reinterpret_cast<size_t*>(p); *reinterpret_cast<void**>(u) = lists[k]; lists[k] = p; }
    bool has(const void* p) const { return p >= base && p < base + SIZE; }
};
inline Arena arenas[T + 1];  // the last one: everything else
inline bool arenas_ready = false;
inline int owner_of(const void* p) { if (arenas_ready) for (int i = 0; i <= T; i++) if (arenas[i].has(p)) return i; return -1; }

// Blocks allocated while the library's static objects are constructed.
inline bool starting = true;
struct Block { void* p; size_t n; std::string image; };
inline Block early[256]; inline size_t n_early = 0;
inline bool is_early(void* p) { for (size_t i = 0; i < n_early; i++) if (early[i].p == p) return true; return false; }

enum Kind { ACCESS, ENTRY, STREAM };
struct State {
    bool on = false;
    int n = 0;
    sem_t sem[T], main_sem;
    bool done[T] = {}, blocked[T] = {};
    const void* waits[T] = {};
    bool deadlock = false;
    std::string error;
    // mode 1: thread 0 is interrupted at its k-th point by the others, which run to their ends
    // mode 2: every point at a stream operation or a shared access is a choice
    // mode 3: serial; races are looked for
    int mode = 0;
    uint64_t k = 0, count = 0, points = 0, shared_points = 0, switches = 0;
    std::function<uint32_t(uint32_t n, bool free)> choose;
    // races
    Clock vc[T];
    struct Cell { uint32_t w = 0; int wt = -1; Clock r{}; };
    std::unordered_map<uintptr_t, Cell> shadow;
    std::unordered_map<uintptr_t, Clock> sync;
    std::string race;
    uint64_t tracked = 0;
};
inline State S;

inline void hand_to(int next) { S.switches++; sem_post(&S.sem[next]); }
inline void wait_turn() { while (sem_wait(&S.sem[me])) {} }
inline int pick_other(bool free) {  // among runnable threads other than me
    int c[T], m = 0;
    for (int i = 0; i < S.n; i++) if (i != me && !S.done[i] && !S.blocked[i]) c[m++] = i;
    if (!m) return -1;
    if (m == 1 || S.mode != 2) return c[0];
    return c[free && S.choose ? S.choose(static_cast<uint32_t>(m), true) : 0];
}
inline void switch_to(int t) { hand_to(t); wait_turn(); }
inline void point(Kind kind, bool shared) {
    if (me < 0 || !S.on) return;
    S.points++;
    if (S.mode == 1) {
        if (me == 0 && ++S.count == S.k) { int t; while ((t = pick_other(false)) >= 0) { switch_to(t); if (!S.done[t] && !S.blocked[t]) break; } }  // (a thread that gave way waits for this one)
    } else if (S.mode == 2 && (kind == STREAM || shared)) {
        S.shared_points += shared;
        int c[T], m = 0;
        for (int i = 0; i < S.n; i++) if (i != me && !S.done[i] && !S.blocked[i]) c[m++] = i;
        if (!m) return;
        const uint32_t k = S.choose(static_cast<uint32_t>(m) + 1, false);
        if (k) switch_to(c[k - 1]);
    }
}
inline void block_on(const void* what) {
    S.blocked[me] = true; S.waits[me] = what;
    const int t = pick_other(true);
    if (t < 0) { S.deadlock = true; sem_post(&S.main_sem); for (;;) pause(); }
    hand_to(t);
    wait_turn();
    S.blocked[me] = false;
}
inline void wake(const void* what) { for (int i = 0; i < S.n; i++) if (S.blocked[i] && S.waits[i] == what) { S.blocked[i] = false; S.waits[i] = nullptr; } }

// a thread that may be waiting for another by spinning lets it go on
inline void give_way() {
    if (me < 0 || !S.on) return;
    for (int k = 1; k < S.n; k++) { const int t = (me + k) % S.n; if (!S.done[t] && !S.blocked[t]) { switch_to(t); return; } }
}
// A repeated operation on one atomic, with no other access in between, waits for another thread: no choice is lost by not branching there.
inline const void* last_atomic = nullptr;
inline uint64_t repeats = 0;
inline void atomic_point(const void* p) {
    if (me < 0 || !S.on) return;
    if (p != last_atomic) { last_atomic = p; repeats = 0; point(ACCESS, true); return; }
    if (++repeats >= 20) { repeats = 0; give_way(); }
}

// ---- happens before
inline void acquire(const void* a) { if (me < 0 || !S.on || S.mode != 3) return; auto it = S.sync.find(reinterpret_cast<uintptr_t>(a)); if (it != S.sync.end()) for (int i = 0; i < T; i++) S.vc[me][static_cast<size_t>(i)] = std::max(S.vc[me][static_cast<size_t>(i)], it->second[static_cast<size_t>(i)]); }
inline void release(const void* a) { if (me < 0 || !S.on || S.mode != 3) return; Clock& c = S.sync[reinterpret_cast<uintptr_t>(a)]; for (size_t i = 0; i < T; i++) c[i] = std::max(c[i], S.vc[me][i]); S.vc[me][static_cast<size_t>(me)]++; }
inline void record(const void* p, size_t n, bool write) {
    const size_t m = static_cast<size_t>(me);
    S.tracked++;
    for (size_t b = 0; b < n; b++) {
        const uintptr_t a = reinterpret_cast<uintptr_t>(p) + b;
        State::Cell& c = S.shadow[a];
        bool bad = c.wt >= 0 && c.wt != me && c.w > S.vc[m][static_cast<size_t>(c.wt)];
        if (write) for (size_t i = 0; i < T; i++) bad |= i != m && c.r[i] > S.vc[m][i];
        if (bad && S.race.empty()) {
            Dl_info d;
            char buf[300];
            const bool g = [&] { for (auto& r : globals) if (r.has(p)) return true; return false; }();
            snprintf(buf, sizeof buf, "two threads access the same %zu bytes of %s without synchronisation, at least one of them writes%s%s", n,
                     g ? "static storage" : owner_of(p) >= 0 ? "memory allocated by a call" : "memory", dladdr(p, &d) && d.dli_sname ? ": " : "", dladdr(p, &d) && d.dli_sname ? d.dli_sname : "");
            S.race = buf;
        }
        if (write) { c.w = S.vc[m][m]; c.wt = me; c.r = Clock{}; } else c.r[m] = S.vc[m][m];
    }
}
inline void access(const void* p, size_t n, bool write) {
    last_atomic = nullptr;
    if (me < 0 || !S.on || my_stack.has(p)) { if (me >= 0 && S.on && S.mode == 1) point(ACCESS, false); return; }
    bool shared = false;
    if (S.mode >= 2) {
        for (auto& r : globals) shared |= r.has(p);
        if (!shared) { const int o = owner_of(p); shared = o >= 0 && o < T && o != me; if (o < 0) { point(ACCESS, false); return; } }
        if (S.mode == 3) record(p, n, write);
    }
    point(ACCESS, shared);
}
inline void forget(const void* p, size_t n) { if (me >= 0 && S.on && S.mode == 3) { const bool on = S.on; S.on = false; for (size_t i = 0; i < n; i++) S.shadow.erase(reinterpret_cast<uintptr_t>(p) + i); S.on = on; } }

// ---- running
// Runs the bodies in threads; the first one starts.
inline void run(std::vector<std::function<void()>> bodies, int mode, uint64_t k, std::function<uint32_t(uint32_t, bool)> choose) {
    S.n = static_cast<int>(bodies.size());
    S.mode = mode; S.k = k; last_atomic = nullptr; repeats = 0; S.count = 0; S.points = S.shared_points = S.switches = 0; S.choose = std::move(choose); S.error.clear(); S.deadlock = false;
    S.shadow.clear(); S.sync.clear(); S.race.clear(); S.tracked = 0;
    sem_init(&S.main_sem, 0, 0);
    for (int i = 0; i < S.n; i++) { sem_init(&S.sem[i], 0, 0); S.done[i] = S.blocked[i] = false; S.vc[i] = Clock{}; S.vc[i][static_cast<size_t>(i)] = 1; }
    std::vector<std::thread> th;
    for (int i = 0; i < S.n; i++)
        th.emplace_back([i, &bodies] {
            char here;
            me = i;
            pthread_attr_t at; void* lo; size_t n;
            if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &n); my_stack = {static_cast<char*>(lo), static_cast<char*>(lo) + n}; pthread_attr_destroy(&at); }
            (void)here;
            wait_turn();
            bodies[static_cast<size_t>(i)]();
            S.done[i] = true;
            const int t = pick_other(true);
            bool all = true;
            for (int j = 0; j < S.n; j++) all &= S.done[j];
            if (!all && t < 0) S.deadlock = true;
            if (t >= 0) hand_to(t); else sem_post(&S.main_sem);
            me = -1;
        });
    S.on = true;
    sem_post(&S.sem[0]);
    while (sem_wait(&S.main_sem)) {}
    S.on = false;
    if (S.deadlock) { for (auto& t : th) t.detach(); return; }
    for (auto& t : th) t.join();
}

// ---- the library's static storage, put back to its state right after loading
inline std::vector<std::string> images;
inline void find_globals(const char* name) {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* n) {
        if (!strstr(i->dlpi_name, static_cast<const char*>(n))) return 0;
        Range ro;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            char* a = reinterpret_cast<char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            const uintptr_t end = (reinterpret_cast<uintptr_t>(a) + i->dlpi_phdr[k].p_memsz + 4095) & ~uintptr_t(4095);
            ro = {a, reinterpret_cast<char*>(end)};
        }
        for (int k = 0; k < i->dlpi_phnum; k++) {
            auto& h = i->dlpi_phdr[k];
            if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
            char* a = reinterpret_cast<char*>(i->dlpi_addr + h.p_vaddr); char* b = a + h.p_memsz;
            if (ro.lo && ro.lo <= a && ro.hi > a) a = std::min(b, ro.hi);
            if (a < b) globals.push_back({a, b});
        }
        return 1;
    }, const_cast<char*>(name));
    for (auto& g : globals) images.emplace_back(g.lo, g.hi);
    for (size_t i = 0; i < n_early; i++) early[i].image.assign(static_cast<char*>(early[i].p), early[i].n);
}
inline bool pristine() { for (size_t i = 0; i < globals.size(); i++) if (memcmp(globals[i].lo, images[i].data(), images[i].size())) return false; return true; }
inline void reset() {
    for (size_t i = 0; i < globals.size(); i++) memcpy(globals[i].lo, images[i].data(), images[i].size());
    for (size_t i = 0; i < n_early; i++) memcpy(early[i].p, early[i].image.data(), early[i].n);
}
struct __attribute__((visibility("hidden"))) Started { Started() { starting = false; for (auto& a : arenas) a.init(); arenas_ready = true; } };
}  // namespace sched

// ---- allocation
inline void* sched_new(std::size_t n) {
    void* p;
    if (sched::me >= 0) { p = sched::arenas[sched::me].get(n); sched::forget(p, n); return p; }
    if (sched::arenas_ready) return sched::arenas[sched::T].get(n);
    p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (sched::starting && sched::n_early < 256) { sched::early[sched::n_early].p = p; sched::early[sched::n_early++].n = n; }
    return p;
}
inline void sched_delete(void* p) {
    if (!p) return;
    const int o = sched::owner_of(p);
    if (o >= 0) sched::arenas[o].put(p);
    else if (!sched::is_early(p)) std::free(p);
}
void* operator new(std::size_t n) { return sched_new(n); }
void* operator new[](std::size_t n) { return sched_new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return sched_new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return sched_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sched_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sched_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sched_delete(p); }
void operator delete[](void* p) noexcept { sched_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sched_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sched_delete(p); }

// ---- waits the scheduler knows
// (These run before any constructor: constant-initialised storage only.)
namespace sched {
struct Busy { const void* p; int who; };
inline Busy busy[64];
inline Busy* find_busy(const void* p) { for (auto& b : busy) if (b.p == p) return &b; return nullptr; }
inline void set_busy(const void* p) { for (auto& b : busy) if (!b.p) { b = {p, me}; return; } abort(); }
inline void clear_busy(const void* p) { if (Busy* b = find_busy(p)) b->p = nullptr; wake(p); }
template <class F> F next(F& f, const char* name) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); return f; }
inline int (*real_lock)(pthread_mutex_t*) = nullptr;
inline int (*real_unlock)(pthread_mutex_t*) = nullptr;
inline int (*real_once)(pthread_once_t*, void (*)()) = nullptr;
inline int (*real_trylock)(pthread_mutex_t*) = nullptr;
inline int (*real_rdlock)(pthread_rwlock_t*) = nullptr;
inline int (*real_wrlock)(pthread_rwlock_t*) = nullptr;
inline int (*real_tryrdlock)(pthread_rwlock_t*) = nullptr;
inline int (*real_trywrlock)(pthread_rwlock_t*) = nullptr;
inline int (*real_rwunlock)(pthread_rwlock_t*) = nullptr;
inline int (*real_yield)() = nullptr;
inline bool watched() { return me >= 0 && S.on; }
}
extern "C" {
int __cxa_guard_acquire(uint64_t* g) {
    auto* b = reinterpret_cast<volatile char*>(g);
    for (;;) {
        if (*b) { sched::acquire(g); return 0; }
        sched::Busy* x = sched::find_busy(g);
        if (!x) { sched::set_busy(g); sched::acquire(g); return 1; }
        if (sched::me < 0 || x->who == sched::me) abort();  // recursive initialisation
        sched::block_on(g);
    }
}
void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<volatile char*>(g) = 1; sched::release(g); sched::clear_busy(g); }
void __cxa_guard_abort(uint64_t* g) { sched::clear_busy(g); }

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (sched::me < 0 || !sched::S.on) return sched::next(sched::real_lock, "pthread_mutex_lock")(m);
    for (;;) {
        const int r = sched::next(sched::real_trylock, "pthread_mutex_trylock")(m);
        if (r != EBUSY) { sched::acquire(m); return r; }
        sched::block_on(m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    const bool on = sched::me >= 0 && sched::S.on;
    if (on) sched::release(m);
    const int r = sched::next(sched::real_unlock, "pthread_mutex_unlock")(m);
    if (on) sched::wake(m);
    return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    const int r = sched::next(sched::real_trylock, "pthread_mutex_trylock")(m);
    if (!r && sched::watched()) sched::acquire(m);
    return r;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    const int r = sched::next(sched::real_tryrdlock, "pthread_rwlock_tryrdlock")(m);
    if (!r && sched::watched()) sched::acquire(m);
    return r;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    const int r = sched::next(sched::real_trywrlock, "pthread_rwlock_trywrlock")(m);
    if (!r && sched::watched()) sched::acquire(m);
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!sched::watched()) return sched::next(sched::real_rdlock, "pthread_rwlock_rdlock")(m);
    for (;;) {
        const int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) return r;
        sched::block_on(m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!sched::watched()) return sched::next(sched::real_wrlock, "pthread_rwlock_wrlock")(m);
    for (;;) {
        const int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) return r;
        sched::block_on(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    const bool on = sched::watched();
    if (on) sched::release(m);
    const int r = sched::next(sched::real_rwunlock, "pthread_rwlock_unlock")(m);
    if (on) sched::wake(m);
    return r;
}
int sched_yield() noexcept { if (!sched::watched()) return sched::next(sched::real_yield, "sched_yield")(); sched::give_way(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (sched::me < 0 || !sched::S.on) return sched::next(sched::real_once, "pthread_once")(o, f);
    for (;;) {
        if (*o == 2) { sched::acquire(o); return 0; }
        if (sched::find_busy(o)) { sched::block_on(o); continue; }
        if (*o != PTHREAD_ONCE_INIT) return sched::next(sched::real_once, "pthread_once")(o, f);
        break;
    }
    *o = 1; sched::set_busy(o);
    try { f(); } catch (...) { *o = PTHREAD_ONCE_INIT; sched::clear_busy(o); throw; }
    *o = 2; sched::release(o); sched::clear_busy(o);
    return 0;
}

// ---- the calls the compiler inserts
void __tsan_init() {}
void __tsan_func_entry(void*) { sched::point(sched::ENTRY, false); }
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { sched::access(p, n, false); } \
    void __tsan_write##n(void* p) { sched::access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true); } \
    void __tsan_read_write##n(void* p) { sched::access(p, n, false); sched::access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { sched::access(p, n, false); sched::access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { sched::access(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { sched::access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { sched::access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { sched::access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { sched::access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { sched::access(p, n, true); }
void __tsan_vptr_read(void** p) { sched::access(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { sched::access(p, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { sched::access(d, n, true); return memset(d, v, n); }
// Atomic operations: points, and taken as synchronising in both directions.
#define ATOMIC(bits, type) \
    static inline void sync_##bits(const volatile type* a) { auto* p = const_cast<type*>(a); const bool sh = sched::me >= 0 && sched::S.on; if (sh) { sched::acquire(p); sched::release(p); sched::atomic_point(p); } } \
    type __tsan_atomic##bits##_load(const volatile type* a, int) { sync_##bits(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int) { sync_##bits(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { sync_##bits(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int) { sync_##bits(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { sync_##bits(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { sync_##bits(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { sync_##bits(a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
