// thr.cc - threads under a seeded scheduler (thread build only).
//
// The sources of the repository are compiled with -fsanitize=thread, but the
// functions the compiler then calls are the ones below: each memory access,
// atomic operation, lock, static-initialisation guard and allocation is a point
// where the scheduler may hand over to another thread, and feeds a
// happens-before detector.  Exactly one thread runs at any time.
#include "thr.h"
#include "world.h"
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <wchar.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

ThrOut* TO;
__thread int thrIn;
extern "C" long sud_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char __data_start[], _end[], __executable_start[];

static uint64_t mix(uint64_t& s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// ------------------------------------------------------------- threads
static int N; static uint64_t rng; static int policy, rate; static uint64_t left;
static volatile int turn = -1;      // whose turn it is; N = the main thread
static volatile int ready;
static void (*bodyF)(int);
enum { RUN, BLOCKED, DONE };
static struct T { int st; const void* on; uintptr_t lo, hi; uint32_t vc[MAXT]; } t[MAXT];
static __thread int me = -1;

static void waitTurn(int who) { for (int v; (v = turn) != who;) sud_raw(SYS_futex, (long) &turn, FUTEX_WAIT, v, 0, 0, 0); }
static void pass(int to) { turn = to; __sync_synchronize(); sud_raw(SYS_futex, (long) &turn, FUTEX_WAKE, MAXT + 1, 0, 0, 0); }

static void stop(int result) { if (TO->result == TR_OK) TO->result = result; seamRawExit(0); }

static void switchTo(int to, uintptr_t pc) {
    TO->swHash = (TO->swHash ^ (TO->events << 4 | to)) * 0x100000001b3ull; TO->swHash ^= TO->swHash >> 31;
    if (TO->nsw < MAXSW) { auto& s = TO->sw[TO->nsw++]; s.from = me; s.to = to; s.at = TO->events; s.pc = pc; }
    ++TO->switches;
    int self = me; pass(to); waitTurn(self);
}
static int other() {                // another runnable thread, or -1
    int c[MAXT], n = 0;
    for (int i = 0; i < N; ++i) if (i != me && t[i].st == RUN) c[n++] = i;
    return n ? c[mix(rng) % n] : -1;
}
static void nextGap() {
    // after 4000 switches slow down: a run has to end
    uint64_t r = rate; if (TO->switches > 4000) r = r * 50 + 5000;
    left = 1 + mix(rng) % (2 * r);
}
static void maybeSwitch(uintptr_t pc) { int o = other(); if (o >= 0) switchTo(o, pc); }

// policies: 0 every access may switch; 1 accesses of global data and
// synchronisation switch often, others rarely; 2 only synchronisation,
// allocations and library calls
static inline void point(bool hot, uintptr_t pc) {
    ++TO->events;
    if (TO->events > 400000000ull) stop(TR_STEPS);
    if (policy == 0) { if (--left == 0) { nextGap(); maybeSwitch(pc); } return; }
    if (policy == 2 && !hot) return;
    if (hot) { if (TO->switches < 4000 && mix(rng) % (unsigned) rate == 0) maybeSwitch(pc); return; }
    if (--left == 0) { left = 1 + mix(rng) % 200000; maybeSwitch(pc); }
}
static void block(const void* on) {
    t[me].st = BLOCKED; t[me].on = on; ++TO->forced;
    int o = other(); if (o < 0) stop(TR_DEADLOCK);
    switchTo(o, 0);
}
static void wake(const void* on) { for (int i = 0; i < N; ++i) if (t[i].st == BLOCKED && t[i].on == on) { t[i].st = RUN; t[i].on = nullptr; } }

static void* threadMain(void* a) {
    me = (int) (long) a;
    pthread_attr_t at; void* p; size_t n;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &p, &n); pthread_attr_destroy(&at);
    t[me].lo = (uintptr_t) p; t[me].hi = t[me].lo + n;
    seamEnter();
    __sync_fetch_and_add(&ready, 1);
    waitTurn(me);
    bodyF(me);
    t[me].st = DONE;
    int o = other();
    if (o < 0) { bool all = true; for (int i = 0; i < N; ++i) all = all && t[i].st == DONE; if (!all) stop(TR_DEADLOCK); o = N; }
    else { TO->swHash = (TO->swHash ^ (TO->events << 4 | o | 8)) * 0x100000001b3ull; }
    pass(o);
    for (;;) sud_raw(SYS_pause, 0, 0, 0, 0, 0, 0);
    return nullptr;
}

void thrInit() { TO = (ThrOut*) mmap(nullptr, sizeof(ThrOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static void onYield(); static void thrAlloc(void*, size_t); static void thrFree(void*);

void thrCreate(int n, uint64_t seed, int pol, int rt, void (*body)(int)) {
    memset(TO, 0, sizeof *TO); TO->swHash = 0x77;
    N = n; rng = seed; policy = pol; rate = rt < 1 ? 1 : rt; bodyF = body; turn = -1; ready = 0;
    left = 1 + mix(rng) % (2 * (uint64_t) rate);
    unsigned cpu = 0;
    if (syscall(SYS_getcpu, &cpu, nullptr, nullptr) == 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    for (int i = 0; i < n; ++i) {
        memset(&t[i], 0, sizeof t[i]); t[i].vc[i] = 1;
        pthread_t h; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
        if (pthread_create(&h, &at, threadMain, (void*) (long) i)) _exit(50);
    }
    while (ready < n) sched_yield();
}

void thrRun() {
    seamYield = onYield; seamOnAlloc = thrAlloc; seamOnFree = thrFree;
    int first = mix(rng) % N;
    pass(first); waitTurn(N);
    seamYield = nullptr;
}

// ---------------------------------------------------------- race detector
struct Granule { uint32_t w[MAXT], r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; uint32_t wpc, rpc; };  // 8 bytes of memory
struct Page { uintptr_t key; Granule* g; };
enum { PAGES = 1 << 14 };
static Page pages[PAGES];
static unsigned nPages;

static Page* pageOf(uintptr_t a, bool create) {
    uintptr_t k = (a >> 12) + 1;
    unsigned i = (k * 0x9e3779b97f4a7c15ull) >> 50;
    for (;; i = (i + 1) & (PAGES - 1)) {
        if (pages[i].key == k) return &pages[i];
        if (!pages[i].key) break;
    }
    if (!create || nPages > PAGES / 2) return nullptr;
    static char* pool; static size_t poolLeft;
    size_t sz = sizeof(Granule) * 512;
    if (poolLeft < sz) { poolLeft = sz * 64; pool = (char*) sud_raw(SYS_mmap, 0, poolLeft, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    pages[i].key = k; pages[i].g = (Granule*) pool; pool += sz; poolLeft -= sz; ++nPages;
    return &pages[i];
}

static void race(uintptr_t a, uintptr_t pc, bool w, int u, bool uw, uint32_t upc) {
    TO->raceT[0] = u; TO->raceT[1] = me; TO->raceW[0] = uw; TO->raceW[1] = w; TO->racePc[0] = upc; TO->racePc[1] = pc;
    TO->raceGlobal = a >= (uintptr_t) __data_start && a < (uintptr_t) _end; TO->raceAddr = TO->raceGlobal ? a : 0;
    stop(TR_RACE);
}

static inline void touch(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    T& self = t[me];
    while (n) {
        unsigned off = a & 7; unsigned len = 8 - off < n ? 8 - off : n;
        uint8_t m = (uint8_t) (((1u << len) - 1) << off);
        Page* p = pageOf(a, true); if (!p) return;
        Granule& g = p->g[(a >> 3) & 511];
        for (int u = 0; u < N; ++u) {
            if (u == me) continue;
            if ((g.wm[u] & m) && g.w[u] > self.vc[u]) race(a, pc, w, u, true, g.wpc);
            if (w && (g.rm[u] & m) && g.r[u] > self.vc[u]) race(a, pc, w, u, false, g.rpc);
        }
        if (w) { if (g.w[me] == self.vc[me]) g.wm[me] |= m; else g.w[me] = self.vc[me], g.wm[me] = m; g.wpc = (uint32_t) pc; }
        else { if (g.r[me] == self.vc[me]) g.rm[me] |= m; else g.r[me] = self.vc[me], g.rm[me] = m; g.rpc = (uint32_t) pc; }
        a += len; n -= len;
    }
}
static void zero(void* d, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }
static void forget(uintptr_t a, size_t n) {
    uintptr_t e = a + n;
    for (a &= ~(uintptr_t) 7; a < e;) {
        uintptr_t pe = (a | 4095) + 1; if (pe > e) pe = e;
        if (Page* p = pageOf(a, false)) zero(&p->g[(a >> 3) & 511], sizeof(Granule) * ((pe - a + 7) >> 3));
        a = pe;
    }
}

static inline bool global(uintptr_t a) { return a >= (uintptr_t) __data_start && a < (uintptr_t) _end; }
static inline void acc(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!thrIn || me < 0 || !n) return;
    if (a >= t[me].lo && a < t[me].hi) return;                                          // own stack and thread-locals
    if (a >= (uintptr_t) __executable_start && a < (uintptr_t) __data_start) return;    // code and constants
    point(global(a), pc);
    touch(a, n, w, pc);
}

// synchronisation objects: address -> vector clock
static struct SyncVar { const void* a; uint32_t vc[MAXT]; } sv[4096];
static SyncVar& syncOf(const void* a) {
    unsigned i = ((uintptr_t) a * 0x9e3779b97f4a7c15ull) >> 52;
    for (int k = 0; k < 4096; ++k, i = (i + 1) & 4095) { if (sv[i].a == a) return sv[i]; if (!sv[i].a) { sv[i].a = a; return sv[i]; } }
    return sv[0];
}
static void acquire(const void* a) { if (me < 0) return; SyncVar& s = syncOf(a); for (int i = 0; i < N; ++i) if (s.vc[i] > t[me].vc[i]) t[me].vc[i] = s.vc[i]; }
static void release(const void* a) { if (me < 0) return; SyncVar& s = syncOf(a); for (int i = 0; i < N; ++i) if (t[me].vc[i] > s.vc[i]) s.vc[i] = t[me].vc[i]; ++t[me].vc[me]; }
static bool live() { return thrIn && me >= 0; }
static void syncPoint(uintptr_t pc) { if (live()) { ++TO->syncs; point(true, pc); } }

static void onYield() { if (live()) point(policy != 1, 0); }

// allocation hooks, called by the seam.  Releasing a block conflicts with any use of
// it by another thread; afterwards it may come back through an allocation we do not see.
static void thrAlloc(void* p, size_t n) { if (me >= 0 && p) forget((uintptr_t) p, n); }
static void thrFree(void* p) { if (live() && p) { size_t n = malloc_usable_size(p); touch((uintptr_t) p, n < 512 ? n : 512, true, (uintptr_t) __builtin_return_address(0)); forget((uintptr_t) p, n); } }

#define PC ((uintptr_t) __builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void* a) { acc((uintptr_t) a, n, false, PC); } \
    void __tsan_write##n(void* a) { acc((uintptr_t) a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { acc((uintptr_t) a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { acc((uintptr_t) a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { acc((uintptr_t) a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { acc((uintptr_t) a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc((uintptr_t) a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { acc((uintptr_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { acc((uintptr_t) a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc((uintptr_t) a, n, true, PC); }
void __tsan_vptr_read(void** a) { acc((uintptr_t) a, 8, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc((uintptr_t) a, 8, true, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rls(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomicBefore(const volatile void* a, uintptr_t pc) { if (live()) { ++TO->atomics; syncPoint(pc); } }
static void atomicAfter(const volatile void* a, int mo) { if (!live()) return; if (acq(mo)) acquire((const void*) a); if (rls(mo)) release((const void*) a); }
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomicBefore(a, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (live() && acq(mo)) acquire((const void*) a); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomicBefore(a, PC); if (live() && rls(mo)) release((const void*) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { atomicBefore(a, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { atomicBefore(a, PC); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { atomicBefore(a, PC); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return r; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { atomicBefore(a, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicAfter(a, mo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// ------------------------------------------------ static initialisation guards
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
    char* b = (char*) g;
    if (!live()) { if (*b) return 0; b[1] = 1; return 1; }
    ++TO->guards; syncPoint(PC);
    while (b[1] && !*b) block(g);
    if (*b) { acquire(g); return 0; }
    b[1] = 1; acquire(g);
    return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { char* b = (char*) g; if (live()) { release(g); } *b = 1; b[1] = 0; if (live()) { wake(g); syncPoint(PC); } }
void __wrap___cxa_guard_abort(uint64_t* g) { char* b = (char*) g; b[1] = 0; if (live()) { release(g); wake(g); } }

// ------------------------------------------------ locks
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { syncPoint(PC); int r = __real_pthread_mutex_trylock(m); if (!r && live()) acquire(m); return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!live()) return __real_pthread_mutex_lock(m);
    ++TO->locks; syncPoint(PC);
    for (;;) {
        int r = __real_pthread_mutex_trylock(m);
        if (r != EBUSY) { if (!r) acquire(m); return r; }
        block(m);
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!live()) return __real_pthread_mutex_unlock(m);
    release(m); int r = __real_pthread_mutex_unlock(m); wake(m); syncPoint(PC); return r;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { syncPoint(PC); int r = __real_pthread_rwlock_tryrdlock(m); if (!r && live()) acquire(m); return r; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { syncPoint(PC); int r = __real_pthread_rwlock_trywrlock(m); if (!r && live()) acquire(m); return r; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!live()) return __real_pthread_rwlock_rdlock(m); ++TO->locks; syncPoint(PC); for (;;) { int r = __real_pthread_rwlock_tryrdlock(m); if (r != EBUSY) { if (!r) acquire(m); return r; } block(m); } }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!live()) return __real_pthread_rwlock_wrlock(m); ++TO->locks; syncPoint(PC); for (;;) { int r = __real_pthread_rwlock_trywrlock(m); if (r != EBUSY) { if (!r) acquire(m); return r; } block(m); } }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!live()) return __real_pthread_rwlock_unlock(m); release(m); int r = __real_pthread_rwlock_unlock(m); wake(m); syncPoint(PC); return r; }
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {       // 0 fresh, 1 in progress, 2 done (the same as glibc's)
    volatile int* s = (volatile int*) o;
    if (!live()) return __real_pthread_once(o, f);
    ++TO->guards; syncPoint(PC);
    while (*s == 1) block(o);
    if (*s == 2) { acquire(o); return 0; }
    *s = 1;
    struct Undo { volatile int* s; ~Undo() { if (*s == 1) { *s = 0; wake((const void*) s); } } } u{s};
    f();
    release(o); *s = 2; wake(o);
    return 0;
}
// the lock behind atomic operations on shared_ptr
static int spHeld, spDepth; static char spLock;
static void spEnter() { if (!live()) return; syncPoint(0); while (spHeld && spHeld != me + 1) block(&spLock); spHeld = me + 1; ++spDepth; acquire(&spLock); }
static void spLeave() { if (!live()) return; release(&spLock); if (--spDepth == 0) { spHeld = 0; wake(&spLock); } }
void __wrap__ZNSt10_Sp_lockerC1EPKv(void*, const void*) { spEnter(); }
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void*, const void*, const void*) { spEnter(); }
void __wrap__ZNSt10_Sp_lockerD1Ev(void*) { spLeave(); }

// ------------------------------------------------ library functions that touch the caller's objects
#define A(p) ((uintptr_t) (p))
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc(A(s), n, false, PC); acc(A(d), n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { acc(A(s), n, false, PC); acc(A(d), n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc(A(d), n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { acc(A(a), n, false, PC); acc(A(b), n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); acc(A(s), n + 1, false, PC); return n; }

size_t __real_fread(void*, size_t, size_t, FILE*); char* __real_fgets(char*, int, FILE*);
size_t __wrap_fread(void* d, size_t a, size_t b, FILE* f) { acc(A(d), a * b, true, PC); size_t r = __real_fread(d, a, b, f); if (live()) point(true, PC); return r; }
char* __wrap_fgets(char* d, int n, FILE* f) { char* r = __real_fgets(d, n, f); if (r) acc(A(d), __real_strlen(d) + 1, true, PC); return r; }
char* __real_strcpy(char*, const char*); char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; acc(A(s), n, false, PC); acc(A(d), n, true, PC); return __real_strcpy(d, s); }
char* __real_strncpy(char*, const char*, size_t); char* __wrap_strncpy(char* d, const char* s, size_t k) { size_t n = strnlen(s, k); acc(A(s), n, false, PC); acc(A(d), k, true, PC); return __real_strncpy(d, s, k); }
char* __real_strcat(char*, const char*); char* __wrap_strcat(char* d, const char* s) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); acc(A(s), n, false, PC); acc(A(d), m + 1, false, PC); acc(A(d) + m, n, true, PC); return __real_strcat(d, s); }
char* __real_strncat(char*, const char*, size_t); char* __wrap_strncat(char* d, const char* s, size_t k) { size_t n = strnlen(s, k), m = __real_strlen(d); acc(A(s), n, false, PC); acc(A(d), m + 1, false, PC); acc(A(d) + m, n + 1, true, PC); return __real_strncat(d, s, k); }
static void readStr(const char* s, uintptr_t pc) { if (live()) acc(A(s), __real_strlen(s) + 1, false, pc); }
int __real_strcmp(const char*, const char*); int __wrap_strcmp(const char* a, const char* b) { readStr(a, PC); readStr(b, PC); return __real_strcmp(a, b); }
int __real_strncmp(const char*, const char*, size_t); int __wrap_strncmp(const char* a, const char* b, size_t n) { if (live()) { acc(A(a), strnlen(a, n), false, PC); acc(A(b), strnlen(b, n), false, PC); } return __real_strncmp(a, b, n); }
char* __real_strchr(const char*, int); char* __wrap_strchr(const char* s, int c) { readStr(s, PC); return __real_strchr(s, c); }
void* __real_memchr(const void*, int, size_t); void* __wrap_memchr(const void* s, int c, size_t n) { acc(A(s), n, false, PC); return __real_memchr(s, c, n); }
long __real_strtol(const char*, char**, int); long __wrap_strtol(const char* s, char** e, int b) { readStr(s, PC); return __real_strtol(s, e, b); }
unsigned long __real_strtoul(const char*, char**, int); unsigned long __wrap_strtoul(const char* s, char** e, int b) { readStr(s, PC); return __real_strtoul(s, e, b); }
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list v) { int r = __real_vsnprintf(d, n, f, v); if (n && r >= 0) acc(A(d), (size_t) r + 1 < n ? r + 1 : n, true, PC); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = __real_vsnprintf(d, n, f, v); va_end(v); if (n && r >= 0) acc(A(d), (size_t) r + 1 < n ? r + 1 : n, true, PC); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list v; va_start(v, f); int r = vsprintf(d, f, v); va_end(v); if (r >= 0) acc(A(d), r + 1, true, PC); return r; }
wchar_t* __real_wmemcpy(wchar_t*, const wchar_t*, size_t); wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { acc(A(s), n * 4, false, PC); acc(A(d), n * 4, true, PC); return __real_wmemcpy(d, s, n); }
wchar_t* __real_wmemset(wchar_t*, wchar_t, size_t); wchar_t* __wrap_wmemset(wchar_t* d, wchar_t c, size_t n) { acc(A(d), n * 4, true, PC); return __real_wmemset(d, c, n); }
size_t __real_wcslen(const wchar_t*); size_t __wrap_wcslen(const wchar_t* s) { size_t n = __real_wcslen(s); acc(A(s), (n + 1) * 4, false, PC); return n; }

struct NodeB { int col; NodeB *p, *l, *r; };
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, NodeB*, NodeB*, NodeB&);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, NodeB* x, NodeB* p, NodeB& h) { acc(A(p), 32, true, PC); acc(A(&h), 32, true, PC); acc(A(x), 32, true, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
NodeB* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(NodeB*, NodeB&);
NodeB* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(NodeB* z, NodeB& h) { acc(A(z), 32, true, PC); acc(A(&h), 32, true, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
#define RBWALK(sym) NodeB* __real_##sym(NodeB*); NodeB* __wrap_##sym(NodeB* x) { acc(A(x), 32, false, PC); return __real_##sym(x); }
RBWALK(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base) RBWALK(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
RBWALK(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base) RBWALK(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
struct ListB { ListB *n, *p; };
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListB*, ListB*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(ListB* x, ListB* at) { acc(A(at), 16, true, PC); acc(A(x), 16, true, PC); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(x, at); }
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(ListB*);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(ListB* x) { acc(A(x), 16, true, PC); acc(A(x->n), 16, true, PC); acc(A(x->p), 16, true, PC); __real__ZNSt8__detail15_List_node_base9_M_unhookEv(x); }
void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListB*, ListB*, ListB*);
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(ListB* x, ListB* a, ListB* b) { acc(A(x), 16, true, PC); acc(A(a), 16, true, PC); acc(A(b), 16, true, PC); __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(x, a, b); }

// output streams (std::cout and friends may be shared)
extern char _ZSt4cout[], _ZSt4cerr[], _ZSt4clog[];
void* __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void*, const char*, long);
void* __wrap__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* s, long n) {
    if (o != _ZSt4cout && o != _ZSt4cerr && o != _ZSt4clog) acc(A(o) + 8, 8, true, PC);
    return __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(o, s, n);
}

// trie cursors: walking changes them (two words: trie, index, suffix, ...)
int __real_trie_state_walk(void*, uint32_t); int __wrap_trie_state_walk(void* s, uint32_t c) { acc(A(s), 16, true, PC); return __real_trie_state_walk(s, c); }
void __real_trie_state_rewind(void*); void __wrap_trie_state_rewind(void* s) { acc(A(s), 16, true, PC); __real_trie_state_rewind(s); }
void __real_trie_state_copy(void*, const void*); void __wrap_trie_state_copy(void* d, const void* s) { acc(A(s), 16, false, PC); acc(A(d), 16, true, PC); __real_trie_state_copy(d, s); }
int __real_trie_state_is_walkable(const void*, uint32_t); int __wrap_trie_state_is_walkable(const void* s, uint32_t c) { acc(A(s), 16, false, PC); return __real_trie_state_is_walkable(s, c); }
int __real_trie_state_get_data(const void*); int __wrap_trie_state_get_data(const void* s) { acc(A(s), 16, false, PC); return __real_trie_state_get_data(s); }
int __real_trie_state_is_single(const void*); int __wrap_trie_state_is_single(const void* s) { acc(A(s), 16, false, PC); return __real_trie_state_is_single(s); }
void __real_trie_state_free(void*); void __wrap_trie_state_free(void* s) { acc(A(s), 16, true, PC); __real_trie_state_free(s); }
void __real_trie_free(void*); void __wrap_trie_free(void* s) { acc(A(s), 8, true, PC); __real_trie_free(s); }

// library functions that keep hidden state
static char hidden[8][8];
char* __real_strtok(char*, const char*); char* __wrap_strtok(char* s, const char* d) { acc(A(hidden[0]), 8, true, PC); return __real_strtok(s, d); }
char* __real_setlocale(int, const char*); char* __wrap_setlocale(int c, const char* l) { acc(A(hidden[1]), 8, l != nullptr, PC); return __real_setlocale(c, l); }
int __real_rand(void); int __wrap_rand(void) { acc(A(hidden[2]), 8, true, PC); return __real_rand(); }
int __real_mbtowc(wchar_t*, const char*, size_t); int __wrap_mbtowc(wchar_t* w, const char* s, size_t n) { acc(A(hidden[3]), 8, true, PC); return __real_mbtowc(w, s, n); }
int __real_wctomb(char*, wchar_t); int __wrap_wctomb(char* s, wchar_t w) { acc(A(hidden[4]), 8, true, PC); return __real_wctomb(s, w); }
struct tm* __real_localtime(const time_t*); struct tm* __wrap_localtime(const time_t* p) { acc(A(hidden[6]), 8, true, PC); return __real_localtime(p); }
char* __real_strerror(int); char* __wrap_strerror(int e) { acc(A(hidden[5]), 8, true, PC); return __real_strerror(e); }
}
