// Scheduler for the compiled simulator: worker teams of OpenMP regions and threads of the interpreter run one at a time,
// and the seeded generator decides after every memory access who goes on.  Linked instead of libgomp and libtsan: the code
// under test is compiled with -fopenmp -fsanitize=thread, which calls the functions below.
// Also: allocations that fail on demand, and state vectors that end at an inaccessible page.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" int PyGILState_Check(void);

namespace {
constexpr int MAXT = 8;

struct Rng {
    uint64_t s = 1;
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1DULL >> 11;
    }
};

enum What : int { OFF = 0, RUN = 1, BARRIER = 2, LOCK = 3, DONE = 4 };

struct Task {
    std::atomic<uint32_t> go{0};
    What what = OFF;
    unsigned singles = 0;
};

struct State {
    Task t[MAXT];
    int n = 0;         // tasks of the team or of the group of threads
    bool team = false; // inside a parallel region
    bool group = false;
    int current = 0;
    int lock_owner = -1;
    int lock_depth = 0;
    Rng rng;
    unsigned period = 4; // one access in `period` is followed by a switch on average
    unsigned threads = 1;
    // statistics
    uint64_t accesses = 0, switches = 0, regions = 0, races = 0;
    uint64_t hash = 1469598103934665603ULL;
    char race[256] = "";
    // loop shared by the team (schedule dynamic/guided)
    long loop_next = 0, loop_end = 0, loop_incr = 1, loop_chunk = 1;
    int loop_in = 0;
    uint64_t loop_no = 0;
    unsigned singles_done = 0;
} S;

thread_local int self_id = -1;       // this thread's number in the team/group
thread_local uint64_t my_loop = 0;

void futex_wait(std::atomic<uint32_t> *a) {
    while (a->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, reinterpret_cast<uint32_t *>(a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a->store(0, std::memory_order_relaxed);
}
void futex_wake(std::atomic<uint32_t> *a) {
    a->store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<uint32_t *>(a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void mix(uint64_t x) { S.hash = (S.hash ^ x) * 1099511628211ULL; }

int pick(int except) {
    int c[MAXT], k = 0;
    for (int i = 0; i < S.n; ++i)
        if (i != except && S.t[i].what == RUN)
            c[k++] = i;
    return k == 0 ? -1 : c[S.rng.next() % k];
}

// give the baton to task j and wait until it comes back
void hand(int me, int j) {
    S.switches++;
    mix(S.accesses * 16 + j);
    S.current = j;
    futex_wake(&S.t[j].go);
    futex_wait(&S.t[me].go);
}

void maybe_switch() {
    int me = self_id;
    if (S.period && S.rng.next() % S.period == 0) {
        int j = pick(me);
        if (j >= 0)
            hand(me, j);
    }
}

// ------------------------------------------------------------------------------------------------ race detection
struct Cell {
    uintptr_t key;
    uint32_t gen;
    uint8_t w[MAXT], r[MAXT];
    void clear() {
        for (int i = 0; i < MAXT; ++i)
            w[i] = r[i] = 0;
    }
};
constexpr size_t CELLS = 1u << 17;
Cell *cells = nullptr;
uint32_t gen = 1;
size_t used = 0;

Cell *cell(uintptr_t k) {
    if (!cells)
        cells = static_cast<Cell *>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    size_t i = (k * 0x9E3779B97F4A7C15ULL) >> (64 - 17);
    for (size_t tries = 0; tries < CELLS; ++tries, i = (i + 1) & (CELLS - 1)) {
        Cell &c = cells[i];
        if (c.gen != gen) {
            if (used > CELLS * 3 / 4)
                return nullptr;
            used++;
            c.key = k;
            c.gen = gen;
            c.clear();
            return &c;
        }
        if (c.key == k)
            return &c;
    }
    return nullptr;
}

void new_epoch() {
    gen++;
    used = 0;
}

void forget(const void *p, size_t n) {
    if (!S.team || !cells)
        return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
    if (e - a > 4096)
        return;
    for (; a < e; ++a) {
        Cell *c = cell(a);
        if (c)
            c->clear();
    }
}

void check(const void *p, size_t n, bool write) {
    if (S.lock_owner == self_id)
        return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
    while (a < e) {
        uintptr_t k = a >> 3;
        unsigned lo = a & 7, hi = (e - (k << 3)) < 8 ? e - (k << 3) : 8;
        uint8_t m = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell *c = cell(k);
        if (!c)
            return;
        for (int i = 0; i < S.n; ++i)
            if (i != self_id && ((c->w[i] & m) || (write && (c->r[i] & m)))) {
                if (!S.races++)
                    snprintf(S.race, sizeof S.race, "threads %d and %d: %s after %s of the same %u bytes without synchronisation (region %llu)", self_id, i,
                             write ? "write" : "read", (c->w[i] & m) ? "write" : "read", (unsigned)(hi - lo), (unsigned long long)S.regions);
                break;
            }
        (write ? c->w : c->r)[self_id] |= m;
        a = (k + 1) << 3;
    }
}

inline void touch(const void *p, size_t n, bool write) {
    if (self_id < 0)
        return;
    if (S.team) {
        S.accesses++;
        check(p, n, write);
        maybe_switch();
    } else if (S.group && !PyGILState_Check()) {
        S.accesses++;
        maybe_switch();
    }
}

inline void sync_point() {
    if (self_id < 0)
        return;
    if (S.team || (S.group && !PyGILState_Check())) {
        S.accesses++;
        maybe_switch();
    }
}

// the running task cannot go on: somebody else has to
void block(What w) {
    int me = self_id;
    S.t[me].what = w;
    int j = pick(me);
    if (j < 0) {
        fprintf(stderr, "baton: all threads blocked\n");
        abort();
    }
    hand(me, j);
}

void barrier() {
    if (self_id < 0 || !S.team || S.n == 1)
        return;
    bool last = true;
    for (int i = 0; i < S.n; ++i)
        if (i != self_id && S.t[i].what != BARRIER && S.t[i].what != DONE)
            last = false;
    if (!last) {
        block(BARRIER);
        return;
    }
    for (int i = 0; i < S.n; ++i)
        if (S.t[i].what == BARRIER)
            S.t[i].what = RUN;
    new_epoch();
    maybe_switch();
}

void lock() {
    if (self_id < 0 || !S.team)
        return;
    sync_point();
    while (S.lock_owner >= 0 && S.lock_owner != self_id)
        block(LOCK);
    S.lock_owner = self_id;
    S.lock_depth++;
}
void unlock() {
    if (self_id < 0 || !S.team)
        return;
    if (--S.lock_depth == 0) {
        S.lock_owner = -1;
        for (int i = 0; i < S.n; ++i)
            if (S.t[i].what == LOCK)
                S.t[i].what = RUN;
    }
    sync_point();
}

struct Start {
    int id;
    void (*fn)(void *);
    void *data;
};

void finish() {
    int me = self_id;
    S.t[me].what = DONE;
    // whoever waits at a barrier only for finished tasks may go on (malformed programs)
    int j = pick(me);
    if (j >= 0) {
        S.current = j;
        mix(S.accesses * 16 + j);
        futex_wake(&S.t[j].go);
    }
}

void *worker(void *a) {
    Start *s = static_cast<Start *>(a);
    self_id = s->id;
    my_loop = S.loop_no;
    futex_wait(&S.t[s->id].go);
    s->fn(s->data);
    finish();
    return nullptr;
}
} // namespace

// mutexes of the code under test
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (self_id >= 0 && S.team) {
        lock();
        return __real_pthread_mutex_lock(m);
    }
    if (self_id >= 0 && S.group) {
        if (!PyGILState_Check())
            sync_point();
        while (pthread_mutex_trylock(m) == EBUSY) {
            int j = pick(self_id);
            if (j < 0)
                return __real_pthread_mutex_lock(m);
            hand(self_id, j); // with the interpreter's lock if this thread holds it: a deadlock of the code stays one
        }
        return 0;
    }
    return __real_pthread_mutex_lock(m);
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = __real_pthread_mutex_unlock(m);
    if (self_id >= 0 && S.team)
        unlock();
    else if (self_id >= 0 && S.group && !PyGILState_Check())
        sync_point();
    return r;
}

// ------------------------------------------------------------------------------------------------ control from the harness
EXPORT void baton_config(uint64_t seed, unsigned threads, unsigned period) {
    S.rng.s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    if (!S.rng.s)
        S.rng.s = 1;
    S.threads = threads < 1 ? 1 : (threads > MAXT ? MAXT : threads);
    S.period = period;
    S.accesses = S.switches = S.regions = S.races = 0;
    S.hash = 1469598103934665603ULL;
    S.race[0] = 0;
}
EXPORT void baton_stats(uint64_t *out) {
    out[0] = S.accesses;
    out[1] = S.switches;
    out[2] = S.regions;
    out[3] = S.races;
    out[4] = S.hash;
}
EXPORT const char *baton_race() { return S.race; }

// threads of the interpreter
EXPORT void baton_group(int n) {
    S.n = n;
    for (int i = 0; i < n; ++i) {
        S.t[i].go = 0;
        S.t[i].what = RUN;
    }
    S.group = n > 0;
}
EXPORT void baton_begin() { // by the owner: somebody starts
    int j = pick(-1);
    if (j >= 0) {
        S.current = j;
        futex_wake(&S.t[j].go);
    }
}
EXPORT void baton_enter(int id) { // called without the interpreter's lock
    futex_wait(&S.t[id].go);
    self_id = id;
}
EXPORT void baton_yield() {
    if (self_id >= 0 && S.group) {
        S.accesses++;
        maybe_switch();
    }
}
EXPORT void baton_switch() { // somebody else goes on now
    if (self_id >= 0 && S.group) {
        S.accesses++;
        int j = pick(self_id);
        if (j >= 0)
            hand(self_id, j);
    }
}
EXPORT int baton_self() { return self_id; }
EXPORT void baton_leave() {
    finish();
    self_id = -1;
}

// run a function in a thread that has really ended (destructors of its buffers included) when this returns
static void *call_plain(void *f) {
    reinterpret_cast<void (*)()>(f)();
    return nullptr;
}
EXPORT int baton_fresh(void (*fn)()) {
    pthread_t t;
    if (pthread_create(&t, nullptr, call_plain, reinterpret_cast<void *>(fn)))
        return 1;
    return pthread_join(t, nullptr);
}

// ------------------------------------------------------------------------------------------------ OpenMP
EXPORT int omp_get_num_threads() { return S.team && self_id >= 0 ? S.n : 1; }
EXPORT int omp_get_thread_num() { return S.team && self_id >= 0 ? self_id : 0; }
EXPORT int omp_get_max_threads() { return S.threads; }
EXPORT int omp_get_num_procs() { return S.threads; }
EXPORT int omp_in_parallel() { return S.team; }
EXPORT void omp_set_num_threads(int n) { S.threads = n < 1 ? 1 : (n > MAXT ? MAXT : n); }
EXPORT double omp_get_wtime() { return 0.0; }

static void run_team(void (*fn)(void *), void *data, unsigned num) {
    int n = num ? static_cast<int>(num) : static_cast<int>(S.threads);
    if (n > MAXT)
        n = MAXT;
    if (S.team || S.group || n <= 1) {
        fn(data); // nested regions and threads of the interpreter: teams of one
        return;
    }
    S.regions++;
    S.n = n;
    S.lock_owner = -1;
    S.lock_depth = 0;
    S.singles_done = 0;
    for (int i = 0; i < n; ++i) {
        S.t[i].go = 0;
        S.t[i].what = RUN;
        S.t[i].singles = 0;
    }
    new_epoch();
    pthread_t th[MAXT];
    Start st[MAXT];
    for (int i = 1; i < n; ++i) {
        st[i] = Start{i, fn, data};
        if (pthread_create(&th[i], nullptr, worker, &st[i])) {
            fprintf(stderr, "baton: no thread\n");
            abort();
        }
    }
    S.team = true;
    self_id = 0;
    my_loop = S.loop_no;
    int first = pick(-1);
    S.current = first;
    if (first != 0)
        hand(0, first);
    fn(data);
    finish();
    for (int i = 1; i < n; ++i)
        pthread_join(th[i], nullptr);
    S.team = false;
    self_id = -1;
    S.n = 0;
}

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) { run_team(fn, data, num); }
EXPORT void GOMP_barrier() { barrier(); }
EXPORT void GOMP_atomic_start() { lock(); }
EXPORT void GOMP_atomic_end() { unlock(); }
EXPORT void GOMP_critical_start() { lock(); }
EXPORT void GOMP_critical_end() { unlock(); }
EXPORT void GOMP_critical_name_start(void **) { lock(); }
EXPORT void GOMP_critical_name_end(void **) { unlock(); }
EXPORT bool GOMP_single_start() {
    if (self_id < 0 || !S.team)
        return true;
    sync_point();
    unsigned mine = ++S.t[self_id].singles;
    if (mine > S.singles_done) {
        S.singles_done = mine;
        return true;
    }
    return false;
}
// shared loops (dynamic, guided, runtime)
static bool loop_take(long *s, long *e) {
    sync_point();
    if (S.loop_incr > 0 ? S.loop_next >= S.loop_end : S.loop_next <= S.loop_end)
        return false;
    *s = S.loop_next;
    long nx = S.loop_next + S.loop_incr * S.loop_chunk;
    if (S.loop_incr > 0 ? nx > S.loop_end : nx < S.loop_end)
        nx = S.loop_end;
    S.loop_next = nx;
    *e = nx;
    return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    if (my_loop == S.loop_no) {
        S.loop_no++;
        S.loop_next = start;
        S.loop_end = end;
        S.loop_incr = incr;
        S.loop_chunk = chunk > 0 ? chunk : 1;
    }
    my_loop = S.loop_no;
    return loop_take(s, e);
}
#define LOOP(K)                                                                                                                            \
    EXPORT bool GOMP_loop_##K##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); }           \
    EXPORT bool GOMP_loop_##K##_next(long *s, long *e) { return loop_take(s, e); }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define ULOOP(K)                                                                                                                           \
    EXPORT bool GOMP_loop_ull_##K##_start(bool, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c,    \
                                          unsigned long long *s, unsigned long long *e) {                                                  \
        return loop_start(a, b, i, c, reinterpret_cast<long *>(s), reinterpret_cast<long *>(e));                                           \
    }                                                                                                                                      \
    EXPORT bool GOMP_loop_ull_##K##_next(unsigned long long *s, unsigned long long *e) {                                                   \
        return loop_take(reinterpret_cast<long *>(s), reinterpret_cast<long *>(e));                                                        \
    }
ULOOP(dynamic)
ULOOP(guided)
ULOOP(nonmonotonic_dynamic)
ULOOP(nonmonotonic_guided)
EXPORT void GOMP_loop_end() { barrier(); }
EXPORT void GOMP_loop_end_nowait() {}
struct LoopArg {
    void (*fn)(void *);
    void *data;
};
#define PLOOP(K)                                                                                                                           \
    EXPORT void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) {                \
        S.loop_no++;                                                                                                                       \
        S.loop_next = a;                                                                                                                   \
        S.loop_end = b;                                                                                                                    \
        S.loop_incr = i;                                                                                                                   \
        S.loop_chunk = c > 0 ? c : 1;                                                                                                      \
        run_team(fn, d, n);                                                                                                                \
    }
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)

// ------------------------------------------------------------------------------------------------ instrumentation
#define RW(N)                                                                                                                              \
    EXPORT void __tsan_read##N(void *p) { touch(p, N, false); }                                                                            \
    EXPORT void __tsan_write##N(void *p) { touch(p, N, true); }                                                                            \
    EXPORT void __tsan_unaligned_read##N(void *p) { touch(p, N, false); }                                                                  \
    EXPORT void __tsan_unaligned_write##N(void *p) { touch(p, N, true); }                                                                  \
    EXPORT void __tsan_volatile_read##N(void *p) { touch(p, N, false); }                                                                   \
    EXPORT void __tsan_volatile_write##N(void *p) { touch(p, N, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { touch(p, n, false); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { touch(p, n, true); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_vptr_update(void **, void *) {}
EXPORT void __tsan_vptr_read(void **) {}
EXPORT void __tsan_atomic_thread_fence(int) { sync_point(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(B, T)                                                                                                                       \
    EXPORT T __tsan_atomic##B##_load(const volatile T *p, int) {                                                                           \
        sync_point();                                                                                                                      \
        return *p;                                                                                                                         \
    }                                                                                                                                      \
    EXPORT void __tsan_atomic##B##_store(volatile T *p, T v, int) {                                                                        \
        sync_point();                                                                                                                      \
        *p = v;                                                                                                                            \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_exchange(volatile T *p, T v, int) {                                                                        \
        sync_point();                                                                                                                      \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) {                                                                       \
        sync_point();                                                                                                                      \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) {                                                                       \
        sync_point();                                                                                                                      \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) {                                                                        \
        sync_point();                                                                                                                      \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                                  \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) {                                                                       \
        sync_point();                                                                                                                      \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) {                                                                       \
        sync_point();                                                                                                                      \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    }                                                                                                                                      \
    EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) {                                            \
        sync_point();                                                                                                                      \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                            \
    }                                                                                                                                      \
    EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) {                                              \
        sync_point();                                                                                                                      \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                            \
    }                                                                                                                                      \
    EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int, int) {                                                  \
        sync_point();                                                                                                                      \
        __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                  \
        return c;                                                                                                                          \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

// ------------------------------------------------------------------------------------------------ memory
namespace {
long fail_at = -1, fail_count = 0; // which allocation fails (counted from the moment it is armed)
long fail_min = 0;                 // only allocations of at least this size count
bool fail_on = false, fail_sticky = false;
long fail_fired = 0;

bool failing(size_t n) {
    if (!fail_on || static_cast<long>(n) < fail_min)
        return false;
    long i = fail_count++;
    if (i == fail_at || (fail_sticky && i > fail_at)) {
        fail_fired++;
        return true;
    }
    return false;
}

// state vectors end at an inaccessible page, and are unmapped when freed
bool fence = false;
constexpr int FENCED = 4096;
struct Block {
    void *user, *base;
    size_t len;
} fenced[FENCED];
int nfenced = 0;

extern "C" void *__real_memset(void *, int, size_t);
void *fence_alloc(size_t n) {
    size_t pg = 4096, body = (n + pg - 1) / pg * pg, len = body + 2 * pg;
    if (nfenced == FENCED)
        return nullptr;
    char *b = static_cast<char *>(mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (b == MAP_FAILED)
        return nullptr;
    mprotect(b + pg, body, PROT_READ | PROT_WRITE);
    __real_memset(b + pg, 0xA5, body);
    char *u = n % 16 == 0 ? b + pg + body - n : b + pg;
    fenced[nfenced++] = Block{u, b, len};
    return u;
}
bool fence_free(void *p) {
    for (int i = nfenced - 1; i >= 0; --i)
        if (fenced[i].user == p) {
            munmap(fenced[i].base, fenced[i].len);
            fenced[i] = fenced[--nfenced];
            return true;
        }
    return false;
}
} // namespace

EXPORT void memory_fence(int on) { fence = on; }
EXPORT void memory_fail(long at, long min_size, int sticky) {
    fail_at = at;
    fail_min = min_size;
    fail_sticky = sticky;
    fail_count = 0;
    fail_fired = 0;
    fail_on = true;
}
EXPORT long memory_calm(long *count) {
    fail_on = false;
    if (count)
        *count = fail_count;
    return fail_fired;
}
EXPORT long memory_live() { return nfenced; }

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real__Znwm(size_t);
void __real__ZdlPv(void *);
void __real__ZdlPvm(void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);

int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    if (failing(n))
        return ENOMEM;
    if (fence && al >= 512) {
        void *p = fence_alloc(n ? n : 1);
        if (p) {
            *out = p;
            return 0;
        }
    }
    return __real_posix_memalign(out, al, n);
}
void __wrap_free(void *p) {
    if (!p || (nfenced && fence_free(p)))
        return;
    forget(p, malloc_usable_size(p));
    __real_free(p);
}
void *__wrap_malloc(size_t n) {
    if (failing(n))
        return nullptr;
    return __real_malloc(n);
}
void *__wrap__Znwm(size_t n) {
    if (failing(n))
        throw std::bad_alloc();
    return __real__Znwm(n);
}
void __wrap__ZdlPv(void *p) {
    if (p)
        forget(p, malloc_usable_size(p));
    __real__ZdlPv(p);
}
void __wrap__ZdlPvm(void *p, size_t n) {
    forget(p, n);
    __real__ZdlPvm(p, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    touch(s, n, false);
    touch(d, n, true);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    touch(s, n, false);
    touch(d, n, true);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    touch(d, n, true);
    return __real_memset(d, c, n);
}
}
