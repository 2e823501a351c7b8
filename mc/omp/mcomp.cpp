// A controlled OpenMP runtime: the threads of a parallel region are coroutines, every memory access of the instrumented
// kernels is seen (-fsanitize=thread calls), and a region is executed once per schedule, rolling its writes back in between.
//
// Schedules: a schedule is a sequence of choices made whenever more than one thread can execute its next synchronisation
// operation (atomic, critical, dynamic loop, single).  Accesses between synchronisation operations are checked for races with
// vector clocks on every schedule; without races every interleaving of them is equivalent to the one executed (one
// Mazurkiewicz trace per order of the synchronisation operations), so all schedules = all orders of these operations.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <malloc.h>

typedef unsigned long ul;
typedef unsigned long long ull;
static const int MAXT = 16;
static const size_t STACK = 1 << 18;

struct Cell { uint16_t pw[MAXT], pr[MAXT], aw[MAXT], ar[MAXT]; bool hw; unsigned char old; };
struct VC { uint16_t c[MAXT]; };
struct Share { bool init; ull next, end, incr, chunk; bool up; int taken; int count; };

enum { RUN, SYNC, LOCKWAIT, BARRIER, DONE };
struct Thread {
    ucontext_t ctx; char *stack; int state; void *lock; VC vc; int ws; Share *cur; bool started;
};

static int cfgT = 1;
static long cap = 5000;
static bool active = false;
static bool compare = true;
static bool inregion = false;
static int T = 1, self = 0;
static Thread th[MAXT];
static ucontext_t sched;
static void (*rfn)(void *);
static void *rdata;
static std::unordered_map<uintptr_t, Cell> shadow;
static std::unordered_map<uintptr_t, VC> locks, atoms;
static std::unordered_map<uintptr_t, int> held;
static std::vector<Share *> shares;
static std::vector<std::pair<int, int> > path;      // (chosen, alternatives)
static size_t depth;
static ull n_regions, n_schedules, n_sync, n_access, n_truncated, n_cells;
static char message[512];
static int kind;                                     // 0 none, 1 race, 2 schedule-dependent, 3 deadlock, 4 unsupported
static char *arena, *arena_at;
static const size_t ARENA = 1 << 26;

static void fail(int k, const char *fmt, ul a, ul b, ul c) {
    if (kind) return;
    kind = k;
    snprintf(message, sizeof message, fmt, a, b, c);
}

static bool own_stack(uintptr_t p) {
    for (int i = 0; i < T; i++)
        if (p >= (uintptr_t)th[i].stack && p < (uintptr_t)th[i].stack + STACK) return true;
    return false;
}

static void access(const void *a, size_t n, bool write, bool atomic) {
    if (!inregion) return;
    uintptr_t p = (uintptr_t)a;
    if (own_stack(p)) return;
    n_access++;
    Thread &t = th[self];
    for (size_t i = 0; i < n; i++) {
        auto it = shadow.find(p + i);
        if (it == shadow.end()) {
            it = shadow.emplace(p + i, Cell()).first;
            memset(&it->second, 0, sizeof(Cell));
        }
        Cell &c = it->second;
        for (int u = 0; u < T; u++) {
            if (u == self) continue;
            uint16_t k = t.vc.c[u];
            bool bad = c.pw[u] > k || (write && c.pr[u] > k) || (!atomic && c.aw[u] > k) || (!atomic && write && c.ar[u] > k);
            if (bad)
                fail(1, "threads %lu and %lu of a team access the same memory, one of them writing (%lu bytes)", (ul)u, (ul)self, (ul)n);
        }
        if (write && !c.hw) { c.hw = true; c.old = *(unsigned char *)(p + i); }
        (atomic ? (write ? c.aw : c.ar) : (write ? c.pw : c.pr))[self] = t.vc.c[self];
    }
}

static void yield_as(int state, void *lock) {
    th[self].state = state;
    th[self].lock = lock;
    int me = self;
    swapcontext(&th[me].ctx, &sched);
}
static void sync_point() {
    if (!inregion) return;
    n_sync++;
    yield_as(SYNC, 0);
    th[self].vc.c[self]++;
}
static void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

static void acquire(void *l) {
    if (!inregion) return;
    n_sync++;
    yield_as(LOCKWAIT, l);
    held[(uintptr_t)l] = 1;
    join(th[self].vc, locks[(uintptr_t)l]);
    th[self].vc.c[self]++;
}
static void release(void *l) {
    if (!inregion) return;
    locks[(uintptr_t)l] = th[self].vc;
    th[self].vc.c[self]++;
    held[(uintptr_t)l] = 0;
}

static void entry() {
    rfn(rdata);
    th[self].state = DONE;
    int me = self;
    swapcontext(&th[me].ctx, &sched);
}

static void resume(int i) {
    self = i;
    th[i].state = RUN;
    swapcontext(&sched, &th[i].ctx);
}

static int choose(int n) {
    if (n <= 1) return 0;
    if (depth == path.size()) path.push_back(std::make_pair(0, n));
    if (path[depth].second != n) { fail(4, "a schedule cannot be repeated (%lu, %lu, %lu)", depth, path[depth].second, n); return 0; }
    return path[depth++].first;
}

static void run_once() {
    shadow.clear(); locks.clear(); atoms.clear(); held.clear();
    for (auto s : shares) delete s;
    shares.clear();
    depth = 0;
    arena_at = arena;
    for (int i = 0; i < T; i++) {
        Thread &t = th[i];
        memset(&t.vc, 0, sizeof t.vc);
        t.vc.c[i] = 1;
        t.ws = 0; t.cur = 0; t.state = RUN; t.lock = 0;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = 0;
        makecontext(&t.ctx, entry, 0);
    }
    inregion = true;
    for (int i = 0; i < T; i++) resume(i);
    for (;;) {
        int en[MAXT], n = 0, alive = 0, bar = 0;
        for (int i = 0; i < T; i++) {
            if (th[i].state == DONE) continue;
            alive++;
            if (th[i].state == BARRIER) bar++;
            else if (th[i].state == SYNC || !held[(uintptr_t)th[i].lock]) en[n++] = i;
        }
        if (!alive) break;
        if (bar == alive) {
            if (alive < T) { fail(3, "a thread waits at a barrier that others never reach (%lu of %lu)%.0lu", alive, T, 0); break; }
            VC all; memset(&all, 0, sizeof all);
            for (int i = 0; i < T; i++) join(all, th[i].vc);
            for (int i = 0; i < T; i++) { th[i].vc = all; th[i].vc.c[i]++; }
            for (int i = 0; i < T; i++) resume(i);
            continue;
        }
        if (!n) { fail(3, "threads of a team wait for each other for ever (%lu of %lu)%.0lu", alive, T, 0); break; }
        resume(en[choose(n)]);
        if (kind == 4) break;
    }
    inregion = false;
    n_schedules++;
}

typedef std::vector<std::pair<uintptr_t, unsigned char> > Result;

static void collect(std::unordered_map<uintptr_t, unsigned char> &r) {
    r.clear();
    for (auto &x : shadow)
        if (x.second.hw && !(x.first >= (uintptr_t)arena && x.first < (uintptr_t)arena + ARENA)) r[x.first] = *(unsigned char *)x.first;
}
static void rollback() {
    for (auto &x : shadow)
        if (x.second.hw) *(unsigned char *)x.first = x.second.old;
}

static void region(void (*fn)(void *), void *data, unsigned n) {
    if (inregion || !active) {                       // nested or uncontrolled: a team of one
        int t = T, s = self;
        if (!inregion) { T = 1; self = 0; fn(data); T = t; self = s; return; }
        // a nested team of one within a coroutine: the code asks for its number
        static int nest; nest++;
        fail(4, "nested parallel regions%.0lu%.0lu%.0lu", 0, 0, 0);
        nest--;
        fn(data);
        return;
    }
    T = n ? (int)n : cfgT;
    if (T > MAXT) T = MAXT;
    rfn = fn; rdata = data;
    if (!arena) arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < T; i++)
        if (!th[i].stack) th[i].stack = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    n_regions++;
    path.clear();
    std::unordered_map<uintptr_t, unsigned char> ref, got;
    long runs = 0;
    for (;;) {
        run_once();
        runs++;
        n_cells += shadow.size();
        collect(runs == 1 ? ref : got);
        if (runs > 1 && compare && got != ref) fail(2, "what a team of %lu threads computes depends on their schedule (schedule %lu)%.0lu", T, runs, 0);
        while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
        if (path.empty() || kind) break;
        if (runs >= cap) { n_truncated++; break; }
        path.back().first++;
        rollback();
    }
    shadow.clear();
    T = 1; self = 0;
}

extern "C" {
void mc_config(int threads, long limit) { cfgT = threads; cap = limit; active = true; kind = 0; message[0] = 0; }
void mc_off() { active = false; }
void mc_compare(int yes) { compare = yes; }       // do all schedules have to leave the same memory?
int mc_result(char *buf, size_t n, ull *counts) {
    strncpy(buf, message, n);
    ull c[6] = {n_regions, n_schedules, n_sync, n_access, n_truncated, n_cells};
    memcpy(counts, c, sizeof c);
    n_regions = n_schedules = n_sync = n_access = n_truncated = n_cells = 0;
    return kind;
}

// ---------------------------------------------------------------- OpenMP
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { region(fn, data, n); }
void GOMP_barrier() { if (inregion) { n_sync++; yield_as(BARRIER, 0); } }
static char dflt, atom;
void GOMP_critical_start() { acquire(&dflt); }
void GOMP_critical_end() { release(&dflt); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start() { acquire(&atom); }
void GOMP_atomic_end() { release(&atom); }

static Share *share() {
    Thread &t = th[self];
    while ((int)shares.size() <= t.ws) shares.push_back(new Share());
    return t.cur = shares[t.ws++];
}
static bool next_chunk(ull *a, ull *b) {
    sync_point();
    Share *s = th[self].cur;
    if (s->up ? (long long)s->next >= (long long)s->end : (long long)s->next <= (long long)s->end) return false;
    *a = s->next;
    ull stop = s->next + s->incr * s->chunk;
    if (s->up ? (long long)stop > (long long)s->end : (long long)stop < (long long)s->end) stop = s->end;
    *b = s->next = stop;
    return true;
}
static Share solo;
static bool start_loop(bool up, ull start, ull end, ull incr, ull chunk, ull *a, ull *b) {
    if (!inregion) {                                 // outside of a team: everything at once
        bool some = up ? (long long)start < (long long)end : (long long)start > (long long)end;
        *a = start; *b = end; solo.next = end;
        return some;
    }
    Share *s = share();
    if (!s->init) { s->init = true; s->next = start; s->end = end; s->incr = incr; s->chunk = chunk ? chunk : 1; s->up = up; }
    return next_chunk(a, b);
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return start_loop(i > 0, s, e, i, c, (ull *)a, (ull *)b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return inregion && next_chunk((ull *)a, (ull *)b); } \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return start_loop(up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return inregion && next_chunk(a, b); }
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return start_loop(i > 0, s, e, i, 1, (ull *)a, (ull *)b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return inregion && next_chunk((ull *)a, (ull *)b); } \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return start_loop(up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return inregion && next_chunk(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
struct PL { void (*fn)(void *); void *data; long s, e, i, c; };
static PL pl;
static void pl_entry(void *) {
    share();
    Share *s = th[self].cur;
    if (!s->init) { s->init = true; s->next = pl.s; s->end = pl.e; s->incr = pl.i; s->chunk = pl.c ? pl.c : 1; s->up = pl.i > 0; }
    pl.fn(pl.data);
}
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c) {
    if (!active || inregion) { fail(4, "parallel loop outside of control%.0lu%.0lu%.0lu", 0, 0, 0); }
    pl.fn = fn; pl.data = data; pl.s = s; pl.e = e; pl.i = i; pl.c = c;
    bool was = active;
    if (!was) mc_config(1, 1);
    region(pl_entry, 0, n);
    active = was;
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { parallel_loop(fn, d, n, s, e, i, c); }
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { parallel_loop(fn, d, n, s, e, i, 1); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
bool GOMP_single_start() {
    if (!inregion) return true;
    Share *s = share();
    sync_point();
    return !s->taken++;
}
unsigned GOMP_sections_next() {
    if (!inregion) return 0;
    sync_point();
    Share *s = th[self].cur;
    return s->taken < s->count ? ++s->taken : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    Share *s = share();
    s->count = n;
    return GOMP_sections_next();
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

int omp_get_thread_num() { return inregion ? self : 0; }
int omp_get_num_threads() { return inregion ? T : 1; }
int omp_get_max_threads() { return cfgT; }
int omp_get_num_procs() { return cfgT; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return inregion; }
int omp_get_level() { return inregion; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return 0.0; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *l) { memset(l, 0, 4); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { acquire(l); }
void omp_unset_lock(void *l) { release(l); }

// ---------------------------------------------------------------- memory accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { access(p, n, false, false); } \
void __tsan_write##n(void *p) { access(p, n, true, false); } \
void __tsan_unaligned_read##n(void *p) { access(p, n, false, false); } \
void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); } \
void __tsan_volatile_read##n(void *p) { access(p, n, false, false); } \
void __tsan_volatile_write##n(void *p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false); }
void __tsan_vptr_update(void **p, void *) { access(p, sizeof *p, true, false); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static void a_begin(volatile void *p, size_t n, bool w, int mo) {
    if (!inregion) return;
    sync_point();
    access((const void *)p, n, w, true);
    VC &v = atoms[(uintptr_t)p];
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5) join(th[self].vc, v);
    if (w && mo >= 3) v = th[self].vc;
    th[self].vc.c[self]++;
}
#define AT(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { a_begin((void *)p, sizeof(ty), false, mo); return *p; } \
void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); *p = v; } \
ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = v; return o; } \
ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = o + v; return o; } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = o - v; return o; } \
ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = o & v; return o; } \
ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = o | v; return o; } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = o ^ v; return o; } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fmo) { a_begin(p, sizeof(ty), true, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fmo) { a_begin(p, sizeof(ty), true, mo); ty o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, ull)

// What the compiler emits where it does not go through the calls above (-fno-inline-atomics).
#define AX(n, bits, ty) \
bool mc_cas_##n(volatile ty *p, ty *e, ty v, int mo, int fmo) __asm__("__atomic_compare_exchange_" #n); \
bool mc_cas_##n(volatile ty *p, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
ty mc_load_##n(const volatile ty *p, int mo) __asm__("__atomic_load_" #n); \
ty mc_load_##n(const volatile ty *p, int mo) { return __tsan_atomic##bits##_load(p, mo); } \
void mc_store_##n(volatile ty *p, ty v, int mo) __asm__("__atomic_store_" #n); \
void mc_store_##n(volatile ty *p, ty v, int mo) { __tsan_atomic##bits##_store(p, v, mo); } \
ty mc_exchange_##n(volatile ty *p, ty v, int mo) __asm__("__atomic_exchange_" #n); \
ty mc_exchange_##n(volatile ty *p, ty v, int mo) { return __tsan_atomic##bits##_exchange(p, v, mo); } \
ty mc_vcas_##n(volatile ty *p, ty e, ty v) __asm__("__sync_val_compare_and_swap_" #n); \
ty mc_vcas_##n(volatile ty *p, ty e, ty v) { return __tsan_atomic##bits##_compare_exchange_val(p, e, v, 5, 5); } \
bool mc_bcas_##n(volatile ty *p, ty e, ty v) __asm__("__sync_bool_compare_and_swap_" #n); \
bool mc_bcas_##n(volatile ty *p, ty e, ty v) { return __tsan_atomic##bits##_compare_exchange_val(p, e, v, 5, 5) == e; } \
AF(n, bits, ty, add, +) AF(n, bits, ty, sub, -) AF(n, bits, ty, and, &) AF(n, bits, ty, or, |) AF(n, bits, ty, xor, ^)
#define AF(n, bits, ty, op, sym) \
ty mc_f##op##_##n(volatile ty *p, ty v, int mo) __asm__("__atomic_fetch_" #op "_" #n); \
ty mc_f##op##_##n(volatile ty *p, ty v, int mo) { return __tsan_atomic##bits##_fetch_##op(p, v, mo); } \
ty mc_af##op##_##n(volatile ty *p, ty v, int mo) __asm__("__atomic_" #op "_fetch_" #n); \
ty mc_af##op##_##n(volatile ty *p, ty v, int mo) { return __tsan_atomic##bits##_fetch_##op(p, v, mo) sym v; } \
ty mc_s##op##_##n(volatile ty *p, ty v) __asm__("__sync_fetch_and_" #op "_" #n); \
ty mc_s##op##_##n(volatile ty *p, ty v) { return __tsan_atomic##bits##_fetch_##op(p, v, 5); } \
ty mc_sa##op##_##n(volatile ty *p, ty v) __asm__("__sync_" #op "_and_fetch_" #n); \
ty mc_sa##op##_##n(volatile ty *p, ty v) { return __tsan_atomic##bits##_fetch_##op(p, v, 5) sym v; }
AX(1, 8, unsigned char) AX(2, 16, unsigned short) AX(4, 32, unsigned int) AX(8, 64, ull)

// ---------------------------------------------------------------- memory management and block operations of the kernels
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
static void *arena_alloc(size_t n) {
    arena_at = (char *)(((uintptr_t)arena_at + 31) & ~(uintptr_t)15);
    *(size_t *)(arena_at) = n;
    void *p = arena_at + 16;
    arena_at = (char *)p + n;
    if (arena_at > arena + ARENA) abort();
    return p;
}
static bool in_arena(void *p) { return arena && (char *)p >= arena && (char *)p < arena + ARENA; }
void *__wrap_malloc(size_t n) { return inregion ? arena_alloc(n) : malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if (!inregion) return calloc(n, m); void *p = arena_alloc(n * m); memset(p, 0, n * m); return p; }
void __wrap_free(void *p) { if (!in_arena(p) && !inregion) free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!inregion) return realloc(p, n);
    void *q = arena_alloc(n);
    if (p) { size_t m = in_arena(p) ? ((size_t *)p)[-2] : malloc_usable_size(p); memcpy(q, p, m < n ? m : n); }
    return q;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
void *__wrap__Znwm(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) abort(); return p; }
void *__wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void __wrap__ZdlPv(void *p) { __wrap_free(p); }
void __wrap__ZdlPvm(void *p, size_t) { __wrap_free(p); }
void __wrap__ZdaPv(void *p) { __wrap_free(p); }
void __wrap__ZdaPvm(void *p, size_t) { __wrap_free(p); }
}
