// A stand-in for the OpenMP and thread sanitizer run-times.  Code compiled with -fopenmp -fsanitize=thread and linked with
// this runs the threads of every parallel region as coroutines of one real thread, in an order given by PAR_SEED, and logs
// which thread read and wrote which memory between two barriers.  It knows nothing about MPS-Basic and judges nothing.
//   PAR_T     number of threads of a region       PAR_SEED  order in which threads run (0: 0, 1, 2, ...)
//   PAR_LOG   file for the footprints (ndjson)
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <malloc.h>
#include <new>
#include <random>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>

namespace {

template <class T> struct Raw { // allocator that bypasses the hooks below
    using value_type = T;
    Raw() = default;
    template <class U> Raw(const Raw<U>&) {}
    T* allocate(size_t n);
    void deallocate(T* p, size_t);
    template <class U> bool operator==(const Raw<U>&) const { return true; }
    template <class U> bool operator!=(const Raw<U>&) const { return false; }
};
} // namespace
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
namespace {
template <class T> T* Raw<T>::allocate(size_t n) { return (T*) __real_malloc(n * sizeof(T)); }
template <class T> void Raw<T>::deallocate(T* p, size_t) { __real_free(p); }
template <class T> using Vec = std::vector<T, Raw<T>>;

// access kinds: bit 0 write, bit 1 atomic; lock: 0 none, else a number per critical section
struct Acc { int tid; int kind; int lock; uint8_t mask; };
typedef std::unordered_map<uintptr_t, Vec<Acc>, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Raw<std::pair<const uintptr_t, Vec<Acc>>>> Log;

struct Thread {
    ucontext_t ctx;
    char* stack;
    bool done, barrier, last;
    long lo, hi; // for sections and the like
};

const size_t STACK = 256 * 1024;
Log* footprint;
Vec<char*>* stacks;
Vec<Thread>* threads;
Vec<void*>* garbage;
Vec<int>* order;
ucontext_t scheduler;
int current = -1, nthreads = 1, lockHeld = 0, phase = 0;
bool logging = false;
void (*regionFn)(void*);
void* regionData;
FILE* out;
unsigned regionNo = 0;

// work sharing: one loop at a time per thread, numbered
struct Loop { bool up = true; long start = 0, next = 0, end = 0, incr = 1, chunk = 1; bool init = false; };
std::map<int, Loop>* loops;
Vec<int>* loopNo;
std::map<int, bool>* singles;
Vec<int>* singleNo;
std::map<int, int>* sections;
Vec<int>* sectionNo;

inline void note(const void* p, size_t n, int kind) {
    if (!logging || n == 0) return;
    uintptr_t a = (uintptr_t) p;
    Thread& t = (*threads)[current];
    if (a >= (uintptr_t) t.stack && a < (uintptr_t) t.stack + STACK) return;
    logging = false; // (what follows uses the hooked functions, too)
    while (n > 0) {
        uintptr_t w = a >> 3;
        unsigned off = a & 7, len = n < 8 - off ? n : 8 - off;
        uint8_t m = (uint8_t) (((1u << len) - 1) << off);
        Vec<Acc>& v = (*footprint)[w];
        bool have = false;
        for (auto it = v.rbegin(); it != v.rend() && !have; ++it) {
            if (it->tid != current) break;
            if (it->kind == kind && it->lock == lockHeld) { it->mask |= m; have = true; }
        }
        if (!have) v.push_back(Acc{current, kind, lockHeld, m});
        a += len;
        n -= len;
    }
    logging = true;
}

void flush() {
    bool was = logging;
    logging = false;
    if (out) {
        // bytes with the same accesses form a class
        typedef Vec<int> Pattern;
        std::map<Pattern, long, std::less<Pattern>, Raw<std::pair<const Pattern, long>>> classes;
        long readOnly = 0;
        for (auto& e : *footprint) {
            for (int b = 0; b < 8; b++) {
                Vec<Pattern> l;
                bool written = false;
                for (auto& a : e.second)
                    if (a.mask >> b & 1) {
                        Pattern q{a.tid, a.kind, a.lock};
                        if (std::find(l.begin(), l.end(), q) == l.end()) l.push_back(q);
                        written |= a.kind & 1;
                    }
                if (l.empty()) continue;
                if (!written) { readOnly++; continue; }
                std::sort(l.begin(), l.end());
                Pattern key;
                for (auto& q : l) key.insert(key.end(), q.begin(), q.end());
                classes[key]++;
            }
        }
        fprintf(out, "{\"region\":%u,\"fn\":\"%lx\",\"phase\":%d,\"threads\":%d,\"readonly\":%ld,\"cells\":[", regionNo, (unsigned long) regionFn, phase, nthreads, readOnly);
        const char* sep = "";
        for (auto& c : classes) {
            fprintf(out, "%s{\"n\":%ld,\"acc\":[", sep, c.second);
            for (size_t i = 0; i + 2 < c.first.size(); i += 3)
                fprintf(out, "%s{\"t\":%d,\"w\":%s,\"a\":%s,\"l\":%d}", i ? "," : "", c.first[i], c.first[i + 1] & 1 ? "true" : "false",
                        c.first[i + 1] & 2 ? "true" : "false", c.first[i + 2]);
            fprintf(out, "]}");
            sep = ",";
        }
        fprintf(out, "]}\n");
        fflush(out);
    }
    footprint->clear();
    logging = was;
}

template <class T> void fresh(T*& p) {
    void* m = __real_malloc(sizeof(T));
    p = new (m) T();
}

void init() {
    static bool done = false;
    if (done) return;
    done = true;
    fresh(footprint); fresh(stacks); fresh(threads); fresh(garbage); fresh(order); fresh(loops); fresh(loopNo);
    fresh(singles); fresh(singleNo); fresh(sections); fresh(sectionNo);
    if (getenv("PAR_T")) nthreads = atoi(getenv("PAR_T"));
    if (getenv("PAR_LOG")) out = fopen(getenv("PAR_LOG"), "w");
}

void resume(int t) {
    current = t;
    logging = true;
    swapcontext(&scheduler, &(*threads)[t].ctx);
    logging = false;
    current = -1;
}

void pause() {
    bool was = logging;
    int t = current;
    logging = false;
    swapcontext(&(*threads)[t].ctx, &scheduler);
    current = t;
    logging = was;
}

void body() {
    regionFn(regionData);
    logging = false;
    (*threads)[current].done = true;
    swapcontext(&(*threads)[current].ctx, &scheduler);
}

void region(void (*fn)(void*), void* data, unsigned n) {
    init();
    if (current >= 0) { fn(data); return; } // nested: a team of one
    int keep = nthreads;
    if (n > 0) nthreads = n;
    regionFn = fn;
    regionData = data;
    regionNo++;
    phase = 0;
    while ((int) stacks->size() < nthreads)
        stacks->push_back((char*) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    threads->assign(nthreads, Thread());
    loops->clear(); singles->clear(); sections->clear();
    loopNo->assign(nthreads, 0); singleNo->assign(nthreads, 0); sectionNo->assign(nthreads, 0);
    order->resize(nthreads);
    for (int i = 0; i < nthreads; i++) (*order)[i] = i;
    long seed = getenv("PAR_SEED") ? atol(getenv("PAR_SEED")) : 0;
    if (seed == 1) std::reverse(order->begin(), order->end());
    else if (seed) {
        std::mt19937 g(seed * 7919 + regionNo);
        for (int i = nthreads - 1; i > 0; i--) std::swap((*order)[i], (*order)[g() % (i + 1)]);
    }
    for (int i = 0; i < nthreads; i++) {
        Thread& t = (*threads)[i];
        t.stack = (*stacks)[i];
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = &scheduler;
        makecontext(&t.ctx, body, 0);
    }
    for (;;) {
        bool ran = false, waiting = false;
        for (int t : *order) {
            if ((*threads)[t].done) continue;
            if ((*threads)[t].barrier) { waiting = true; continue; }
            resume(t);
            ran = true;
        }
        if (ran) continue;
        flush();
        phase++;
        if (!waiting) break;
        for (auto& t : *threads) t.barrier = false;
    }
    for (void* p : *garbage) __real_free(p);
    garbage->clear();
    nthreads = keep;
}

void barrier() {
    if (current < 0) return;
    (*threads)[current].barrier = true;
    pause();
}

bool loopNext(long* s, long* e) {
    if (current >= 0) pause();
    Loop& l = (*loops)[current < 0 ? 0 : (*loopNo)[current]];
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    long n = l.next + l.chunk * l.incr;
    if (l.incr > 0 ? n > l.end : n < l.end) n = l.end;
    *e = n;
    l.next = n;
    return true;
}

bool loopStart(long start, long end, long incr, long chunk, long* s, long* e) {
    int no = current < 0 ? 0 : ++(*loopNo)[current];
    Loop& l = (*loops)[no];
    if (!l.init || current < 0) {
        l.init = true;
        l.next = start; l.end = end; l.incr = incr;
        l.chunk = chunk > 0 ? chunk : 1;
    }
    return loopNext(s, e);
}

void lock(int id) { lockHeld = id; }

int lockId(const void* p) {
    static std::map<const void*, int>* ids = nullptr;
    bool was = logging;
    logging = false;
    if (!ids) fresh(ids);
    int& i = (*ids)[p];
    if (!i) i = ids->size() + 2;
    logging = was;
    return i;
}

} // namespace

// ---- memory -------------------------------------------------------------------------------------------------------------
extern "C" {
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void __wrap_free(void* p) {
    if (logging && p) {
        note(p, malloc_usable_size(p), 1); // nobody else may touch it any more
        logging = false;
        garbage->push_back(p);
        logging = true;
    } else __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!logging || !p) return __real_realloc(p, n);
    void* q = __real_malloc(n);
    size_t m = malloc_usable_size(p);
    __real_memcpy(q, p, m < n ? m : n);
    __wrap_free(p);
    return q;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { note(s, n, 0); note(d, n, 1); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { note(s, n, 0); note(d, n, 1); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { note(d, n, 1); return __real_memset(d, c, n); }
}
static void* get(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void* getAligned(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t) a, (n + (size_t) a - 1) / (size_t) a * (size_t) a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return getAligned(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return getAligned(n, a); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

extern "C" {
// ---- accesses -----------------------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { note(p, 8, 1); }
void __tsan_vptr_read(void** p) { note(p, 8, 0); }
#define RW(n) \
    void __tsan_read##n(void* p) { note(p, n, 0); } \
    void __tsan_write##n(void* p) { note(p, n, 1); } \
    void __tsan_unaligned_read##n(void* p) { note(p, n, 0); } \
    void __tsan_unaligned_write##n(void* p) { note(p, n, 1); } \
    void __tsan_volatile_read##n(void* p) { note(p, n, 0); } \
    void __tsan_volatile_write##n(void* p) { note(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { note(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { note(p, n, 1); }
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { note((void*) p, sizeof(T), 2); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { note((void*) p, sizeof(T), 3); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { \
        note((void*) p, sizeof(T), 3); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, a, b); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { \
        note((void*) p, sizeof(T), 3); T o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP -------------------------------------------------------------------------------------------------------------
int omp_get_num_threads() { return current < 0 ? 1 : nthreads; }
int omp_get_thread_num() { return current < 0 ? 0 : current; }
int omp_get_max_threads() { init(); return nthreads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return current >= 0; }
int omp_get_level() { return current >= 0; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 1024; }
void omp_set_num_threads(int) {} // PAR_T decides
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { lock(lockId(p)); }
void omp_unset_lock(void*) { lock(0); }
int omp_test_lock(void* p) { lock(lockId(p)); return 1; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn, data, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { lock(1); }
void GOMP_critical_end() { lock(0); }
void GOMP_critical_name_start(void** p) { lock(lockId(p)); }
void GOMP_critical_name_end(void**) { lock(0); }
void GOMP_atomic_start() { lock(2); }
void GOMP_atomic_end() { lock(0); }
bool GOMP_single_start() {
    if (current < 0) return true;
    int no = ++(*singleNo)[current];
    bool& taken = (*singles)[no];
    bool mine = !taken;
    taken = true;
    return mine;
}
unsigned GOMP_sections_next() {
    if (current >= 0) pause();
    int no = current < 0 ? 0 : (*sectionNo)[current];
    int& left = (*sections)[no];   // counts down from -n
    if (left <= 0) return 0;
    unsigned n = left & 0xffff, total = left >> 16;
    if (n > total) return 0;
    left++;
    return n;
}
unsigned GOMP_sections_start(unsigned count) {
    int no = current < 0 ? 0 : ++(*sectionNo)[current];
    int& left = (*sections)[no];
    if (left == 0) left = (int) (count << 16 | 1);
    return GOMP_sections_next();
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned, unsigned) { region(fn, data, n); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
typedef unsigned long long ull;
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* is, long* ie) { return loopStart(s, e, i, c, is, ie); } \
    bool GOMP_loop_##kind##_next(long* is, long* ie) { return loopNext(is, ie); } \
    bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return loopStart(s, e, i, c, (long*) is, (long*) ie); } \
    bool GOMP_loop_ull_##kind##_next(ull* is, ull* ie) { return loopNext((long*) is, (long*) ie); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* is, long* ie) { return loopStart(s, e, i, 1, is, ie); } \
    bool GOMP_loop_##kind##_next(long* is, long* ie) { return loopNext(is, ie); } \
    bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull* is, ull* ie) { return loopStart(s, e, i, 1, (long*) is, (long*) ie); } \
    bool GOMP_loop_ull_##kind##_next(ull* is, ull* ie) { return loopNext((long*) is, (long*) ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
}
// combined constructs: the loop bounds come with the region, and its body calls only GOMP_loop_*_next
static long cs, ce, ci, cc;
static void (*cfn)(void*);
static void combined(void* d) {
    int no = ++(*loopNo)[current];
    Loop& l = (*loops)[no];
    if (!l.init) { l.init = true; l.next = cs; l.end = ce; l.incr = ci; l.chunk = cc > 0 ? cc : 1; }
    cfn(d);
}
extern "C" {
#define PLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
        cs = s; ce = e; ci = i; cc = c; cfn = fn; region(combined, d, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
        cs = s; ce = e; ci = i; cc = 1; cfn = fn; region(combined, d, n); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
}
