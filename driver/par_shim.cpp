// Stands in for the OpenMP runtime and for the run time of -fsanitize=thread.
//
// A parallel region is executed by PAR_THREADS threads of which only one runs at a time, in the order PAR_ORDER; every access
// of the instrumented code is recorded.  par_take() gives what was recorded since it was last called: for every part of a
// region between barriers, the groups of bytes that were read and written by the same threads.  Memory released inside a
// region is not reused before the region ends.  Accesses to the running thread's own stack and thread-local variables are its own.
#include <pthread.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace {
struct Cell { uintptr_t a; uint64_t r, w; };
Cell* table = nullptr;
size_t cap = 0, used = 0;
std::atomic<bool> recording{false};
int threads = 1;
thread_local int tid = 0, team = 1, locked = 0;
thread_local bool busy = false;
thread_local uintptr_t stackLo = 0, stackHi = 0;
void* graveyard = nullptr;  // linked through the released blocks
std::string* report = nullptr;
int depth = 0;  // only the running thread touches it

size_t slot(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
    while (table[i].a && table[i].a != a) i = (i + 1) & (cap - 1);
    return i;
}
void grow() {
    Cell* old = table;
    size_t n = cap;
    cap = cap ? cap * 2 : 1 << 14;
    table = static_cast<Cell*>(std::calloc(cap, sizeof(Cell)));
    for (size_t i = 0; i < n; ++i) if (old[i].a) table[slot(old[i].a)] = old[i];
    std::free(old);
}
void access(uintptr_t a, size_t n, bool write) {
    if (!recording.load(std::memory_order_relaxed) || busy || locked) return;
    if (a >= stackLo && a < stackHi) return;
    busy = true;
    for (size_t k = 0; k < n; ++k) {
        if (2 * (used + 1) > cap) grow();
        size_t i = slot(a + k);
        if (!table[i].a) { table[i].a = a + k; ++used; }
        (write ? table[i].w : table[i].r) |= 1ull << tid;
    }
    busy = false;
}
void ownStack() {
    pthread_attr_t at;
    void* p = nullptr;
    size_t n = 0;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &p, &n); pthread_attr_destroy(&at); }
    stackLo = reinterpret_cast<uintptr_t>(p);
    stackHi = stackLo + n;
}
std::string ids(uint64_t m) {
    std::string s = "[";
    for (int i = 0; i < 64; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i);
    return s + "]";
}
// What the phase that ends now has touched
void flush() {
    busy = true;
    std::map<std::pair<uint64_t, uint64_t>, size_t> groups;
    for (size_t i = 0; i < cap; ++i) if (table[i].a) ++groups[{table[i].r, table[i].w}];
    if (!report) report = new std::string;
    std::string s;
    for (auto& g : groups) s += (s.empty() ? "" : ",") + ("{\"r\":" + ids(g.first.first) + ",\"w\":" + ids(g.first.second) + ",\"n\":" + std::to_string(g.second) + "}");
    *report += std::string(report->empty() ? "" : ",") + "{\"th\":" + std::to_string(threads) + ",\"gs\":[" + s + "]}";
    if (cap) std::memset(table, 0, cap * sizeof(Cell));
    used = 0;
    busy = false;
}

// The threads, kept from one region to the next; the lock is only for handing over the turn
struct Worker {
    std::condition_variable cv;
    bool mine = false, done = true;
    std::thread th;
};
std::mutex* turnMutex = nullptr;
std::condition_variable* mainCv = nullptr;
std::vector<Worker*>* workers = nullptr;
bool mainTurn = true;
void (*job)(void*) = nullptr;
void* jobData = nullptr;
int jobTeam = 1;
struct Loop { long next = 0, start = 0, end = 0, incr = 1, chunk = 1; bool active = false; };
thread_local Loop loop;
thread_local int singles = 0;
int singlesDone = 0;

int wanted(unsigned n) {
    int t = 1;
    if (const char* e = std::getenv("PAR_THREADS")) t = std::atoi(e);
    if (n) t = std::min<int>(t, n);
    return std::max(1, std::min(64, t));
}
std::vector<int> order(int n) {
    std::vector<int> o(n);
    for (int i = 0; i < n; ++i) o[i] = i;
    const char* e = std::getenv("PAR_ORDER");
    std::string how = e ? e : "up";
    if (how == "down") std::reverse(o.begin(), o.end());
    else if (how != "up") {
        static uint64_t s = std::strtoull(how.c_str(), nullptr, 10) * 2 + 1;
        for (int i = n - 1; i > 0; --i) { s = s * 6364136223846793005ull + 1442695040888963407ull; std::swap(o[i], o[(s >> 33) % (i + 1)]); }
    }
    return o;
}
void giveBack(Worker& w, bool last) {  // called by the running thread
    std::unique_lock<std::mutex> l(*turnMutex);
    w.mine = false;
    w.done = last;
    mainTurn = true;
    mainCv->notify_one();
    w.cv.wait(l, [&] { return w.mine; });
}
void yieldTurn() { giveBack(*(*workers)[tid], false); }
void serve(Worker* w, int i) {
    busy = true;
    ownStack();
    { std::unique_lock<std::mutex> l(*turnMutex); w->cv.wait(l, [&] { return w->mine; }); }
    for (;;) {
        tid = i;
        team = jobTeam;
        singles = 0;
        locked = 0;
        busy = false;
        job(jobData);
        busy = true;
        giveBack(*w, true);
    }
}
void parallel(void (*fn)(void*), void* data, unsigned n) {
    int t = wanted(n);
    if (depth || t == 1) {  // nested or alone
        int oldTid = tid, oldTeam = team;
        tid = depth ? tid : 0;
        team = 1;
        fn(data);
        tid = oldTid;
        team = oldTeam;
        return;
    }
    busy = true;
    if (!workers) {
        turnMutex = new std::mutex;
        mainCv = new std::condition_variable;
        workers = new std::vector<Worker*>;
    }
    while (static_cast<int>(workers->size()) < t) {
        Worker* w = new Worker;
        int i = static_cast<int>(workers->size());
        workers->push_back(w);
        w->th = std::thread(serve, w, i);
        w->th.detach();
    }
    for (int i = 0; i < t; ++i) (*workers)[i]->done = false;
    threads = t;
    job = fn;
    jobData = data;
    jobTeam = t;
    ++depth;
    singlesDone = 0;
    auto o = order(t);
    for (bool more = true; more;) {
        recording = true;
        for (int i : o) {
            Worker& w = *(*workers)[i];
            if (w.done) continue;
            std::unique_lock<std::mutex> l(*turnMutex);
            mainTurn = false;
            w.mine = true;
            w.cv.notify_one();
            mainCv->wait(l, [] { return mainTurn; });
        }
        recording = false;
        flush();
        busy = true;
        more = false;
        for (int i : o) more = more || !(*workers)[i]->done;
    }
    --depth;
    busy = false;
    while (graveyard) {
        void* p = graveyard;
        graveyard = *static_cast<void**>(p);
        std::free(p);
    }
}
bool nextChunk(long* a, long* b) {  // iteration blocks are dealt out in turn
    Loop& l = loop;
    long n = l.incr > 0 ? (l.end - l.start + l.incr - 1) / l.incr : (l.start - l.end - l.incr - 1) / -l.incr;
    long first = l.next * l.chunk;
    if (first >= n) return false;
    long last = std::min(n, first + l.chunk);
    *a = l.start + first * l.incr;
    *b = l.start + last * l.incr;
    l.next += team;
    return true;
}
bool startLoop(long s, long e, long i, long c, long* a, long* b) {
    loop = {tid, s, e, i, c > 0 ? c : 1, true};
    return nextChunk(a, b);
}
void release(void* p) {
    if (p && depth) {  // only one thread runs
        *static_cast<void**>(p) = graveyard;
        graveyard = p;
    } else std::free(p);
}
}  // namespace

void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

extern "C" {
const char* par_take() {
    static std::string last;
    last = report ? *report : std::string();
    if (report) report->clear();
    return last.c_str();
}
int omp_get_num_threads() { return team; }
int omp_get_thread_num() { return team == 1 ? 0 : tid; }
int omp_get_max_threads() { return depth ? 1 : wanted(0); }
int omp_in_parallel() { return depth > 0; }
int omp_get_num_procs() { return 4; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { if (team > 1) { bool w = busy; busy = true; yieldTurn(); busy = w; } }
void GOMP_critical_start() { ++locked; }
void GOMP_critical_end() { --locked; }
void GOMP_critical_name_start(void**) { ++locked; }
void GOMP_critical_name_end(void**) { --locked; }
void GOMP_atomic_start() { ++locked; }
void GOMP_atomic_end() { --locked; }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
bool GOMP_single_start() { if (team == 1) return true; if (singles++ == singlesDone) { ++singlesDone; return true; } return false; }
#define LOOPS(KIND) \
    bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* a, long* b) { return startLoop(s, e, i, c, a, b); } \
    bool GOMP_loop_##KIND##_next(long* a, long* b) { return nextChunk(a, b); } \
    bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { (void)up; return startLoop(s, e, i, c, reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
    bool GOMP_loop_ull_##KIND##_next(unsigned long long* a, unsigned long long* b) { return nextChunk(reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
    struct PL_##KIND { void (*fn)(void*); void* data; long s, e, i, c; }; \
    void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { \
        PL_##KIND p{fn, data, s, e, i, c}; \
        parallel([](void* q) { auto p = static_cast<PL_##KIND*>(q); loop = {tid, p->s, p->e, p->i, p->c > 0 ? p->c : 1, true}; if (team == 1) loop.next = 0; p->fn(p->data); }, &p, n); \
    }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false); } \
    void __tsan_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true); } \
    void __tsan_unaligned_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false); } \
    void __tsan_unaligned_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true); } \
    void __tsan_volatile_read##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, false); } \
    void __tsan_volatile_write##N(void* p) { access(reinterpret_cast<uintptr_t>(p), N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(reinterpret_cast<uintptr_t>(p), n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(reinterpret_cast<uintptr_t>(p), n, true); }
void __tsan_vptr_update(void** p, void*) { access(reinterpret_cast<uintptr_t>(p), 8, true); }
void __tsan_vptr_read(void** p) { access(reinterpret_cast<uintptr_t>(p), 8, false); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int) { return __atomic_load_n(p, 5); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, true, 5, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Initialisation of local statics and mutexes order the accesses made under them
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r) ++locked; return r; }
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); --locked; }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); ++locked; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { --locked; return __real_pthread_mutex_unlock(m); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(reinterpret_cast<uintptr_t>(s), n, false); access(reinterpret_cast<uintptr_t>(d), n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(reinterpret_cast<uintptr_t>(s), n, false); access(reinterpret_cast<uintptr_t>(d), n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(reinterpret_cast<uintptr_t>(d), n, true); return __real_memset(d, c, n); }
}
