#include "par.hpp"
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <pthread.h>
#include <unistd.h>
#include <sys/time.h>
#include <unordered_map>

namespace par {
namespace {
struct Lock { int owner = -1; };
struct Use { int thread, epoch, kind, lockset; uint64_t first, last; };
struct Uses { std::vector<Use> v; };
struct Th {
    int num = 0;
    bool waiting = false, done = false;
    void *lock = nullptr;            // waiting for this lock
    int epoch = 0, singles = 0, loops = 0;
    uint64_t accesses = 0;
    std::vector<void *> held;
    int lockset = 0;
    uint64_t nextstop = ~0ull;
    char *lo = nullptr, *hi = nullptr;
    pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
};
struct Loop { long next, end, incr, chunk; bool up; };
struct Team {
    std::vector<Th *> th;
    int run = 0;
    std::map<void *, Lock> locks;
    int singles = 0;
    std::vector<Loop> loops;
    void (*fn)(void *);
    void *data;
    bool record = false;
    std::unordered_map<uintptr_t, Uses> uses;
    std::vector<std::vector<void *>> locksets;
    pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
    int region = 0;
};
Setup setup;
Result result;
size_t pos;
int forced = 1;                       // omp_set_num_threads
Team *team;
__thread Th *self;
__thread bool busy;
struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };

int choose(int n)
{
    result.choices++;
    if (n <= 1 || setup.schedule.empty()) return 0;
    int c = setup.schedule[pos++ % setup.schedule.size()];
    return c % n;
}
bool runnable(Th *t)
{
    if (t->done || t->waiting) return false;
    if (t->lock && team->locks[t->lock].owner >= 0) return false;
    return true;
}
// hand the baton on; other: not to the thread that has it, if there is another.
// mutex held
void next(bool other)
{
    std::vector<Th *> c;
    // the present thread first, so that an empty schedule goes on with it
    int n = team->th.size();
    for (int k = 0; k < n; k++) {
        Th *t = team->th[(team->run + k) % n];
        if (runnable(t) && !(other && t->num == team->run)) c.push_back(t);
    }
    if (c.empty() && other && runnable(team->th[team->run])) c.push_back(team->th[team->run]);
    if (c.empty()) {
        bool all = true;
        for (auto *t : team->th) all = all && t->done;
        if (!all) { fprintf(stderr, "deadlock in a parallel region\n"); _exit(77); }
        return;
    }
    Th *t = nullptr;
    if (setup.stop.region == team->region)
        for (auto *k : c) if ((!result.fired && k->num == setup.stop.a) || (other && k->num == setup.stop.b)) t = k;
    if (!t) t = c[choose(c.size())];
    if (t->num != team->run) result.switches++;
    team->run = t->num;
    pthread_cond_signal(&t->cv);
}
void wait_turn(Th *t) { while (team->run != t->num || !runnable(t)) pthread_cond_wait(&t->cv, &team->mx); }
void yield(bool other = false)
{
    if (!self) return;
    Busy b;
    pthread_mutex_lock(&team->mx);
    next(other);
    wait_turn(self);
    pthread_mutex_unlock(&team->mx);
}
void finish_epoch(Th *t) { t->epoch++; }
// mutex held: everybody who is not done waits
void release_if_all()
{
    for (auto *t : team->th) if (!t->done && !t->waiting) return;
    for (auto *t : team->th) { t->waiting = false; finish_epoch(t); }
}
void barrier()
{
    if (!self) return;
    Busy b;
    pthread_mutex_lock(&team->mx);
    self->waiting = true;
    release_if_all();
    next(false);
    wait_turn(self);
    pthread_mutex_unlock(&team->mx);
}
int lockset_of(Th *t)
{
    auto h = t->held;
    std::sort(h.begin(), h.end());
    for (size_t i = 0; i < team->locksets.size(); i++) if (team->locksets[i] == h) return i;
    team->locksets.push_back(h);
    return team->locksets.size() - 1;
}
void acquire(void *l)
{
    if (!self) return;
    Busy b;
    pthread_mutex_lock(&team->mx);
    self->lock = l;
    next(false);
    wait_turn(self);
    self->lock = nullptr;
    team->locks[l].owner = self->num;
    self->held.push_back(l);
    self->lockset = lockset_of(self);
    pthread_mutex_unlock(&team->mx);
}
void release(void *l)
{
    if (!self) return;
    Busy b;
    pthread_mutex_lock(&team->mx);
    team->locks[l].owner = -1;
    self->held.erase(std::find(self->held.begin(), self->held.end(), l));
    self->lockset = lockset_of(self);
    next(false);
    wait_turn(self);
    pthread_mutex_unlock(&team->mx);
}
void bounds(Th *t)
{
    pthread_attr_t a;
    void *p; size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    t->lo = (char *)p; t->hi = (char *)p + n;
}
void body(Th *t, char *top = nullptr)
{
    {
        Busy b;
        bounds(t);
        if (top) t->hi = top;
        pthread_mutex_lock(&team->mx);
        wait_turn(t);
        pthread_mutex_unlock(&team->mx);
    }
    self = t;
    team->fn(team->data);
    Busy b;
    self = nullptr;
    pthread_mutex_lock(&team->mx);
    t->done = true;
    release_if_all();
    next(false);
    pthread_mutex_unlock(&team->mx);
}
// Threads stay for the next region, as in libgomp, so that thread-private data does
struct Job { pthread_t id; Th *th = nullptr; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; };
std::vector<Job *> pool;
pthread_mutex_t poolmx = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t donecv = PTHREAD_COND_INITIALIZER;
void *worker(void *p)
{
    Job *j = (Job *)p;
    pthread_mutex_lock(&poolmx);
    for (;;) {
        while (!j->th) pthread_cond_wait(&j->cv, &poolmx);
        pthread_mutex_unlock(&poolmx);
        body(j->th);
        pthread_mutex_lock(&poolmx);
        j->th = nullptr;
        pthread_cond_signal(&donecv);
    }
}
void digest()
{
    // addresses used by more than one thread, at least once not by reading only
    std::map<std::vector<std::vector<int>>, std::pair<int, Uses>> byuse;
    for (auto &kv : team->uses) {
        auto &v = kv.second.v;
        bool many = false, wr = false;
        for (auto &u : v) { many = many || u.thread != v[0].thread; wr = wr || u.kind != 0; }
        if (!many || !wr) continue;
        std::vector<std::vector<int>> key;
        for (auto &u : v) key.push_back({u.thread, u.epoch, u.kind, u.lockset});
        std::sort(key.begin(), key.end());
        auto &e = byuse[key];
        if (e.first++ == 0) e.second = kv.second;
    }
    std::map<void *, int> lid;
    for (auto &e : byuse) {
        Pattern p;
        p.region = team->region;
        p.addresses = e.second.first;
        for (auto &u : e.second.second.v) {
            Class c{u.thread, u.epoch, u.kind, {}, u.first, u.last};
            for (void *l : team->locksets[u.lockset]) c.locks.push_back(lid.emplace(l, (int)lid.size() + 1).first->second);
            p.uses.push_back(c);
        }
        result.patterns.push_back(p);
    }
}
inline void access(const void *a, size_t n, int kind)
{
    Th *t = self;
    if (!t || busy) return;
    if ((const char *)a >= t->lo && (const char *)a < t->hi) return;
    uint64_t k = t->accesses++;
    if (k == t->nextstop) {
        Busy b;
        t->nextstop = ~0ull;
        result.fired = true;
        yield(true);
    }
    if (!team->record) return;
    Busy b;
    for (uintptr_t w = (uintptr_t)a >> 3; w <= ((uintptr_t)a + n - 1) >> 3; w++) {
        auto &v = team->uses[w].v;
        bool have = false;
        for (auto &u : v) if (u.thread == t->num && u.epoch == t->epoch && u.kind == kind && u.lockset == t->lockset) { u.last = k; have = true; break; }
        if (!have) v.push_back({t->num, t->epoch, kind, t->lockset, k, k});
    }
}
void parallel(void (*fn)(void *), void *data, unsigned nt)
{
    int n = nt ? nt : forced;
    if (self || n <= 1) {               // nested, or nothing to share
        Th *keep = self;
        Team *kt = team;
        Th one;
        Team tm;
        tm.fn = fn; tm.data = data; tm.th = {&one};
        { Busy b; bounds(&one); one.num = 0; one.lockset = 0; tm.locksets.push_back({}); }
        team = &tm; self = &one;
        fn(data);
        self = keep; team = kt;
        return;
    }
    Team tm;
    tm.fn = fn; tm.data = data;
    tm.region = result.regions++;
    tm.record = setup.record && tm.region < setup.maxregions;
    tm.locksets.push_back({});
    team = &tm;
    {
        Busy b;
        for (int i = 0; i < n; i++) {
            Th *t = new Th;
            t->num = i;
            if (setup.stop.region == tm.region && setup.stop.a == i) t->nextstop = setup.stop.access;
            tm.th.push_back(t);
        }
        tm.run = setup.stop.region == tm.region ? setup.stop.a : choose(n);
        pthread_mutex_lock(&poolmx);
        while ((int)pool.size() < n - 1) {
            Job *j = new Job;
            pool.push_back(j);
            pthread_create(&j->id, nullptr, worker, j);
        }
        for (int i = 1; i < n; i++) { pool[i - 1]->th = tm.th[i]; pthread_cond_signal(&pool[i - 1]->cv); }
        pthread_mutex_unlock(&poolmx);
    }
    // what lies above this frame belongs to whoever started the region
    body(tm.th[0], (char *)__builtin_frame_address(0));
    Busy b;
    pthread_mutex_lock(&poolmx);
    for (int i = 1; i < n; i++) while (pool[i - 1]->th) pthread_cond_wait(&donecv, &poolmx);
    pthread_mutex_unlock(&poolmx);
    if (tm.record) digest();
    team = nullptr;
    for (auto *t : tm.th) delete t;
}
bool single()
{
    if (!self) return true;
    Busy b;
    int mine = ++self->singles;
    if (mine > team->singles) { team->singles = mine; return true; }
    return false;
}
bool loop_next(long *a, long *b)
{
    Loop &l = team->loops[self->loops - 1];
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *a = l.next;
    long e = l.next + l.chunk * l.incr;
    if (l.up ? e > l.end : e < l.end) e = l.end;
    *b = l.next = e;
    return true;
}
bool loop_start(long s, long e, long incr, long chunk, long *a, long *b)
{
    yield();
    Busy bb;
    int mine = ++self->loops;
    if (mine > (int)team->loops.size()) team->loops.push_back({s, e, incr, chunk > 0 ? chunk : 1, incr > 0});
    return loop_next(a, b);
}
bool loop_more(long *a, long *b) { yield(); Busy bb; return loop_next(a, b); }
}
void begin(const Setup &s)
{
    Busy b;
    setup = s;
    result = Result();
    pos = 0;
    forced = s.threads;
}
Result end() { return result; }
}
using namespace par;

extern "C" {
int omp_get_thread_num() { return self ? self->num : 0; }
int omp_get_num_threads() { return self ? (int)team->th.size() : 1; }
int omp_get_max_threads() { return forced; }
void omp_set_num_threads(int n) { forced = n; }
int omp_get_num_procs() { return 64; }
int omp_in_parallel() { return self && team->th.size() > 1; }
double omp_get_wtime() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; }
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { return single(); }
static char theone, theatomic;
void GOMP_critical_start() { acquire(&theone); }
void GOMP_critical_end() { release(&theone); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start() { acquire(&theatomic); }
void GOMP_atomic_end() { release(&theatomic); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
#define LOOP(k) \
bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
bool GOMP_loop_##k##_next(long *a, long *b) { return loop_more(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) \
bool GOMP_loop_##k##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##k##_next(long *a, long *b) { return loop_more(a, b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
// work of "parallel for": the loop is the first thing of the team
#define PLOOP(k) \
struct P_##k { void (*fn)(void *); void *d; long s, e, i, c; }; \
static P_##k *p_##k; \
void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) \
{ P_##k w{fn, d, s, e, i, c}; p_##k = &w; \
  parallel([](void *q) { auto *w = (P_##k *)q; { int m = self->loops; if (m >= (int)team->loops.size()) team->loops.push_back({w->s, w->e, w->i, w->c > 0 ? w->c : 1, w->i > 0}); self->loops = m + 1; } w->fn(w->d); }, &w, n); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)

// ---- calls made by the compiler at every access
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) \
void __tsan_read##n(void *a) { access(a, n, 0); } \
void __tsan_write##n(void *a) { access(a, n, 1); } \
void __tsan_unaligned_read##n(void *a) { access(a, n, 0); } \
void __tsan_unaligned_write##n(void *a) { access(a, n, 1); } \
void __tsan_volatile_read##n(void *a) { access(a, n, 0); } \
void __tsan_volatile_write##n(void *a) { access(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { if (n) access(a, n, 1); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { access((void *)a, sizeof(T), 2); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), 2); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), 2); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), 2); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, sizeof(T), 2); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access(s, n, 0); access(d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access(s, n, 0); access(d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access(d, n, 1); return __real_memset(d, c, n); }
}
