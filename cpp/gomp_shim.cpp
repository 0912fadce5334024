// A small OpenMP runtime made of plain pthreads, compiled with ThreadSanitizer, replacing libgomp (whose futex-based
// synchronisation TSan cannot see).  Only genuine OpenMP synchronisation creates happens-before edges here:
// fork, join, barriers, critical/atomic/ordered sections; handing out loop chunks is a relaxed atomic operation,
// so that data races between iterations are not masked.  Random delays diversify the interleavings.
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include <vector>
#include <map>
#include <set>
namespace {
struct WS { std::atomic<long> next; std::atomic<int> turn; std::atomic<int> single; WS(): next(0), turn(0), single(0) {} };
const int NWS = 8192;
struct Team { int n; WS* ws; pthread_barrier_t bar; bool haveLoop; long start, end, incr, chunk; std::atomic<uint64_t> hash; };
struct Thr { Team* team; int id; int wsnum; WS* cur; long start, end, incr, chunk; uint64_t rnd; uint64_t hash; };
thread_local Thr T = {0, 0, 0, 0, 0, 0, 0, 0, 0x9e3779b97f4a7c15ull, 0};
std::atomic<int> maxthreads(0);
std::atomic<long> nregions(0), nchunks(0), nforks(0);
pthread_mutex_t statmtx = PTHREAD_MUTEX_INITIALIZER, critmtx = PTHREAD_MUTEX_INITIALIZER, atommtx = PTHREAD_MUTEX_INITIALIZER, namedmtx = PTHREAD_MUTEX_INITIALIZER;
std::set<uint64_t>* seen = new std::set<uint64_t>;
int jitter() { static int j = getenv("VERIF_JITTER") ? atoi(getenv("VERIF_JITTER")) : 8; return j; }
uint64_t rnd() { uint64_t x = T.rnd; x ^= x >> 12; x ^= x << 25; x ^= x >> 27; T.rnd = x; return x * 0x2545f4914f6cdd1dull; }
void delay() { int j = jitter(); if(!j) return; uint64_t r = rnd() >> 20; if(r % j == 0) { if((r >> 8) % 4) sched_yield(); else usleep((r >> 12) % 60); } }
WS* nextws() { return T.team ? &T.team->ws[T.wsnum++ % NWS] : NULL; }
struct Arg { void (*fn)(void*); void* data; Team* team; int id; uint64_t seed; };
void runin(const Arg& a) {
    Thr old = T; T.team = a.team; T.id = a.id; T.wsnum = 0; T.cur = NULL; T.rnd = a.seed; T.hash = 0;
    if(a.team->haveLoop) { T.cur = nextws(); T.start = a.team->start; T.end = a.team->end; T.incr = a.team->incr; T.chunk = a.team->chunk; }
    delay();
    a.fn(a.data);
    uint64_t h = T.hash * 0x9e3779b97f4a7c15ull + a.id; h ^= h >> 29; a.team->hash.fetch_xor(h * 0xbf58476d1ce4e5b9ull, std::memory_order_relaxed);
    uint64_t r = T.rnd; T = old; if(a.id == 0) T.rnd = r;
}
void* entry(void* p) { runin(*static_cast<Arg*>(p)); return NULL; }
int icv() { int m = maxthreads.load(std::memory_order_relaxed); if(!m) { const char* e = getenv("OMP_NUM_THREADS"); m = e ? atoi(e) : 0; if(m < 1) m = (int)sysconf(_SC_NPROCESSORS_ONLN); maxthreads.store(m, std::memory_order_relaxed); } return m; }
void region(void (*fn)(void*), void* data, unsigned nt, bool loop, long s, long e, long i, long c) {
    int n = T.team ? 1 : nt ? (int)nt : icv();   // nested regions are serialised, as in libgomp by default
    Team* tm = new Team; tm->n = n; tm->ws = static_cast<WS*>(calloc(NWS, sizeof(WS))); pthread_barrier_init(&tm->bar, NULL, n);
    tm->haveLoop = loop; tm->start = s; tm->end = e; tm->incr = i; tm->chunk = c; tm->hash.store(0);
    nregions.fetch_add(1, std::memory_order_relaxed);
    std::vector<Arg> a(n); std::vector<pthread_t> th(n); std::vector<char> up(n, 0);
    for(int k = 0; k < n; k++) { a[k].fn = fn; a[k].data = data; a[k].team = tm; a[k].id = k; a[k].seed = rnd() | 1; }
    for(int k = 1; k < n; k++) { up[k] = pthread_create(&th[k], NULL, entry, &a[k]) == 0; if(!up[k]) abort(); nforks.fetch_add(1, std::memory_order_relaxed); }
    runin(a[0]);
    for(int k = 1; k < n; k++) pthread_join(th[k], NULL);
    if(n > 1) { pthread_mutex_lock(&statmtx); if(seen->size() < 1000000) seen->insert(tm->hash.load()); pthread_mutex_unlock(&statmtx); }
    pthread_barrier_destroy(&tm->bar); free(tm->ws); delete tm;
}
bool next(long* is, long* ie) {
    if(T.start == T.end) return false;
    if(!T.team || T.team->n == 1) { if(!T.team) { if(T.cur) return false; T.cur = reinterpret_cast<WS*>(1); *is = T.start; *ie = T.end; return true; } }
    delay();
    long k = T.cur->next.fetch_add(1, std::memory_order_relaxed), c = T.chunk > 0 ? T.chunk : 1;
    long b = T.start + k * c * T.incr, e = b + c * T.incr;
    if(T.incr > 0 ? b >= T.end : b <= T.end) return false;
    if(T.incr > 0 ? e > T.end : e < T.end) e = T.end;
    *is = b; *ie = e; nchunks.fetch_add(1, std::memory_order_relaxed); T.hash = T.hash * 6364136223846793005ull + (uint64_t)k + 1;
    return true;
}
bool begin(long s, long e, long i, long c, long* is, long* ie) { T.cur = nextws(); T.start = s; T.end = e; T.incr = i; T.chunk = c; return next(is, ie); }
bool staticchunk(long s, long e, long incr, long* is, long* ie) {
    long n = incr > 0 ? (e - s + incr - 1) / incr : (s - e - incr - 1) / -incr; if(n <= 0) return false;
    long nt = T.team ? T.team->n : 1, id = T.team ? T.id : 0, q = n / nt, t = n % nt, b; if(id < t) { q++; b = q * id; } else b = q * id + t;
    if(q == 0) return false; *is = s + b * incr; *ie = s + (b + q) * incr; return true;
}
}
extern "C" {
void verif_omp_stats(long* regions, long* chunks, long* forks, long* distinct) { *regions = nregions; *chunks = nchunks; *forks = nforks; pthread_mutex_lock(&statmtx); *distinct = seen->size(); pthread_mutex_unlock(&statmtx); }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { region(fn, data, nt, false, 0, 0, 1, 1); }
#define PLOOP(NAME) void NAME(void (*fn)(void*), void* data, unsigned nt, long s, long e, long i, long c, unsigned) { region(fn, data, nt, true, s, e, i, c); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define LOOP(NAME) bool NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return begin(s, e, i, c, is, ie); } bool NAME##_next(long* is, long* ie) { return next(is, ie); }
LOOP(GOMP_loop_dynamic) LOOP(GOMP_loop_nonmonotonic_dynamic) LOOP(GOMP_loop_guided) LOOP(GOMP_loop_nonmonotonic_guided)
#define ULL(NAME) bool NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { long a, b; bool r = begin((long)s, (long)e, (long)i, (long)c, &a, &b); *is = a; *ie = b; return r; } \
  bool NAME##_next(unsigned long long* is, unsigned long long* ie) { long a, b; bool r = next(&a, &b); *is = a; *ie = b; return r; }
ULL(GOMP_loop_ull_dynamic) ULL(GOMP_loop_ull_nonmonotonic_dynamic) ULL(GOMP_loop_ull_guided) ULL(GOMP_loop_ull_nonmonotonic_guided)
bool GOMP_loop_ordered_static_start(long s, long e, long i, long c, long* is, long* ie) { (void)c; T.cur = nextws(); return staticchunk(s, e, i, is, ie); }
bool GOMP_loop_ordered_static_next(long*, long*) { if(T.cur && T.team) T.cur->turn.store(T.id + 1, std::memory_order_release); return false; }
void GOMP_ordered_start() { if(T.cur && T.team) while(T.cur->turn.load(std::memory_order_acquire) != T.id) sched_yield(); }
void GOMP_ordered_end() {}
void GOMP_barrier() { if(T.team && T.team->n > 1) pthread_barrier_wait(&T.team->bar); delay(); }
void GOMP_loop_end() { T.cur = NULL; GOMP_barrier(); }
void GOMP_loop_end_nowait() { T.cur = NULL; }
bool GOMP_single_start() { WS* w = nextws(); return !w || w->single.fetch_add(1, std::memory_order_relaxed) == 0; }
void GOMP_critical_start() { delay(); pthread_mutex_lock(&critmtx); }
void GOMP_critical_end() { pthread_mutex_unlock(&critmtx); }
void GOMP_critical_name_start(void** p) {
    delay(); pthread_mutex_lock(&namedmtx); static std::map<void**, pthread_mutex_t*>* m = new std::map<void**, pthread_mutex_t*>; pthread_mutex_t*& q = (*m)[p]; if(!q) { q = new pthread_mutex_t; pthread_mutex_init(q, NULL); } pthread_mutex_t* r = q; pthread_mutex_unlock(&namedmtx); pthread_mutex_lock(r); *p = r; }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atommtx); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atommtx); }
int omp_get_max_threads() { return icv(); }
int omp_get_num_threads() { return T.team ? T.team->n : 1; }
int omp_get_thread_num() { return T.team ? T.id : 0; }
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel() { return T.team && T.team->n > 1; }
int omp_get_level() { return T.team != 0; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n) { if(n > 0) maxthreads.store(n, std::memory_order_relaxed); }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(void** l) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, NULL); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy(static_cast<pthread_mutex_t*>(*l)); delete static_cast<pthread_mutex_t*>(*l); }
void omp_set_lock(void** l) { pthread_mutex_lock(static_cast<pthread_mutex_t*>(*l)); }
void omp_unset_lock(void** l) { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*l)); }
int omp_test_lock(void** l) { return pthread_mutex_trylock(static_cast<pthread_mutex_t*>(*l)) == 0; }
}
