// A small OpenMP run time on pthreads, linked in place of libgomp.
//  * every synchronisation it offers is a pthread one, so ThreadSanitizer sees exactly the happens-before edges
//    that OpenMP promises (libgomp's futexes are invisible to it) and nothing more;
//  * VC_SCHED chooses the interleaving: "par" free running, "delay:<seed>" free running with injected random delays,
//    "seq:<seed>" one thread at a time in a seeded random order (a legal OpenMP execution: a thread gives up its turn
//    only when it waits at a barrier or ends), "fwd"/"rev" the same in (reverse) thread order.
//    "inline:<seed>" the members of a team run one after the other on the calling thread in a seeded random order
//    (a legal execution for regions without inner barriers, which is all this code base has; a barrier inside such a
//    team aborts the run) - no thread is created, so it is as fast as a single-threaded run.
//  * VC_SCHED_LOG: appends one line per process: regions entered, threads started, critical sections entered.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
#include <map>
#include <vector>
#include <algorithm>

namespace {
struct Work { long next, end, incr, chunk; bool init; int done; };
struct Team {
  int n;
  pthread_mutex_t mu; pthread_cond_t cv;
  int arrived; long phase;
  // baton scheduling
  bool baton; std::vector<int> order; std::vector<char> state;  // 0 ready, 1 at barrier, 2 finished
  int holder;
  std::map<long, Work> works; std::map<long, bool> singles;
};
struct Self { Team* team; int tid; long nwork; long nsingle; long work; };
__thread Self self = {0, 0, 0, 0, 0};
int nthreads_default = 0;
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_names = PTHREAD_MUTEX_INITIALIZER;
std::atomic<unsigned long> s_regions{0}, s_threads{0}, s_crit{0}, s_multi{0};
int mode = -1;  // 0 par 1 delay 2 seq 3 fwd 4 rev 5 inline
std::atomic<unsigned long> rng{88172645463325252ull};

unsigned long rnd() {
  unsigned long x = rng.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed) + 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
void report() {
  const char* p = getenv("VC_SCHED_LOG");
  if (!p) return;
  FILE* f = fopen(p, "a");
  if (f) { fprintf(f, "regions=%lu multi=%lu threads=%lu criticals=%lu mode=%d\n", s_regions.load(), s_multi.load(), s_threads.load(), s_crit.load(), mode); fclose(f); }
}
void setup() {
  if (mode >= 0) return;
  const char* s = getenv("VC_SCHED");
  mode = 0;
  if (s) {
    if (!strncmp(s, "delay", 5)) mode = 1;
    else if (!strncmp(s, "seq", 3)) mode = 2;
    else if (!strncmp(s, "fwd", 3)) mode = 3;
    else if (!strncmp(s, "rev", 3)) mode = 4;
    else if (!strncmp(s, "inline", 6)) mode = 5;
    const char* c = strchr(s, ':');
    if (c) rng = strtoul(c + 1, 0, 10) * 2654435761ul + 12345;
  }
  atexit(report);
}
void delay() {
  if (mode != 1) return;
  unsigned long r = rnd() % 8;
  if (r == 0) { struct timespec t = {0, (long)(rnd() % 200000)}; nanosleep(&t, 0); }
  else if (r < 3) sched_yield();
}
// --- baton -------------------------------------------------------------------------------------------------------
void pass_baton(Team* t) {  // mu held
  int next = -1;
  for (size_t k = 0; k < t->order.size(); k++) if (t->state[t->order[k]] == 0) { next = t->order[k]; break; }
  t->holder = next;
  pthread_cond_broadcast(&t->cv);
}
void take_turn(Team* t, int tid) {  // mu held
  while (t->holder != tid) pthread_cond_wait(&t->cv, &t->mu);
}
struct Arg { Team* t; int tid; void (*fn)(void*); void* data; };
void body(Arg* a) {
  Self saved = self;
  self.team = a->t; self.tid = a->tid; self.nwork = 0; self.nsingle = 0; self.work = -1;
  Team* t = a->t;
  if (t->baton) { pthread_mutex_lock(&t->mu); take_turn(t, a->tid); pthread_mutex_unlock(&t->mu); }
  else delay();
  a->fn(a->data);
  if (t->baton) { pthread_mutex_lock(&t->mu); t->state[a->tid] = 2; pass_baton(t); pthread_mutex_unlock(&t->mu); }
  self = saved;
}
void* entry(void* p) { body((Arg*)p); return 0; }
}  // namespace

extern "C" {
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_get_max_threads() { return nthreads_default > 0 ? nthreads_default : omp_get_num_procs(); }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_num_threads(int n) { if (n > 0) nthreads_default = n; }
int omp_get_thread_num() { return self.team ? self.tid : 0; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
int omp_get_level() { return self.team ? 1 : 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*)*l); delete (pthread_mutex_t*)*l; }
void omp_set_lock(void** l) { delay(); pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*)*l) == 0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) {
  setup();
  int n = num_threads ? (int)num_threads : omp_get_max_threads();
  if (self.team) n = 1;  // nested regions are serialised, libgomp's default
  if (!s_regions++ && getenv("VC_STOP")) { fflush(0); fputs("VC-ACCEPTED\n", stderr); _exit(99); }  // the input was read, meshing starts
  Team t;
  t.n = n; t.arrived = 0; t.phase = 0; t.baton = n > 1 && mode >= 2; t.holder = 0;
  pthread_mutex_init(&t.mu, 0); pthread_cond_init(&t.cv, 0);
  for (int i = 0; i < n; i++) { t.order.push_back(i); t.state.push_back(0); }
  if (mode == 4) std::reverse(t.order.begin(), t.order.end());
  if (mode == 2) for (int i = n - 1; i > 0; i--) std::swap(t.order[i], t.order[rnd() % (i + 1)]);
  t.holder = t.order[0];
  if (mode == 5) {
    for (int i = n - 1; i > 0; i--) std::swap(t.order[i], t.order[rnd() % (i + 1)]);
    if (n > 1) s_multi++;
    t.baton = false;
    for (int k = 0; k < n; k++) { if (k) s_threads++; Arg a = {&t, t.order[k], fn, data}; body(&a); }
    pthread_mutex_destroy(&t.mu); pthread_cond_destroy(&t.cv);
    return;
  }
  std::vector<Arg> args(n); std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) args[i] = Arg{&t, i, fn, data};
  if (n > 1) s_multi++;
  for (int i = 1; i < n; i++) {
    s_threads++;
    if (pthread_create(&th[i], 0, entry, &args[i])) { perror("pthread_create"); abort(); }
  }
  body(&args[0]);
  for (int i = 1; i < n; i++) pthread_join(th[i], 0);
  pthread_mutex_destroy(&t.mu); pthread_cond_destroy(&t.cv);
}
void GOMP_barrier() {
  Team* t = self.team;
  if (!t || t->n == 1) return;
  if (mode == 5) { fprintf(stderr, "gomp_shim: barrier inside an inline team\n"); _exit(77); }
  delay();
  pthread_mutex_lock(&t->mu);
  long ph = t->phase;
  if (++t->arrived == t->n) {
    t->arrived = 0; t->phase++;
    if (t->baton) { for (int i = 0; i < t->n; i++) if (t->state[i] == 1) t->state[i] = 0; }
    pthread_cond_broadcast(&t->cv);
  } else {
    if (t->baton) { t->state[self.tid] = 1; pass_baton(t); }
    while (t->phase == ph) pthread_cond_wait(&t->cv, &t->mu);
    if (t->baton) take_turn(t, self.tid);
  }
  pthread_mutex_unlock(&t->mu);
}
static pthread_mutex_t* named(void** p) {
  pthread_mutex_lock(&g_names);
  if (!*p) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, 0); *p = m; }
  pthread_mutex_t* m = (pthread_mutex_t*)*p;
  pthread_mutex_unlock(&g_names);
  return m;
}
void GOMP_critical_name_start(void** p) { s_crit++; delay(); pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); delay(); }
void GOMP_critical_start() { s_crit++; delay(); pthread_mutex_lock(&g_crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); delay(); }
void GOMP_atomic_start() { delay(); pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start() {
  Team* t = self.team;
  if (!t) return true;
  pthread_mutex_lock(&t->mu);
  bool& b = t->singles[self.nsingle++];
  bool first = !b; b = true;
  pthread_mutex_unlock(&t->mu);
  return first;
}
// work-sharing loops: one iteration pool per loop, handed out chunk by chunk
static bool take(long* is, long* ie) {
  Team* t = self.team; Work& w = t->works[self.work];
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  long hi = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? hi > w.end : hi < w.end) hi = w.end;
  *is = w.next; *ie = hi; w.next = hi;
  return true;
}
static Team solo;
static bool loop_start(long s, long e, long inc, long chunk, long* is, long* ie) {
  if (!self.team) { *is = s; *ie = e; self.work = -2; return inc > 0 ? s < e : s > e; }
  Team* t = self.team;
  pthread_mutex_lock(&t->mu);
  self.work = self.nwork++;
  Work& w = t->works[self.work];
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk > 0 ? chunk : 1; }
  bool r = take(is, ie);
  pthread_mutex_unlock(&t->mu);
  return r;
}
static bool loop_next(long* is, long* ie) {
  if (!self.team) return false;
  delay();
  pthread_mutex_lock(&self.team->mu); bool r = take(is, ie); pthread_mutex_unlock(&self.team->mu);
  return r;
}
#define LOOP(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return loop_next(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loop_next(a, b); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
typedef unsigned long long ull;
static bool ull_start(bool, ull s, ull e, ull inc, ull c, ull* a, ull* b) { return loop_start((long)s, (long)e, (long)inc, (long)c, (long*)a, (long*)b); }
#define ULOOP(K) \
  bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ull_start(up, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
struct PL { void (*fn)(void*); void* data; long s, e, i, c; };
#define PLOOP(K) \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long c, unsigned fl) { \
    PL p = {fn, data, s, e, inc, c}; \
    GOMP_parallel([](void* q) { PL* p = (PL*)q; if (self.team) { pthread_mutex_lock(&self.team->mu); self.work = self.nwork++; Work& w = self.team->works[self.work]; \
      if (!w.init) { w.init = true; w.next = p->s; w.end = p->e; w.incr = p->i; w.chunk = p->c > 0 ? p->c : 1; } pthread_mutex_unlock(&self.team->mu); } p->fn(p->data); }, &p, nt, fl); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
}
