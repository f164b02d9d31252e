/* Deterministic OpenMP runtime + preemption points.
 *
 * Preloaded into the Python process that runs the instrumented build of cosmic_profiles.  It supplies
 *   - the GOMP_* / omp_* entry points (instead of libgomp): a team is made of real pthreads of which
 *     exactly one runs at any moment; who runs is decided here from a seed;
 *   - the __tsan_* callbacks the compiler inserted before every memory access: each of them is a
 *     possible preemption point.
 * Decisions are made from counters, never from addresses or time, so one seed is one execution.
 * No thread is ever parked while it holds the Python GIL.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 64
#define MAXWS 64
#define MAXREC 400000

typedef unsigned long long ull;

/* ------------------------------------------------------------------ configuration and state */
enum { POL_SEQ = 0, POL_CHUNK = 1, POL_LOG = 2, POL_PCT = 3, POL_RACE = 4, POL_STARVE = 5, POL_REPLAY = 9 };

struct rec { uint32_t region, kind; uint64_t at; int32_t from, to; }; /* kind 0 preemption, 1 forced, 2 team size */

static struct {
  int policy, max_threads, vary_team;
  uint64_t seed;
  uint64_t horizon;      /* expected number of steps in a region, for PCT */
  int pct_k;
  int log_max;           /* gaps up to 2^log_max for POL_LOG */
  uint64_t step_limit;
  int track_races;
} cfg = { POL_SEQ, 1, 0, 0, 100000, 3, 14, 0, 0 };

static uint64_t rng_s;
static inline uint64_t rnd(void) {
  uint64_t z = (rng_s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

struct ws { int used; int init; long next, end, incr, chunk; ull unext, uend, uincr, uchunk; int up; long total0; int single_taken; int sections_next, sections_n; long ordered_next; int arrived_end; void *copyp; };
struct thr;
struct team {
  int n;
  struct thr *t[MAXT];
  int barrier_arrived; uint64_t barrier_gen;
  struct ws ws[MAXWS];
  struct team *parent;
};
enum { TS_RUN, TS_BAR, TS_LOCK, TS_DONE, TS_JOIN };
struct thr {
  int id; struct team *team; int state; sem_t sem; uint64_t bar_gen; void *lock;
  uint64_t ws_seq; long static_trip; struct ws *cur;
  void (*fn)(void *); void *data; pthread_t pt; int64_t prio; uint64_t hold_until;
};

static volatile int active;           /* a simulated team is running */
static uint64_t g_step, g_next;       /* accesses in this region; next preemption */
static uint64_t total_steps, total_switch, total_forced, total_regions, total_teams_small, sched_hash = 1469598103934665603ULL;
static uint32_t g_region, g_epoch;
static struct team *g_team;
static int g_cur;
static __thread struct thr *me __attribute__((tls_model("initial-exec")));
static struct rec *recs; static uint32_t nrec; static int rec_overflow;
static struct rec *replay; static uint32_t nreplay, replay_pos;
static uint64_t forced_idx;
static uint64_t pct_points[64]; static int pct_n, pct_i;
static int starve_tid; static uint64_t starve_from;
static int64_t prio_low;
static int (*gil_check)(void);
static int report_fd = -1;

static void hmix(uint64_t x) { sched_hash = (sched_hash ^ x) * 1099511628211ULL; }
static void record(uint32_t kind, uint64_t at, int from, int to) {
  hmix(((uint64_t)g_region << 40) ^ at ^ ((uint64_t)kind << 60)); hmix(((uint64_t)(uint32_t)from << 8) ^ (uint32_t)to);
  if (!recs) recs = malloc(sizeof(struct rec) * MAXREC);
  if (nrec < MAXREC) recs[nrec++] = (struct rec){ g_region, kind, at, from, to }; else rec_overflow = 1;
}
static void fatal(const char *msg, int code) {
  if (report_fd >= 0) { ssize_t r = write(report_fd, msg, strlen(msg)); (void)r; }
  _exit(code);
}

/* ------------------------------------------------------------------ races (guidance only) */
#define SHN (1u << 20)
struct shadow { uintptr_t addr; uint32_t region; uint32_t gen; int16_t wtid, rtid; uint8_t multi_r; uintptr_t wpc, rpc; };
static struct shadow *sh;
#define NRACE 4096
static uintptr_t racepc[NRACE]; static uint32_t nrace;
static uintptr_t flagpc[NRACE]; static uint32_t nflag; /* open addressing */
static void flag_add(uintptr_t pc) {
  uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ULL) >> 52);
  while (flagpc[h]) { if (flagpc[h] == pc) return; h = (h + 1) & (NRACE - 1); }
  if (nflag < NRACE / 2) { flagpc[h] = pc; nflag++; }
}
static inline int flag_has(uintptr_t pc) {
  uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ULL) >> 52);
  while (flagpc[h]) { if (flagpc[h] == pc) return 1; h = (h + 1) & (NRACE - 1); }
  return 0;
}
static void race_add(uintptr_t pc) {
  if (gil_check && gil_check()) return;
  for (uint32_t i = 0; i < nrace; i++) if (racepc[i] == pc) return;
  if (nrace < NRACE) racepc[nrace++] = pc;
}
static void shadow_access(uintptr_t a, int w, uintptr_t pc) {
  if (!sh) sh = calloc(SHN, sizeof *sh);
  a >>= 2;
  uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ULL) >> 44);
  uint32_t gen = (uint32_t)g_team->barrier_gen;
  for (int k = 0; k < 64; k++) {
    struct shadow *s = &sh[(h + k) & (SHN - 1)];
    if (s->addr == a || s->region != g_epoch || s->addr == 0) {
      if (s->addr != a || s->region != g_epoch || s->gen != gen) {
        *s = (struct shadow){ a, g_epoch, gen, -1, -1, 0, 0, 0 };
      }
      int t = g_cur;
      if (s->wtid >= 0 && s->wtid != t) { race_add(s->wpc); race_add(pc); }
      if (w && (s->multi_r || (s->rtid >= 0 && s->rtid != t))) { race_add(s->rpc); race_add(pc); }
      if (w) { s->wtid = t; s->wpc = pc; } else { if (s->rtid >= 0 && s->rtid != t) s->multi_r = 1; s->rtid = t; s->rpc = pc; }
      return;
    }
  }
}

/* memory given back is a different object when it is handed out again */
static void shadow_forget(uintptr_t a, size_t n) {
  if (!sh) return;
  for (uintptr_t e = (a + n + 3) >> 2, b = a >> 2; b < e; b++) {
    uint32_t h = (uint32_t)((b * 0x9E3779B97F4A7C15ULL) >> 44);
    for (int k = 0; k < 64; k++) {
      struct shadow *s = &sh[(h + k) & (SHN - 1)];
      if (s->region != g_epoch || s->addr == 0) break;
      if (s->addr == b) { s->gen = UINT32_MAX; break; }
    }
  }
}
extern void __libc_free(void *); extern void *__libc_realloc(void *, size_t);
EXPORT void free(void *p) {
  if (__builtin_expect(active && cfg.track_races && p && me, 0)) shadow_forget((uintptr_t)p, malloc_usable_size(p));
  __libc_free(p);
}
EXPORT void *realloc(void *p, size_t n) {
  if (__builtin_expect(active && cfg.track_races && p && me, 0)) shadow_forget((uintptr_t)p, malloc_usable_size(p));
  return __libc_realloc(p, n);
}

/* ------------------------------------------------------------------ scheduler */
static inline int runnable(struct thr *t) { return t->state == TS_RUN; }
static int list_runnable(int *out, int except) {
  int n = 0;
  for (int i = 0; i < g_team->n; i++) if (i != except && runnable(g_team->t[i])) out[n++] = i;
  return n;
}
static void schedule_next_preempt(void) {
  switch (cfg.policy) {
  case POL_RACE: if (nflag) { g_next = UINT64_MAX; break; } /* fall through */
  case POL_LOG: { int b = (int)rndn(cfg.log_max + 1); g_next = g_step + 1 + rndn(1ULL << b); break; }
  case POL_STARVE: { g_next = g_step + 1 + rndn(1ULL << (4 + rndn(cfg.log_max))); break; }
  case POL_PCT: while (pct_i < pct_n && pct_points[pct_i] <= g_step) pct_i++;
    g_next = pct_i < pct_n ? pct_points[pct_i] : UINT64_MAX; break;
  case POL_REPLAY: {
    g_next = UINT64_MAX;
    for (uint32_t i = replay_pos; i < nreplay; i++) {
      if (replay[i].region > g_region) break;
      if (replay[i].region == g_region && replay[i].kind == 0 && replay[i].at > g_step) { g_next = replay[i].at; break; }
    }
    break; }
  default: g_next = UINT64_MAX;
  }
}
/* choose who runs next among the runnable threads; kind 0: the current thread may also stay */
static int choose(int kind) {
  int c[MAXT], n = list_runnable(c, -1);
  if (n == 0) return -1;
  if (cfg.policy == POL_REPLAY) {
    uint64_t key = kind == 0 ? g_step : forced_idx;
    for (uint32_t i = replay_pos; i < nreplay && replay[i].region <= g_region; i++)
      if (replay[i].region == g_region && (int)replay[i].kind == kind && replay[i].at == key) {
        int to = replay[i].to;
        if (to < g_team->n && runnable(g_team->t[to])) return to;
      }
    if (kind == 0 && runnable(g_team->t[g_cur])) return g_cur;
    return c[0];
  }
  if (cfg.policy == POL_PCT) {
    int best = c[0];
    for (int i = 1; i < n; i++) if (g_team->t[c[i]]->prio > g_team->t[best]->prio) best = c[i];
    return best;
  }
  if (cfg.policy == POL_STARVE) {
    if (n > 1 && g_step >= starve_from) {
      int m = 0; for (int i = 0; i < n; i++) if (c[i] != starve_tid) c[m++] = c[i];
      n = m;
    }
    return c[rndn(n)];
  }
  if (cfg.policy == POL_RACE) {
    int m = 0, d[MAXT];
    for (int i = 0; i < n; i++) if (g_team->t[c[i]]->hold_until <= g_step) d[m++] = c[i];
    if (m) return d[rndn(m)];
  }
  return c[rndn(n)];
}
static void handoff(int to) { g_cur = to; sem_post(&g_team->t[to]->sem); }
static void park(void) { while (sem_wait(&me->sem) != 0) ; }

static void __attribute__((noinline)) preempt(void) {
  if (!me || me->team != g_team || me->id != g_cur) { g_next = g_step + 1; return; }
  if (gil_check && gil_check()) { g_next = g_step + 1; return; }
  if (cfg.step_limit && total_steps + g_step > cfg.step_limit) fatal("STEP_LIMIT\n", 98);
  if (cfg.policy == POL_PCT) { me->prio = --prio_low; }
  int to = choose(0);
  uint64_t at = g_step;
  schedule_next_preempt();
  if (to >= 0 && to != me->id) { record(0, at, me->id, to); total_switch++; handoff(to); park(); }
}
static void __attribute__((noinline)) race_point(void) {
  /* at an access known to conflict: hold this thread back with probability 1/4 */
  if (!me || me->team != g_team || me->id != g_cur) return;
  if (rndn(4)) return;
  if (gil_check && gil_check()) return;
  me->hold_until = g_step + (1ULL << rndn(14));
  int to = choose(0);
  if (to >= 0 && to != me->id) { record(0, g_step, me->id, to); total_switch++; handoff(to); park(); }
}
/* the running thread cannot continue: pick another */
static void forced_switch(void) {
  int to = choose(1);
  if (to < 0) fatal("DEADLOCK\n", 97);
  record(1, forced_idx++, me->id, to); total_forced++;
  if (to != me->id) { handoff(to); park(); }
}
/* a voluntary scheduling point (work-share, atomics, locks) */
static void sched_point(void) {
  if (!active || !me || me->team != g_team) return;
  if (me->id != g_cur) return;
  if (cfg.policy == POL_SEQ) return;
  g_step++;
  if (cfg.policy == POL_REPLAY) { if (g_step >= g_next) preempt(); return; }
  if (cfg.policy == POL_PCT) { if (g_step >= g_next) preempt(); return; }
  if (gil_check && gil_check()) return;
  if (rndn(2)) { int to = choose(0); if (to >= 0 && to != me->id) { record(0, g_step, me->id, to); total_switch++; handoff(to); park(); } }
}

static inline void access_point(uintptr_t a, int w, uintptr_t pc) {
  if (!active) return;
  g_step++;
  if (__builtin_expect(cfg.track_races, 0) && me && me->team == g_team) shadow_access(a, w, pc);
  if (__builtin_expect(cfg.policy == POL_RACE, 0) && nflag && flag_has(pc)) race_point();
  if (__builtin_expect(g_step >= g_next, 0)) preempt();
}

/* Workers are kept from region to region (as libgomp keeps them): a thread that exits would return its
   heap caches at an uncontrolled moment. */
static struct poolw { sem_t start; struct thr *job; pthread_t pt; } *poolw[MAXT]; static int npool;
static void *worker(void *p) {
  struct poolw *pw = p;
  for (;;) {
    while (sem_wait(&pw->start) != 0) ;
    me = pw->job;
    park();
    me->fn(me->data);
    me->state = TS_DONE;
    /* wake the master if it waits for the end */
    struct team *tm = me->team; int alldone = 1;
    for (int i = 1; i < tm->n; i++) if (tm->t[i]->state != TS_DONE) alldone = 0;
    if (alldone && tm->t[0]->state == TS_JOIN) tm->t[0]->state = TS_RUN;
    int to = choose(1);
    if (to < 0) fatal("DEADLOCK\n", 97);
    record(1, forced_idx++, me->id, to); total_forced++;
    struct thr *next = tm->t[to];
    me = NULL;
    g_cur = to; sem_post(&next->sem);
  }
  return NULL;
}
static void pool_child(void) { npool = 0; active = 0; me = NULL; g_team = NULL; }
static void pool_start(struct thr *t, int i) {
  static int hooked;
  if (!hooked) { hooked = 1; pthread_atfork(NULL, NULL, pool_child); }
  while (npool <= i) {
    struct poolw *w = calloc(1, sizeof *w); sem_init(&w->start, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&w->pt, &at, worker, w)) fatal("PTHREAD_CREATE\n", 96);
    pthread_attr_destroy(&at); poolw[npool++] = w;
  }
  poolw[i]->job = t; sem_post(&poolw[i]->start);
}

/* freed one region later: the last worker may still be inside sem_post() on a semaphore of this team */
static struct thr *old_ts; static struct team *old_tm;
static void gone_keep(struct thr *ts, struct team *tm) { free(old_ts); free(old_tm); old_ts = ts; old_tm = tm; }

static struct thr *solo(struct team *tm, struct thr *t) {
  memset(tm, 0, sizeof *tm); memset(t, 0, sizeof *t); tm->n = 1; tm->t[0] = t; t->team = tm; t->state = TS_RUN; return t;
}

static void run_parallel(void (*fn)(void *), void *data, unsigned num_threads, void (*prep)(struct team *, void *), void *arg) {
  if (active && me) { /* nested: one thread */
    struct thr *save = me; struct team *tm = malloc(sizeof *tm); struct thr t; me = solo(tm, &t); tm->parent = save->team;
    if (prep) prep(tm, arg);
    fn(data); me = save; free(tm); return;
  }
  int n = num_threads ? (int)num_threads : cfg.max_threads;
  if (n > MAXT) n = MAXT;
  if (n < 1) n = 1;
  g_region++; g_epoch++; total_regions++;
  if (cfg.policy == POL_REPLAY) {
    while (replay_pos < nreplay && replay[replay_pos].region < g_region) replay_pos++;
    for (uint32_t i = replay_pos; i < nreplay && replay[i].region == g_region; i++)
      if (replay[i].kind == 2 && replay[i].to >= 1 && replay[i].to <= n) n = replay[i].to;
  } else if (cfg.policy != POL_SEQ && cfg.vary_team && n > 1 && rndn(3) == 0) {
    int m = 1 + (int)rndn(n); if (m < n) total_teams_small++; n = m;
  }
  if (cfg.policy != POL_SEQ) record(2, 0, 0, n);
  if (cfg.policy == POL_SEQ) n = 1;
  struct team *tm = malloc(sizeof *tm); struct thr *ts = calloc(n, sizeof *ts);
  memset(tm, 0, sizeof *tm); tm->n = n;
  for (int i = 0; i < n; i++) {
    ts[i].id = i; ts[i].team = tm; ts[i].fn = fn; ts[i].data = data; ts[i].state = TS_RUN; sem_init(&ts[i].sem, 0, 0); tm->t[i] = &ts[i];
  }
  if (prep) prep(tm, arg);
  struct thr *save = me; me = &ts[0];
  if (n == 1) {
    struct team *sg = g_team; g_team = tm; g_cur = 0;
    fn(data); g_team = sg; me = save; free(ts); free(tm); return;
  }
  g_team = tm; g_step = 0; forced_idx = 0; prio_low = 0; pct_n = pct_i = 0;
  for (int i = 0; i < n; i++) ts[i].prio = 1 + (int64_t)rndn(1u << 30);
  if (cfg.policy == POL_PCT) {
    pct_n = cfg.pct_k > 60 ? 60 : cfg.pct_k;
    for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + rndn(cfg.horizon);
    for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) { uint64_t x = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = x; }
  }
  starve_tid = (int)rndn(n); starve_from = rndn(4) ? rndn(cfg.horizon) : 0;
  schedule_next_preempt();
  for (int i = 1; i < n; i++) pool_start(&ts[i], i - 1);
  g_cur = 0; active = 1;
  forced_switch();
  fn(data);
  int alldone = 1;
  for (int i = 1; i < n; i++) if (ts[i].state != TS_DONE) alldone = 0;
  if (!alldone) { me->state = TS_JOIN; forced_switch(); }
  active = 0; total_steps += g_step;
  if (cfg.step_limit && total_steps > cfg.step_limit) fatal("STEP_LIMIT\n", 98);
  me = save; g_team = NULL; gone_keep(ts, tm);
}

/* ------------------------------------------------------------------ GOMP: regions, barriers */
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) { run_parallel(fn, data, num_threads, NULL, NULL); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) { run_parallel(fn, data, num_threads, NULL, NULL); return 1; }

static void barrier(void) {
  if (!me || me->team->n == 1) return;
  struct team *tm = me->team;
  sched_point();
  if (++tm->barrier_arrived == tm->n) {
    tm->barrier_arrived = 0; tm->barrier_gen++;
    for (int i = 0; i < tm->n; i++) if (tm->t[i]->state == TS_BAR) tm->t[i]->state = TS_RUN;
    sched_point();
  } else { me->state = TS_BAR; forced_switch(); }
}
EXPORT void GOMP_barrier(void) { barrier(); }
EXPORT bool GOMP_barrier_cancel(void) { barrier(); return false; }
EXPORT bool GOMP_cancel(int w, bool d) { return false; }
EXPORT bool GOMP_cancellation_point(int w) { return false; }

/* ------------------------------------------------------------------ work sharing */
static struct thr *self(void) {
  static __thread struct team tm0; static __thread struct thr t0;
  if (!me) me = solo(&tm0, &t0);
  return me;
}
static struct ws *next_ws(void) {
  struct thr *t = self(); struct team *tm = t->team;
  struct ws *w = &tm->ws[t->ws_seq % MAXWS]; t->ws_seq++;
  if (w->used >= tm->n) memset(w, 0, sizeof *w);
  w->used++; t->cur = w; t->static_trip = 0;
  return w;
}
static void ws_init(struct ws *w, long start, long end, long incr, long chunk) {
  if (w->init) return;
  w->init = 1; w->next = start; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1;
  if ((incr > 0 && start > end) || (incr < 0 && start < end)) end = start;
  w->end = end; w->total0 = start;
}
static bool dyn_next(struct ws *w, long *is, long *ie) {
  sched_point();
  if (w->next == w->end || (w->incr > 0 ? w->next > w->end : w->next < w->end)) return false;
  long s = w->next, e = s + w->chunk * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  w->next = e; *is = s; *ie = e; return true;
}
static bool guided_next(struct ws *w, long *is, long *ie) {
  sched_point();
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long left = (w->end - w->next + w->incr + (w->incr > 0 ? -1 : 1)) / w->incr, n = self()->team->n;
  long q = (left + n - 1) / n; if (q < w->chunk) q = w->chunk; if (q > left) q = left;
  long s = w->next, e = q < left ? s + q * w->incr : w->end;
  w->next = e; *is = s; *ie = e; return true;
}
static bool static_next(struct ws *w, long *is, long *ie) {
  struct thr *t = self(); long n = t->team->n;
  long N = w->incr > 0 ? (w->end - w->total0 + w->incr - 1) / w->incr : (w->end - w->total0 + w->incr + 1) / w->incr;
  long first = (t->static_trip * n + t->id) * w->chunk; t->static_trip++;
  if (first >= N) return false;
  long last = first + w->chunk; if (last > N) last = N;
  *is = w->total0 + first * w->incr; *ie = last == N ? w->end : w->total0 + last * w->incr; return true;
}
#define LOOPS(NAME, NEXT) \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { struct ws *w = next_ws(); ws_init(w, s, e, i, c); return NEXT(w, is, ie); } \
  EXPORT bool GOMP_loop_##NAME##_next(long *is, long *ie) { return NEXT(self()->cur, is, ie); }
LOOPS(dynamic, dyn_next) LOOPS(nonmonotonic_dynamic, dyn_next) LOOPS(guided, guided_next) LOOPS(nonmonotonic_guided, guided_next)
LOOPS(ordered_dynamic, dyn_next) LOOPS(ordered_guided, guided_next)
EXPORT bool GOMP_loop_static_start(long s, long e, long i, long c, long *is, long *ie) {
  struct ws *w = next_ws(); 
  if (c == 0) { long n = self()->team->n, N = i > 0 ? (e - s + i - 1) / i : (e - s + i + 1) / i; if (N < 0) N = 0; c = (N + n - 1) / n; if (c < 1) c = 1; }
  ws_init(w, s, e, i, c); return static_next(w, is, ie);
}
EXPORT bool GOMP_loop_static_next(long *is, long *ie) { return static_next(self()->cur, is, ie); }
EXPORT bool GOMP_loop_ordered_static_start(long s, long e, long i, long c, long *is, long *ie) { return GOMP_loop_static_start(s, e, i, c, is, ie); }
EXPORT bool GOMP_loop_ordered_static_next(long *is, long *ie) { return static_next(self()->cur, is, ie); }
#define RUNTIME(NAME) \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { struct ws *w = next_ws(); ws_init(w, s, e, i, 1); return dyn_next(w, is, ie); } \
  EXPORT bool GOMP_loop_##NAME##_next(long *is, long *ie) { return dyn_next(self()->cur, is, ie); }
RUNTIME(runtime) RUNTIME(nonmonotonic_runtime) RUNTIME(maybe_nonmonotonic_runtime) RUNTIME(ordered_runtime)
struct pl { long s, e, i, c; };
static void pl_prep(struct team *tm, void *a) { struct pl *p = a; long c = p->c; if (c <= 0) c = 1; struct ws *w = &tm->ws[0]; ws_init(w, p->s, p->e, p->i, c); w->used = tm->n; for (int k = 0; k < tm->n; k++) { tm->t[k]->cur = w; tm->t[k]->ws_seq = 1; } }
static void pl_prep_static(struct team *tm, void *a) { struct pl p = *(struct pl *)a; if (p.c == 0) { long n = tm->n, N = p.i > 0 ? (p.e - p.s + p.i - 1) / p.i : (p.e - p.s + p.i + 1) / p.i; if (N < 0) N = 0; p.c = (N + n - 1) / n; } pl_prep(tm, &p); }
#define PLOOP(NAME, PREP) EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned f) { struct pl p = { s, e, i, c }; run_parallel(fn, d, nt, PREP, &p); }
PLOOP(dynamic, pl_prep) PLOOP(nonmonotonic_dynamic, pl_prep) PLOOP(guided, pl_prep) PLOOP(nonmonotonic_guided, pl_prep) PLOOP(static, pl_prep_static)
#define PLOOPR(NAME) EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { struct pl p = { s, e, i, 1 }; run_parallel(fn, d, nt, pl_prep, &p); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { barrier(); }
EXPORT void GOMP_loop_end_nowait(void) { sched_point(); }
EXPORT bool GOMP_loop_end_cancel(void) { barrier(); return false; }
static bool udyn_next(struct ws *w, ull *is, ull *ie) {
  sched_point();
  if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
  ull s = w->unext, step = w->uchunk * w->uincr, e;
  if (w->up) e = (w->uend - s > step) ? s + step : w->uend; else e = (s - w->uend > -step) ? s + step : w->uend;
  w->unext = e; *is = s; *ie = e; return true;
}
#define ULOOPS(NAME) \
  EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { struct ws *w = next_ws(); if (!w->init) { w->init = 1; w->up = up; w->unext = s; w->uend = (up ? s > e : s < e) ? s : e; w->uincr = i; w->uchunk = c ? c : 1; } return udyn_next(w, is, ie); } \
  EXPORT bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return udyn_next(self()->cur, is, ie); }
ULOOPS(dynamic) ULOOPS(nonmonotonic_dynamic) ULOOPS(guided) ULOOPS(nonmonotonic_guided) ULOOPS(static)

EXPORT void GOMP_ordered_start(void) {}
EXPORT void GOMP_ordered_end(void) {}
EXPORT bool GOMP_single_start(void) { struct ws *w = next_ws(); sched_point(); if (w->single_taken) return false; w->single_taken = 1; return true; }
EXPORT void *GOMP_single_copy_start(void) { struct ws *w = next_ws(); sched_point(); if (!w->single_taken) { w->single_taken = 1; return NULL; } barrier(); return w->copyp; }
EXPORT void GOMP_single_copy_end(void *p) { self()->cur->copyp = p; barrier(); }
EXPORT unsigned GOMP_sections_next(void) { struct ws *w = self()->cur; sched_point(); return w->sections_next <= w->sections_n ? (unsigned)w->sections_next++ : 0; }
EXPORT unsigned GOMP_sections_start(unsigned n) { struct ws *w = next_ws(); if (!w->init) { w->init = 1; w->sections_n = (int)n; w->sections_next = 1; } return GOMP_sections_next(); }
EXPORT void GOMP_sections_end(void) { barrier(); }
EXPORT void GOMP_sections_end_nowait(void) {}
static void sec_prep(struct team *tm, void *a) { struct ws *w = &tm->ws[0]; w->init = 1; w->sections_n = *(int *)a; w->sections_next = 1; w->used = tm->n; for (int k = 0; k < tm->n; k++) { tm->t[k]->cur = w; tm->t[k]->ws_seq = 1; } }
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned count, unsigned f) { int c = (int)count; run_parallel(fn, d, nt, sec_prep, &c); }

/* ------------------------------------------------------------------ locks */
#define NLOCK 256
static struct { void *key; struct thr *owner; int depth; } locks[NLOCK]; static int nlocks;
static int lk(void *key) { for (int i = 0; i < nlocks; i++) if (locks[i].key == key) return i; if (nlocks == NLOCK) fatal("LOCKS\n", 96); locks[nlocks].key = key; return nlocks++; }
static void lock(void *key) {
  struct thr *t = self(); int i = lk(key);
  sched_point();
  while (locks[i].owner) {
    if (t->team->n == 1 || !active) fatal("DEADLOCK\n", 97);
    t->state = TS_LOCK; t->lock = key; forced_switch();
  }
  locks[i].owner = t;
}
static void unlock(void *key) {
  int i = lk(key); locks[i].owner = NULL;
  if (active && g_team) for (int k = 0; k < g_team->n; k++) if (g_team->t[k]->state == TS_LOCK && g_team->t[k]->lock == key) g_team->t[k]->state = TS_RUN;
  sched_point();
}
static int crit_key, atomic_key;
EXPORT void GOMP_critical_start(void) { lock(&crit_key); }
EXPORT void GOMP_critical_end(void) { unlock(&crit_key); }
EXPORT void GOMP_critical_name_start(void **p) { lock(p); }
EXPORT void GOMP_critical_name_end(void **p) { unlock(p); }
EXPORT void GOMP_atomic_start(void) { lock(&atomic_key); }
EXPORT void GOMP_atomic_end(void) { unlock(&atomic_key); }
EXPORT void omp_init_lock(void *l) { int i = lk(l); locks[i].owner = NULL; }
EXPORT void omp_destroy_lock(void *l) {}
EXPORT void omp_set_lock(void *l) { lock(l); }
EXPORT void omp_unset_lock(void *l) { unlock(l); }
EXPORT int omp_test_lock(void *l) { int i = lk(l); sched_point(); if (locks[i].owner) return 0; locks[i].owner = self(); return 1; }
EXPORT void omp_init_nest_lock(void *l) { int i = lk(l); locks[i].owner = NULL; locks[i].depth = 0; }
EXPORT void omp_destroy_nest_lock(void *l) {}
EXPORT void omp_set_nest_lock(void *l) { int i = lk(l); if (locks[i].owner != self()) lock(l); locks[i].depth++; }
EXPORT void omp_unset_nest_lock(void *l) { int i = lk(l); if (--locks[i].depth == 0) unlock(l); }

/* ------------------------------------------------------------------ tasks: run at once */
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool ifc, unsigned flags, void **dep, int prio, void *detach) {
  if (cpy) { char buf[sz + al]; char *a = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); } else fn(data);
}
EXPORT void GOMP_taskwait(void) {}
EXPORT void GOMP_taskyield(void) { sched_point(); }
EXPORT void GOMP_taskgroup_start(void) {}
EXPORT void GOMP_taskgroup_end(void) {}

/* ------------------------------------------------------------------ omp_* */
EXPORT int omp_get_max_threads(void) { return cfg.max_threads; }
EXPORT int omp_get_num_procs(void) { return cfg.max_threads; }
EXPORT int omp_get_thread_limit(void) { return MAXT; }
EXPORT int omp_get_thread_num(void) { return me ? me->id : 0; }
EXPORT int omp_get_num_threads(void) { return me ? me->team->n : 1; }
EXPORT int omp_in_parallel(void) { return me && me->team->n > 1; }
EXPORT void omp_set_num_threads(int n) { cfg.max_threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
EXPORT void omp_set_dynamic(int d) {} EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_nested(int d) {} EXPORT int omp_get_nested(void) { return 0; }
EXPORT void omp_set_schedule(int k, int c) {} EXPORT void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
EXPORT void omp_set_max_active_levels(int d) {} EXPORT int omp_get_max_active_levels(void) { return 1; }
EXPORT int omp_get_level(void) { return me && me->team->n > 1; } EXPORT int omp_get_active_level(void) { return me && me->team->n > 1; }
EXPORT int omp_get_ancestor_thread_num(int l) { return 0; } EXPORT int omp_get_team_size(int l) { return me ? me->team->n : 1; }
EXPORT double omp_get_wtime(void) { return (double)(total_steps + g_step) * 1e-9; } EXPORT double omp_get_wtick(void) { return 1e-9; }

/* ------------------------------------------------------------------ __tsan_* */
#define RA ((uintptr_t)__builtin_return_address(0))
EXPORT void __tsan_init(void) { if (!gil_check) gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check"); }
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
#define RW(N) \
  EXPORT void __tsan_read##N(void *a) { access_point((uintptr_t)a, 0, RA); } \
  EXPORT void __tsan_write##N(void *a) { access_point((uintptr_t)a, 1, RA); } \
  EXPORT void __tsan_volatile_read##N(void *a) { access_point((uintptr_t)a, 0, RA); } \
  EXPORT void __tsan_volatile_write##N(void *a) { access_point((uintptr_t)a, 1, RA); } \
  EXPORT void __tsan_read##N##_pc(void *a, void *p) { access_point((uintptr_t)a, 0, RA); } \
  EXPORT void __tsan_write##N##_pc(void *a, void *p) { access_point((uintptr_t)a, 1, RA); } \
  EXPORT void __tsan_unaligned_read##N(void *a) { access_point((uintptr_t)a, 0, RA); } \
  EXPORT void __tsan_unaligned_write##N(void *a) { access_point((uintptr_t)a, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, unsigned long n) { access_point((uintptr_t)a, 0, RA); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { access_point((uintptr_t)a, 1, RA); }
EXPORT void __tsan_vptr_update(void **p, void *v) { access_point((uintptr_t)p, 1, RA); }
EXPORT void __tsan_vptr_read(void **p) { access_point((uintptr_t)p, 0, RA); }
#define AT(N, T) \
  EXPORT T __tsan_atomic##N##_load(const volatile T *a, int m) { sched_point(); return *a; } \
  EXPORT void __tsan_atomic##N##_store(volatile T *a, T v, int m) { sched_point(); *a = v; } \
  EXPORT T __tsan_atomic##N##_exchange(volatile T *a, T v, int m) { sched_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int m) { if (active) g_step++; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int m) { if (active) g_step++; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int m) { sched_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int m) { sched_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int m) { sched_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { sched_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { sched_point(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int m) { __sync_synchronize(); }
EXPORT void __tsan_atomic_signal_fence(int m) {}

/* ------------------------------------------------------------------ control interface (ctypes) */
EXPORT void simomp_config(int policy, uint64_t seed, int max_threads, int vary_team, uint64_t horizon, int pct_k, int log_max, uint64_t step_limit, int track_races) {
  __tsan_init();
  cfg.policy = policy; cfg.seed = seed; cfg.max_threads = max_threads; cfg.vary_team = vary_team; cfg.horizon = horizon ? horizon : 1;
  cfg.pct_k = pct_k; cfg.log_max = log_max; cfg.step_limit = step_limit; cfg.track_races = track_races;
  rng_s = seed; g_region = 0; nrec = 0; rec_overflow = 0; replay_pos = 0;
  total_steps = total_switch = total_forced = total_regions = total_teams_small = 0; sched_hash = 1469598103934665603ULL;
  nlocks = 0;
}
EXPORT void simomp_report_fd(int fd) { report_fd = fd; }
EXPORT void simomp_set_replay(struct rec *r, uint32_t n) { free(replay); replay = malloc(sizeof *r * (n + 1)); memcpy(replay, r, sizeof *r * n); nreplay = n; replay_pos = 0; }
EXPORT uint32_t simomp_nrec(void) { return nrec; }
EXPORT int simomp_rec_overflow(void) { return rec_overflow; }
EXPORT void simomp_get_recs(struct rec *out) { memcpy(out, recs, sizeof *recs * nrec); }
EXPORT void simomp_stats(uint64_t *o) { o[0] = total_steps; o[1] = total_switch; o[2] = total_forced; o[3] = total_regions; o[4] = total_teams_small; o[5] = sched_hash; o[6] = nrace; o[7] = nflag; }
EXPORT void simomp_flag_races(void) { for (uint32_t i = 0; i < nrace; i++) flag_add(racepc[i]); }
EXPORT void simomp_clear_races(void) { nrace = 0; nflag = 0; memset(flagpc, 0, sizeof flagpc); if (sh) memset(sh, 0, SHN * sizeof *sh); }
EXPORT uint32_t simomp_race_pcs(uint64_t *out, uint32_t cap) { uint32_t n = nrace < cap ? nrace : cap; for (uint32_t i = 0; i < n; i++) out[i] = racepc[i]; return n; }
