// Simulation runtime: seeded scheduler (baton passing over real threads), step clock, simulated heap with faults,
// and control of the quasirandom point stream. Linked into (core world) or preloaded under (Python and R worlds) the
// code under test. Everything it decides is a function of the parameters of rt_reset/rt_sched_*/rt_oom_*/rt_draw_*.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <new>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {

enum { MAXT = 8 };
const uintptr_t ARENA = 0x200000000000ull;
const size_t ARENA_SIZE = 1ull << 30;

// process-shared statistics (children of a fork accumulate here)
struct Shared
{
  uint64_t steps, switches, points, allocs, oom_fired, draws, draws_overridden, exhausted, runs, mutex_waits;
  uint64_t bad;                 // heap integrity violations detected
  char err[512];
  uint8_t cov[1 << 16];
};
Shared* sh = nullptr;

struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

__thread int t_inop = 0;       // >0: executing code under test on this thread (core world)
__thread int t_tid = -1;       // simulated thread id
__thread int t_nopre = 0;      // >0: preemption suppressed (inside a one-time initialisation, or the runtime itself)
__thread int t_inlib = 0;      // >0: inside a function of the library's own binding layer (Python world)

// allocation faults, per thread
__thread int t_oom_armed = 0;
__thread uint64_t t_alloc_n = 0, t_oom_at = 0, t_oom_count = 0, t_oom_fired = 0, t_oom_ppm = 0;
__thread uint64_t t_oom_seed = 0;

bool g_active = false;
int g_mode = 0;                // 0: core (t_inop decides), 1: shared object (caller address decides)
uint64_t g_steps = 0, g_budget = ~0ull;
uintptr_t ext_lo = 0, ext_hi = 0;

[[noreturn]] void die(int code, const char* msg)
{
  if (sh) { strncpy(sh->err, msg, sizeof sh->err - 1); }
  _exit(code);
}

// ------------------------------------------------------------------------------------------------ scheduler
struct Thr { sem_t sem; bool used, done, gil; };
Thr thr[MAXT];
int g_nthr = 0, g_cur = -1, g_live = 0;
bool g_sched = false;
sem_t g_mainsem;
Rng g_srng;
uint32_t g_hot_ppm = 0; uintptr_t g_hot_lo = 0, g_hot_hi = 0; uint8_t g_hot[1 << 16];   // preemption near accesses to shared memory
uint64_t g_mean = 0;           // mean steps between preemptions (0: none)
uint64_t g_next_switch = ~0ull;
uint32_t g_point_ppm = 0;
uint64_t g_npoint = 0;
struct Sw { uint32_t kind; uint32_t to; uint64_t at; };   // kind 0: step, 1: point, 2: thread end / block
const size_t MAXSW = 1 << 16;
Sw g_log[MAXSW]; size_t g_nlog = 0;
Sw g_list[MAXSW]; size_t g_nlist = 0, g_ilist = 0; bool g_uselist = false;
uint64_t g_ilhash = 1469598103934665603ull;

void plan_next()
{
  if (!g_sched) { g_next_switch = ~0ull; return; }
  if (g_uselist)
  {
    g_next_switch = ~0ull;
    for (size_t i = g_ilist; i < g_nlist; ++i)
      if (g_list[i].kind == 0 && g_list[i].at > g_steps) { g_next_switch = g_list[i].at; break; }
    return;
  }
  if (!g_mean) { g_next_switch = ~0ull; return; }
  // roughly geometric, heavy both ends: sometimes bursts of very short slices
  uint64_t r = g_srng.next();
  uint64_t m = (r & 7) == 0 ? 1 + g_mean / 50 : g_mean;
  uint64_t w = 1 + g_nlog / 1000;                    // a long run gets longer slices, so that its schedule stays within the log
  g_next_switch = g_steps + 1 + g_srng.below(2 * m * w * w);
}

int pick_other(bool must)
{
  int c[MAXT], n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].used && !thr[i].done && i != g_cur) c[n++] = i;
  if (!n) return -1;
  (void)must;
  return c[g_srng.below(n)];
}

void logsw(uint32_t kind, uint64_t at, int to)
{
  if (g_nlog < MAXSW) g_log[g_nlog++] = { kind, (uint32_t)to, at };
  if (sh) ++sh->switches;
}

void do_switch(int to)
{
  int me = g_cur;
  if (to < 0 || to == me) return;
  g_cur = to;
  sem_post(&thr[to].sem);
  while (sem_wait(&thr[me].sem) != 0) {}
}

void preempt(uint32_t kind, uint64_t at, uint64_t where)
{
  int to = -1;
  if (g_uselist)
  {
    for (size_t i = g_ilist; i < g_nlist; ++i)
      if (g_list[i].kind == kind && g_list[i].at == at) { to = (int)g_list[i].to; g_ilist = kind == 0 ? i + 1 : g_ilist; break; }
    if (to >= 0 && (to >= g_nthr || thr[to].done || !thr[to].used)) to = -1;
  }
  else
    to = pick_other(false);
  if (to >= 0 && to != g_cur)
  {
    logsw(kind, at, to);
    g_ilhash = (g_ilhash ^ (where * 31 + (uint64_t)to * 7 + (uint64_t)g_cur)) * 1099511628211ull;
    ++t_nopre;
    plan_next();
    do_switch(to);
    --t_nopre;
  }
  else
    plan_next();
}

typedef int (*gilcheck_t)(void);
gilcheck_t g_gilcheck = nullptr;

inline void step(uint64_t where)
{
  uint64_t s = ++g_steps;
  if (__builtin_expect(s >= g_next_switch, 0))
  {
    if (g_sched && t_tid == g_cur && t_tid >= 0 && !t_nopre && (!g_gilcheck || !g_gilcheck()))
      preempt(0, s, where);
  }
  if (__builtin_expect(s > g_budget, 0))
  {
    if (sh) sh->steps += s;
    die(97, "step budget exhausted");
  }
}

// ------------------------------------------------------------------------------------------------ heap
struct Hdr
{
  uint64_t magic;
  uint32_t size, cap;
  uint64_t seq;
  uint32_t state, kind;          // 1 live, 2 freed
  Hdr* next;                     // free list
  Hdr* all;                      // chain of all blocks
  uint8_t red[16];
};
static_assert(sizeof(Hdr) % 16 == 0, "");
const uint64_t MAGIC = 0x48454150424c4bull;
const size_t TAIL = 32;
uint8_t* g_top = nullptr;
Hdr* g_all = nullptr;
const int NCLS = 48;
Hdr* g_free[NCLS];               // LIFO lists
Hdr* g_ftail[NCLS];
int g_fcount[NCLS];
Rng g_hrng;
int g_fill = 0, g_reuse = 0;
uint64_t g_seq = 0, g_liveblk = 0, g_livebytes = 0;
uint64_t g_memlimit = ARENA_SIZE;
pthread_mutex_t g_heapmx = PTHREAD_MUTEX_INITIALIZER;

void bad(const char* what, Hdr* h)
{
  if (!sh) return;
  if (!sh->bad++)
    snprintf(sh->err, sizeof sh->err, "%s (block of %u bytes)", what, h ? h->size : 0);
}

int cls(size_t n) // capacity class; returns class and rounds
{
  int c = 0; size_t cap = 16;
  while (cap < n) { cap += (c & 1) ? cap / 3 : cap / 2; cap = (cap + 15) & ~size_t(15); ++c; }
  return c;
}
size_t capof(int c0)
{
  int c = 0; size_t cap = 16;
  while (c < c0) { cap += (c & 1) ? cap / 3 : cap / 2; cap = (cap + 15) & ~size_t(15); ++c; }
  return cap;
}

void fill(uint8_t* p, size_t n, bool reused)
{
  switch (g_fill)
  {
    case 0: { uint64_t x = g_hrng.next(); for (size_t i = 0; i < n; ++i) { if (!(i & 7)) x = g_hrng.next(); p[i] = (uint8_t)(x >> (8 * (i & 7))); } break; }
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xff, n); break;
    case 3: { for (size_t i = 0; i < n; ++i) p[i] = (i & 7) ? 0 : 1 + (uint8_t)(g_hrng.s >> 8) % 5; g_hrng.next(); break; }      // small positive int64
    case 4: { double d = 1.0 + (double)(g_hrng.next() % 7); for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &d, 8); break; } // plausible doubles
    case 5: if (!reused) { memset(p, 0x5a, n); } break;                                                                           // stale contents survive
  }
}

void setred(Hdr* h)
{
  memset(h->red, 0xb7, sizeof h->red);
  uint8_t* t = (uint8_t*)(h + 1) + h->size;
  size_t n = h->cap - h->size + TAIL;
  memset(t, 0xb7, n > 64 ? 64 : n);
}
bool okred(Hdr* h)
{
  for (size_t i = 0; i < sizeof h->red; ++i) if (h->red[i] != 0xb7) return false;
  uint8_t* t = (uint8_t*)(h + 1) + h->size;
  size_t n = h->cap - h->size + TAIL; if (n > 64) n = 64;
  for (size_t i = 0; i < n; ++i) if (t[i] != 0xb7) return false;
  return true;
}
// contents of freed blocks, beyond what "stale" mode keeps
void poison(Hdr* h) { if (g_fill != 5) { size_t n = h->size > 4096 ? 4096 : h->size; memset(h + 1, 0xdd, n); } }
bool okpoison(Hdr* h)
{
  if (g_fill == 5) return true;
  size_t n = h->size > 4096 ? 4096 : h->size; uint8_t* p = (uint8_t*)(h + 1);
  for (size_t i = 0; i < n; ++i) if (p[i] != 0xdd) return false;
  return true;
}

void* arena_alloc(size_t n)
{
  if (n > g_memlimit || g_livebytes + n > g_memlimit) return nullptr;
  int c = cls(n ? n : 1);
  if (c >= NCLS) return nullptr;
  size_t cap = capof(c);
  Hdr* h = nullptr;
  // keeping blocks from being handed out again must not make memory run out: beyond three quarters, take what is free
  bool full = g_top + sizeof(Hdr) + cap + TAIL > (uint8_t*)ARENA + ARENA_SIZE / 4 * 3;
  if (full && !g_free[c] && g_top + sizeof(Hdr) + cap + TAIL > (uint8_t*)ARENA + ARENA_SIZE)
    for (int b = c + 1; b < NCLS; ++b) if (g_free[b]) { c = b; cap = capof(b); break; }
  if (g_free[c] && (full || g_reuse != 2))
  {
    bool take = full || g_reuse == 0 ? true : g_reuse == 1 ? g_fcount[c] > 8 : (g_hrng.next() & 1);
    if (take)
    {
      h = g_free[c];
      g_free[c] = h->next; if (!g_free[c]) g_ftail[c] = nullptr; --g_fcount[c];
      if (!okpoison(h)) bad("write to freed memory", h);
      if (h->magic != MAGIC) { bad("heap header overwritten", nullptr); return nullptr; }
    }
  }
  bool reused = h != nullptr;
  if (!h)
  {
    size_t tot = sizeof(Hdr) + cap + TAIL;
    if (g_top + tot > (uint8_t*)ARENA + ARENA_SIZE) return nullptr;
    h = (Hdr*)g_top; g_top += tot;
    h->magic = MAGIC; h->cap = (uint32_t)cap; h->all = g_all; g_all = h;
  }
  h->size = (uint32_t)n; h->state = 1; h->seq = ++g_seq; h->next = nullptr;
  fill((uint8_t*)(h + 1), n, reused);
  setred(h);
  ++g_liveblk; g_livebytes += n;
  return h + 1;
}

bool in_arena(const void* p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SIZE; }

void arena_free(void* p)
{
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != MAGIC) { bad("free of invalid pointer or header overwritten", nullptr); return; }
  if (h->state != 1) { bad("double free", h); return; }
  if (!okred(h)) bad("write outside the bounds of a block", h);
  h->state = 2; --g_liveblk; g_livebytes -= h->size;
  poison(h);
  int c = cls(h->cap);
  h->next = nullptr;
  if (g_reuse == 1) { if (g_ftail[c]) g_ftail[c]->next = h; else g_free[c] = h; g_ftail[c] = h; }   // FIFO (quarantine)
  else { h->next = g_free[c]; g_free[c] = h; if (!g_ftail[c]) g_ftail[c] = h; }                     // LIFO
  ++g_fcount[c];
}

bool oom_now()
{
  if (!t_oom_armed || (g_mode == 1 && t_inlib <= 0)) return false;
  uint64_t k = ++t_alloc_n;
  bool f = false;
  if (t_oom_count && k >= t_oom_at && k < t_oom_at + t_oom_count) f = true;
  if (t_oom_ppm) { Rng r{t_oom_seed ^ (k * 0x632be59bd9b4e019ull)}; if (r.below(1000000) < t_oom_ppm) f = true; }
  if (f) { ++t_oom_fired; if (sh) ++sh->oom_fired; }
  return f;
}

bool wants(void* caller)
{
  if (!g_active) return false;
  if (g_mode == 0) return t_inop > 0;
  return (uintptr_t)caller >= ext_lo && (uintptr_t)caller < ext_hi;
}

void* sim_alloc(size_t n, void* caller, bool* fault)
{
  *fault = false;
  if (!wants(caller)) return malloc(n ? n : 1);
  step((uintptr_t)caller & 0xfff);
  if (oom_now()) { *fault = true; return nullptr; }
  pthread_mutex_lock(&g_heapmx);
  void* p = arena_alloc(n);
  if (sh) ++sh->allocs;
  pthread_mutex_unlock(&g_heapmx);
  if (!p) *fault = true;
  return p;
}

void sim_free(void* p)
{
  if (!p) return;
  if (!in_arena(p)) { free(p); return; }
  pthread_mutex_lock(&g_heapmx);
  arena_free(p);
  pthread_mutex_unlock(&g_heapmx);
}

// ------------------------------------------------------------------------------------------------ points
struct Gen { const void* p; uint32_t id; uint64_t n; bool ended; uint32_t dim; };
Gen g_gens[256]; int g_ngens = 0; uint32_t g_genid = 0;
__thread int t_draw_mode = 0;          // 0 real; 1.. override
__thread uint64_t t_draw_seed = 0, t_draw_i = 0;
__thread const uint32_t* t_list = nullptr; __thread size_t t_nlist = 0;
__thread int64_t t_exhaust_at = -1;    // fail the k-th draw from now on this thread
uint32_t* g_dlog = nullptr; size_t g_ndlog = 0; const size_t MAXDLOG = 1 << 21; int g_dlog_on = 0;

Gen* gen(const void* p, bool make)
{
  for (int i = 0; i < g_ngens; ++i) if (g_gens[i].p == p) return &g_gens[i];
  if (!make) return nullptr;
  if (g_ngens == 256) { memmove(g_gens, g_gens + 1, sizeof(Gen) * 255); g_ngens = 255; }
  g_gens[g_ngens] = Gen{p, ++g_genid, 0, false, 0};
  return &g_gens[g_ngens++];
}

} // namespace

// ------------------------------------------------------------------------------------------------ exported
EXPORT void rt_global_init()
{
  if (sh) return;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void* a = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA) { fprintf(stderr, "rt: cannot map the arena\n"); _exit(96); }
  g_top = (uint8_t*)ARENA;
  g_dlog = (uint32_t*)mmap(nullptr, MAXDLOG * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

EXPORT void* rt_shared() { return sh; }
EXPORT void rt_shared_clear() { if (sh) memset(sh, 0, sizeof *sh); }
EXPORT void rt_clear_err() { sh->bad = 0; sh->err[0] = 0; }
EXPORT const char* rt_err() { return sh->err; }
EXPORT uint64_t rt_bad() { return sh->bad; }

static int phdr_cb(struct dl_phdr_info* info, size_t, void* name)
{
  if (info->dlpi_name && strstr(info->dlpi_name, (const char*)name))
    for (int i = 0; i < info->dlpi_phnum; ++i)
      if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_X))
      {
        ext_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
        ext_hi = ext_lo + info->dlpi_phdr[i].p_memsz;
      }
  return 0;
}
EXPORT int rt_find_ext(const char* name) { ext_lo = ext_hi = 0; dl_iterate_phdr(phdr_cb, (void*)name); return ext_lo != 0; }
EXPORT void rt_set_gilcheck(gilcheck_t f) { g_gilcheck = f; }

EXPORT void rt_reset(int mode, uint64_t heap_seed, int fillmode, int reuse, uint64_t budget)
{
  g_mode = mode; g_hrng.s = heap_seed * 0x9e3779b97f4a7c15ull + 12345; g_fill = fillmode; g_reuse = reuse;
  g_steps = 0; g_budget = budget ? budget : ~0ull;
  g_sched = false; g_next_switch = ~0ull; g_nlog = 0; g_npoint = 0;
  g_active = true;
  if (sh) ++sh->runs;
}
EXPORT void rt_off() { g_active = false; }
EXPORT void rt_on() { g_active = true; }
EXPORT void rt_memlimit(uint64_t n) { g_memlimit = n ? n : ARENA_SIZE; }
EXPORT void rt_budget(uint64_t more) { g_budget = more ? g_steps + more : ~0ull; }
EXPORT uint64_t rt_steps() { return g_steps; }
EXPORT void rt_flush_steps() { if (sh) sh->steps += g_steps; }
EXPORT void rt_inop(int d) { t_inop += d; }

EXPORT uint64_t rt_live_blocks() { return g_liveblk; }
EXPORT uint64_t rt_live_bytes() { return g_livebytes; }
EXPORT uint64_t rt_alloc_seq() { return g_seq; }
EXPORT void rt_dump_live(uint64_t since)
{ for (Hdr* h = g_all; h; h = h->all) if (h->state == 1 && h->seq > since) fprintf(stderr, "live block: %u bytes, number %llu\n", h->size, (unsigned long long)h->seq); }
EXPORT int rt_check_heap()
{
  int n = 0;
  pthread_mutex_lock(&g_heapmx);
  for (Hdr* h = g_all; h; h = h->all)
  {
    if (h->magic != MAGIC) { bad("heap header overwritten", nullptr); ++n; break; }
    if (h->state == 1) { if (!okred(h)) { bad("write outside the bounds of a block", h); ++n; } }
    else if (!okpoison(h)) { bad("write to freed memory", h); ++n; }
  }
  pthread_mutex_unlock(&g_heapmx);
  return n;
}

EXPORT void rt_oom_arm(uint64_t at, uint64_t count, uint64_t ppm, uint64_t seed)
{ t_alloc_n = 0; t_oom_at = at; t_oom_count = count; t_oom_ppm = ppm; t_oom_seed = seed; t_oom_fired = 0; t_oom_armed = 1; }
EXPORT uint64_t rt_oom_disarm() { uint64_t f = t_oom_fired; t_oom_armed = 0; t_oom_fired = 0; return f; }
EXPORT uint64_t rt_oom_seen() { return t_alloc_n; }
EXPORT int rt_oom_now() { return oom_now() ? 1 : 0; }
EXPORT int rt_oom_armed() { return t_oom_armed; }

// --- scheduler
EXPORT void rt_sched_init(int nthreads, uint64_t seed, uint64_t mean, uint32_t point_ppm)
{
  g_nthr = nthreads; g_srng.s = seed; g_mean = mean; g_point_ppm = point_ppm; g_uselist = false; g_nlist = 0; g_ilist = 0;
  g_nlog = 0; g_npoint = 0; g_ilhash = 1469598103934665603ull;
  for (int i = 0; i < MAXT; ++i) { sem_init(&thr[i].sem, 0, 0); thr[i].used = i < nthreads; thr[i].done = thr[i].gil = false; }
  sem_init(&g_mainsem, 0, 0);
  g_live = nthreads; g_sched = true; g_cur = -1;
}
EXPORT void rt_sched_list(const uint64_t* v, size_t n)  // triples kind, at, to
{
  g_uselist = true; g_nlist = 0; g_ilist = 0;
  for (size_t i = 0; i < n && i < MAXSW; ++i) g_list[g_nlist++] = { (uint32_t)v[3*i], (uint32_t)v[3*i+2], v[3*i+1] };
}
EXPORT size_t rt_sched_log(uint64_t* v, size_t cap)
{
  size_t n = g_nlog < cap ? g_nlog : cap;
  if (v) for (size_t i = 0; i < n; ++i) { v[3*i] = g_log[i].kind; v[3*i+1] = g_log[i].at; v[3*i+2] = g_log[i].to; }
  return g_nlog;
}
EXPORT uint64_t rt_interleaving_hash() { return g_ilhash; }
static void wait_gil();
EXPORT void rt_thread_begin(int tid) { t_tid = tid; while (sem_wait(&thr[tid].sem) != 0) {} wait_gil(); }
static int next_of(uint32_t kind, uint64_t at)
{
  int to = -1;
  if (g_uselist)
    for (size_t i = 0; i < g_nlist; ++i) if (g_list[i].kind == kind && g_list[i].at == at) { to = (int)g_list[i].to; break; }
  if (to < 0 || to >= g_nthr || thr[to].done || to == g_cur)
  {
    if (g_uselist) { to = -1; for (int i = 0; i < g_nthr; ++i) if (!thr[i].done && i != g_cur) { to = i; break; } }
    else to = pick_other(true);
  }
  return to;
}
EXPORT void rt_thread_end()
{
  thr[t_tid].done = true; --g_live;
  int me = t_tid; t_tid = -1;
  if (g_live > 0)
  {
    uint64_t at = ++g_npoint;
    int to = next_of(2, at);
    logsw(2, at, to);
    g_ilhash = (g_ilhash ^ (uint64_t)(to * 131 + me)) * 1099511628211ull;
    g_cur = to;
    plan_next();
    sem_post(&thr[to].sem);
  }
  else
  {
    g_sched = false; g_next_switch = ~0ull;
    sem_post(&g_mainsem);
  }
}
EXPORT void rt_run_all()   // called by the coordinating thread once all simulated threads have been started
{
  int to = next_of(2, 0);
  logsw(2, 0, to);
  g_cur = to;
  plan_next();
  sem_post(&thr[to].sem);
  while (sem_wait(&g_mainsem) != 0) {}
}
// explicit scheduling point (between operations, in callbacks). In the Python world called without the GIL.
EXPORT void rt_point(uint32_t where)
{
  if (!g_sched || t_tid < 0 || t_tid != g_cur || t_nopre) return;
  if (sh) ++sh->points;
  uint64_t at = ++g_npoint;
  if (g_uselist || g_srng.below(1000000) < g_point_ppm) { preempt(1, at, 1000000 + where); wait_gil(); }
}
// this thread cannot proceed (lock held by another simulated thread)
static void blocked()
{
  static uint64_t spins = 0;
  if (sh) ++sh->mutex_waits;
  if (++spins > 2000000) die(98, "deadlock");
  uint64_t at = ++g_npoint;
  int to = next_of(2, at);
  if (to < 0) die(98, "deadlock");
  logsw(2, at, to);
  ++t_nopre; do_switch(to); --t_nopre;
}
// Python world: this thread is about to take the interpreter lock. It can't while a parked thread (one that waits for a
// mutex) holds it: taking it for real would stop the simulation, not just the thread.
static void wait_gil()
{
  if (!g_gilcheck || !g_sched || t_tid < 0) return;
  for (;;)
  {
    bool held = false;
    for (int i = 0; i < g_nthr; ++i) if (i != t_tid && thr[i].gil && !thr[i].done) held = true;
    if (!held) return;
    blocked();
  }
}
EXPORT void rt_gil_restore(void* ts, void (*real)(void*)) { if (g_active) wait_gil(); real(ts); }

// --- numpy's array storage (Python world)
EXPORT void* rt_np_malloc(size_t n)
{
  if (!g_active) return malloc(n ? n : 1);
  if (oom_now()) return nullptr;
  pthread_mutex_lock(&g_heapmx); void* p = arena_alloc(n ? n : 1); if (sh) ++sh->allocs; pthread_mutex_unlock(&g_heapmx);
  return p;
}
EXPORT void rt_np_free(void* p) { sim_free(p); }
EXPORT void* rt_np_realloc(void* q, size_t n)
{
  if (q && !in_arena(q)) return realloc(q, n ? n : 1);
  void* p = rt_np_malloc(n); if (!p || !q) return p;
  Hdr* h = (Hdr*)q - 1; memcpy(p, q, h->size < n ? h->size : n); sim_free(q); return p;
}

// --- seams used by glue.cpp
EXPORT void* rt_malloc(size_t n, void* caller) { bool f; void* p = sim_alloc(n, caller, &f); return p; }
EXPORT void* rt_calloc(size_t a, size_t b, void* caller)
{
  if (b && a > (size_t)-1 / b) return nullptr;
  bool f; void* p = sim_alloc(a * b, caller, &f); if (p) memset(p, 0, a * b); return p;
}
EXPORT void* rt_realloc(void* q, size_t n, void* caller)
{
  if (!q) return rt_malloc(n, caller);
  if (!in_arena(q)) return realloc(q, n);
  bool f; void* p = sim_alloc(n, caller, &f); if (!p) return nullptr;
  Hdr* h = (Hdr*)q - 1; memcpy(p, q, h->size < n ? h->size : n); sim_free(q); return p;
}
EXPORT void rt_free(void* p) { sim_free(p); }
EXPORT void rt_gen_create(const void* p, uint32_t dim) { if (!g_active || !p) return; pthread_mutex_lock(&g_heapmx); Gen* g = gen(p, true); *g = Gen{p, ++g_genid, 0, false, dim}; pthread_mutex_unlock(&g_heapmx); }
EXPORT void rt_gen_destroy(const void* p)
{
  pthread_mutex_lock(&g_heapmx);
  for (int i = 0; i < g_ngens; ++i) if (g_gens[i].p == p) { g_gens[i] = g_gens[--g_ngens]; break; }
  pthread_mutex_unlock(&g_heapmx);
}
// before the real draw: non-zero means "exhausted"
EXPORT int rt_draw_pre(const void* p)
{
  if (!g_active) return 0;
  pthread_mutex_lock(&g_heapmx);
  Gen* g = gen(p, true);
  int r = 0;
  if (g->ended) r = 1;
  else if (t_exhaust_at >= 0 && t_exhaust_at-- == 0) { g->ended = true; r = 1; }
  if (r && sh) ++sh->exhausted;
  pthread_mutex_unlock(&g_heapmx);
  return r;
}
EXPORT void rt_draw_post(const void* p, uint32_t* x)
{
  if (!g_active) return;
  if (sh) ++sh->draws;
  pthread_mutex_lock(&g_heapmx);
  Gen* g = gen(p, true);
  ++g->n;
  uint32_t id = g->id, dim = g->dim;
  uint32_t* lg = nullptr;     // log: thread + 1, generator, dimension, the real point, the delivered point
  if (g_dlog_on && g_ndlog + 2 * dim + 3 < MAXDLOG)
  {
    g_dlog[g_ndlog++] = (uint32_t)(t_tid + 1); g_dlog[g_ndlog++] = id; g_dlog[g_ndlog++] = dim;
    lg = g_dlog + g_ndlog;
    for (uint32_t i = 0; i < dim; ++i) lg[i] = lg[dim + i] = x[i];
    g_ndlog += 2 * dim;
  }
  pthread_mutex_unlock(&g_heapmx);
  if (!t_draw_mode) return;
  if (sh) ++sh->draws_overridden;
  uint64_t k = t_draw_i++;
  static const uint32_t ext[8] = { 1u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x80000001u, 2u, 0xfffffffeu, 0x40000000u };
  for (uint32_t i = 0; i < dim; ++i)
  {
    Rng r{t_draw_seed ^ (k * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)i << 48)};
    uint64_t a = r.next();
    uint32_t v = x[i];
    switch (t_draw_mode)
    {
      case 1: v = (uint32_t)a; break;                                             // uniform noise
      case 2: v = ext[(a >> 8) & 7]; break;                                       // extremes
      case 3: v = 1u; break;                                                      // always the lower end
      case 4: v = 0xffffffffu; break;                                             // always the upper end
      case 5: { Rng q{t_draw_seed + i}; v = (uint32_t)q.next(); break; }          // one constant point
      case 6: v = ((a & 3) == 0) ? ext[(a >> 8) & 7] : x[i]; break;               // real sequence, some coordinates struck
      case 7: v = ~x[i]; break;                                                   // mirrored sequence
      case 8: { Rng q{t_draw_seed ^ ((k / 3) * 77) ^ i}; v = (uint32_t)q.next(); break; } // each point repeated three times
      case 9: v = (uint32_t)(a % 16 == 0 ? a >> 13 : (a >> 40) + 1); break;       // biased to the low end
      case 10: { Rng q{t_draw_seed ^ (k * 977)}; v = (uint32_t)q.next(); break; } // all coordinates equal
      case 11: { uint32_t b = 1u + (uint32_t)(t_draw_seed % 20); v = (uint32_t)((a >> 20) % b * (0xffffffffull / b)) + (uint32_t)((a & 1) ? 1 : 0); break; } // near k/b boundaries
    }
    if (t_draw_mode == 12) { uint64_t j = k * dim + i; v = j < t_nlist ? t_list[j] : x[i]; }                       // explicit points
    if (v == 0) v = 1u;                                                           // points are in (0,1)
    x[i] = v;
    if (lg) lg[dim + i] = v;
  }
}
EXPORT void rt_draw_set(int mode, uint64_t seed, int64_t exhaust_at) { t_draw_mode = mode; t_draw_seed = seed; t_draw_i = 0; t_exhaust_at = exhaust_at; }
// an operation that runs inside another (from a finaliser) gives the outer one's points back afterwards
struct DrawState { int mode; uint64_t seed, i; int64_t ex; int inlib; };
static DrawState g_dstack[64]; static int g_ndstack = 0;
EXPORT void rt_draw_push() { if (g_ndstack < 64) g_dstack[g_ndstack] = { t_draw_mode, t_draw_seed, t_draw_i, t_exhaust_at, t_inlib }; ++g_ndstack; }
EXPORT void rt_draw_pop() { if (--g_ndstack < 64) { DrawState& d = g_dstack[g_ndstack]; t_draw_mode = d.mode; t_draw_seed = d.seed; t_draw_i = d.i; t_exhaust_at = d.ex; t_inlib = d.inlib; } }
EXPORT void rt_draw_list(const uint32_t* p, size_t n) { t_list = p; t_nlist = n; }
EXPORT void rt_dlog(int on) { g_dlog_on = on; g_ndlog = 0; }
EXPORT void rt_dlog_mark() { if (g_dlog_on && g_ndlog + 3 < MAXDLOG) { g_dlog[g_ndlog++] = (uint32_t)(t_tid + 1); g_dlog[g_ndlog++] = 0; g_dlog[g_ndlog++] = 0; } }
EXPORT size_t rt_dlog_get(uint32_t** p) { *p = g_dlog; return g_ndlog; }

// one-time initialisation and locks: a simulated thread must not be parked while others would block on it for real
EXPORT void rt_nopre(int d) { t_nopre += d; }
EXPORT int rt_mutex_lock(pthread_mutex_t* m, int (*try_)(pthread_mutex_t*), int (*lock)(pthread_mutex_t*))
{
  if (!g_sched || t_tid < 0 || t_nopre) return lock(m);
  for (;;)
  {
    int r = try_(m);
    if (r != EBUSY) return r;
    bool gil = g_gilcheck && g_gilcheck();
    thr[t_tid].gil = gil;
    blocked();
    thr[t_tid].gil = false;
  }
}

// --- compiler-inserted callbacks
EXPORT __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc()
{
  if (!g_active) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - ext_lo;
  sh->cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
  step(pc);
}
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
  static uint32_t n = 0;
  if (a == b || *a) return;
  for (uint32_t* x = a; x < b; ++x) *x = ++n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
  if (!g_active || t_inop <= 0) return;
  sh->cov[*g & 0xffff] = 1;
  step(*g);
}
// memory that another thread has touched, or that is static, is where an interleaving matters: preempt shortly after some such accesses
EXPORT void rt_sched_hot(uint32_t ppm, const void* lo, const void* hi) { g_hot_ppm = ppm; g_hot_lo = (uintptr_t)lo; g_hot_hi = (uintptr_t)hi; memset(g_hot, 0, sizeof g_hot); }
static void hot(uintptr_t a)
{
  if (t_tid < 0 || t_tid != g_cur || g_uselist) return;
  // only offsets within the program and within the simulated heap: real addresses differ from run to run
  bool stat = a >= g_hot_lo && a < g_hot_hi;
  if (!stat && !in_arena((void*)a)) return;
  uintptr_t off = stat ? a - g_hot_lo : 0x4000 + (a - ARENA);
  uint8_t& last = g_hot[(off >> 3) & 0xffff];
  bool shared = stat || (last && last != t_tid + 1);
  last = (uint8_t)(t_tid + 1);
  if (!shared || g_nlog > 3000 || g_srng.below(1000000) >= g_hot_ppm) return;
  uint64_t at = g_steps + 1 + g_srng.below(6);
  if (at < g_next_switch) g_next_switch = at;
}
#define LS(nm) EXPORT void nm(void* a) { if (g_active && t_inop > 0) { if (g_hot_ppm && g_sched) hot((uintptr_t)a); step(0x100000 + __COUNTER__); } }
LS(__sanitizer_cov_load1) LS(__sanitizer_cov_load2) LS(__sanitizer_cov_load4) LS(__sanitizer_cov_load8) LS(__sanitizer_cov_load16)
LS(__sanitizer_cov_store1) LS(__sanitizer_cov_store2) LS(__sanitizer_cov_store4) LS(__sanitizer_cov_store8) LS(__sanitizer_cov_store16)

EXPORT void rt_inlib_reset() { t_inlib = 0; }
EXPORT void __cyg_profile_func_enter(void*, void*) { ++t_inlib; }
EXPORT void __cyg_profile_func_exit(void*, void*) { --t_inlib; }

// --- replaceable allocation functions
static void* new_impl(size_t n, void* caller)
{
  bool f; void* p = sim_alloc(n, caller, &f);
  if (!p) throw std::bad_alloc();
  return p;
}
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n) { return new_impl(n, __builtin_return_address(0)); }
VIS void* operator new[](size_t n) { return new_impl(n, __builtin_return_address(0)); }
VIS void* operator new(size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, __builtin_return_address(0), &f); }
VIS void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool f; return sim_alloc(n, __builtin_return_address(0), &f); }
VIS void operator delete(void* p) noexcept { sim_free(p); }
VIS void operator delete[](void* p) noexcept { sim_free(p); }
VIS void operator delete(void* p, size_t) noexcept { sim_free(p); }
VIS void operator delete[](void* p, size_t) noexcept { sim_free(p); }
VIS void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
VIS void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
