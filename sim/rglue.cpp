// R world: the zygote's serving loop and the controls of the runtime, called from r_worker.R.
#include <Rinternals.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <string>
#include <vector>
extern "C" {
void rt_global_init(); int rt_find_ext(const char*); void rt_clear_err(); const char* rt_err(); uint64_t rt_bad(); void* rt_shared();
void rt_memlimit(uint64_t); void rt_reset(int, uint64_t, int, int, uint64_t); void rt_off(); void rt_flush_steps(); int rt_check_heap();
void rt_oom_arm(uint64_t, uint64_t, uint64_t, uint64_t); uint64_t rt_oom_disarm(); uint64_t rt_oom_seen();
void rt_draw_set(int, uint64_t, int64_t); void rt_inlib_reset(); void rt_draw_push(); void rt_draw_pop();
uint64_t rt_steps(); uint64_t rt_live_blocks();

static int g_out = -1, g_w = -1;
static bool rd(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(0); c += k; n -= k; } }
static uint64_t u(SEXP s, int i) { return strtoull(CHAR(STRING_ELT(s, i)), nullptr, 10); }

SEXP rw_init() { rt_global_init(); if (!rt_find_ext("humanleague.so")) Rf_error("library not found"); g_out = dup(1); dup2(2, 1); return R_NilValue; }

// returns in a child, once per plan: the text of the plan
SEXP rw_next()
{
  int dn = open("/dev/null", O_WRONLY);
  for (;;)
  {
    uint64_t n;
    if (!rd(&n, 8)) _exit(0);
    if (n == 0) { char* p = (char*)rt_shared(); wr(g_out, p, 80); wr(g_out, p + 88 + 512, 1 << 16); continue; }
    std::vector<char> b(n);
    if (!rd(b.data(), n)) _exit(0);
    int fd[2];
    if (pipe(fd)) _exit(1);
    rt_clear_err();
    pid_t pid = fork();
    if (pid == 0)
    {
      close(fd[0]); g_w = fd[1];
      if (!getenv("HLSIM_DEBUG")) dup2(dn, 2);
      for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE }) signal(s, SIG_DFL);
      struct rlimit c = { 60, 61 }, z = { 0, 0 };
      setrlimit(RLIMIT_CPU, &c); setrlimit(RLIMIT_CORE, &z);
      SEXP t = PROTECT(Rf_mkCharLen(b.data(), (int)n)); SEXP r = Rf_ScalarString(t); UNPROTECT(1);
      return r;
    }
    close(fd[1]);
    std::string d; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) d.append(buf, k);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    const char* e = rt_err(); uint64_t h[3] = { (uint64_t)(int64_t)st, rt_bad(), e ? strlen(e) : 0 };
    wr(g_out, h, 24); if (h[2]) wr(g_out, e, h[2]);
    uint64_t l = d.size(); wr(g_out, &l, 8); wr(g_out, d.data(), l);
  }
}
SEXP rw_reset(SEXP a) { rt_clear_err(); rt_memlimit(u(a, 4)); rt_reset(1, u(a, 0), (int)u(a, 1), (int)u(a, 2), u(a, 3)); return R_NilValue; }
SEXP rw_before(SEXP oom, SEXP draw)
{
  rt_draw_push(); rt_inlib_reset();
  rt_draw_set((int)u(draw, 0), u(draw, 1), (int64_t)strtoll(CHAR(STRING_ELT(draw, 2)), nullptr, 10));
  if (u(oom, 0) || u(oom, 2)) rt_oom_arm(u(oom, 0), u(oom, 1), u(oom, 2), u(oom, 3));
  return R_NilValue;
}
SEXP rw_after()
{
  SEXP r = PROTECT(Rf_allocVector(REALSXP, 3));
  REAL(r)[2] = 0;
  REAL(r)[0] = (double)rt_oom_disarm();
  rt_draw_pop();
  REAL(r)[1] = (double)rt_steps();
  UNPROTECT(1);
  return r;
}
SEXP rw_live() { return Rf_ScalarReal((double)rt_live_blocks()); }
SEXP rw_done(SEXP s)
{
  rt_check_heap();
  char b[64]; int n = snprintf(b, sizeof b, "%llu\n", (unsigned long long)rt_steps());
  wr(g_w, b, n);
  for (R_xlen_t i = 0; i < XLENGTH(s); ++i) { const char* c = CHAR(STRING_ELT(s, i)); wr(g_w, c, strlen(c)); wr(g_w, "\n", 1); }
  rt_off(); rt_flush_steps();
  _exit(0);
}
SEXP rw_fail(SEXP s) { const char* c = CHAR(STRING_ELT(s, 0)); wr(g_w, "HARNESS ", 8); wr(g_w, c, strlen(c)); _exit(95); }
}
