// Core-world executor: runs plans (text) against the C++ library under the simulation runtime, one forked child per plan.
#include "QIS.h"
#include "QISI.h"
#include "IPF.h"
#include "Integerise.h"
#include "Sobol.h"
#include "StatFuncs.h"
#include "NDArrayUtils.h"

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cinttypes>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>

extern "C" {
void rt_global_init(); void* rt_shared(); void rt_clear_err(); const char* rt_err(); uint64_t rt_bad();
void rt_reset(int, uint64_t, int, int, uint64_t); void rt_off(); void rt_memlimit(uint64_t);
uint64_t rt_steps(); void rt_flush_steps(); void rt_inop(int);
uint64_t rt_live_blocks(); uint64_t rt_live_bytes(); int rt_check_heap();
void rt_oom_arm(uint64_t, uint64_t, uint64_t, uint64_t); uint64_t rt_oom_disarm(); uint64_t rt_oom_seen();
void rt_sched_init(int, uint64_t, uint64_t, uint32_t); void rt_sched_hot(uint32_t, const void*, const void*); extern char __data_start, _end; void rt_sched_list(const uint64_t*, size_t); size_t rt_sched_log(uint64_t*, size_t);
uint64_t rt_interleaving_hash(); void rt_thread_begin(int); void rt_thread_end(); void rt_run_all(); void rt_point(uint32_t);
void rt_draw_set(int, uint64_t, int64_t); void rt_draw_list(const uint32_t*, size_t);
void rt_dlog(int); void rt_dlog_mark(); size_t rt_dlog_get(uint32_t**);
}

namespace {

struct Rd
{
  const char* p; const char* e;
  std::string tok()
  {
    while (p < e && (*p == ' ' || *p == '\n')) ++p;
    const char* q = p;
    while (p < e && *p != ' ' && *p != '\n') ++p;
    return std::string(q, p);
  }
  int64_t i() { return strtoll(tok().c_str(), nullptr, 10); }
  uint64_t u() { return strtoull(tok().c_str(), nullptr, 10); }
  double d() { return strtod(tok().c_str(), nullptr); }
};

template<typename T> T num(Rd& r);
template<> int64_t num<int64_t>(Rd& r) { return r.i(); }
template<> double num<double>(Rd& r) { return r.d(); }

// raw data is kept outside of the simulated heap; library objects are made from it inside the operation
template<typename T> struct Raw { std::vector<int64_t> sizes; std::vector<T> v; };
template<typename T> Raw<T> raw(Rd& r)
{
  Raw<T> a; size_t n = r.u(); size_t tot = 1;
  for (size_t k = 0; k < n; ++k) { a.sizes.push_back(r.i()); if (a.sizes.back() < 0 || tot > (1u << 24)) tot = 0; tot *= a.sizes.back(); }
  if (n == 0 || tot > (1u << 24)) tot = 0;           // a malformed or deliberately huge shape carries no data
  for (size_t k = 0; k < tot; ++k) a.v.push_back(num<T>(r));
  return a;
}
template<typename T> NDArray<T> make(const Raw<T>& a) { NDArray<T> n(a.sizes); std::copy(a.v.begin(), a.v.end(), n.begin()); return n; }

struct Op
{
  std::string kind;
  int dmode; uint64_t dseed; int64_t exhaust;
  uint64_t oat, ocount, oppm, oseed;
  std::vector<uint32_t> dlist;   // explicit points (draw mode 12)
  // arguments
  std::vector<std::vector<int64_t>> idx;
  std::vector<Raw<int64_t>> im;
  std::vector<Raw<double>> dm;
  Raw<double> seed; Raw<int64_t> iarr;
  std::vector<int64_t> n;
  std::vector<double> x;
};

Op read_op(Rd& r)
{
  Op o; o.kind = r.tok(); o.dmode = r.i(); o.dseed = r.u(); o.exhaust = r.i(); o.oat = r.u(); o.ocount = r.u(); o.oppm = r.u(); o.oseed = r.u();
  { size_t k = r.u(); for (size_t i = 0; i < k; ++i) o.dlist.push_back((uint32_t)r.u()); }
  auto idx = [&](bool dbl) {
    size_t k = r.u();
    for (size_t i = 0; i < k; ++i) { std::vector<int64_t> v(r.u()); for (auto& q : v) q = r.i(); o.idx.push_back(v); }
    size_t km = r.u();
    for (size_t i = 0; i < km; ++i) { if (dbl) o.dm.push_back(raw<double>(r)); else o.im.push_back(raw<int64_t>(r)); }
  };
  if (o.kind == "qis") { o.n.push_back(r.i()); idx(false); }
  else if (o.kind == "qisi") { o.n.push_back(r.i()); o.seed = raw<double>(r); idx(false); }
  else if (o.kind == "ipf") { o.seed = raw<double>(r); idx(true); }
  else if (o.kind == "igr") { o.seed = raw<double>(r); }
  else if (o.kind == "ig1") { o.n.push_back(r.i()); size_t k = r.u(); for (size_t i = 0; i < k; ++i) o.x.push_back(r.d()); }
  else if (o.kind == "flat") { o.iarr = raw<int64_t>(r); }
  else if (o.kind == "pv") { o.n.push_back(r.i()); o.x.push_back(r.d()); }
  else { size_t k = r.u(); for (size_t i = 0; i < k; ++i) o.n.push_back(r.i()); }   // s* ops on generators
  return o;
}

struct Out
{
  std::string s;
  void put(const char* f, ...) { char b[256]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); s += b; }
  void d(double v) { uint64_t u; if (v != v) { s += " nan"; return; } memcpy(&u, &v, 8); put(" %016" PRIx64, u); }
  template<typename A> void ia(const A& a) { put(" %zu", (size_t)a.size()); for (auto v : a) put(" %lld", (long long)v); }
};

// results copied out of library objects while still inside the operation go to fixed storage outside the heap
struct Res { std::vector<int64_t> sizes; std::vector<int64_t> iv; std::vector<double> dv; std::vector<double> st; std::vector<int64_t> si; };

struct Outside { Outside() { rt_inop(-1); } ~Outside() { rt_inop(1); } };
struct Inside { Inside() { rt_inop(1); } ~Inside() { rt_inop(-1); } };

struct Slots { Sobol* g[128] = {}; };

void exec(const Op& o, Slots& sl, Res& r)
{
  if (o.kind == "qis")
  {
    std::vector<NDArray<int64_t>> m; m.reserve(o.im.size());
    for (auto& a : o.im) m.push_back(make(a));
    QIS q(o.idx, m, o.n[0]);
    const NDArray<int64_t>& a = q.solve();
    Outside _;
    r.sizes = a.sizes(); r.iv.assign(a.begin(), a.end());
    r.dv.assign(q.expectation().begin(), q.expectation().end());
    r.st = { q.chiSq(), q.pValue(), q.degeneracy() }; r.si = { q.conv(), q.population() };
  }
  else if (o.kind == "qisi")
  {
    NDArray<double> seed = make(o.seed);
    std::vector<NDArray<int64_t>> m; m.reserve(o.im.size());
    for (auto& a : o.im) m.push_back(make(a));
    QISI q(o.idx, m, o.n[0]);
    const NDArray<int64_t>& a = q.solve(seed);
    Outside _;
    r.sizes = a.sizes(); r.iv.assign(a.begin(), a.end());
    r.dv.assign(q.expectation().begin(), q.expectation().end());
    r.st = { q.chiSq(), q.pValue(), q.degeneracy() }; r.si = { q.conv(), q.population() };
  }
  else if (o.kind == "ipf")
  {
    NDArray<double> seed = make(o.seed);
    std::vector<NDArray<double>> m; m.reserve(o.dm.size());
    for (auto& a : o.dm) m.push_back(make(a));
    IPF<double> q(o.idx, m);
    const NDArray<double>& a = q.solve(seed);
    Outside _;
    r.sizes = a.sizes(); r.dv.assign(a.begin(), a.end());
    r.st = { q.maxError() }; r.si = { q.conv(), q.population(), (int64_t)q.iters() };
  }
  else if (o.kind == "igr")
  {
    NDArray<double> seed = make(o.seed);
    Integeriser q(seed);
    Outside _;
    r.sizes = q.result().sizes(); r.iv.assign(q.result().begin(), q.result().end());
    r.st = { q.rmse() }; r.si = { q.conv() };
  }
  else if (o.kind == "ig1")
  {
    std::vector<double> p = o.x; double s = 0; for (double v : p) s += v; for (double& v : p) v /= s;
    double rmse = 0;
    std::vector<int> f = integeriseMarginalDistribution(p, (int)o.n[0], rmse);
    Outside _;
    r.sizes = { (int64_t)f.size() }; r.iv.assign(f.begin(), f.end()); r.st = { rmse };
  }
  else if (o.kind == "flat")
  {
    NDArray<int64_t> a = make(o.iarr);
    size_t pop = 0; for (auto v : a) pop += v;
    const std::vector<std::vector<int>> l = listify(pop, a);
    Outside _;
    r.sizes = { (int64_t)l.size(), (int64_t)pop };
    for (auto& c : l) for (int v : c) r.iv.push_back(v);
  }
  else if (o.kind == "pv")
  {
    auto p = pValue((uint32_t)o.n[0], o.x[0]);
    Outside _; r.st = { p.first }; r.si = { p.second };
  }
  else if (o.kind == "snew")   // slot dim skip
  {
    Sobol* g = new Sobol((size_t)o.n[1], (uint32_t)o.n[2]);
    delete sl.g[o.n[0]]; sl.g[o.n[0]] = g;
  }
  else if (o.kind == "sbuf")   // slot count
  {
    if (!sl.g[o.n[0]]) return;
    for (int64_t i = 0; i < o.n[1]; ++i) { const std::vector<uint32_t>& b = sl.g[o.n[0]]->buf(); Outside _; r.iv.insert(r.iv.end(), b.begin(), b.end()); }
  }
  else if (o.kind == "sop")    // slot count
  {
    if (!sl.g[o.n[0]]) return;
    for (int64_t i = 0; i < o.n[1]; ++i) { uint32_t v = (*sl.g[o.n[0]])(); Outside _; r.iv.push_back(v); }
  }
  else if (o.kind == "sskip") { if (sl.g[o.n[0]]) sl.g[o.n[0]]->skip((uint32_t)o.n[1]); }
  else if (o.kind == "sreset") { if (sl.g[o.n[0]]) sl.g[o.n[0]]->reset((uint32_t)o.n[1]); }
  else if (o.kind == "sdel") { Sobol* g = sl.g[o.n[0]]; sl.g[o.n[0]] = nullptr; delete g; }
  else if (o.kind == "nop") { }
}

struct Th { std::vector<Op> ops; Slots sl; Out out; };

std::string run_ops(int tid, Th& t, bool single)
{
  for (size_t i = 0; i < t.ops.size(); ++i)
  {
    const Op& o = t.ops[i];
    rt_point(1);
    Res r; std::string exc;
    uint64_t live0 = rt_live_blocks();
    rt_dlog_mark();
    rt_draw_set(o.dmode, o.dseed, o.exhaust);
    rt_draw_list(o.dlist.data(), o.dlist.size());
    rt_oom_arm(o.oat, o.ocount, o.oppm, o.oseed);
    uint64_t s0 = rt_steps();
    rt_inop(1);
    try { exec(o, t.sl, r); }
    catch (const std::bad_alloc& e) { rt_inop(-1); exc = "bad_alloc"; rt_inop(1); }
    catch (const std::exception& e) { rt_inop(-1); exc = std::string(typeid(e).name()) + " " + e.what(); rt_inop(1); }
    catch (...) { rt_inop(-1); exc = "unknown"; rt_inop(1); }
    rt_inop(-1);
    uint64_t fired = rt_oom_disarm();
    rt_draw_set(0, 0, -1);
    Out& u = t.out;
    u.put("R %d %zu fired %" PRIu64 " allocs %" PRIu64, tid, i, fired, rt_oom_seen());
    if (single) u.put(" live %lld steps %" PRIu64, (long long)(rt_live_blocks() - live0), rt_steps() - s0);
    else u.put(" live 0 steps 0");
    if (!exc.empty()) { for (char& c : exc) if (c == '\n') c = ' '; u.s += " E " + exc + "\n"; continue; }
    u.put(" V"); u.ia(r.sizes); u.ia(r.iv); u.put(" %zu", r.dv.size()); for (double v : r.dv) u.d(v);
    u.put(" %zu", r.st.size()); for (double v : r.st) u.d(v); u.ia(r.si);
    u.put("\n");
  }
  rt_point(2);
  return "";
}

void child(Rd r, int fd)
{
  uint64_t hs = r.u(); int fillm = r.i(), reuse = r.i(); uint64_t budget = r.u(); uint64_t memlimit = r.u();
  int nt = r.i(); uint64_t ss = r.u(), mean = r.u(), ppm = r.u(), hot = r.u();
  int dlog = r.i();
  int uselist = r.i(); std::vector<uint64_t> list;
  if (uselist) { size_t n = r.u(); for (size_t i = 0; i < 3 * n; ++i) list.push_back(r.u()); }
  std::vector<Th> th(nt);
  for (auto& t : th) { size_t n = r.u(); for (size_t i = 0; i < n; ++i) t.ops.push_back(read_op(r)); }
  rt_clear_err();
  rt_memlimit(memlimit);
  rt_reset(0, hs, fillm, reuse, budget);
  rt_dlog(dlog);
  if (nt == 1) run_ops(0, th[0], true);
  else
  {
    rt_sched_init(nt, ss, mean, (uint32_t)ppm);
    rt_sched_hot((uint32_t)hot, &__data_start, &_end);
    if (uselist) rt_sched_list(list.data(), list.size() / 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) ts.emplace_back([&th, i] { rt_thread_begin(i); run_ops(i, th[i], false); rt_thread_end(); });
    rt_run_all();
    for (auto& t : ts) t.join();
  }
  // release generators, then everything the library owns should be gone
  uint64_t before = rt_live_blocks();
  rt_inop(1);
  for (auto& t : th) for (auto& g : t.sl.g) { delete g; g = nullptr; }
  rt_inop(-1);
  rt_check_heap();
  Out o;
  for (auto& t : th) o.s += t.out.s;
  o.put("S steps %" PRIu64 " ilhash %" PRIu64 " live %" PRIu64 " %" PRIu64 "\n", rt_steps(), nt > 1 ? rt_interleaving_hash() : 0, rt_live_blocks(), before);
  if (nt > 1)
  {
    size_t n = rt_sched_log(nullptr, 0); if (n > 65536) n = 65536;
    std::vector<uint64_t> v(3 * n); rt_sched_log(v.data(), n);
    o.put("L %zu", n); for (auto x : v) o.put(" %" PRIu64, x); o.put("\n");
  }
  if (dlog)
  {
    uint32_t* p; size_t n = rt_dlog_get(&p);
    o.put("D %zu", n); for (size_t i = 0; i < n; ++i) o.put(" %u", p[i]); o.put("\n");
  }
  rt_flush_steps();
  rt_off();
  const char* p = o.s.data(); size_t n = o.s.size();
  while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; }
}

bool rdall(void* b, size_t n) { char* p = (char*)b; while (n) { ssize_t k = read(0, p, n); if (k <= 0) return false; p += k; n -= k; } return true; }
void wrall(const void* b, size_t n) { const char* p = (const char*)b; while (n) { ssize_t k = write(1, p, n); if (k <= 0) _exit(1); p += k; n -= k; } }

} // namespace

// protocol on stdin/stdout: u64 length + plan  ->  u64 status (wait status, or -1 for wall-clock timeout), u64 bad, u64 elen, err, u64 len, result
// length 0 asks for the shared statistics block (raw).
int main()
{
  rt_global_init();
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  for (;;)
  {
    uint64_t n;
    if (!rdall(&n, 8)) return 0;
    if (n == 0) { wrall(rt_shared(), 10 * 8); wrall((char*)rt_shared() + 10 * 8 + 8 + 512, 1 << 16); continue; }
    std::string plan(n, 0);
    if (!rdall(&plan[0], n)) return 0;
    int fd[2]; if (pipe(fd)) return 1;
    rt_clear_err();
    pid_t pid = fork();
    if (pid == 0)
    {
      close(fd[0]); close(0);
      // worlds without a step clock (and spins the clock cannot see) end here
      struct rlimit cpu = { 120, 121 }; setrlimit(RLIMIT_CPU, &cpu);
      child(Rd{plan.data(), plan.data() + plan.size()}, fd[1]);
      _exit(0);
    }
    close(fd[1]);
    std::string res; char buf[65536]; bool timeout = false;
    for (;;)
    {
      struct pollfd pf = { fd[0], POLLIN, 0 };
      int k = poll(&pf, 1, 500000);
      if (k == 0) { timeout = true; kill(pid, SIGKILL); break; }
      ssize_t m = read(fd[0], buf, sizeof buf);
      if (m <= 0) break;
      res.append(buf, m);
    }
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    int64_t status = timeout ? -1 : st;
    uint64_t badn = rt_bad(), el = strlen(rt_err()), len = res.size();
    wrall(&status, 8); wrall(&badn, 8); wrall(&el, 8); wrall(rt_err(), el); wrall(&len, 8); wrall(res.data(), len);
  }
}
