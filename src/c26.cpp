// C26: filters work before main() and until the very end of the process.
#include "hist.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C26", "a random history over up to 3 objects (construction, copies, accepted and rejected setups, samples, resets, queries) is cut into three random parts: this executable is started again and runs the first part while static objects are being initialised (before the initialisers of the library's own translation units), the second one in main() and the third one while static objects are destroyed (after those of the library), on the same objects throughout. Everything returned and the final designs have to be bit-identical to the same history run in one go in main() of the parent. Non-trivial: an accepted setup before main() and another call at exit.");

struct Item { int what = 0; int obj = 0, src = 0; const Desc* d = nullptr; Op op; };  // 0 construct, 1 copy, 2 assign, 3 call, 4 destroy
struct Plan { std::vector<Item> h; size_t cut1 = 0, cut2 = 0; };
static Plan plan(Case& c) {
  Plan p;
  Filt q; q.sos = true;
  const Desc* live[3] = {nullptr, nullptr, nullptr};
  int n = 4 + (int)c.draw(20);
  for (int i = 0; i < n; ++i) {
    Item t; t.obj = (int)c.draw(3);
    if (!live[t.obj]) {
      t.src = (int)c.draw(3);
      if (live[t.src]) { t.what = 1; t.d = live[t.src]; } else { t.what = 0; t.d = &desc(c, q); }
      live[t.obj] = t.d;
      c.note << t.obj << (t.what ? "=copy of " + std::to_string(t.src) : "=" + t.d->name) << "; ";
      p.h.push_back(t);
      continue;
    }
    t.d = live[t.obj];
    int k = (int)c.draw(12);
    if (k == 0) { t.src = (int)c.draw(3); if (live[t.src] != t.d) continue; t.what = 2; c.note << t.obj << "=" << t.src << "; "; }
    else if (k == 1) { t.what = 4; live[t.obj] = nullptr; c.note << "destroy " << t.obj << "; "; }
    else {
      t.what = 3;
      if (k <= 6) t.op = c.chance(1, 6) ? hist::invalidSetup(c, *t.d) : hist::validSetup(c, *t.d);
      else if (k <= 9) t.op = hist::filterOp(c, 8, 1100);
      else if (k == 10) t.op.t = Op::RESET;
      else { t.op.t = Op::RESP; t.op.f = c.real(0, 0.5); }
      hist::often(c, t.op, 1100);
      c.note << t.obj << "." << hist::show(*t.d, t.op) << "; ";
    }
    p.h.push_back(t);
  }
  p.cut1 = c.draw(p.h.size() + 1); p.cut2 = p.cut1 + c.draw(p.h.size() - p.cut1 + 1);
  c.note << "(main() from step " << p.cut1 << ", exit from step " << p.cut2 << ")";
  return p;
}
struct Runner {
  Obj o[3];
  bool ok[3] = {true, true, true};
  std::vector<double> log;
  void step(const Item& t) {
    Obj& a = o[t.obj];
    switch (t.what) {
      case 0: a = Obj(*t.d); ok[t.obj] = true; break;
      case 1: { Obj n; n.alloc(*t.d, 0x77); n.f = o[t.src]->copyTo(n.mem); a = std::move(n); ok[t.obj] = ok[t.src]; break; }
      case 2: a->assign(*o[t.src]); ok[t.obj] = ok[t.src]; break;
      case 4: a.clear(); break;
      default: {
        auto r = hist::apply(*a, *t.d, t.op);
        log.push_back(r.threw);
        if (t.op.t == Op::SETUP) ok[t.obj] = r.threw == 0;
        if (t.op.t == Op::RESP && !r.threw) { auto h = a->response(t.op.f); log.push_back(h.real()); log.push_back(h.imag()); }
        for (double v : r.y) log.push_back(v);
      }
    }
  }
  void snap() { for (int i = 0; i < 3; ++i) if (o[i].f) { auto s = hist::snap(*o[i], *o[i].d, ok[i]); for (double v : s.v) log.push_back(v); } }
};
static void part(Runner& r, const Plan& p, int which) {
  size_t a = which == 0 ? 0 : which == 1 ? p.cut1 : p.cut2, b = which == 0 ? p.cut1 : which == 1 ? p.cut2 : p.h.size();
  for (size_t i = a; i < b; ++i) r.step(p.h[i]);
  r.snap();
}

// ---- in the restarted process: several cases at a time ---------------------
struct Early { std::vector<Plan> p; std::vector<Runner*> r; };
static Early* g_early;  // nothing of this needs an initialiser
static int g_fd = -1;
__attribute__((constructor(101))) static void beforeEverything() {
  const char* e = getenv("IIR_STATIC_CASES");
  if (!e) return;
  g_fd = atoi(e);
  uint64_t n = 0;
  if (pread(g_fd, &n, 8, 0) != 8) _exit(70);
  g_early = new Early;
  off_t at = 8;
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t m = 0;
    if (pread(g_fd, &m, 8, at) != 8) _exit(71);
    std::vector<uint64_t> ch(m);
    if (pread(g_fd, ch.data(), 8 * m, at + 8) != (ssize_t)(8 * m)) _exit(72);
    at += 8 + 8 * m;
    Case c; c.replay = &ch;
    g_early->p.push_back(plan(c));
    g_early->r.push_back(new Runner);
    part(*g_early->r.back(), g_early->p.back(), 0);
  }
}
__attribute__((destructor(101))) static void afterEverything() {
  if (!g_early) return;
  off_t at = 0;
  if (ftruncate(g_fd, 0)) _exit(73);
  for (size_t i = 0; i < g_early->p.size(); ++i) {
    part(*g_early->r[i], g_early->p[i], 2);
    auto& l = g_early->r[i]->log;
    uint64_t m = l.size();
    if (pwrite(g_fd, &m, 8, at) != 8 || pwrite(g_fd, l.data(), 8 * m, at + 8) != (ssize_t)(8 * m)) _exit(74);
    at += 8 + 8 * m;
  }
  _exit(0);
}
extern "C" int pbt_alt_main(int, char**) {
  if (!g_early) return -1;
  for (size_t i = 0; i < g_early->p.size(); ++i) part(*g_early->r[i], g_early->p[i], 1);
  return 0;
}

PROPERTY("C26", before_main_and_at_exit, 10000, 300000) {
  const int K = 4;
  std::vector<Plan> ps; std::vector<uint64_t> buf{(uint64_t)0};
  int n = 1 + (int)c.draw(K);
  buf[0] = n;
  bool nt = false;
  for (int i = 0; i < n; ++i) {
    size_t from = c.rec.size();
    c.note << (i ? " || " : "");
    Plan p = plan(c);
    buf.push_back(c.rec.size() - from);
    buf.insert(buf.end(), c.rec.begin() + from, c.rec.end());
    bool s = false;
    for (size_t k = 0; k < p.cut1; ++k) if (p.h[k].what == 3 && p.h[k].op.t == Op::SETUP && p.h[k].op.valid) s = true;
    if (s && p.cut2 < p.h.size()) nt = true;
    ps.push_back(p);
  }
  int fd = memfd_create("cases", 0);
  if (fd < 0 || write(fd, buf.data(), 8 * buf.size()) != (ssize_t)(8 * buf.size())) { if (fd >= 0) close(fd); c.label("no memory file"); return; }
  pid_t pid = fork();
  if (pid == 0) {
    setenv("IIR_STATIC_CASES", std::to_string(fd).c_str(), 1);
    char* const argv[] = {(char*)"static", nullptr};
    execv("/proc/self/exe", argv);
    _exit(75);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  struct Close { int fd; ~Close() { close(fd); } } cl{fd};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 75) { c.label("cannot start the executable again"); return; }
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process using filters before main() and at exit ends with status " << (WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)));
  off_t at = 0;
  for (int i = 0; i < n; ++i) {
    Runner r;
    for (int k = 0; k < 3; ++k) part(r, ps[i], k);
    uint64_t m = 0;
    CHECK(pread(fd, &m, 8, at) == 8 && m == r.log.size(), "history " << i << " returns " << m << " values instead of " << r.log.size());
    std::vector<double> got(m);
    CHECK(pread(fd, got.data(), 8 * m, at + 8) == (ssize_t)(8 * m), "the process using filters before main() ended early");
    at += 8 + 8 * m;
    for (size_t k = 0; k < m; ++k) CHECK(same(got[k], r.log[k]), "history " << i << " returns " << fmt(got[k]) << " as value " << k << " instead of " << fmt(r.log[k]));
  }
  c.nontrivial(nt);
}
