// C21: filter objects share nothing.
#include "hist.h"
#include "stepper.h"
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C21", "2 to 4 independent random histories, each on its own 1 to 3 objects (construction, copies among them, valid and rejected setups, samples, resets, queries), often with the same filter type and nearly the same parameters. interleaved: all histories in one thread, call by call in a random order; threads: each history in its own thread, started together and repeated. Everything returned and the final designs have to be bit-identical to the same history run alone in a process in which the library was never used before (forked from an untouched server process). races: the threaded runs under ThreadSanitizer, no report allowed. interrupted: the calls of one history are executed instruction by instruction and interrupted up to four times, at random instructions, by a signal handler that makes the next calls of another history. Non-trivial: at least two histories with an accepted setup and samples.");

struct Item { int what = 0; int obj = 0, src = 0; const Desc* d = nullptr; Op op; };  // 0 construct, 1 copy, 2 assign, 3 call, 4 destroy
typedef std::vector<Item> History;

static std::vector<History> plan(Case& c, int maxOps) {
  Filt q; q.sos = true;
  std::vector<History> hs(2 + c.draw(3));
  const Desc* first = &desc(c, q);
  std::vector<Op> shared;
  int id = 0;
  for (auto& h : hs) {
    const Desc* live[3] = {nullptr, nullptr, nullptr};
    c.note << "history " << id++ << ": ";
    int n = 3 + (int)c.draw(maxOps);
    for (int i = 0; i < n; ++i) {
      Item t; t.obj = (int)c.draw(3);
      if (!live[t.obj]) {
        t.src = (int)c.draw(3);
        if (live[t.src]) { t.what = 1; t.d = live[t.src]; }
        else { t.what = 0; t.d = c.chance(1, 3) ? &desc(c, q) : first; }
        live[t.obj] = t.d;
        c.note << t.obj << (t.what ? "=copy of " + std::to_string(t.src) : "=" + t.d->name) << "; ";
        h.push_back(t);
        continue;
      }
      t.d = live[t.obj];
      int k = (int)c.draw(12);
      if (k == 0) {
        t.src = (int)c.draw(3);
        if (live[t.src] != t.d) continue;
        t.what = 2; c.note << t.obj << "=" << t.src << "; ";
      } else if (k == 1) { t.what = 4; live[t.obj] = nullptr; c.note << "destroy " << t.obj << "; "; }
      else {
        t.what = 3;
        if (k <= 5) {
          if (!shared.empty() && t.d == first && c.flip()) {  // one value changed in a setup some history uses
            t.op = c.pick(shared);
            if (c.flip() && t.d->np > 0) t.op.a[c.draw(t.d->np)] *= c.flip() ? c.real(0.9, 1.0) : 1 - c.logreal(1e-16, 1e-2);
          } else t.op = c.chance(1, 8) ? hist::invalidSetup(c, *t.d) : hist::validSetup(c, *t.d);
          if (t.d == first) shared.push_back(t.op);
        } else if (k <= 8) t.op = hist::filterOp(c, 6);
        else if (k == 9) t.op.t = Op::RESET;
        else { t.op.t = Op::RESP; t.op.f = c.real(0, 0.5); }
        c.note << t.obj << "." << hist::show(*t.d, t.op) << "; ";
      }
      h.push_back(t);
    }
  }
  return hs;
}

struct Runner {
  Obj o[3];
  bool ok[3] = {true, true, true};
  std::vector<double> log;
  bool stepped = false;  // may be interrupted at any instruction (only where nothing is allocated)
  void on() { if (stepped) stepper::on(); }
  void off() { if (stepped) stepper::off(); }
  int setup(Obj& a, const Item& t) {
    if (!t.op.valid) return hist::trySetup(*a, *t.d, t.op);
    int r = 0;
    on(); r = hist::trySetup(*a, *t.d, t.op); off();
    return r;
  }
  hist::Result apply(Obj& a, const Item& t) {
    if (!stepped) return hist::apply(*a, *t.d, t.op);
    hist::Result r;
    switch (t.op.t) {
      case Op::SETUP: r.threw = setup(a, t); break;
      case Op::FILTER: r.y.resize(t.op.x.size()); on(); if (!t.op.x.empty()) a->run(t.op.x.data(), r.y.data(), t.op.x.size()); off(); break;
      case Op::RESET: on(); a->reset(); off(); break;
      default: { std::complex<double> h; on(); h = a->response(t.op.f); off(); log.push_back(h.real()); break; }
    }
    return r;
  }
  void step(const Item& t) {
    Obj& a = o[t.obj];
    switch (t.what) {
      case 0: { Obj n; n.alloc(*t.d, 0x77); on(); n.f = t.d->make(n.mem); off(); a = std::move(n); ok[t.obj] = true; break; }
      case 1: { Obj n; n.alloc(*t.d, 0x77); on(); n.f = o[t.src]->copyTo(n.mem); off(); a = std::move(n); ok[t.obj] = ok[t.src]; break; }
      case 2: on(); a->assign(*o[t.src]); off(); ok[t.obj] = ok[t.src]; break;
      case 4: a.clear(); break;
      default: {
        auto r = apply(a, t);
        if (!stepped && t.op.t == Op::RESP) { double h = 0; try { h = a->response(t.op.f).real(); } catch (const std::invalid_argument&) {} log.push_back(h); }
        log.push_back(r.threw);
        if (t.op.t == Op::SETUP) ok[t.obj] = r.threw == 0;
        if (t.op.t == Op::RESP && !r.threw) { auto h = a->response(t.op.f); log.push_back(h.real()); log.push_back(h.imag()); }
        for (double v : r.y) log.push_back(v);
      }
    }
  }
  void finish() {
    for (int i = 0; i < 3; ++i) if (o[i].f) {
      auto s = hist::snap(*o[i], *o[i].d, ok[i]);
      for (double v : s.v) log.push_back(v);
      try { for (auto& e : o[i]->cascadePoleZeros()) { log.push_back(e.p1.real()); log.push_back(e.p2.imag()); log.push_back(e.z1.real()); } } catch (const std::invalid_argument&) { log.push_back(-1); }
    }
    for (auto& x : o) x.clear();
  }
};
static std::vector<double> alone(const History& h) { Runner r; for (auto& t : h) r.step(t); r.finish(); return r.log; }

// ---- a process in which the library has not been used -------------------
static bool rd(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
static bool wr(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
static int server() {
  static int fd = -1; static pid_t owner = 0;
  if (fd >= 0 && owner == getpid()) return fd;
  int s[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return -1;
  registry();
  pid_t p = fork();
  if (p == 0) {
    close(s[0]);
    for (;;) {
      uint64_t n, which;
      if (!rd(s[1], &n, 8)) _exit(0);
      std::vector<uint64_t> ch(n);
      if (!rd(s[1], ch.data(), 8 * n) || !rd(s[1], &which, 8)) _exit(0);
      pid_t k = fork();
      if (k == 0) {
        Case c; c.replay = &ch;
        auto h = plan(c, (int)(which >> 8));
        auto v = alone(h[which & 255]);
        uint64_t m = v.size();
        wr(s[1], &m, 8); wr(s[1], v.data(), 8 * m);
        _exit(0);
      }
      int st = 0; waitpid(k, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { uint64_t m = ~0ull; wr(s[1], &m, 8); }
    }
  }
  close(s[1]);
  fd = s[0]; owner = getpid();
  return fd;
}
static std::vector<double> aloneElsewhere(Case& c, const std::vector<uint64_t>& choices, size_t which, int maxOps) {
  int fd = server();
  uint64_t n = choices.size(), w = which | (uint64_t)maxOps << 8, m = 0;
  if (!wr(fd, &n, 8) || !wr(fd, choices.data(), 8 * n) || !wr(fd, &w, 8) || !rd(fd, &m, 8)) c.fail("the process running a history alone has ended");
  CHECK(m != ~0ull, "history " << which << " crashes when it runs alone");
  std::vector<double> v(m);
  if (!rd(fd, v.data(), 8 * m)) c.fail("the process running a history alone has ended");
  return v;
}
static void compare(Case& c, const std::vector<double>& got, const std::vector<double>& want, size_t which, const char* how) {
  CHECK(got.size() == want.size(), "history " << which << " returns " << got.size() << " values " << how << " and " << want.size() << " alone");
  for (size_t i = 0; i < got.size(); ++i) CHECK(same(got[i], want[i]), "history " << which << " returns " << fmt(got[i]) << " as value " << i << " " << how << ", and " << fmt(want[i]) << " when it runs alone in a fresh process");
}
static bool busy(const std::vector<History>& hs) {
  int n = 0;
  for (auto& h : hs) { bool s = false, f = false; for (auto& t : h) if (t.what == 3) { if (t.op.t == Op::SETUP && t.op.valid) s = true; if (t.op.t == Op::FILTER) f = true; } if (s && f) ++n; }
  return n >= 2;
}

PROPERTY("C21", interleaved, 12000, 400000) {
  server();
  const int maxOps = 12;
  auto hs = plan(c, maxOps);
  auto choices = c.rec;
  std::vector<Runner> r(hs.size());
  std::vector<size_t> pos(hs.size(), 0);
  for (;;) {
    std::vector<size_t> left;
    for (size_t i = 0; i < hs.size(); ++i) if (pos[i] < hs[i].size()) left.push_back(i);
    if (left.empty()) break;
    size_t i = c.pick(left);
    r[i].step(hs[i][pos[i]++]);
  }
  for (size_t i = 0; i < hs.size(); ++i) { r[i].finish(); compare(c, r[i].log, aloneElsewhere(c, choices, i, maxOps), i, "interleaved with the others"); }
  c.nontrivial(busy(hs));
}

PROPERTY("C21", interrupted, 4000, 120000) {
  server();
  const int maxOps = 8;
  auto hs = plan(c, maxOps);
  auto choices = c.rec;
  hs.resize(2);
  uint64_t gap[4]; int n = 1 + (int)c.draw(4), at = 1;
  for (int i = 0; i < n; ++i) { gap[i] = (uint64_t)c.logreal(1, 15000); c.note << (i ? ", then " : "| interrupted after ") << gap[i]; }
  c.note << " instructions";
  if (!stepper::works()) { c.label("no single-stepping here"); return; }
  { Runner a, b; for (auto& t : hs[0]) a.step(t); for (auto& t : hs[1]) b.step(t); }  // constants initialised at their first use
  Runner a, b;
  a.stepped = true;
  size_t pos = 0;
  int slice = 1 + (int)c.draw(4);
  stepper::run([&]() -> uint64_t {
    for (int k = 0; k < slice && pos < hs[1].size(); ++k) b.step(hs[1][pos++]);
    return at < n && pos < hs[1].size() ? gap[at++] : 0;
  }, gap[0], [&] { for (auto& t : hs[0]) a.step(t); });
  int hits = (int)stepper::hits;
  while (pos < hs[1].size()) b.step(hs[1][pos++]);
  a.stepped = false;
  a.finish(); b.finish();
  compare(c, a.log, aloneElsewhere(c, choices, 0, maxOps), 0, "interrupted by the other history");
  compare(c, b.log, aloneElsewhere(c, choices, 1, maxOps), 1, "in a signal handler");
  c.label(hits ? "interrupted" : "ended before");
  c.nontrivial(hits > 0 && busy(hs));
}

static std::vector<std::vector<double>> threaded(const std::vector<History>& hs, int repeat) {
  std::vector<std::vector<double>> out(hs.size());
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (size_t i = 0; i < hs.size(); ++i)
    t.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < (int)hs.size()) {}
      std::vector<double> all;
      for (int k = 0; k < repeat; ++k) { auto v = alone(hs[i]); all.insert(all.end(), v.begin(), v.end()); }
      out[i] = all;
    });
  for (auto& x : t) x.join();
  return out;
}
PROPERTY("C21", threads, 1500, 60000) {
  server();
  const int maxOps = 15;
  auto hs = plan(c, maxOps);
  auto choices = c.rec;
  const int repeat = 12;
  auto out = threaded(hs, repeat);
  for (size_t i = 0; i < hs.size(); ++i) {
    auto one = aloneElsewhere(c, choices, i, maxOps), want = one;
    for (int k = 1; k < repeat; ++k) want.insert(want.end(), one.begin(), one.end());
    compare(c, out[i], want, i, "in a thread next to the others");
  }
  c.nontrivial(busy(hs));
}
PROPERTY("C21", races, 1500, 60000) {
  registry();
  auto hs = plan(c, 15);
  threaded(hs, 3);
  c.nontrivial(busy(hs));
}
