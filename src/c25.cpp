// C25: a filter nobody modifies can be read by several threads at once.
#include "hist.h"
#include "stepper.h"
#include <atomic>
#include <thread>
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C25", "a filter is brought into a random state (construction, copies, accepted and rejected setups, samples, resets); then 2 to 4 threads at once, each several times, ask it for frequency responses, pole/zero pairs, number of sections and coefficients, copy it, pass it by value, assign it to objects of their own and filter, re-tune and reset those copies. reads: all answers have to be bit-identical to those of an identically treated twin asked by one thread only, and the shared object gives the same samples as the twin afterwards. races: the same under ThreadSanitizer, no report allowed. interrupted: the first reader is executed instruction by instruction and interrupted up to four times, at random instructions, by a signal handler that runs the second reader on the same object; both get the twin's answers. Non-trivial: an accepted setup before and at least two threads with three kinds of reads (interrupted: at least one interruption).");

struct Read { int what = 0; double f = 0; int n = 0; std::vector<double> x; Op op; };
struct Plan { const Desc* d; std::vector<Op> before; std::vector<std::vector<Read>> threads; bool ok = true; std::vector<double> after; };

static Plan plan(Case& c, int threads = 0) {
  Plan p;
  Filt q; q.sos = true;
  p.d = &desc(c, q);
  c.note << p.d->name << ": ";
  int n = 1 + (int)c.draw(4); bool setup = false;
  for (int i = 0; i < n; ++i) {
    Op o;
    switch (c.draw(6)) {
      case 0: case 1: case 2: o = c.chance(1, 10) ? hist::invalidSetup(c, *p.d) : hist::validSetup(c, *p.d); p.ok = setup = o.valid; break;
      case 3: case 4: o = hist::filterOp(c, 8, threads ? 0 : 1100); break;
      default: o.t = Op::RESET;
    }
    p.before.push_back(o);
    c.note << hist::show(*p.d, o) << "; ";
  }
  int nt = threads ? threads : 2 + (int)c.draw(3), rich = 0;
  double shared = c.real(0, 0.5);
  for (int t = 0; t < nt; ++t) {
    std::vector<Read> v; unsigned kinds = 0;
    c.note << "| thread " << t << ": ";
    int m = 1 + (int)c.draw(6);
    for (int i = 0; i < m; ++i) {
      Read r; r.what = (int)c.draw(8);
      static const char* nm[] = {"response", "response", "coefficients", "pole/zeros", "copy", "by value", "assign from", "sections' pole/zeros"};
      kinds |= 1u << r.what;
      c.note << nm[r.what] << " ";
      if (r.what <= 1) { r.f = c.flip() ? shared : c.real(0, 0.5); c.note << fmt(r.f) << " "; }
      if (r.what >= 4 && r.what <= 6) { r.x = signal(c, 6); if (c.flip()) r.op = hist::validSetup(c, *p.d); else r.op.t = Op::RESET; c.note << hist::show(*p.d, r.op) << " "; }
      v.push_back(r);
    }
    if (__builtin_popcount(kinds) >= 3) ++rich;
    p.threads.push_back(v);
  }
  p.after = signal(c, 8);
  c.nontrivial(setup && rich >= (threads ? 1 : 2));
  return p;
}

static std::vector<double> reads(IFilter& f, const Plan& p, const std::vector<Read>& rs) {
  std::vector<double> log; double q[6];
  for (auto& r : rs) switch (r.what) {
    case 0: case 1: { auto h = f.response(r.f); log.push_back(h.real()); log.push_back(h.imag()); break; }
    case 2: { int n = f.numStages(); log.push_back(n); for (int i = 0; i < n; ++i) { f.stage(i, q); log.insert(log.end(), q, q + 6); } break; }
    case 3: try { if (p.d->fam == SOS || !p.ok) break; for (auto& e : f.poleZeros()) { log.push_back(e.p1.real()); log.push_back(e.p1.imag()); log.push_back(e.p2.real()); log.push_back(e.z1.real()); log.push_back(e.z2.imag()); } } catch (const std::invalid_argument&) { log.push_back(-1); } break;
    case 7: try {
        // recovered from the coefficients
        auto put = [&](const std::vector<PZ>& v) { for (auto& e : v) { log.push_back(e.p1.real()); log.push_back(e.p2.imag()); log.push_back(e.z1.real()); log.push_back(e.z2.real()); } log.push_back((double)v.size()); };
        put(f.cascadePoleZeros());
        if (f.numStages() > 0) put(f.sectionPoleZeros(f.numStages() - 1));
      } catch (const std::invalid_argument&) { log.push_back(-1); }
      break;
    default: {
      Obj o;
      if (r.what == 6) { o = Obj(*p.d); o->assign(f); }
      else { o.alloc(*p.d, 0x44); o.f = r.what == 4 ? f.copyTo(o.mem) : f.byValue(o.mem); }
      for (double x : r.x) log.push_back(o->fd(x));
      hist::apply(*o, *p.d, r.op);
      for (double x : r.x) log.push_back(o->fd(x));
    }
  }
  return log;
}
static void prepare(Obj& o, const Plan& p) { o = Obj(*p.d); for (auto& op : p.before) hist::apply(*o, *p.d, op); }
static std::vector<std::vector<double>> together(Obj& o, const Plan& p, int repeat) {
  std::vector<std::vector<double>> out(p.threads.size());
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (size_t i = 0; i < p.threads.size(); ++i)
    t.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < (int)p.threads.size()) {}
      std::vector<double> all;
      for (int k = 0; k < repeat; ++k) { auto v = reads(*o, p, p.threads[i]); all.insert(all.end(), v.begin(), v.end()); }
      out[i] = all;
    });
  for (auto& x : t) x.join();
  return out;
}

PROPERTY("C25", reads_of_a_shared_filter, 8000, 250000) {
  Plan p = plan(c);
  Obj a, b; prepare(a, p); prepare(b, p);
  const int repeat = 10;
  auto got = together(a, p, repeat);
  for (size_t i = 0; i < p.threads.size(); ++i) {
    std::vector<double> want;
    for (int k = 0; k < repeat; ++k) { auto v = reads(*b, p, p.threads[i]); want.insert(want.end(), v.begin(), v.end()); }
    CHECK(got[i].size() == want.size(), "thread " << i << " gets " << got[i].size() << " values instead of " << want.size());
    for (size_t k = 0; k < want.size(); ++k) CHECK(same(got[i][k], want[k]), "thread " << i << " gets " << fmt(got[i][k]) << " as value " << k << " instead of " << fmt(want[k]));
  }
  std::vector<double> ya(p.after.size()), yb(ya);
  a->run(p.after.data(), ya.data(), ya.size()); b->run(p.after.data(), yb.data(), yb.size());
  std::string d = hist::diffOut(ya, yb);
  CHECK(d.empty(), "after being read, " << d);
}
PROPERTY("C25", interrupted, 5000, 150000) {
  Plan p = plan(c, 2);
  uint64_t gap[4]; int n = 1 + (int)c.draw(4), at = 1;
  for (int i = 0; i < n; ++i) { gap[i] = (uint64_t)c.logreal(1, 15000); c.note << (i ? ", then " : "| interrupted after ") << gap[i]; }
  c.note << " instructions";
  if (!stepper::works()) { c.isNontrivial = false; c.label("no single-stepping here"); return; }
  Obj a, b; prepare(a, p); prepare(b, p);
  auto want0 = reads(*b, p, p.threads[0]), want1 = reads(*b, p, p.threads[1]);
  std::vector<double> got0; std::vector<std::vector<double>> got1;
  stepper::run([&]() -> uint64_t { got1.push_back(reads(*a, p, p.threads[1])); return at < n ? gap[at++] : 0; }, gap[0],
               [&] { stepper::on(); got0 = reads(*a, p, p.threads[0]); stepper::off(); });
  c.label(got1.empty() ? "ended before" : "interrupted");
  if (got1.empty()) c.isNontrivial = false;
  auto compare = [&](const std::vector<double>& got, const std::vector<double>& want, const char* who) {
    CHECK(got.size() == want.size(), who << " gets " << got.size() << " values instead of " << want.size());
    for (size_t k = 0; k < want.size(); ++k) CHECK(same(got[k], want[k]), who << " gets " << fmt(got[k]) << " as value " << k << " instead of " << fmt(want[k]));
  };
  compare(got0, want0, "the interrupted reader");
  for (auto& g : got1) compare(g, want1, "the reader in the signal handler");
  std::vector<double> ya(p.after.size()), yb(ya);
  a->run(p.after.data(), ya.data(), ya.size()); b->run(p.after.data(), yb.data(), yb.size());
  std::string d = hist::diffOut(ya, yb);
  CHECK(d.empty(), "after being read, " << d);
}
PROPERTY("C25", races, 5000, 120000) {
  registry();
  Plan p = plan(c);
  Obj a; prepare(a, p);
  together(a, p, 3);
}
