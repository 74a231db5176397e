// C27: bounded work per call.  The library and the filters are compiled with
// -fsanitize-coverage=trace-pc; the callback counts the basic blocks executed.
#include "hist.h"
#include "wrap.h"
#include <limits>
using namespace pbt;
using namespace gen;
using hist::Op;

namespace work {
static bool active = false;
static uint64_t blocks = 0;
static uintptr_t lo = ~(uintptr_t)0;
}
extern "C" __attribute__((no_sanitize_coverage, no_sanitize("undefined"))) void __sanitizer_cov_trace_pc(void) {
  if (!work::active) return;
  ++work::blocks;
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  if (here < work::lo) work::lo = here;
}

RULE("C27", "random histories over up to 2 objects of random types: accepted and rejected setups (ordinary and extreme parameters), samples of several types (ordinary signals, silence, denormals, huge values, infinities and NaN), long runs, resets, queries, copies. The number of basic blocks of library code executed by every single call is counted (-fsanitize-coverage=trace-pc), with the depth of the stack (and the size of the object). Filtering one sample has to stay below a bound proportional to the number of sections, whatever happened before (also the first sample after a setup and the last of a long run); setup, rejected setup, reset, query and copy below bounds proportional to the order. Non-trivial: an accepted setup and at least ten counted samples of two kinds of values.");

template <class F> __attribute__((noinline)) static uint64_t counted(size_t& stack, F call) {
  uintptr_t top = (uintptr_t)__builtin_frame_address(0);
  work::lo = top; work::blocks = 0; work::active = true;
  call();
  work::active = false;
  stack = top - work::lo;
  return work::blocks;
}

PROPERTY("C27", bounded_work, 500000, 8000000) {
  Filt q; q.sos = true;
  struct Off { ~Off() { work::active = false; } } off;
  Obj o[2];
  bool setup = false; unsigned kinds = 0; int samples = 0;
  auto judge = [&](const char* op, const Desc& d, uint64_t n, size_t stack, double perSection, double fixed) {
    const int S = d.storageStages;
    const double limit = fixed + perSection * S;
    c.metric(std::string("blocks / bound: ") + op, n / limit);
    CHECK(n <= limit, op << " of " << d.name << " executes " << n << " basic blocks, more than " << limit);
    const double smax = 8192 + 4.0 * d.size;
    c.metric(std::string("stack / bound: ") + op, stack / smax);
    CHECK(stack <= smax, op << " of " << d.name << " (" << d.size << " bytes) uses " << stack << " bytes of stack");
    const double most = 1024 + 640.0 * S;
    c.metric("size of the object / bound", d.size / most);
    CHECK(d.size <= most, d.name << " with " << S << " sections takes " << d.size << " bytes");
    c.label(op);
  };
  int n = 3 + (int)c.draw(14);
  for (int i = 0; i < n; ++i) {
    int k = i == 0 ? 0 : (int)c.draw(2);
    Obj& a = o[k];
    size_t st;
    if (!a.f) {
      const Obj& other = o[1 - k];
      const Desc& d = other.f && c.flip() ? *other.d : desc(c, q);
      Obj nw; nw.alloc(d, 0xA5);
      bool copy = other.f && other.d == &d && c.flip();
      c.note << k << (copy ? "=copy; " : "=" + d.name + "; ");
      uint64_t w = counted(st, [&] { nw.f = copy ? other.f->copyTo(nw.mem) : d.make(nw.mem); });
      judge(copy ? "copy" : "construction", d, w, st, 20, 100);
      a = std::move(nw);
      continue;
    }
    const Desc& d = *a.d;
    switch (c.draw(8)) {
      case 0: case 1: {
        Op op = hist::validSetup(c, d);
        if (d.fam != SOS && c.chance(1, 3)) {
          Params p = extreme(c, d);
          op = Op(); op.form = Op::N; op.order = p.order; p.args(d, op.a);
          if (d.pole()) op.form = Op::NO;
        }
        c.note << k << "." << hist::show(d, op) << "; ";
        int r = 0;
        uint64_t w = counted(st, [&] { r = hist::trySetup(*a, d, op); });
        judge(r ? "rejected setup" : "setup", d, w, st, 250, 300);
        setup = setup || r == 0;
        break;
      }
      case 2: {
        Op op = hist::invalidSetup(c, d);
        c.note << k << "." << hist::show(d, op) << "; ";
        int r = 0;
        uint64_t w = counted(st, [&] { r = hist::trySetup(*a, d, op); });
        judge("rejected setup", d, w, st, 250, 300);
        break;
      }
      case 3: case 4: case 5: {
        static const double odd[] = {0.0, 5e-324, 1e-310, 1e308, -1e308, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e-160};
        int m = c.chance(1, 40) ? 3000 + (int)c.draw(3000) : 1 + (int)c.draw(30);
        int what = (int)c.draw(4), type = (int)c.draw(3);
        static const char* tn[] = {"double", "float", "long double"};
        c.note << k << ".filter " << m << " " << tn[type] << " samples; ";
        double v0 = c.pick(odd), amp = c.logreal(1e-3, 1e3);
        uint64_t worst = 0; size_t wst = 0;
        volatile double sink = 0;
        for (int j = 0; j < m; ++j) {
          double x = what == 0 ? (j == 0 ? amp : 0) : what == 1 ? v0 : what == 2 ? amp * std::sin(0.37 * j) : (j % 7 == 3 ? v0 : amp);
          uint64_t w;
          switch (type) {
            case 1: { float f = (float)x; w = counted(st, [&] { sink = a.f->ff(f); }); break; }
            case 2: w = counted(st, [&] { sink = (double)a.f->fl(x); }); break;
            default: w = counted(st, [&] { sink = a.f->fd(x); });
          }
          worst = std::max(worst, w); wst = std::max(wst, st);
        }
        (void)sink;
        judge("filter", d, worst, wst, 8, 24);
        samples += m; kinds |= 1u << what;
        break;
      }
      case 6: {
        int t = (int)c.draw(3); uint64_t w; double q6[6];
        if (t == 0) { c.note << k << ".reset; "; w = counted(st, [&] { a.f->reset(); }); judge("reset", d, w, st, 12, 24); }
        else if (t == 1) { double f = c.chance(1, 4) ? (c.flip() ? 1 : -1) * c.logreal(1e-300, 1e300) : c.real(0, 0.5); volatile double sink = 0; c.note << k << ".response " << f << "; "; w = counted(st, [&] { try { sink = std::abs(a.f->response(f)); } catch (const std::invalid_argument&) {} }); judge("response", d, w, st, 60, 80); }
        else { c.note << k << ".getPoleZeros; "; int ns = a.f->numStages(); if (ns) counted(st, [&] { a.f->stage(ns - 1, q6); }); w = counted(st, [&] { try { (void)a.f->poleZeros(); } catch (const std::invalid_argument&) {} }); judge("pole/zero query", d, w, st, 200, 300); }
        break;
      }
      default: {
        if (o[1 - k].f && o[1 - k].d == &d) { c.note << k << "=" << 1 - k << "; "; uint64_t w = counted(st, [&] { a.f->assign(*o[1 - k].f); }); judge("assignment", d, w, st, 20, 100); }
        else { c.note << "destroy " << k << "; "; a.clear(); }
      }
    }
  }
  c.nontrivial(setup && samples >= 10 && __builtin_popcount(kinds) >= 2);
}

// Sections that are placed by hand take any angle and any size
PROPERTY("C27", single_sections, 60000, 800000) {
  struct Off { ~Off() { work::active = false; } } off;
  Iir::Custom::OnePole one; Iir::Custom::TwoPole two; Iir::Biquad b; Iir::RBJ::LowPass r;
  auto any = [&] {
    switch (c.draw(6)) {
      case 0: return 0.0;
      case 1: return c.real(-7, 7);
      case 2: { static const double odd[] = {5e-324, 1e-310, 1e308, -1e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e17, -1e17, 0.5, 1.0}; return c.pick(odd); }
      case 3: return (double)c.range(-1000000, 1000000);
      default: return (c.flip() ? 1 : -1) * c.logreal(1e-300, 1e300);
    }
  };
  typedef std::complex<double> cd;
  int n = 1 + (int)c.draw(8);
  for (int i = 0; i < n; ++i) {
    size_t st; uint64_t w = 0;
    double q[6]; for (double& v : q) v = any();
    const int k = (int)c.draw(9);
    static const char* what[] = {"OnePole::setup", "TwoPole::setup", "setCoefficients", "setOnePole", "setTwoPole", "applyScale", "response", "pole/zero query", "RBJ setup"};
    c.note << what[k] << "("; for (double v : q) c.note << " " << fmt(v); c.note << "); ";
    volatile double sink = 0;
    auto run = [&](auto call) { w = counted(st, [&] { try { call(); } catch (const std::invalid_argument&) { c.label("rejected"); } }); };
    switch (k) {
      case 0: run([&] { one.setup(q[0], q[1], q[2]); }); break;
      case 1: run([&] { two.setup(q[0], q[1], q[2], q[3], q[4]); }); break;
      case 2: run([&] { b.setCoefficients(q[0], q[1], q[2], q[3], q[4], q[5]); }); break;
      case 3: run([&] { b.setOnePole(cd(q[0], c.flip() ? 0 : q[1]), cd(q[2], 0)); }); break;
      case 4: { cd p(q[0], q[1]), z(q[2], q[3]); run([&] { b.setTwoPole(p, z, std::conj(p), std::conj(z)); }); break; }
      case 5: run([&] { b.applyScale(q[0]); }); break;
      case 6: { const Iir::Biquad* at[] = {&one, &two, &b, &r}; auto* s = c.pick(at); run([&] { sink = s->response(q[0]).real(); }); break; }
      case 7: { const Iir::Biquad* at[] = {&one, &two, &b, &r}; auto* s = c.pick(at); run([&] { sink = (double)s->getPoleZeros().size(); }); break; }
      default: run([&] { r.setupN(q[0], q[1]); });
    }
    (void)sink;
    // the callback also counts the label above
    CHECK(w <= 1500, what[k] << " executes " << w << " basic blocks");
    c.metric(std::string("blocks / bound: ") + what[k], w / 1500.0);
    CHECK(st <= 8192 + 4 * 1024, what[k] << " uses " << st << " bytes of stack");
    c.nontrivial();
  }
}
