// C01: filtering obeys the recursive difference equation.
#include "hist.h"
#include "wrap.h"
#include "noise.h"
#include <memory>
#include <cstring>
using namespace pbt;
using namespace gen;

RULE("C01", "exact: cascades of 1..16 integer second-order sections (times a power of two as a0), integer inputs times a power of two, compared bit for bit with the difference equation in 128-bit integers until the numbers leave 2^46, with resets in between, for every structure, for RBJ filters, for Biquad::filter with an explicit state; rounded: pole filters of all families, RBJ filters and random stable cascades against the difference equation of their sections in long double, within a running error bound; unset: filters never set up; reset: a used (one in four: with infinite, NaN, huge and subnormal samples) and reset object against a fresh one, bit for bit; state_taken_along: the state an RBJ filter hands out, run with its coefficients, continues the signal bit for bit. long_chains: chains of up to 300 sections exactly, copied in the stream; long: up to 2^24 samples exactly; past_2_to_the_31: FIR sections and an RBJ filter for 2^31 (thorough 2^32) samples exactly. not_finite: a NaN or an infinity in mid-stream shows at once and, with feedback, in every later sample. Non-trivial: at least 3 samples with a non-zero expected output (exact/long), an error bound below 1e-6 of the peak output (rounded), at least one non-zero sample before the reset (reset), at least one sample (unset).");

typedef __int128 i128;
struct ISec { long b0, b1, b2, a1, a2; };

// exact difference equation; false when the numbers get too large to stay exact in double
struct IRef {
  std::vector<ISec> s;
  struct St { i128 x1 = 0, x2 = 0, y1 = 0, y2 = 0, w1 = 0, w2 = 0; };
  std::vector<St> st;
  explicit IRef(const std::vector<ISec>& q) : s(q), st(q.size()) {}
  void reset() { for (auto& t : st) t = St(); }
  bool step(i128 x, i128& out) {
    const i128 LIM = (i128)1 << 46;
    for (size_t i = 0; i < s.size(); ++i) {
      auto& t = st[i]; auto& c = s[i];
      i128 y = c.b0 * x + c.b1 * t.x1 + c.b2 * t.x2 - c.a1 * t.y1 - c.a2 * t.y2;
      i128 w = x - c.a1 * t.w1 - c.a2 * t.w2;
      if (y > LIM || y < -LIM || w > LIM || w < -LIM) return false;
      t.x2 = t.x1; t.x1 = x; t.y2 = t.y1; t.y1 = y; t.w2 = t.w1; t.w1 = w;
      x = y;
    }
    out = x;
    return true;
  }
};

static ISec isec(Case& c) {
  ISec s;
  s.b0 = c.range(-3, 3); s.b1 = c.range(-3, 3); s.b2 = c.range(-3, 3);
  s.a1 = c.range(-2, 2); s.a2 = c.range(-1, 1);
  if (c.chance(1, 5)) s.a1 = s.a2 = 0;
  return s;
}
static std::string showSec(const std::vector<ISec>& v) {
  std::ostringstream o;
  for (auto& s : v) o << " b=(" << s.b0 << "," << s.b1 << "," << s.b2 << ") a=(1," << s.a1 << "," << s.a2 << ")";
  return o.str();
}

template <class Step, class Reset>
static void exactRun(Case& c, const std::vector<ISec>& sec, int maxLen, Step step, Reset reset) {
  IRef ref(sec);
  int n = 1 + (int)c.draw(maxLen), nz = 0, e = c.chance(1, 3) ? c.range(-900, 900) : 0;
  double unit = std::ldexp(1.0, e);
  c.note << " unit=2^" << e << " input:";
  for (int i = 0; i < n; ++i) {
    if (i && c.chance(1, 24)) { reset(); ref.reset(); c.note << " reset"; c.label("reset in the stream"); }
    long xi = c.chance(1, 6) ? c.range(-1000, 1000) : c.range(-3, 3);
    i128 want;
    if (!ref.step(xi, want)) { c.label("stopped: numbers too large"); break; }
    if (i < 40) c.note << " " << xi;
    double got = step((double)xi * unit), w = (double)(long long)want * unit;
    CHECK(got == w, "sample " << i << " is " << fmt(got) << ", the difference equation gives " << fmt(w));
    if (want != 0) ++nz;
  }
  c.nontrivial(nz >= 3);
}

PROPERTY("C01", exact_cascades, 180000, 3000000) {
  Filt q; q.pole = q.rbj = false; q.sos = true;
  const Desc& d = desc(c, q);
  int n = d.order, active = 1 + (int)c.draw(std::min(n, 4));
  std::vector<ISec> sec;
  std::vector<double> co;
  for (int i = 0; i < n; ++i) {
    ISec s = {1, 0, 0, 0, 0};
    // few sections that do something, anywhere in the chain
    if (i < active || c.chance(1, 4)) s = isec(c);
    sec.push_back(s);
  }
  if (c.flip()) std::reverse(sec.begin(), sec.end());
  for (auto& s : sec) {
    double a0 = std::ldexp(c.chance(1, 6) ? -1.0 : 1.0, c.chance(1, 4) ? c.range(-40, 40) : 0);
    for (double v : {(double)s.b0, (double)s.b1, (double)s.b2, 1.0, (double)s.a1, (double)s.a2}) co.push_back(v * a0);
  }
  c.note << d.name << showSec(sec);
  c.label(d.st == DF1 ? "Direct Form I" : d.st == DF2 ? "Direct Form II" : "transposed Direct Form II");
  Obj o(d);
  o->setupSos(co.data());
  exactRun(c, sec, 60, [&](double x) { return o->fd(x); }, [&] { o->reset(); });
}

template <class ST> static void viaBiquad(Case& c, const ISec& s) {
  Iir::Biquad b;
  b.setCoefficients(1, s.a1, s.a2, s.b0, s.b1, s.b2);
  ST st;
  exactRun(c, {s}, 60, [&](double x) { return b.filter(x, st); }, [&] { st.reset(); });
}
template <class F> static void viaRbj(Case& c, const ISec& s) {
  F f;
  f.setCoefficients(1, s.a1, s.a2, s.b0, s.b1, s.b2);
  exactRun(c, {s}, 60, [&](double x) { return f.filter(x); }, [&] { f.reset(); });
}
PROPERTY("C01", exact_single_sections, 90000, 1000000) {
  ISec s = isec(c);
  int k = (int)c.draw(13);
  c.note << "route " << k << showSec({s});
  switch (k) {
    case 0: viaBiquad<Iir::DirectFormI>(c, s); break;
    case 1: viaBiquad<Iir::DirectFormII>(c, s); break;
    case 2: viaBiquad<Iir::TransposedDirectFormII>(c, s); break;
    case 3: viaRbj<Iir::RBJ::LowPass>(c, s); break;
    case 4: viaRbj<Iir::RBJ::HighPass>(c, s); break;
    case 5: viaRbj<Iir::RBJ::BandPass1>(c, s); break;
    case 6: viaRbj<Iir::RBJ::BandPass2>(c, s); break;
    case 7: viaRbj<Iir::RBJ::BandStop>(c, s); break;
    case 8: viaRbj<Iir::RBJ::IIRNotch>(c, s); break;
    case 9: viaRbj<Iir::RBJ::LowShelf>(c, s); break;
    case 10: viaRbj<Iir::RBJ::HighShelf>(c, s); break;
    case 11: viaRbj<Iir::RBJ::BandShelf>(c, s); break;
    default: viaRbj<Iir::RBJ::AllPass>(c, s); break;
  }
}

// what getState() returns is the state: taken along, it continues the signal
template <class F> static void stateTaken(Case& c, const std::vector<double>& k) {
  F f;
  if (c.flip()) {
    f.setCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]);
    c.note << " setCoefficients"; for (double v : k) c.note << " " << fmt(v);
  } else f.setupN(c.real(0.01, 0.49));
  const int rounds = 1 + (int)c.draw(4);
  for (int r = 0; r < rounds; ++r) {
    auto x = signal(c, 12);
    for (double v : x) { f.filter(v); if (v != 0) c.nontrivial(); }
    if (c.chance(1, 6)) { f.reset(); c.note << " reset"; }
    Iir::DirectFormI taken = f.getState(), same2 = taken;
    F twin(f);
    const Iir::Biquad coef = f;
    auto y = signal(c, 12);
    for (size_t i = 0; i < y.size(); ++i) {
      double a = twin.filter(y[i]), b = coef.filter(y[i], taken), d = same2.filter(y[i], coef);
      CHECK(same(a, b) && same(a, d), "round " << r << ": sample " << i << " after the state was taken along is " << fmt(b) << " and " << fmt(d) << ", the filter continues with " << fmt(a));
    }
  }
}
PROPERTY("C01", state_taken_along, 30000, 300000) {
  std::vector<double> k;
  for (int i = 0; i < 6; ++i) k.push_back(c.chance(1, 4) ? 0 : c.flip() ? c.range(-2, 2) : c.real(-1, 1));
  if (k[0] == 0) k[0] = 1;
  int r = (int)c.draw(6);
  c.note << "RBJ filter " << r;
  switch (r) {
    case 0: stateTaken<Iir::RBJ::LowPass>(c, k); break;
    case 1: stateTaken<Iir::RBJ::HighPass>(c, k); break;
    case 2: stateTaken<Iir::RBJ::IIRNotch>(c, k); break;
    case 3: stateTaken<Iir::RBJ::AllPass>(c, k); break;
    case 4: stateTaken<Iir::RBJ::LowPass>(c, k); break;
    default: stateTaken<Iir::RBJ::HighPass>(c, k);
  }
}

// ---- rounded mode -----------------------------------------------------
static std::vector<double> mixSignal(Case& c, int maxLong) { return c.chance(1, 5) ? longSignal(c, 100 + (int)c.draw(maxLong)) : signal(c, 60); }

PROPERTY("C01", rounded_designs, 60000, 600000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  hist::Op op = hist::validSetup(c, d);
  Obj o(d);
  c.note << d.name << " " << hist::show(d, op);
  hist::callSetup(*o, d, op);
  std::vector<LSec> sec;
  if (d.fam == SOS) {
    for (int i = 0; i < d.order; ++i) {
      const double* s = &op.sos[i * 6]; long double a0 = s[3];
      sec.push_back({s[0] / a0, s[1] / a0, s[2] / a0, s[4] / a0, s[5] / a0});
    }
  } else
    for (int i = 0; i < o->numStages(); ++i) {
      double k[6]; o->stage(i, k); long double a0 = k[0];
      sec.push_back({k[3] / a0, k[4] / a0, k[5] / a0, k[1] / a0, k[2] / a0});
    }
  auto x = mixSignal(c, 2000);
  if (c.chance(1, 3)) {  // start from a reset instead of a fresh object
    auto pre = signal(c, 30);
    std::vector<double> dump(pre.size());
    o->run(pre.data(), dump.data(), pre.size());
    o->reset();
    c.label("after reset");
  }
  std::vector<long double> want;
  Bound b = longRef(sec, x, want);
  if (!b.ok) { c.label("sections too close to the unit circle"); return; }
  long double peak = 0;
  for (auto v : want) peak = std::max(peak, fabsl(v));
  if (!(b.err < 1e-6L * peak)) { c.label("error bound too wide"); return; }
  std::vector<double> y(x.size());
  o->run(x.data(), y.data(), x.size());
  for (size_t i = 0; i < x.size(); ++i) {
    long double e = fabsl(y[i] - want[i]);
    CHECK(e <= 4 * b.err + 1e-290L, "sample " << i << " is " << fmt(y[i]) << ", the difference equation of the sections gives " << fmtl(want[i]) << " (bound " << fmtl(4 * b.err) << ")");
    if (b.err > 0) c.metric("error / bound", (double)(e / (4 * b.err)));
  }
  c.nontrivial(peak > 0);
}

PROPERTY("C01", never_set_up, 60000, 400000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  c.note << d.name;
  static const int pats[] = {0xA5, 0x00, 0xFF, 0x3F};
  Obj o(d, c.pick(pats));
  auto x = signal(c, 30);
  bool rs = c.flip();
  for (size_t i = 0; i < x.size(); ++i) {
    if (rs && c.chance(1, 8)) o->reset();
    double y = o->fd(x[i]);
    CHECK(y == x[i], "sample " << i << " of a filter never set up is " << fmt(y) << " instead of " << fmt(x[i]));
  }
  c.nontrivial();
}

PROPERTY("C01", reset_restores_zero_state, 60000, 500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  hist::Op op = hist::validSetup(c, d);
  Obj o(d), fresh(d, 0);
  c.note << d.name << " " << hist::show(d, op);
  hist::callSetup(*o, d, op);
  hist::callSetup(*fresh, d, op);
  int rounds = 1 + (int)c.draw(3);
  for (int r = 0; r < rounds; ++r) {
    auto pre = mixSignal(c, 500);
    if (c.chance(1, 4)) { hist::spoil(c, pre); c.label("after an infinity, a NaN, a huge or subnormal value"); }
    std::vector<double> dump(pre.size());
    o->run(pre.data(), dump.data(), pre.size());
    for (double v : pre) if (v != 0) c.nontrivial();
    o->reset();
  }
  auto df = hist::diff(hist::snap(*o, d), hist::snap(*fresh, d));
  CHECK(df.empty(), "reset changed the design: " << df);
  auto x = mixSignal(c, 500);
  std::vector<double> a(x.size()), b(x.size());
  o->run(x.data(), a.data(), x.size());
  fresh->run(x.data(), b.data(), x.size());
  auto e = hist::diffOut(a, b);
  CHECK(e.empty(), "after reset " << e << " (fresh filter)");
}

// In the difference equation a NaN or an infinity makes the sample not finite,
// whatever else is added to it, and everything after it that depends on it.
PROPERTY("C01", not_finite, 30000, 300000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  hist::Op op = hist::validSetup(c, d);
  Obj o(d);
  c.note << d.name << " " << hist::show(d, op);
  hist::callSetup(*o, d, op);
  bool through = true, feedback = false;
  for (int i = 0; i < o->numStages(); ++i) {
    double k[6]; o->stage(i, k);
    if (k[3] == 0) through = false;
    if (i == 0 && k[1] != 0) feedback = true;
  }
  if (!through) { c.label("no direct path"); return; }
  auto pre = mixSignal(c, 300);
  for (double v : pre) o->fd(v);
  static const double bad[] = {NAN, INFINITY, -INFINITY};
  double x = c.pick(bad);
  c.note << "; after " << pre.size() << " samples " << x;
  double y = o->fd(x);
  CHECK(!std::isfinite(y), "the sample " << fmt(x) << " gives " << fmt(y));
  if (std::isnan(x)) CHECK(std::isnan(y), "the sample " << fmt(x) << " gives " << fmt(y));
  c.nontrivial();
  if (!feedback) return;
  c.label("with feedback");
  auto post = mixSignal(c, 300);
  for (size_t i = 0; i < post.size(); ++i) {
    y = o->fd(post[i]);
    CHECK(!std::isfinite(y), "sample " << i << " after " << fmt(x) << " is " << fmt(y) << " although every sample depends on the one before");
  }
}

// longer than any chain the other checks use
template <int N, class ST> static void longChain(Case& c, const std::vector<ISec>& sec, const std::vector<double>& co) {
  typedef Iir::Custom::SOSCascade<N, ST> F;
  double m[N][6];
  for (int i = 0; i < N; ++i) for (int k = 0; k < 6; ++k) m[i][k] = co[i * 6 + k];
  std::unique_ptr<F> f, g;
  if (c.flip()) f.reset(new F(m)); else { f.reset(new F); f->setup(m); }
  exactRun(c, sec, 100, [&](double x) {
    if (c.chance(1, 30)) {  // goes on in a copy
      if (c.flip()) { g.reset(new F(*f)); f = std::move(g); }
      else { g.reset(new F(*f)); g->reset(); *g = *f; f = std::move(g); }
      c.label("copied in the stream");
    }
    return f->filter(x);
  }, [&] { f->reset(); });
}
PROPERTY("C01", long_chains, 6000, 100000) {
  static const int ns[] = {17, 20, 33, 65, 130, 257, 300};
  const int n = c.pick(ns), st = (int)c.draw(3);
  static const ISec plain[] = {{1, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {-1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}};
  std::vector<ISec> sec(n);
  int delay = 0;
  for (auto& s : sec) { s = c.pick(plain); if (s.b1 + 2 * s.b2 + delay > 15) s = plain[2]; delay += (int)(s.b1 + 2 * s.b2); }
  for (int k = 1 + (int)c.draw(4); k--;) sec[c.flip() ? c.draw(n) : n - 1 - c.draw(std::min(n, 8))] = isec(c);
  std::vector<double> co;
  for (auto& s : sec) {
    double a0 = std::ldexp(c.chance(1, 6) ? -1.0 : 1.0, c.chance(1, 4) ? c.range(-40, 40) : 0);
    for (double v : {(double)s.b0, (double)s.b1, (double)s.b2, 1.0, (double)s.a1, (double)s.a2}) co.push_back(v * a0);
  }
  c.note << "chain of " << n << " sections, structure " << st << ":";
  int same = 0;
  for (int i = 0; i < n; ++i) {
    const bool again = i && !memcmp(&sec[i], &sec[i - 1], sizeof(ISec));
    if (again) { ++same; continue; }
    if (same) c.note << " (" << same << " more like it)";
    same = 0;
    c.note << " " << i << showSec({sec[i]});
  }
#define CHAIN(N) case N: if (st == 0) longChain<N, Iir::DirectFormI>(c, sec, co); else if (st == 1) longChain<N, Iir::DirectFormII>(c, sec, co); else longChain<N, Iir::TransposedDirectFormII>(c, sec, co); break;
  switch (n) { CHAIN(17) CHAIN(20) CHAIN(33) CHAIN(65) CHAIN(130) CHAIN(257) CHAIN(300) }
}

// however long the sequence is
PROPERTY("C01", long_sequences, 24, 48) {
  Filt q; q.pole = q.rbj = false; q.sos = true;
  const Desc* dd = &desc(c, q);
  int want12 = c.flip() ? 1 : 2;
  for (auto& e : registry()) if (e.fam == SOS && e.st == dd->st && e.order == want12) { dd = &e; break; }
  const Desc& d = *dd;
  // bounded or slowly growing integer sections
  static const long ab[][2] = {{1, 1}, {-1, 1}, {0, 1}, {0, -1}, {1, 0}, {-1, 0}, {0, 0}};
  int p = (int)c.draw(7);
  ISec s = {c.range(-2, 2), c.range(-2, 2), c.range(-2, 2), ab[p][0], ab[p][1]};
  if (!s.b0 && !s.b1 && !s.b2) s.b0 = 1;
  std::vector<double> co = {(double)s.b0, (double)s.b1, (double)s.b2, 1, (double)s.a1, (double)s.a2};
  if (d.order == 2) for (double v : {1.0, 0.0, 0.0, 1.0, 0.0, 0.0}) co.push_back(v);
  long long n = c.thorough ? (c.index < 6 ? (1ll << 31) + 1000 : 1ll << 26) : 1ll << 24;
  uint64_t r = c.draw(1u << 30) + 1;
  bool viaR = c.chance(1, 4);
  c.note << (viaR ? std::string("RBJ::AllPass") : d.name) << showSec({s}) << " " << n << " samples";
  Obj o(d);
  o->setupSos(co.data());
  Iir::RBJ::AllPass ap;
  ap.setCoefficients(1, s.a1, s.a2, s.b0, s.b1, s.b2);
  long long x1 = 0, x2 = 0, y1 = 0, y2 = 0, nz = 0;
  double in[256], out[256]; long long want[256];
  for (long long i = 0; i < n; i += 256) {
    for (int k = 0; k < 256; ++k) {
      r ^= r << 13; r ^= r >> 7; r ^= r << 17;
      long long x = (long long)(r % 7) - 3;
      long long y = s.b0 * x + s.b1 * x1 + s.b2 * x2 - s.a1 * y1 - s.a2 * y2;
      x2 = x1; x1 = x; y2 = y1; y1 = y;
      in[k] = (double)x; want[k] = y;
    }
    if (viaR) for (int k = 0; k < 256; ++k) out[k] = ap.filter(in[k]); else o->run(in, out, 256);
    for (int k = 0; k < 256; ++k) {
      if (out[k] != (double)want[k]) c.fail("sample " + std::to_string(i + k) + " is " + fmt(out[k]) + " instead of " + std::to_string(want[k]));
      nz += want[k] != 0;
    }
  }
  c.nontrivial(nz > 3);
}

// past any signed (thorough: unsigned) 32-bit count of samples; one period of 256 samples is checked by comparing memory
PROPERTY("C01", past_2_to_the_31, 4, 8) {
  const int form = (int)c.draw(4);
  const long b1 = c.range(-2, 2), b2 = c.range(-2, 2);
  double co[6] = {1, (double)b1, (double)b2, 1, 0, 0};
  const Desc* d = nullptr;
  for (auto& e : registry()) if (e.fam == SOS && (int)e.st == form % 3 && e.order == 1) d = &e;
  Obj o(*d);
  o->setupSos(co);
  Iir::RBJ::AllPass ap;
  ap.setCoefficients(1, 0, 0, 1, b1, b2);
  const bool viaR = form == 3;
  const int N = 256;
  long x[N]; double in[N], out[N], want[N];
  uint64_t r = c.draw(1u << 30) + 1;
  for (int k = 0; k < N; ++k) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; x[k] = (long)(r % 7) - 3; in[k] = (double)x[k]; }
  for (int k = 0; k < N; ++k) want[k] = (double)(x[k] + b1 * x[(k + N - 1) % N] + b2 * x[(k + N - 2) % N]);
  const long long n = c.index >= 4 ? 1ll << 25 : (c.thorough ? 1ll << 32 : 1ll << 31) + 3 * N;
  c.note << (viaR ? std::string("RBJ::AllPass") : d->name) << " b = 1, " << b1 << ", " << b2 << "; " << n << " samples";
  for (long long i = 0; i < n; i += N) {
    if (viaR) for (int k = 0; k < N; ++k) out[k] = ap.filter(in[k]); else o->run(in, out, N);
    if (i == 0) continue;
    for (int k = 0; k < N; ++k)
      if (out[k] != want[k]) c.fail("sample " + std::to_string(i + k) + " is " + fmt(out[k]) + " instead of " + fmt(want[k]));
  }
  c.nontrivial(true);
}
