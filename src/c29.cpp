// C29: a program's own filter families, made from the library's layouts,
// frequency transforms and cascades in the way the library's own are.
#include <memory>
#include "gen.h"
#include "wrap.h"
using namespace pbt;

RULE("C29", "own_families: a program's own analogue prototype (1 to 12 poles: conjugate pairs from Q 0.5 to 100, real double poles, at most one single real pole; zeros at infinity, on the imaginary axis, real double or conjugate in either half plane, for some or all poles; gain 1e-3..1e3 given at s = 0 or, for low and high pass with as many finite zeros as poles, at infinity) in a filter template derived from PoleFilterBase and PoleFilter, with each of the four transforms and three structures, set up anew up to three times with different orders, scaled (applyScale before and after the setup, also by NaN, which is refused), and copied; the complex response at 12 frequencies, at 0, 0.5, cutoff and edges, and nearest to three of the poles and zeros, against the prototype at the warped frequency in long double (tolerance 1e-10 + 16 eps times the conditioning of the roots), and the response measured from the impulse response; the copy bit for bit. layouts: histories of up to 25 calls on two layouts (single, conjugate and matched pairs, normalisation, reset, access by any index; NaN, infinite, unmatched and misplaced ones) against a list. Non-trivial: at least two poles and five points within double precision; at least two accepted changes.");

static const ld EPS = 2.220446049250313e-16L;
static const int MAXP = 12;

// ---- what a program would write -------------------------------------------
namespace user {
struct Root { std::complex<double> p, z; bool inf; bool single; };
struct Spec { std::vector<Root> r; double w, g; };

struct Prototype : Iir::LayoutBase {
  void design(const Spec& s) {
    reset();
    for (auto& r : s.r) {
      Iir::complex_t z = r.inf ? Iir::infinity() : Iir::complex_t(r.z);
      if (r.single) add(r.p, z);
      else addPoleZeroConjugatePairs(r.p, z);
    }
    setNormal(s.w, s.g);
  }
};
struct LowPassBase : Iir::PoleFilterBase<Prototype> {
  void design(const Spec& s, double fc, double) {
    m_analogProto.design(s);
    Iir::LowPassTransform(fc, m_digitalProto, m_analogProto);
    Iir::Cascade::setLayout(m_digitalProto);
  }
};
struct HighPassBase : Iir::PoleFilterBase<Prototype> {
  void design(const Spec& s, double fc, double) {
    m_analogProto.design(s);
    Iir::HighPassTransform(fc, m_digitalProto, m_analogProto);
    Iir::Cascade::setLayout(m_digitalProto);
  }
};
struct BandPassBase : Iir::PoleFilterBase<Prototype> {
  void design(const Spec& s, double fc, double fw) {
    m_analogProto.design(s);
    Iir::BandPassTransform(fc, fw, m_digitalProto, m_analogProto);
    Iir::Cascade::setLayout(m_digitalProto);
  }
};
struct BandStopBase : Iir::PoleFilterBase<Prototype> {
  void design(const Spec& s, double fc, double fw) {
    m_analogProto.design(s);
    Iir::BandStopTransform(fc, fw, m_digitalProto, m_analogProto);
    Iir::Cascade::setLayout(m_digitalProto);
  }
};
template <int N, class State> struct LowPass : Iir::PoleFilter<LowPassBase, State, N> {};
template <int N, class State> struct HighPass : Iir::PoleFilter<HighPassBase, State, N> {};
template <int N, class State> struct BandPass : Iir::PoleFilter<BandPassBase, State, N, 2 * N> {};
template <int N, class State> struct BandStop : Iir::PoleFilter<BandStopBase, State, N, 2 * N> {};
}  // namespace user

// ---- type-erased ----------------------------------------------------------
struct Any {
  virtual ~Any() {}
  virtual void setup(const user::Spec& s, double fc, double fw) = 0;
  virtual std::complex<double> response(double f) = 0;
  virtual double filter(double x) = 0;
  virtual void reset() = 0;
  virtual size_t rootPairs() = 0;
  virtual void scale(double k) = 0;
  virtual Any* copy() = 0;
};
template <class F> struct Of : Any {
  F f;
  void setup(const user::Spec& s, double fc, double fw) override { f.design(s, fc, fw); }
  std::complex<double> response(double q) override { return f.response(q); }
  double filter(double x) override { return f.filter(x); }
  void reset() override { f.reset(); }
  void scale(double k) override { f.applyScale(k); }
  size_t rootPairs() override { return f.getPoleZeros().size(); }
  Any* copy() override { return new Of<F>(*this); }
};
template <class ST> static Any* ofKind(Kind k, bool exact, int n) {
  if (exact && n == 1) switch (k) {
    case LP: return new Of<user::LowPass<1, ST>>();
    case HP: return new Of<user::HighPass<1, ST>>();
    case BP: return new Of<user::BandPass<1, ST>>();
    default: return new Of<user::BandStop<1, ST>>();
  }
  if (exact && n == 5) switch (k) {
    case LP: return new Of<user::LowPass<5, ST>>();
    case HP: return new Of<user::HighPass<5, ST>>();
    case BP: return new Of<user::BandPass<5, ST>>();
    default: return new Of<user::BandStop<5, ST>>();
  }
  switch (k) {
    case LP: return new Of<user::LowPass<MAXP, ST>>();
    case HP: return new Of<user::HighPass<MAXP, ST>>();
    case BP: return new Of<user::BandPass<MAXP, ST>>();
    default: return new Of<user::BandStop<MAXP, ST>>();
  }
}

// ---- generator ------------------------------------------------------------
struct Proto {
  user::Spec s;
  std::vector<cld> p, z;
  bool atInf = false;
};
static Proto proto(Case& c, Kind k, int n) {
  Proto o;
  bool allZeros = c.chance(1, 3), allPole = !allZeros && c.chance(1, 3);
  bool reals = c.chance(1, 4);
  auto size = [&] { return c.flip() ? 1.0 : c.logreal(0.2, 5); };
  auto pos = [&](double re, double im) { return std::complex<double>(re, im); };
  for (int i = 0; i + 1 < n; i += 2) {
    user::Root r; r.single = false; r.inf = false;
    double w = size();
    if (reals && c.flip()) r.p = pos(-w, 0);
    else { double q = c.logreal(0.5, c.chance(1, 4) ? 100 : 5), a = w / (2 * q); r.p = pos(-a, (c.chance(1, 4) ? -1 : 1) * std::sqrt(std::max(0.0, w * w - a * a))); }
    if (allPole || (!allZeros && c.flip())) r.inf = true;
    else {
      double v = size() * c.logreal(0.3, 3);
      switch (c.draw(4)) {
        case 0: r.z = pos(0, v); break;
        case 1: { double t = c.chance(1, 3) ? M_PI / 2 - c.logreal(1e-6, 1e-2) : c.unit() * M_PI / 2; r.z = pos(-v * std::cos(t), v * std::sin(t)); break; }
        case 2: r.z = pos(-v, 0); break;
        default: { double t = 0.1 + 1.4 * c.unit(); r.z = pos(v * std::cos(t), v * std::sin(t)); }
      }
    }
    o.s.r.push_back(r);
    for (int j = 0; j < 2; ++j) o.p.push_back(j ? std::conj(cld(r.p)) : cld(r.p));
    if (!r.inf) for (int j = 0; j < 2; ++j) o.z.push_back(j ? std::conj(cld(r.z)) : cld(r.z));
  }
  if (n & 1) {
    user::Root r; r.single = true; r.inf = false;
    r.p = pos(-size(), 0);
    if (allPole || (!allZeros && c.flip())) r.inf = true; else r.z = pos(-size() * c.logreal(0.3, 3), 0);
    o.s.r.push_back(r);
    o.p.push_back(cld(r.p));
    if (!r.inf) o.z.push_back(cld(r.z));
  }
  o.s.g = c.flip() ? 1.0 : c.logreal(1e-3, 1e3);
  o.atInf = (k == LP || k == HP) && o.z.size() == o.p.size() && c.flip();
  o.s.w = o.atInf ? Iir::doublePi : 0;
  return o;
}
static std::string show(const Proto& o) {
  std::ostringstream s;
  s << "prototype{";
  for (auto& r : o.s.r) {
    s << (r.single ? "single " : "pair ") << "p(" << fmt(r.p.real()) << "," << fmt(r.p.imag()) << ") z";
    if (r.inf) s << "=inf; "; else s << "(" << fmt(r.z.real()) << "," << fmt(r.z.imag()) << "); ";
  }
  s << "gain " << fmt(o.s.g) << (o.atInf ? " at infinity}" : " at 0}");
  return s.str();
}

PROPERTY("C29", own_families, 12000, 400000) {
  static const Kind kinds[] = {LP, HP, BP, BS};
  static const char* names[] = {"LowPass", "HighPass", "BandPass", "BandStop"};
  int ki = (int)c.draw(4);
  Kind k = kinds[ki];
  int n = c.range(1, MAXP), st = (int)c.draw(3);
  bool exact = (n == 1 || n == 5) && c.flip();
  std::unique_ptr<Any> f(st == 0 ? ofKind<Iir::DirectFormII>(k, exact, n) : st == 1 ? ofKind<Iir::DirectFormI>(k, exact, n) : ofKind<Iir::TransposedDirectFormII>(k, exact, n));
  c.note << names[ki] << (exact ? " (storage just large enough)" : "") << ", structure " << st;
  c.label(names[ki]);
  double fc = 0, fw = 0;
  auto place = [&] {
    fc = c.flip() ? c.real(0.02, 0.48) : c.logreal(1e-3, 0.25);
    if (c.chance(1, 3)) fc = 0.5 - fc;
    double room = 2 * std::min(fc, 0.5 - fc);
    fw = room * (c.flip() ? c.real(0.05, 0.95) : c.logreal(0.01, 0.5));
  };
  if (c.chance(1, 10)) { f->scale(c.real(-3, 3)); c.note << " scaled before it is set up"; CHECK(f->filter(0.75) == 0.75, "scaling a filter without a design changes what it does"); f->reset(); }
  // earlier setups of the same object
  for (int i = (int)c.draw(3); i > 0 && !exact; --i) {
    Proto e = proto(c, k, c.range(1, MAXP));
    place();
    c.note << "\n  setup " << show(e) << " at " << fmt(fc) << " width " << fmt(fw);
    try { f->setup(e.s, fc, fw); } catch (const std::invalid_argument&) { c.label("earlier setup rejected"); }
    c.label("set up before");
  }
  Proto o = proto(c, k, n);
  place();
  c.note << "\n  setup " << show(o) << " at " << fmt(fc) << " width " << fmt(fw);
  Ref r(k, fc, fw, o.p, o.z, o.s.g, o.atInf);
  ld cn = r.cond(o.atInf ? (k == LP ? 0.5L : 0.0L) : r.normFreq());
  bool sane = 16 * EPS * cn < 1e-3L;
  try { f->setup(o.s, fc, fw); } catch (const std::invalid_argument& e) {
    if (!sane) { c.label("rejected: ill-conditioned"); return; }
    c.fail(std::string("the setup is rejected: ") + e.what());
  }
  if (!sane) { c.label("ill-conditioned"); return; }
  // the gain of the whole may be changed afterwards
  if (c.chance(1, 3))
    for (int i = 1 + (int)c.draw(2); i > 0; --i) {
      if (c.chance(1, 5)) {
        double q = c.real(0, 0.5); auto a = f->response(q); bool threw = false;
        try { f->scale(NAN); } catch (const std::invalid_argument&) { threw = true; }
        auto b = f->response(q);
        CHECK(threw && same(a.real(), b.real()) && same(a.imag(), b.imag()), "scaling by NaN " << (threw ? "changes the filter" : "is accepted"));
        c.note << ", scaling by NaN refused";
        continue;
      }
      double g = (c.flip() ? 1 : -1) * c.logreal(1e-6, 1e6);
      f->scale(g); r.dc *= g;
      c.note << ", scaled by " << fmt(g);
      c.label("scaled");
    }
  size_t want = (k == LP || k == HP) ? (n + 1) / 2 : n;
  CHECK(f->rootPairs() == want, f->rootPairs() << " pairs of poles and zeros reported instead of " << want);
  std::vector<double> qs = {0, 0.5, fc};
  if (k == BP || k == BS) { qs.push_back(fc - fw / 2); qs.push_back(fc + fw / 2); }
  for (int i = 0; i < 12; ++i) qs.push_back(c.flip() ? c.real(0, 0.5) : std::min(0.5, fc * (0.5 + c.unit())));
  for (int i = 0; i < 3; ++i) {  // where a zero or a pole is close
    const auto& v = c.flip() ? r.zz : r.zp;
    qs.push_back((double)(fabsl(std::arg(v[c.draw(v.size())])) / (2 * PI_L)));
  }
  int used = 0;
  auto one = [&](double q, std::complex<double> got, ld extra, const char* what) {
    cld w = r.H(q);
    ld tol = 1e-10L + 16 * EPS * (r.cond(q) + cn) + extra, mag = std::abs(w);
    if (!(tol < 1e-3L)) { c.label("point skipped (ill-conditioned)"); return; }
    ++used;
    ld err = std::abs(cld(got) - w);
    if (mag > 1e-200L) c.metric("error / tolerance", (double)(err / (tol * mag)));
    CHECK(err <= tol * mag + 1e-280L, what << " at " << fmt(q) << " is (" << fmt(got.real()) << "," << fmt(got.imag()) << ") but the prototype gives (" << fmtl(w.real()) << "," << fmtl(w.imag()) << "), relative error " << fmtl(err / mag) << " tolerance " << fmtl(tol));
  };
  for (double q : qs) one(q, f->response(q), 0, "response");
  // a copy outlives the original
  if (c.chance(1, 3)) {
    double q = c.real(0, 0.5);
    auto a = f->response(q);
    f.reset(f->copy());
    auto b = f->response(q);
    CHECK(same(a.real(), b.real()) && same(a.imag(), b.imag()), "the response of a copy differs");
    c.label("copied");
  }
  // measured
  ld rad = r.maxPoleRadius();
  if (c.chance(1, 4) && rad < 0.995L) {
    int len = (int)std::min<ld>(40000, 60 + 40 * n / (1 - rad) + 60);
    std::vector<double> y(len);
    f->reset();
    ld tail = 0, l1 = 0;
    for (int i = 0; i < len; ++i) { y[i] = f->filter(i ? 0.0 : 1.0); l1 += fabsl(y[i]); if (i > len - 50) tail += fabsl(y[i]); }
    if (tail < 1e-12L * l1) {
      double q = c.flip() ? fc : c.real(0, 0.5);
      cld s = 0;
      for (int i = 0; i < len; ++i) s += (ld)y[i] * std::polar((ld)1, -2 * PI_L * (ld)q * i);
      one(q, std::complex<double>((double)s.real(), (double)s.imag()), 1e-8L * l1 / std::max<ld>(std::abs(r.H(q)), 1e-300L), "the response measured from the impulse response");
      c.label("measured from samples");
    } else c.label("impulse response too long");
  }
  c.nontrivial(n >= 2 && used >= 5);
}

// ---- layouts against a list -----------------------------------------------
typedef std::complex<double> cd;
static bool sameC(cd a, cd b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
static cd root(Case& c, bool zero) {
  switch (c.draw(9)) {
    case 0: return cd(c.real(-2, 2), 0);
    case 1: return cd(0, c.real(-2, 2));
    case 2: return cd(c.range(-1, 1), 0);
    case 3: return cd(c.logreal(1e-300, 1e300), -c.logreal(1e-300, 1e300));
    case 4: return zero ? Iir::infinity() : cd(-1, 0);
    case 5: return c.flip() ? cd(NAN, 0) : cd(c.real(-1, 1), NAN);
    case 6: return c.flip() ? cd(INFINITY, 1) : cd(-0.5, -INFINITY);
    default: return cd(c.real(-2, 2), c.real(-2, 2));
  }
}
static bool nan2(cd a) { return std::isnan(a.real()) || std::isnan(a.imag()); }
static bool inf2(cd a) { return std::isinf(a.real()) || std::isinf(a.imag()); }

PROPERTY("C29", layouts, 60000, 1500000) {
  Iir::Layout<MAXP> storage, other;
  Iir::LayoutBase l(storage), l2(other), *at[2] = {&l, &l2};
  struct M { std::vector<Iir::PoleZeroPair> v; int n = 0; double w = 0, g = 1; } model[2];
  int len = 1 + (int)c.draw(25), kept = 0;
  for (int i = 0; i < len; ++i) {
    int k = (int)c.draw(2);
    Iir::LayoutBase& b = *at[k];
    M& m = model[k];
    bool reject = false, threw = false;
    auto room = [&](int n) { return (m.n & 1) || m.n + n <= MAXP; };
    int op = (int)c.draw(10);
    c.note << k << ".";
    try {
      switch (op) {
        case 0: case 1: {
          cd p = root(c, false), z = root(c, true);
          if (c.chance(2, 3)) { p = cd(p.real(), 0); if (!inf2(z)) z = cd(z.real(), 0); }
          if (!room(1)) continue;
          c.note << "add(" << p << "," << z << ") ";
          reject = (m.n & 1) || nan2(p) || nan2(z) || inf2(p) || p.imag() != 0 || z.imag() != 0;
          if (!reject) { m.v.push_back(Iir::PoleZeroPair()); auto& e = m.v.back(); e.poles.first = p; e.zeros.first = z; m.n += 1; }
          b.add(p, z);
          break;
        }
        case 2: case 3: case 4: {
          cd p = root(c, false), z = root(c, true);
          if (!room(2)) continue;
          c.note << "addPoleZeroConjugatePairs(" << p << "," << z << ") ";
          reject = (m.n & 1) || nan2(p) || nan2(z) || inf2(p);
          if (!reject) { m.v.push_back(Iir::PoleZeroPair()); auto& e = m.v.back(); e.poles.first = p; e.poles.second = std::conj(p); e.zeros.first = z; e.zeros.second = std::conj(z); m.n += 2; }
          b.addPoleZeroConjugatePairs(p, z);
          break;
        }
        case 5: case 6: {
          auto two = [&](cd& a, cd& d) {
            do a = root(c, false); while (nan2(a) || inf2(a));
            switch (c.draw(4)) { case 0: d = a; break; case 1: do d = root(c, false); while (nan2(d) || inf2(d)); break; default: d = std::conj(a); }
          };
          cd p1, p2, z1, z2;
          two(p1, p2); two(z1, z2);
          auto matched = [](cd a, cd d) { return a.imag() != 0 ? d == std::conj(a) : d.imag() == 0 && a.real() != 0 && d.real() != 0; };
          Iir::ComplexPair P(p1, p2), Z(z1, z2);
          if (!room(2)) continue;
          c.note << "add(pair " << p1 << p2 << "," << z1 << z2 << ") ";
          CHECK(P.isMatchedPair() == matched(p1, p2), "isMatchedPair() of " << p1 << " " << p2);
          CHECK(P.isReal() == (p1.imag() == 0 && p2.imag() == 0), "isReal() of " << p1 << " " << p2);
          auto fits = [&](cd a, cd d) { return matched(a, d) || (a.imag() == 0 && d.imag() == 0); };
          reject = (m.n & 1) || !fits(p1, p2) || !fits(z1, z2);
          if (!reject) { m.v.push_back(Iir::PoleZeroPair()); auto& e = m.v.back(); e.poles.first = p1; e.poles.second = p2; e.zeros.first = z1; e.zeros.second = z2; m.n += 2; }
          b.add(P, Z);
          break;
        }
        case 7: c.note << "reset() "; b.reset(); m.v.clear(); m.n = 0; break;
        case 8: {
          double w = c.real(0, 3.2), g = c.real(-3, 3);
          c.note << "setNormal(" << fmt(w) << "," << fmt(g) << ") ";
          b.setNormal(w, g); m.w = w; m.g = g;
          break;
        }
        default: {
          int q = c.flip() ? c.range(-3, MAXP) : c.flip() ? -2147483647 - 1 : 2147483647;
          c.note << "pair " << q << " ";
          reject = q < 0 || q >= (m.n + 1) / 2;
          if (c.flip()) b.getPair(q); else b[q];
        }
      }
    } catch (const std::invalid_argument&) { threw = true; }
    CHECK(threw == reject, (threw ? "the call is rejected" : "the call is accepted"));
    if (threw) c.label("rejected call"); else if (op < 7) ++kept;
    for (int j = 0; j < 2; ++j) {
      M& q = model[j];
      CHECK(at[j]->getNumPoles() == q.n, "layout " << j << " has " << at[j]->getNumPoles() << " poles instead of " << q.n);
      CHECK(at[j]->getMaxPoles() == MAXP, "getMaxPoles() is " << at[j]->getMaxPoles());
      CHECK(same(at[j]->getNormalW(), q.w) && same(at[j]->getNormalGain(), q.g), "normalisation of layout " << j << " is " << fmt(at[j]->getNormalW()) << ", " << fmt(at[j]->getNormalGain()));
      for (size_t e = 0; e < q.v.size(); ++e) {
        const Iir::PoleZeroPair& x = (*at[j])[(int)e]; const Iir::PoleZeroPair& y = q.v[e];
        CHECK(sameC(x.poles.first, y.poles.first) && sameC(x.poles.second, y.poles.second) && sameC(x.zeros.first, y.zeros.first) && sameC(x.zeros.second, y.zeros.second),
              "pair " << e << " of layout " << j << " is p " << x.poles.first << x.poles.second << " z " << x.zeros.first << x.zeros.second);
        CHECK(x.isSinglePole() == (y.poles.second == 0. && y.zeros.second == 0.), "isSinglePole() of pair " << e << " of layout " << j);
        CHECK(!x.is_nan(), "is_nan() of pair " << e << " of layout " << j);
      }
    }
  }
  c.nontrivial(kept >= 2);
}
