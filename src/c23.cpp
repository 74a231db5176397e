// C23: imported coefficients and placed poles and zeros.
#include <array>
#include "noise.h"
#include "mca.h"
#include "wrap.h"
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C23", "import: 1 to 16 sections (many_sections: 17 to 300) in scipy order with leading coefficients of any sign and size (1e-120..1e120), zero coefficients, first-order, FIR and unstable sections, through constructor and setup, fresh and over earlier imports and with samples in the delay lines: read-back of every section, product of the transfer functions at 8 frequencies (long double), and the output against the difference equations of the normalised sections for every structure. one_pole, two_pole: scale, real or polar poles and zeros: coefficients, response, and reading poles and zeros back, after earlier imports (half of them the same but for one or two values) and rejected ones. Non-trivial: for import at least one leading coefficient different from 1 or more than one section; otherwise all cases with a non-zero pole or zero.");

static const long double EPS = 2.220446049250313e-16L;

static std::vector<double> sections(Case& c, int n) {
  std::vector<double> v;
  int style = (int)c.draw(4);
  for (int i = 0; i < n; ++i) {
    if (style == 0) { auto s = hist::sosSections(c, 1); v.insert(v.end(), s.begin(), s.end()); continue; }
    double a0 = c.flip() ? 1 : (c.flip() ? 1 : -1) * (c.chance(1, 8) ? c.logreal(1e-120, 1e120) : c.logreal(1e-3, 1e3)), k[6];
    for (int j = 0; j < 6; ++j) {
      switch (c.draw(5)) {
        case 0: k[j] = 0; break;
        case 1: k[j] = c.range(-3, 3); break;
        case 2: k[j] = style == 1 ? c.real(-1, 1) : (c.flip() ? 1 : -1) * c.logreal(1e-6, 1e2); break;
        default: k[j] = c.real(-1.5, 1.5);
      }
    }
    if (style == 2) { k[4] *= 0.5; k[5] *= 0.4; }
    if (style == 3 && c.flip()) k[4] = k[5] = 0;  // FIR
    for (int j = 0; j < 6; ++j) v.push_back(k[j] * a0);
    v[v.size() - 3] = a0;
  }
  return v;
}
static std::string showSos(const std::vector<double>& v) { std::ostringstream o; for (size_t i = 0; i < v.size(); ++i) o << (i % 6 ? " " : i ? " | " : "") << fmt(v[i]); return o.str(); }

template <int N, class ST> struct Built {
  typedef Iir::Custom::SOSCascade<N, ST> F;
  static void ctor(void* m, const double* v) { double s[N][6]; memcpy(s, v, sizeof s); new (m) F(s); }
  static void dflt(void* m) { new (m) F(); }
  static void setup(void* m, const double* v) { double s[N][6]; memcpy(s, v, sizeof s); ((F*)m)->setup(s); }
  static double filter(void* m, double x) { return ((F*)m)->filter(x); }
  static void coef(void* m, int i, double* k) { auto st = ((F*)m)->getCascadeStorage(); biquadCoefs(st.stageArray[i], k); }
  static std::complex<double> resp(void* m, int i, double f) { auto st = ((F*)m)->getCascadeStorage(); return st.stageArray[i].response(f); }
  static int count(void* m) { return ((F*)m)->getCascadeStorage().maxStages; }
  static void kill(void* m) { ((F*)m)->~F(); }
};
struct Ops {
  int n; StateKind st; size_t size;
  void (*ctor)(void*, const double*); void (*dflt)(void*); void (*setup)(void*, const double*);
  double (*filter)(void*, double); void (*coef)(void*, int, double*); std::complex<double> (*resp)(void*, int, double);
  int (*count)(void*); void (*kill)(void*);
};
template <int N, class ST> static Ops ops(StateKind k) {
  typedef Built<N, ST> B;
  return {N, k, sizeof(typename B::F), B::ctor, B::dflt, B::setup, B::filter, B::coef, B::resp, B::count, B::kill};
}
template <class ST> static void addOps(std::vector<Ops>& v, StateKind k) {
  v.push_back(ops<1, ST>(k)); v.push_back(ops<2, ST>(k)); v.push_back(ops<3, ST>(k)); v.push_back(ops<4, ST>(k));
  v.push_back(ops<5, ST>(k)); v.push_back(ops<6, ST>(k)); v.push_back(ops<7, ST>(k)); v.push_back(ops<9, ST>(k)); v.push_back(ops<16, ST>(k));
}
static const std::vector<Ops>& allOps() {
  static std::vector<Ops> v;
  if (v.empty()) { addOps<Iir::DirectFormII>(v, DF2); addOps<Iir::DirectFormI>(v, DF1); addOps<Iir::TransposedDirectFormII>(v, TDF2); }
  return v;
}

static void importCase(Case& c, const Ops& t, std::vector<double> (*sections)(Case&, int)) {
  static const char* sn[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};
  auto v = sections(c, t.n);
  int how = (int)c.draw(4);  // constructor, setup on a fresh one, setup over others, setup over others with samples
  std::vector<char> mem(t.size + 16, (char)0x5C);
  void* m = (void*)(((uintptr_t)mem.data() + 15) & ~(uintptr_t)15);
  Tuned model(t.st, t.n);
  auto norm = [&](const std::vector<double>& s) { std::vector<MSec> r(t.n); for (int i = 0; i < t.n; ++i) { const double* k = &s[6 * i]; r[i] = {k[4] / k[3], k[5] / k[3], k[0] / k[3], k[1] / k[3], k[2] / k[3]}; } return r; };
  c.note << t.n << " sections, " << sn[t.st] << ": ";
  if (how == 0) { t.ctor(m, v.data()); c.note << "constructor "; }
  else {
    t.dflt(m);
    if (how >= 2) {
      int pre = 1 + (int)c.draw(2);
      for (int i = 0; i < pre; ++i) {
        auto w = sections(c, t.n);
        if (c.flip()) {  // the same but for one or two values
          w = v;
          for (int k = 1 + (int)c.draw(2); k--;) {
            size_t at = c.flip() ? 6 * c.draw(t.n) + c.draw(6) : w.size() - 1 - c.draw(6);
            double& x = w[at];
            x = x == 0 ? c.real(0.1, 1) * w[at - at % 6 + 3] : c.flip() ? -x : x * (1 + c.logreal(1e-15, 1));
          }
          c.label("earlier import nearly the same");
        }
        if (c.chance(1, 4)) { auto bad = w; bad[6 * c.draw(t.n) + 3] = 0; try { t.setup(m, bad.data()); t.kill(m); c.fail("a leading coefficient 0 is accepted"); } catch (const std::invalid_argument&) {} c.note << "rejected setup, "; }
        t.setup(m, w.data()); c.note << "earlier setup " << showSos(w) << ", ";
        if (how == 3) { auto x = signal(c, 6); auto k = norm(w); for (double s : x) { t.filter(m, s); long double tol; model.step(s, k, tol); } c.note << x.size() << " samples, "; }
      }
    }
    t.setup(m, v.data());
    c.note << "setup ";
  }
  c.note << showSos(v);
  struct K { const Ops& t; void* m; ~K() { t.kill(m); } } killer{t, m};
  CHECK(t.count(m) == t.n, "the cascade has " << t.count(m) << " sections");
  static const int from[] = {3, 4, 5, 0, 1, 2};
  static const char* cn[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  bool nontriv = t.n > 1;
  std::vector<LSec> sec;
  for (int i = 0; i < t.n; ++i) {
    double k[6]; t.coef(m, i, k);
    for (int j = 0; j < 6; ++j) {
      double w = v[6 * i + from[j]];
      CHECK(std::fabs(k[j] - w) <= 4 * (double)EPS * std::fabs(w), cn[j] << " of section " << i << " is " << fmt(k[j]) << " instead of " << fmt(w));
    }
    const double* s = &v[6 * i];
    if (s[3] != 1) nontriv = true;
    sec.push_back({(ld)s[0] / s[3], (ld)s[1] / s[3], (ld)s[2] / s[3], (ld)s[4] / s[3], (ld)s[5] / s[3]});
  }
  for (int r = 0; r < 8; ++r) {
    double f = r == 0 ? 0 : r == 1 ? 0.5 : c.real(0, 0.5);
    cld z1 = std::polar((ld)1, -2 * PI_L * f), z2 = std::polar((ld)1, -4 * PI_L * f), h(1), w(1); bool ok = true;
    for (int i = 0; i < t.n; ++i) {
      auto& s = sec[i];
      cld den = cld(1) + s.a1 * z1 + s.a2 * z2;
      if (std::abs(den) < 1e-6L * (1 + fabsl(s.a1) + fabsl(s.a2))) { ok = false; break; }
      w *= (cld(s.b0) + s.b1 * z1 + s.b2 * z2) / den;
      auto g = t.resp(m, i, f); h *= cld(g.real(), g.imag());
    }
    if (!ok) { c.label("pole on the query frequency"); continue; }
    long double tol = 4 * responseError(sec, f) + 1e-290L, e = std::abs(h - w);
    c.metric("response difference / tolerance", (double)(e / tol));
    CHECK(e <= tol, "response at " << fmt(f) << " differs from the product of the sections by " << fmtl(e) << " (tolerance " << fmtl(tol) << ")");
  }
  auto x = signal(c, 30);
  auto k = norm(v);
  for (size_t i = 0; i < x.size(); ++i) {
    double y = t.filter(m, x[i]);
    long double tol, w = model.step(x[i], k, tol);
    if (!(fabsl(w) < 1e250L)) { c.label("overflow"); break; }
    long double e = fabsl(w - y);
    c.metric("output difference / tolerance", (double)(e / tol));
    CHECK(e <= tol, "sample " << i << " is " << fmt(y) << " instead of " << fmtl(w) << " (tolerance " << fmtl(tol) << ")");
  }
  c.nontrivial(nontriv);
}

PROPERTY("C23", import, 200000, 1500000) { const Ops& t = c.pick(allOps()); importCase(c, t, sections); }

// long chains: mostly sections that change little, so that the product neither overflows nor vanishes
template <class ST> static void addLong(std::vector<Ops>& v, StateKind k) {
  v.push_back(ops<17, ST>(k)); v.push_back(ops<33, ST>(k)); v.push_back(ops<65, ST>(k)); v.push_back(ops<130, ST>(k)); v.push_back(ops<257, ST>(k)); v.push_back(ops<300, ST>(k));
}
static std::vector<double> manySections(Case& c, int n) {
  std::vector<double> v;
  double a0 = 1; int left = 0; bool vary = c.flip();
  for (int i = 0; i < n; ++i) {
    if (!left--) { a0 = (c.chance(1, 4) ? -1 : 1) * c.logreal(1e-3, 1e3); left = (int)c.draw(40); }
    double g = vary ? 1 + 0.001 * ((i * 37) % 17 - 8) : 1, e = vary ? 0.001 * ((i * 11) % 13 - 6) : 0;
    for (double k : {g, e, -e, 1.0, e / 2, e / 4}) v.push_back(k * a0);
  }
  int special = 1 + (int)c.draw(6);
  for (int j = 0; j < special; ++j) {
    auto s = sections(c, 1);
    int at = c.flip() ? (int)c.draw(n) : n - 1 - (int)c.draw(std::min(n, 8));
    std::copy(s.begin(), s.end(), v.begin() + 6 * at);
  }
  return v;
}
PROPERTY("C23", many_sections, 6000, 60000) {
  static std::vector<Ops> v;
  if (v.empty()) { addLong<Iir::DirectFormII>(v, DF2); addLong<Iir::DirectFormI>(v, DF1); addLong<Iir::TransposedDirectFormII>(v, TDF2); }
  const Ops& t = c.pick(v);
  importCase(c, t, manySections);
}

typedef std::complex<double> cd;
template <class B> static void sectionIs(Case& c, B& b, double scale, cld p1, cld p2, cld z1, cld z2, const char* what) {
  double k[6]; biquadCoefs(b, k);
  long double w[6] = {1, -(p1 + p2).real(), (p1 * p2).real(), scale, -scale * (z1 + z2).real(), scale * (z1 * z2).real()};
  long double sp = 1 + std::abs(p1) + std::abs(p2), sz = (1 + std::abs(z1) + std::abs(z2)) * fabsl(scale);
  static const char* cn[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  for (int i = 0; i < 6; ++i) {
    // products of the magnitudes bound the rounding of cos, sin and norm
    long double t = 16 * EPS * (i < 3 ? (i == 2 ? std::abs(p1) * std::abs(p2) : sp) : (i == 5 ? fabsl(scale) * std::abs(z1) * std::abs(z2) : sz)) + 1e-300L;
    CHECK(fabsl(k[i] / (long double)k[0] - w[i]) <= t, what << ": " << cn[i] << " is " << fmt(k[i]) << " instead of " << fmtl(w[i]));
  }
  for (int r = 0; r < 4; ++r) {
    double f = r == 0 ? 0 : r == 1 ? 0.5 : c.real(0, 0.5);
    cld z = std::polar((ld)1, -2 * PI_L * f);
    cld num = (cld)scale * (cld(1) - z1 * z) * (cld(1) - z2 * z), den = (cld(1) - p1 * z) * (cld(1) - p2 * z);
    if (std::abs(den) < 1e-8L) continue;
    cld want = num / den; auto g = b.response(f); cld got(g.real(), g.imag());
    long double tol = 64 * EPS * (sz * (1 + std::abs(z1) * std::abs(z2)) / std::abs(den) + std::abs(want) * sp * (1 + std::abs(p1) * std::abs(p2)) / std::abs(den));
    CHECK(std::abs(got - want) <= tol, what << ": response at " << fmt(f) << " is " << g << " instead of (" << fmtl(want.real()) << "," << fmtl(want.imag()) << ")");
  }
  // and as a running filter in every structure
  std::vector<MSec> m = {{(double)w[1], (double)w[2], (double)w[3], (double)w[4], (double)w[5]}};
  auto x = signal(c, 12);
  Iir::DirectFormI f1; Iir::DirectFormII f2; Iir::TransposedDirectFormII f3;
  Tuned t1(DF1, 1), t2(DF2, 1), t3(TDF2, 1);
  for (size_t i = 0; i < x.size(); ++i) {
    double y[3] = {b.filter(x[i], f1), b.filter(x[i], f2), b.filter(x[i], f3)};
    Tuned* t[3] = {&t1, &t2, &t3};
    for (int s = 0; s < 3; ++s) {
      long double tol, v = t[s]->step(x[i], m, tol);
      if (!(fabsl(v) < 1e250L)) return;
      // the placement itself is rounded
      tol += 300 * t[s]->dev;
      CHECK(fabsl(v - y[s]) <= tol, what << ": sample " << i << " is " << fmt(y[s]) << " instead of " << fmtl(v));
    }
  }
}
static double place(Case& c) { return c.chance(1, 8) ? 0 : c.flip() ? c.real(-1, 1) : (c.flip() ? 1 : -1) * c.logreal(1e-3, 50); }

PROPERTY("C23", one_pole, 125000, 1000000) {
  Iir::Custom::OnePole b;
  int pre = (int)c.draw(3);
  const double fs = c.chance(1, 4) ? 1 : c.chance(1, 8) ? (c.flip() ? 1 : -1) * c.logreal(1e-100, 1e100) : place(c), fp = place(c), fz = place(c);
  for (int i = 0; i < pre; ++i) {
    double s = place(c), p = place(c), z = place(c);
    if (c.flip()) { s = fs; p = fp; z = fz; double& x = c.flip() ? s : c.flip() ? p : z; x = x == 0 ? c.real(0.1, 1) : c.flip() ? -x : x * (1 + c.logreal(1e-15, 1)); }
    if (c.chance(1, 4)) { int k = (int)c.draw(3); (k == 0 ? s : k == 1 ? p : z) = NAN; }
    try { b.setup(s, p, z); c.note << "setup(" << fmt(s) << ", " << fmt(p) << ", " << fmt(z) << ") before; "; } catch (const std::invalid_argument&) { c.note << "rejected setup before; "; }
  }
  const double s = fs, p = fp, z = fz;
  c.note << "setup(" << fmt(s) << ", " << fmt(p) << ", " << fmt(z) << ")";
  b.setup(s, p, z);
  sectionIs(c, b, s, p, 0, z, 0, "one-pole section");
  if (s != 0) {
    auto v = b.getPoleZeros();
    CHECK(v.size() == 1 && std::abs(v[0].poles.first - p) <= 8e-16 * std::fabs(p) && std::abs(v[0].zeros.first - z) <= 8e-16 * std::fabs(z) && v[0].isSinglePole(), "pole and zero are reported as " << v[0].poles.first << " and " << v[0].zeros.first);
  }
  c.nontrivial(p != 0 || z != 0);
}

PROPERTY("C23", two_pole, 125000, 1000000) {
  Iir::Custom::TwoPole b;
  int pre = (int)c.draw(3);
  auto rho = [&] { return c.chance(1, 8) ? 0 : c.flip() ? c.real(0, 1) : c.logreal(1e-3, 20); };
  auto theta = [&] { switch (c.draw(5)) { case 0: return 0.0; case 1: return M_PI; case 2: return c.real(0, M_PI); case 3: return c.real(-7, 7); default: return c.logreal(1e-4, 3); } };
  const double fin[5] = {c.chance(1, 4) ? 1 : c.chance(1, 8) ? (c.flip() ? 1 : -1) * c.logreal(1e-100, 1e100) : place(c), rho(), theta(), rho(), theta()};
  for (int i = 0; i < pre; ++i) {
    double q[5] = {place(c), rho(), theta(), rho(), theta()};
    if (c.flip()) { std::copy(fin, fin + 5, q); double& x = q[c.draw(5)]; x = x == 0 ? c.real(0.1, 1) : c.flip() && &x == q ? -x : x * (1 + c.logreal(1e-15, 1)); }
    if (c.chance(1, 4)) q[c.draw(5)] = NAN;
    try { b.setup(q[0], q[1], q[2], q[3], q[4]); c.note << "other setup before; "; } catch (const std::invalid_argument&) { c.note << "rejected setup before; "; }
  }
  const double s = fin[0], pr = fin[1], pt = fin[2], zr = fin[3], zt = fin[4];
  c.note << "setup(" << fmt(s) << ", " << fmt(pr) << ", " << fmt(pt) << ", " << fmt(zr) << ", " << fmt(zt) << ")";
  b.setup(s, pr, pt, zr, zt);
  cld p((ld)pr * cosl(pt), (ld)pr * sinl(pt)), z((ld)zr * cosl(zt), (ld)zr * sinl(zt));
  sectionIs(c, b, s, p, std::conj(p), z, std::conj(z), "two-pole section");
  c.nontrivial(pr != 0 || zr != 0);
}
