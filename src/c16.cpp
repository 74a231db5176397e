// C16: poles, zeros and coefficients reported by the library.
#include "noise.h"
#include "wrap.h"
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C16", "design_pole_zeros: random designs of all families after optional earlier setups; the reported poles and zeros (of the design, of the cascade recovered from its coefficients, and of each section) are multiplied out in long double and compared with the response query at 24 frequencies up to one constant; complex ones have to come in conjugate pairs and their number has to be the order (twice the order for band filters). placement: random real, repeated, conjugate, zero and widely spread placements (roots 1e-12..1e9, scales 1e-100..1e100) on a single section, read back and matched as sets, with the gain, and placed again through BiquadPoleState. never_nan: sections with a zero at infinity are refused or reported without NaN, and is_nan() sees it in every component. getters: coefficients set with any leading coefficient are returned. Non-trivial: for designs at least one complex pair and finite comparison at 10 frequencies or more; all placements except two equal poles at 0; never_nan: leading numerator coefficient 0 or a NaN imaginary part.");

static const long double EPS = 2.220446049250313e-16L;

static std::string showPZ(const std::vector<PZ>& v) {
  std::ostringstream o;
  for (auto& e : v) { o << "p " << e.p1 << (e.single ? "" : " "); if (!e.single) o << e.p2; o << " z " << e.z1; if (!e.single) o << " " << e.z2; o << "; "; }
  return o.str();
}
static bool finite(std::complex<double> v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

// compares the shape; tol(f) is the absolute error allowed in the response
static void sameShape(Case& c, const std::vector<PZ>& v, const std::function<std::complex<double>(double)>& resp, const std::vector<LSec>& sec, const char* what) {
  std::vector<double> fs;
  for (int i = 0; i < 24; ++i) fs.push_back(i == 0 ? 0.0 : i == 1 ? 0.5 : 0.5 * (i - 0.5) / 23.0);
  fs.push_back(1e-3); fs.push_back(0.499);
  struct P { cld h, k; long double err, rel; };
  std::vector<P> ps;
  for (double f : fs) {
    cld z1 = std::polar((ld)1, -2 * PI_L * f);
    cld num(1), den(1); long double rel = 0;
    for (auto& e : v) {
      auto fac = [&](std::complex<double> r) { return cld(1) - cld(r.real(), r.imag()) * z1; };
      cld a = fac(e.p1), b = e.single ? cld(1) : fac(e.p2), n1 = fac(e.z1), n2 = e.single ? cld(1) : fac(e.z2);
      num *= n1 * n2; den *= a * b;
      long double sp = 1 + std::abs(e.p1) + (e.single ? 0 : std::abs(e.p2)), sz = 1 + std::abs(e.z1) + (e.single ? 0 : std::abs(e.z2));
      rel += 16 * EPS * sp * sp / std::abs(a * b);
      long double nz = std::abs(n1 * n2);
      rel += nz > 0 ? 16 * EPS * sz * sz / nz : HUGE_VALL;
    }
    auto h = resp(f);
    ps.push_back({cld(h.real(), h.imag()), num / den, responseError(sec, f), rel});
  }
  // reference frequency: smallest relative uncertainty
  int ref = -1; long double best = 0.01L;
  for (size_t i = 0; i < ps.size(); ++i) {
    long double r = ps[i].err / std::abs(ps[i].h) + ps[i].rel;
    if (r < best) { best = r; ref = (int)i; }
  }
  if (ref < 0) { c.label("no well conditioned frequency"); return; }
  cld K = ps[ref].h / ps[ref].k;
  int good = 0;
  for (size_t i = 0; i < ps.size(); ++i) {
    cld want = K * ps[i].k;
    long double relHere = std::isinf(ps[i].rel) ? 0 : ps[i].rel;
    long double nulltol = 0;
    if (relHere > 0.1L || std::isinf(ps[i].rel)) { // close to a zero: absolute error of the numerator
      // relative to the size of the response without the vanishing factors
      nulltol = 1e-9L * std::abs(ps[ref].h) + 1e-6L * std::abs(want);
      if (relHere > 0.1L) relHere = 0.1L;
      (void)nulltol;
      continue;
    }
    long double tol = 4 * (ps[i].err + std::abs(want) * (relHere + best));
    long double diff = std::abs(ps[i].h - want);
    if (tol < 0.1L * std::abs(want)) ++good;
    c.metric("shape difference / tolerance", (double)(diff / tol));
    CHECK(diff <= tol, what << " do not reproduce the response at " << fmt(fs[i]) << ": |H| is " << fmtl(std::abs(ps[i].h)) << ", poles and zeros give " << fmtl(std::abs(want)) << " (difference " << fmtl(diff) << ", tolerance " << fmtl(tol) << "); " << showPZ(v));
  }
  c.metric("frequencies compared", good);
  if (good >= 10) c.label("10 or more frequencies compared");
}
static bool conj1(Case& c, std::complex<double> a, std::complex<double> b, const char* what) {
  double s = std::abs(a) + std::abs(b) + 1e-300;
  bool ok = std::abs(a - std::conj(b)) <= 1e-12 * s || (a.imag() == 0 && b.imag() == 0);
  CHECK(ok, what << " " << a << " and " << b << " are neither conjugate nor both real");
  return a.imag() != 0;
}
static int checkList(Case& c, const std::vector<PZ>& v, const char* what) {
  int n = 0;
  for (auto& e : v) {
    CHECK(finite(e.p1) && finite(e.p2) && finite(e.z1) && finite(e.z2), what << ": a pole or zero is not finite: " << showPZ(v));
    n += e.single ? 1 : 2;
    if (e.single) CHECK(e.p1.imag() == 0 && e.z1.imag() == 0, what << ": single complex pole or zero " << showPZ(v));
    else { if (conj1(c, e.p1, e.p2, what)) c.label("complex poles"); conj1(c, e.z1, e.z2, what); }
  }
  return n;
}

PROPERTY("C16", design_pole_zeros, 160000, 2000000) {
  Filt q;
  const Desc& d = desc(c, q);
  Obj o(d);
  int pre = c.chance(1, 3) ? 1 + (int)c.draw(2) : 0;
  c.note << d.name << ": ";
  for (int i = 0; i < pre; ++i) { Op op = c.chance(1, 4) ? hist::invalidSetup(c, d) : hist::validSetup(c, d); hist::trySetup(*o, d, op); c.note << hist::show(d, op) << "; "; }
  Lim l; l.flo = 2e-3; l.fhi = 0.498; l.minWidthRel = 0.02;
  Params p = params(c, d, l);
  setup(*o, d, p);
  c.note << show(d, p);
  if (c.chance(1, 3)) { auto x = signal(c, 10); for (double v : x) o->fd(v); }
  auto sec = sectionsOf(*o);
  auto resp = [&](double f) { return o->response(f); };
  // a zero at infinity (leading numerator coefficient 0) cannot be reported
  for (int i = 0; i < o->numStages(); ++i) {
    double k[6]; o->stage(i, k);
    if (k[3] == 0) {
      c.label("zero at infinity");
      try { (void)o->cascadePoleZeros(); (void)o->sectionPoleZeros(i); } catch (const std::invalid_argument&) {}
      return;
    }
  }
  auto v = o->poleZeros();
  int n = checkList(c, v, "getPoleZeros()");
  if (d.pole()) CHECK(n == p.order * (d.band ? 2 : 1), n << " poles are reported for order " << p.order << ": " << showPZ(v));
  else CHECK(n <= 2 && n >= 1 && v.size() == 1, n << " poles are reported for a second order filter");
  sameShape(c, v, resp, sec, "the reported poles and zeros");
  v = o->cascadePoleZeros();
  n = checkList(c, v, "poles and zeros of the cascade");
  sameShape(c, v, resp, sec, "the poles and zeros of the cascade");
  if (d.pole()) CHECK((int)v.size() == o->numStages(), "one pair per section expected");
  std::vector<PZ> all;
  for (int i = 0; i < o->numStages(); ++i) { auto w = o->sectionPoleZeros(i); CHECK(w.size() == 1, "one pair per section expected"); checkList(c, w, "poles and zeros of a section"); all.push_back(w[0]); }
  sameShape(c, all, resp, sec, "the poles and zeros of the sections");
  c.nontrivial(c.labels.count("complex poles") && c.labels.count("10 or more frequencies compared"));
}

// ---- single sections --------------------------------------------------
typedef std::complex<double> cd;
static void place(Case& c, cd& a, cd& b, bool zeroAllowed) {
  auto mag = [&] { return c.chance(1, 4) ? c.logreal(1e-4, 1e3) : c.real(0, 1.2); };
  auto sgn = [&] { return c.flip() ? 1.0 : -1.0; };
  switch (c.draw(6)) {
    case 0: a = b = sgn() * mag(); break;                       // double
    case 1: a = sgn() * mag(); b = sgn() * mag(); break;        // two real ones
    case 2: a = sgn() * mag(); b = zeroAllowed ? 0 : 0.25; break;
    case 3: a = cd(0, mag() + 1e-3); b = std::conj(a); break;
    case 4: { double th = c.logreal(1e-4, 3); a = std::polar(mag() + 1e-3, th); b = std::conj(a); break; }
    default: a = cd(c.real(-1, 1), c.real(0.01, 1)); b = std::conj(a); if (c.flip()) std::swap(a, b); break;
  }
  if (c.chance(1, 8)) { double s = c.logreal(1e-9, 1e9); a *= s; b *= s; c.label("roots of unusual size"); }
}
static void match(Case& c, cd a, cd b, cd x, cd y, const char* what) {
  double S = std::abs(a) + std::abs(b), sep = std::abs(a - b);
  double tol = std::min(64 * (double)EPS * S * S / (sep > 0 ? sep : 1e-300), 16 * std::sqrt((double)EPS) * S) + 1e-300;
  double d1 = std::max(std::abs(a - x), std::abs(b - y)), d2 = std::max(std::abs(a - y), std::abs(b - x));
  c.metric("placement difference / tolerance", std::min(d1, d2) / tol);
  CHECK(std::min(d1, d2) <= tol, what << " were " << a << " " << b << " and are read back as " << x << " " << y);
  // sums and products are much better conditioned
  double t = 64 * (double)EPS;
  CHECK(std::abs((x + y) - (a + b)) <= t * S, what << ": the sum of " << a << " " << b << " is read back as " << x + y);
  CHECK(std::abs(x * y - a * b) <= t * S * S, what << ": the product of " << a << " " << b << " is read back as " << x * y);
}
static void coefClose(Case& c, const double* a, const double* b, const char* what) {
  static const char* cn[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  // relative to the size of the numerator or denominator
  double sa = std::fabs(b[0]) + std::fabs(b[1]) + std::fabs(b[2]), sb = std::fabs(b[3]) + std::fabs(b[4]) + std::fabs(b[5]);
  // products of widely spread roots
  double wa = sa * sa / std::max(std::fabs(b[0]), 1e-300), wb = sb * sb / std::max(std::fabs(b[3]), 1e-300);
  for (int i = 0; i < 6; ++i) CHECK(std::fabs(a[i] - b[i]) <= 64 * (double)EPS * (i < 3 ? wa : wb), what << ": " << cn[i] << " is " << fmt(a[i]) << " instead of " << fmt(b[i]));
}

PROPERTY("C16", placement, 240000, 4000000) {
  Iir::Biquad b;
  if (c.flip()) b.setCoefficients(c.real(0.5, 3), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));  // something else before
  int how = (int)c.draw(4);
  cd p1, p2, z1, z2;
  bool single = false;
  if (how == 0) {
    p1 = c.flip() ? c.real(-1, 1) : (c.flip() ? 1 : -1) * c.logreal(1e-12, 1e9); z1 = c.chance(1, 8) ? cd(0) : c.flip() ? cd(c.real(-1, 1)) : cd((c.flip() ? 1 : -1) * c.logreal(1e-12, 1e9));
    single = true;
    c.note << "setOnePole(" << p1 << ", " << z1 << ")";
    b.setOnePole(p1, z1);
  } else {
    place(c, p1, p2, true); place(c, z1, z2, true);
    c.note << (how == 1 ? "setPoleZeroPair" : "setTwoPole") << " poles " << p1 << " " << p2 << " zeros " << z1 << " " << z2;
    Iir::PoleZeroPair pair(p1, z1, p2, z2);
    if (how == 1) { if (pair.isSinglePole()) single = true; b.setPoleZeroPair(pair); } else b.setTwoPole(p1, z1, p2, z2);
  }
  double scale = 1;
  if (c.flip()) { scale = (c.flip() ? 1 : -1) * (c.chance(1, 4) ? c.logreal(1e-100, 1e100) : c.logreal(1e-6, 1e6)); b.applyScale(scale); c.note << " scaled by " << fmt(scale); }
  auto v = b.getPoleZeros();
  CHECK(v.size() == 1, "one pair expected");
  auto& r = v[0];
  match(c, p1, p2, r.poles.first, r.poles.second, "poles");
  match(c, z1, z2, r.zeros.first, r.zeros.second, "zeros");
  if (single) CHECK(r.isSinglePole(), "a single pole and zero are read back as a pair");
  Iir::BiquadPoleState s(b);
  CHECK(std::fabs(s.gain - scale) <= 4 * (double)EPS * std::fabs(scale), "the gain was " << fmt(scale) << " and is read back as " << fmt(s.gain));
  Iir::Biquad b2;
  // the complex square root may leave a real pair with a rounding-sized imaginary part only if it was complex before
  b2.setPoleZeroForm(s);
  double k1[6], k2[6]; biquadCoefs(b, k1); biquadCoefs(b2, k2);
  coefClose(c, k2, k1, "coefficients placed again");
  // coefficients are those of the placement
  auto real2 = [](cd a, cd b, double* o) { o[0] = 1; o[1] = -(a + b).real(); o[2] = (a * b).real(); };
  double w[6]; real2(p1, p2, w); real2(z1, z2, w + 3);
  for (int i = 3; i < 6; ++i) w[i] *= scale;
  coefClose(c, k1, w, "coefficients of the placement");
  c.nontrivial(!(p1 == 0. && p2 == 0.));
}

PROPERTY("C16", getters, 120000, 1000000) {
  Iir::Biquad b;
  int n = 1 + (int)c.draw(3);
  double k[6], g[6];
  for (int i = 0; i < n; ++i) {
    for (double& v : k) {
      switch (c.draw(4)) {
        case 0: v = c.range(-4, 4); break;
        case 1: v = c.real(-2, 2); break;
        case 2: v = (c.flip() ? 1 : -1) * c.logreal(1e-30, 1e30); break;
        default: v = 0;
      }
    }
    if (k[0] == 0) k[0] = c.flip() ? 1 : -0.3;
    if (c.flip()) k[0] = 1;
    b.setCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]);
    c.note << "setCoefficients(" ; for (double v : k) c.note << fmt(v) << " "; c.note << "); ";
  }
  biquadCoefs(b, g);
  static const char* cn[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  for (int i = 0; i < 6; ++i) CHECK(std::fabs(g[i] - k[i]) <= 4 * (double)EPS * std::fabs(k[i]), cn[i] << " was set to " << fmt(k[i]) << " and is returned as " << fmt(g[i]));
  CHECK(g[0] == k[0], "a0 was set to " << fmt(k[0]) << " and is returned as " << fmt(g[0]));
  if (k[0] == 1) for (int i = 0; i < 6; ++i) CHECK(g[i] == k[i], cn[i] << " was set to " << fmt(k[i]) << " and is returned as " << fmt(g[i]));
  // response of the section from its coefficients
  double f = c.real(0, 0.5);
  cld z1 = std::polar((ld)1, -2 * PI_L * f), z2 = z1 * z1;
  std::vector<LSec> s = {{(ld)k[3] / k[0], (ld)k[4] / k[0], (ld)k[5] / k[0], (ld)k[1] / k[0], (ld)k[2] / k[0]}};
  cld den = cld(1) + s[0].a1 * z1 + s[0].a2 * z2;
  if (std::abs(den) > 1e-6L * (1 + fabsl(s[0].a1) + fabsl(s[0].a2))) {
    cld want = (cld(s[0].b0) + s[0].b1 * z1 + s[0].b2 * z2) / den;
    auto h = b.response(f);
    cld got(h.real(), h.imag());
    long double tol = 4 * responseError(s, f);
    CHECK(std::abs(got - want) <= tol, "response of the section at " << fmt(f) << " is " << h << ", its coefficients give " << want);
  }
  b.setIdentity();
  biquadCoefs(b, g);
  for (int i = 0; i < 6; ++i) CHECK(g[i] == (i == 0 || i == 3 ? 1 : 0), "setIdentity() leaves " << cn[i] << " = " << fmt(g[i]));
  c.nontrivial(k[0] != 1);
}

// A zero at infinity may be refused, but what is reported is a number; and the
// helper types tell NaN from numbers in every component.
PROPERTY("C16", never_nan, 60000, 500000) {
  Iir::Biquad b;
  double k[6];
  for (double& v : k) v = c.chance(1, 3) ? 0 : c.flip() ? c.range(-3, 3) : (c.flip() ? 1 : -1) * c.logreal(1e-6, 1e6);
  if (k[0] == 0) k[0] = 1;
  if (c.flip()) k[3] = 0;
  b.setCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]);
  for (double v : k) c.note << fmt(v) << " ";
  if (k[3] != 0 || k[4] != 0 || k[5] != 0)
    try {
      auto v = b.getPoleZeros();
      CHECK(v.size() == 1, "one pair expected");
      for (auto& r : {v[0].poles.first, v[0].poles.second, v[0].zeros.first, v[0].zeros.second})
        CHECK(!std::isnan(r.real()) && !std::isnan(r.imag()), "a pole or zero is reported as NaN");
    } catch (const std::invalid_argument&) { CHECK(k[3] == 0, "poles and zeros are refused"); c.label("refused"); }
  Iir::PoleZeroPair q;
  cd* at[4] = {&q.poles.first, &q.poles.second, &q.zeros.first, &q.zeros.second};
  for (auto* p : at) *p = cd(c.real(-2, 2), c.flip() ? 0 : c.real(-2, 2));
  CHECK(!q.is_nan() && !q.poles.is_nan() && !q.zeros.is_nan(), "is_nan() of numbers");
  int w = (int)c.draw(4); bool im = c.flip();
  *at[w] = im ? cd(at[w]->real(), NAN) : cd(NAN, at[w]->imag());
  c.note << "; NaN in component " << w << (im ? " (imaginary)" : " (real)");
  CHECK(q.is_nan(), "is_nan() of the pair overlooks it");
  CHECK(q.poles.is_nan() == (w < 2) && q.zeros.is_nan() == (w >= 2), "is_nan() of the poles or zeros");
  c.nontrivial(k[3] == 0 || im);
}

// the pole/zero report after a setup that was rejected late
KNOWN_FINDING("C16", pole_zero_report_after_rejection) {
  Iir::ChebyshevII::LowPass<2> f;
  f.setupN(0.25, 40);
  auto before = f.getPoleZeros();
  try { f.setupN(0, 1); return false; } catch (const std::invalid_argument&) {}
  try {
    auto after = f.getPoleZeros();
    if (after.size() != before.size()) return true;
    for (size_t i = 0; i < after.size(); ++i) if (after[i].poles.first != before[i].poles.first) return true;
  } catch (const std::invalid_argument&) { return true; }
  return false;
}
