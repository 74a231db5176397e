// C03..C07: every design family against its closed-form response.
#include "gen.h"
using namespace pbt;
using namespace gen;

static const ld EPS = 2.220446049250313e-16L;

// relative tolerance for the complex response at f
static ld tolAt(const Ref& r, ld f, ld cn) {
  // exp(ripple) - 1 and asinh(1/eps) by its definition lose digits when they are small
  ld x = r.shelf || r.fam == BUTTER ? 0 : (1 / r.ripple + (r.fam == CHEB1 ? powl(10, r.ripple / 20) : 1 / r.ripple)) * (1 + r.N * 0.1L);
  return 1e-10L + 16 * EPS * (r.cond(f) + cn + x);
}

static std::vector<double> queryFreqs(Case& c, const Desc& d, const Params& p, int n) {
  std::vector<double> q = {0.0, 0.5};
  if (d.band) {
    double e1 = p.fc - p.fw / 2, e2 = p.fc + p.fw / 2;
    q.push_back(e1); q.push_back(e2); q.push_back(p.fc);
    for (int i = 0; i < n; ++i)
      switch (c.draw(4)) {
        case 0: q.push_back(c.real(0, 0.5)); break;
        case 1: q.push_back(e1 + (e2 - e1) * c.unit()); break;
        case 2: q.push_back(std::max(0.0, e1 - (e2 - e1) * c.unit())); break;
        default: q.push_back(std::min(0.5, e2 + (e2 - e1) * c.unit()));
      }
  } else {
    q.push_back(p.fc);
    for (int i = 0; i < n; ++i)
      switch (c.draw(3)) {
        case 0: q.push_back(c.real(0, 0.5)); break;
        case 1: q.push_back(p.fc * c.unit()); break;
        default: q.push_back(std::min(0.5, p.fc * (1 + c.unit()))); break;
      }
  }
  return q;
}

// The closed form through response() and, when the filter is short enough,
// through the samples it produces.
static void closedForm(Case& c, const Filt& flt, bool zeroGain = false) {
  const Desc& d = desc(c, flt);
  Lim l; l.zeroGain = zeroGain; l.wide = c.chance(1, 5);
  Params p = params(c, d, l);
  c.note << show(d, p);
  Ref r(d, p);
  Obj o(d);
  setup(*o, d, p);
  ld cn = d.pole() ? r.cond(r.normFreq()) : 0;
  int used = 0;
  auto one = [&](double f, std::complex<double> got, ld extraTol, const char* what) {
    cld want = r.H(f);
    ld tol;
    if (d.pole()) tol = tolAt(r, f, cn) + extraTol;
    else tol = 1e-9L + extraTol;  // rbj: handled by absolute part below
    ld mag = std::abs(want);
    ld err = std::abs(cld(got) - want);
    if (d.pole()) {
      if (tol > 1e-3L) { c.label("point skipped (ill-conditioned)"); return; }
      ++used;
      if (mag > 1e-200L) { c.metric("error / tolerance", (double)(err / (tol * mag))); c.metric("error / (eps*cond)", (double)(err/mag/(EPS*(r.cond(f)+cn)+1e-13L))); }
      CHECK(err <= tol * mag + 1e-280L, what << " at " << fmt(f) << " is (" << fmt(got.real()) << "," << fmt(got.imag()) << ") but the closed form gives (" << fmtl(want.real()) << "," << fmtl(want.imag()) << "), relative error " << fmtl(err / mag) << " tolerance " << fmtl(tol));
    } else {
      // section sums cancel near the unit circle: absolute error scaled by the denominator
      ld w = 2 * PI_L * f; (void)w;
      double cf[6]; o->stage(0, cf);
      cld zi = std::polar((ld)1, -2 * PI_L * (ld)f);
      ld den = std::abs(cld(cf[0]) + (ld)cf[1] * zi + (ld)cf[2] * zi * zi);
      ld sc = (fabsl(cf[0]) + fabsl(cf[1]) + fabsl(cf[2]));
      ld sn = (fabsl(cf[3]) + fabsl(cf[4]) + fabsl(cf[5]));
      ld sw = sinl(2 * PI_L * (ld)p.fc);
      ld t = 1e-10L + 64 * EPS * sc / den + 64 * EPS / (sw * sw);
      ld at = 64 * EPS * sn / den;
      if (t + extraTol > 1e-3L) { c.label("point skipped (ill-conditioned)"); return; }
      ++used;
      c.metric("error / tolerance", (double)(err / (t * mag + at + extraTol * mag + 1e-300L)));
      CHECK(err <= (t + extraTol) * mag + at + 1e-300L, what << " at " << fmt(f) << " is (" << fmt(got.real()) << "," << fmt(got.imag()) << ") but the closed form gives (" << fmtl(want.real()) << "," << fmtl(want.imag()) << "), error " << fmtl(err));
    }
  };
  for (double f : queryFreqs(c, d, p, 12)) one(f, o->response(f), 0, "response");
  c.nontrivial(used >= 5);
  if (d.pole()) {
    c.label(d.order == p.order ? "full order" : "lower order than instantiated");
    c.label(p.order % 2 ? "odd order" : "even order");
    if (p.order > 8) c.label("order above 8");
  }
  // the same through samples: DTFT of the impulse response
  ld rad = d.pole() ? r.maxPoleRadius() : 0;
  if (d.fam == RBJF) { double cf[6]; o->stage(0, cf); rad = sqrtl(std::max(0.0, cf[2] / cf[0])); if (rad > 0.999L || rad < 0.2L) rad = 1; }
  if (c.chance(1, 4) && rad < 0.998L && rad > 0) {
    int n = (int)std::min<ld>(60000, 60 + 40 * (d.pole() ? p.order : 2) / (1 - rad) + 60);
    std::vector<double> x(n), y(n);
    x[0] = 1;
    o->reset();
    o->run(x.data(), y.data(), n);
    ld tail = 0, l1 = 0;
    for (int i = 0; i < n; ++i) { l1 += fabsl(y[i]); if (i > n - 50) tail += fabsl(y[i]); }
    if (tail < 1e-12L * l1) {
      double f = c.flip() ? p.fc : c.real(0, 0.5);
      cld s = 0;
      for (int i = 0; i < n; ++i) s += (ld)y[i] * std::polar((ld)1, -2 * PI_L * (ld)f * i);
      ld mag = std::abs(r.H(f));
      ld extra = 1e-8L * l1 / std::max<ld>(mag, 1e-300L);
      if (extra < 1e-3L) { c.label("measured from samples"); one(f, std::complex<double>((double)s.real(), (double)s.imag()), extra, "the response measured from the impulse response"); }
    } else c.label("impulse response too long");
  }
}

static double dB(double m) { return 20 * std::log10(m); }
// magnitude of the library's response in dB with its tolerance in dB
struct Mag { double db, tol; bool ok; };
static Mag magAt(const Ref& r, IFilter& f, double q, ld cn) {
  Mag m;
  ld t = tolAt(r, q, cn);
  m.db = dB(std::abs(f.response(q)));
  m.tol = (double)(1e-7L + 9 * t);
  m.ok = t < 1e-3L;
  return m;
}

// Everything the statement says in words, read off the response.
static void landmarks(Case& c, const Filt& flt) {
  const Desc& d = desc(c, flt);
  Lim l; l.wide = c.chance(1, 5);
  Params p = params(c, d, l);
  c.note << show(d, p);
  Ref r(d, p);
  Obj o(d);
  setup(*o, d, p);
  ld cn = r.cond(r.normFreq());
  auto mag = [&](double q) { return magAt(r, *o, q, cn); };
  double e1 = p.fc - p.fw / 2, e2 = p.fc + p.fw / 2;
  double centre = (double)(atanl(sqrtl(r.O1 * r.O2)) / PI_L);
  int N = p.order, checked = 0;
  auto is = [&](double q, double want, double extra, const char* what) {
    Mag m = mag(q);
    if (!m.ok) return;
    ++checked;
    if (std::isinf(want)) return;
    CHECK(std::fabs(m.db - want) <= m.tol + extra, what << " (f=" << fmt(q) << ") is " << fmt(m.db) << " dB, expected " << fmt(want) << " dB");
  };
  bool high = d.kind == HP || d.kind == HSH;
  double passF = d.kind == BS ? 0.0 : d.band ? centre : high ? 0.5 : 0.0;
  // edges lie within the rounding of the band edge times the slope of the response
  double slope = 1e-9 * (1 + (d.band ? N * 0.5 / p.fw : N / p.fc)) * 10;
  std::vector<double> edges;
  if (d.band) edges = {e1, e2}; else edges = {p.fc};
  bool shelf = d.kind >= LSH;
  if (!shelf) {
    double ref0 = d.fam == CHEB1 && N % 2 == 0 ? -p.ripple : 0;
    is(passF, ref0, 0, "passband reference gain");
    if (d.kind == BS) is(0.5, ref0, 0, "passband reference gain");
    double edge = d.fam == BUTTER ? 10 * std::log10(0.5) : -p.ripple;
    for (double q : edges) is(q, edge, slope, "gain at the band edge");
    // extremes of the Chebyshev I passband: prototype frequencies cos(k pi/2N)
    auto fromProto = [&](ld om) -> double {  // one digital frequency for prototype frequency om > 0
      if (d.kind == LP) return (double)(atanl(om * r.Oc) / PI_L);
      if (d.kind == HP) return (double)(atanl(r.Oc / om) / PI_L);
      ld B = d.kind == BP ? (r.O2 - r.O1) * om : (r.O2 - r.O1) / om;
      bool up = c.flip();
      ld t = (up ? B : -B) / 2 + sqrtl(B * B / 4 + r.O1 * r.O2);
      return (double)(atanl(t) / PI_L);
    };
    if (d.fam == CHEB1) {
      int k = (int)c.draw(2 * N) ;  // om = cos(k pi / 2N): even k minimum (-r), odd k maximum (0 dB)
      ld om = cosl(PI_L * k / (2 * N));
      if (om > 1e-6L) is(fromProto(om), k % 2 ? 0 : -p.ripple, slope, "extreme of the passband ripple");
    }
    if (d.fam == CHEB2) {
      int k = (int)c.draw(N);
      ld om = 1 / std::max<ld>(cosl(PI_L * k / N), 1e-3L);
      if (k == 0) om = 1;
      if (om < 900 && k > 0 && 2 * k < N) is(fromProto(om), -p.ripple, slope, "stopband lobe of the rejection");
    }
    // bounds and monotonicity on random prototype frequencies
    double last = 1e9, lastTol = 0; (void)last;
    std::vector<ld> oms;
    for (int i = 0; i < 6; ++i) oms.push_back(c.flip() ? (ld)c.real(0.001, 1) : (ld)c.logreal(1, 50));
    std::sort(oms.begin(), oms.end());
    bool up = false; (void)up;
    std::vector<std::pair<ld, Mag>> ms;
    for (ld om : oms) {
      double q = fromProto(om);
      if (q <= 0 || q >= 0.5) continue;
      Mag m = mag(q);
      if (!m.ok) continue;
      ++checked;
      ms.push_back({om, m});
      CHECK(m.db <= m.tol, "gain " << fmt(m.db) << " dB above 0 dB at " << fmt(q));
      if (d.fam == CHEB1 && om <= 0.999L) CHECK(m.db >= -p.ripple - m.tol - slope, "passband gain " << fmt(m.db) << " dB below the ripple limit at " << fmt(q));
      if (d.fam == CHEB2 && om >= 1.001L) CHECK(m.db <= -p.ripple + m.tol + slope, "stopband gain " << fmt(m.db) << " dB above the requested rejection at " << fmt(q));
    }
    (void)lastTol;
    for (size_t i = 1; i < ms.size(); ++i) {
      ld a = ms[i - 1].first, b = ms[i].first;
      bool mono = d.fam == BUTTER || (d.fam == CHEB1 && a >= 1) || (d.fam == CHEB2 && b <= 1);
      if (mono && b > a) CHECK(ms[i].second.db <= ms[i - 1].second.db + ms[i].second.tol + ms[i - 1].second.tol, "not monotone between prototype frequencies " << fmtl(a) << " and " << fmtl(b));
    }
  } else {
    double g = p.gain, lo = std::min(0.0, g), hi = std::max(0.0, g);
    // band reference
    if (d.fam == BUTTER || N % 2) is(passF, g, 0, "gain in the band");
    else is(passF, g - (g > 0 ? p.ripple : -p.ripple), slope, "gain in the band");
    double edge = d.fam == BUTTER ? g / 2 : g > 0 ? g - p.ripple : g + p.ripple;
    for (double q : edges) is(q, edge, slope, "gain at the band edge");
    if (d.kind == LSH || d.kind == BSH) is(0.5, 0, 0, "gain far outside the band");
    if (d.kind == HSH || d.kind == BSH) is(0.0, 0, 0, "gain far outside the band");
    for (int i = 0; i < 8; ++i) {
      double q;
      if (c.flip()) q = d.band ? e1 + (e2 - e1) * c.unit() : high ? p.fc + (0.5 - p.fc) * c.unit() : p.fc * c.unit();
      else q = c.real(0, 0.5);
      Mag m = mag(q);
      if (!m.ok) continue;
      ++checked;
      CHECK(m.db >= lo - m.tol && m.db <= hi + m.tol, "gain " << fmt(m.db) << " dB at " << fmt(q) << " outside 0 dB .. " << fmt(g) << " dB");
      bool in = d.band ? q > e1 && q < e2 : high ? q > p.fc : q < p.fc;
      if (in && d.fam != BUTTER) CHECK(std::fabs(m.db - g) <= p.ripple + m.tol + slope, "gain " << fmt(m.db) << " dB in the band at " << fmt(q) << " deviates more than the ripple from " << fmt(g));
    }
  }
  c.nontrivial(checked >= 4);
}

static Filt fam(int f, int lo, int hi) { Filt q; q.rbj = false; q.fam = f; q.kindLo = lo; q.kindHi = hi; return q; }
static const Filt fB = fam(BUTTER, LP, BS), fC1 = fam(CHEB1, LP, BS), fC2 = fam(CHEB2, LP, BS), fSh = fam(-1, LSH, BSH);

RULE("C03", "Random Butterworth lowpass/highpass/bandpass/bandstop designs (all instantiated orders and requested orders 1..47, three structures, cutoffs 0.001..0.499, widths down to 0.5% of the room; one in five from the whole range: frequencies from 1e-6 of the edges (first-order low pass: from 1e-11), any width); response() at 14-17 frequencies and, in a quarter of the cases, the DTFT of the impulse response produced by filter(), against the closed form in long double. Non-trivial: at least 5 (closed form) or 4 (landmarks) query points were well enough conditioned to be compared.");
PROPERTY("C03", butterworth_closed_form, 48000, 600000) { closedForm(c, fB); }
PROPERTY("C03", butterworth_landmarks, 30000, 400000) { landmarks(c, fB); }

RULE("C04", "Random Chebyshev I lowpass/highpass/bandpass/bandstop designs (orders 1..47, ripple 0.002..12 dB, one in five 1e-7..150 dB and any frequency, three structures), compared as for C03; landmarks read the ripple extremes, band edges, bounds and skirt monotonicity off response(). Non-trivial: at least 5 (closed form) or 4 (landmarks) comparable query points.");
PROPERTY("C04", chebyshev1_closed_form, 48000, 600000) { closedForm(c, fC1); }
PROPERTY("C04", chebyshev1_landmarks, 30000, 400000) { landmarks(c, fC1); }

RULE("C05", "Random Chebyshev II lowpass/highpass/bandpass/bandstop designs (orders 1..47, rejection 1..190 dB, one in five 1e-6..600 dB and any frequency, three structures), compared as for C03; landmarks read rejection, stopband lobes, edges and monotonicity off response(). Non-trivial: at least 5 (closed form) or 4 (landmarks) comparable query points.");
PROPERTY("C05", chebyshev2_closed_form, 48000, 600000) { closedForm(c, fC2); }
PROPERTY("C05", chebyshev2_landmarks, 30000, 400000) { landmarks(c, fC2); }

RULE("C06", "Random low/high/band shelves of the three pole families (orders 1..47, gains 0.05..40 dB boost and cut and exactly 0 dB, Chebyshev ripple 1..95% of the gain; one in five: gains 1e-9..250 dB, any frequency), closed form and landmarks. Non-trivial: at least 5 (closed form) or 4 (landmarks) comparable query points. Ripple parameters not below the gain are excluded by construction (known finding).");
PROPERTY("C06", shelves_closed_form, 60000, 800000) { closedForm(c, fSh, true); }
PROPERTY("C06", shelves_landmarks, 36000, 500000) { landmarks(c, fSh); }

static double resp(const char* prefix, const Params& p, double f) {
  for (auto& d : registry())
    if (d.name.rfind(prefix, 0) == 0) { Obj o(d); setup(*o, d, p); return dB(std::abs(o->response(f))); }
  return 0;
}
// ripple parameter not below the gain: the band gain overshoots the request
KNOWN_FINDING("C06", ripple_not_below_gain) {
  Params p; p.order = 4; p.fc = 0.1; p.gain = 6; p.ripple = 6;
  double a = resp("ChebyshevI::LowShelf<4,DirectFormII>", p, 0.0), b = resp("ChebyshevII::LowShelf<4,DirectFormII>", p, 0.0);
  double mx = std::max(a, b);
  return mx > 6.05;
}
// Chebyshev II shelves: documented ripple in the stopband, actually in the passband
KNOWN_FINDING("C06", cheb2_shelf_ripple_in_passband) {
  Params p; p.order = 4; p.fc = 0.1; p.gain = 12; p.ripple = 3;
  // ripple in the stopband would mean the full 12 dB at DC
  return std::fabs(resp("ChebyshevII::LowShelf<4,DirectFormII>", p, 0.0) - 9) < 0.01;
}

static Filt rbjF() { Filt q; q.pole = false; return q; }
static const Filt fR = rbjF();
RULE("C07", "Random RBJ designs of all ten types (frequency 0.001..0.499, Q 0.05..50, slope 0.05..1 and steeper ones as long as the cookbook formula stays real, bandwidth 0.02..5 octaves, gains 0.05..40 dB and 0 dB, explicit and defaulted arguments; one in five from the whole range, Q 1e-6..1e8), response() and the measured impulse response against the analogue cookbook form evaluated in long double; landmarks check the gain at the corner, null, phase flip, shelf gains and notch pole radius. Non-trivial: at least 5 (closed form) comparable query points.");
PROPERTY("C07", rbj_closed_form, 160000, 1500000) { closedForm(c, fR, true); }
PROPERTY("C07", rbj_landmarks, 160000, 1500000) {
  const Desc& d = desc(c, fR);
  Params p = params(c, d);
  bool def = false;
  Obj o(d);
  double a[4]; p.args(d, a);
  double fs = c.flip() ? 0 : c.logreal(1, 96000);
  if (c.chance(1, 3)) {
    // documented default: Q = 1/sqrt(2), notch Q = 10, shelf slope = 1
    double keep = p.ripple;
    p.ripple = d.kind == R_NOTCH ? 10 : (d.kind == R_LSH || d.kind == R_HSH) ? 1 : 1 / std::sqrt(2.0);
    if (fs > 0) { double b[4]; p.argsHz(d, fs, b); def = o->setupDefHz(fs, b); } else def = o->setupDefN(a);
    if (!def) p.ripple = keep;
  }
  c.note << show(d, p) << (def ? " defaulted" : "");
  if (!def) {
    if (fs > 0) { double b[4]; p.argsHz(d, fs, b); o->setupHz(fs, b); c.note << " fs=" << fmt(fs); }
    else o->setupN(a);
  } else c.label("default argument");
  c.nontrivial();
  double cf[6]; o->stage(0, cf);
  auto H = [&](double f) { return o->response(f); };
  auto M = [&](double f) { return std::abs(H(f)); };
  double f0 = p.fc, Q = p.ripple;
  // rounding of the section sums relative to the denominator at q
  auto tol = [&](double q) {
    std::complex<double> zi = std::polar(1.0, -2 * M_PI * q);
    double den = std::abs(cf[0] + cf[1] * zi + cf[2] * zi * zi);
    double s = 0; for (double v : cf) s += std::fabs(v);
    return 1e-9 + 1e-14 * s / den * 10;
  };
  auto near = [&](double got, double want, double q, const char* what) {
    double t = tol(q) * (1 + std::fabs(want)) + (fs > 0 ? 1e-9 * (1 + Q) : 0) + 1e-13 / std::min(f0, 0.5 - f0);
    if (t > 1e-2) { c.label("ill-conditioned landmark"); return; }
    CHECK(std::fabs(got - want) <= t * 4, what << ": " << fmt(got) << " instead of " << fmt(want) << " at " << fmt(q));
  };
  double g = std::pow(10, p.gain / 20);
  double q = c.real(0, 0.5);
  switch (d.kind) {
    case R_LP: near(M(f0), Q, f0, "gain at the cutoff"); near(M(0), 1, 0, "DC gain"); near(M(0.5), 0, 0.5, "Nyquist gain"); break;
    case R_HP: near(M(f0), Q, f0, "gain at the cutoff"); near(M(0.5), 1, 0.5, "Nyquist gain"); near(M(0), 0, 0, "DC gain"); break;
    case R_BP1: near(M(f0), Q, f0, "peak gain"); near(M(0), 0, 0, "DC gain"); near(M(0.5), 0, 0.5, "Nyquist gain");
      CHECK(M(q) <= Q * (1 + 1e-6) + 4 * tol(q), "gain above the peak at " << fmt(q)); break;
    case R_BP2: near(M(f0), 1, f0, "peak gain"); near(M(0), 0, 0, "DC gain"); near(M(0.5), 0, 0.5, "Nyquist gain");
      CHECK(M(q) <= 1 + 4 * tol(q), "gain above 0 dB at " << fmt(q)); break;
    case R_BS: near(M(f0), 0, f0, "null"); near(M(0), 1, 0, "DC gain"); near(M(0.5), 1, 0.5, "Nyquist gain");
      CHECK(M(q) <= 1 + 4 * tol(q), "gain above 0 dB at " << fmt(q)); break;
    case R_NOTCH: {
      near(M(f0), 0, f0, "null");
      double want = std::exp(-M_PI * f0 / Q), got = std::sqrt(cf[2] / cf[0]);
      near(got, want, f0, "pole radius");
      break;
    }
    case R_AP: near(M(q), 1, q, "allpass gain"); near(std::real(H(f0)), -1, f0, "phase flip (real part)"); near(std::imag(H(f0)), 0, f0, "phase flip (imaginary part)"); break;
    case R_LSH: near(M(0), g, 0, "gain at DC"); near(M(0.5), 1, 0.5, "gain at Nyquist"); near(M(f0), std::sqrt(g), f0, "midpoint gain"); break;
    case R_HSH: near(M(0.5), g, 0.5, "gain at Nyquist"); near(M(0), 1, 0, "gain at DC"); near(M(f0), std::sqrt(g), f0, "midpoint gain"); break;
    case R_BSH: near(M(f0), g, f0, "gain at the centre"); near(M(0), 1, 0, "gain at DC"); near(M(0.5), 1, 0.5, "gain at Nyquist"); break;
    default: break;
  }
}
KNOWN_FINDING("C07", bandwidth_in_octaves_is_q) {
  // "bandWidth in octaves": with one octave the gain would be -3 dB half an
  // octave above the centre; with the parameter acting as Q = 1 it is not
  for (auto& d : registry())
    if (d.name == "RBJ::BandPass2") {
      Params p; p.fc = 0.05; p.ripple = 2;
      Obj o(d); setup(*o, d, p);
      double f = 0.05 * 2;  // one octave above: -3 dB for a bandwidth of two octaves
      return std::fabs(dB(std::abs(o->response(f))) + 3.01) > 1;
    }
  return false;
}
