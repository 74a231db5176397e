// C09: invalid parameters are always rejected, valid ones never.
#include "hist.h"
#include "wrap.h"
using namespace pbt;
using namespace gen;

RULE("C09", "rejects_invalid: a random call history (valid setups, invalid setups, filtering, resets) followed by one documented-invalid call, made up to 5 times in a row with the same and with other values in between; every attempt has to throw std::invalid_argument. accepts_valid: valid parameters up to the extremes (frequencies, ripple, rejection, Q, gains far from the usual) after a history that includes rejected calls. arbitrary_arguments: arguments made of special values, raw bit patterns and boundary neighbours; what is invalid by the documented rule has to throw, anything accepted must not leave a NaN coefficient. Sections, indices and response queries have properties of their own. Non-trivial: every case (each contains at least one judged call); for arbitrary_arguments at least one argument is neither a valid nor an ordinary value.");

static void history(Case& c, Obj& o, const Desc& d) {
  int n = (int)c.draw(5);
  for (int i = 0; i < n; ++i) {
    hist::Op op;
    switch (c.draw(5)) {
      case 0: case 1: op = hist::validSetup(c, d); break;
      case 2: op = hist::invalidSetup(c, d); break;
      case 3: op = hist::filterOp(c, 10); break;
      default: op.t = hist::Op::RESET;
    }
    c.note << hist::show(d, op) << "; ";
    hist::apply(*o, d, op);
  }
}
static void noNaN(Case& c, IFilter& f, const char* when) {
  for (int i = 0; i < f.numStorage(); ++i) {
    double k[6]; f.storage(i, k);
    for (double v : k) CHECK(v == v, when << " left a NaN coefficient in section " << i);
  }
}

PROPERTY("C09", rejects_invalid, 240000, 2500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj o(d);
  c.note << d.name << ": ";
  history(c, o, d);
  hist::Op bad = hist::invalidSetup(c, d);
  int times = 1 + (int)c.draw(5);
  c.label(bad.why);
  for (int i = 0; i < times; ++i) {
    c.note << hist::show(d, bad) << " (" << bad.why << "); ";
    int r = hist::trySetup(*o, d, bad);
    CHECK(r == 1, (r == 0 ? "accepted" : "did not throw std::invalid_argument for") << " an invalid call (" << bad.why << "): " << hist::showSetup(d, bad));
    noNaN(c, *o, "a rejected call");
    if (c.chance(1, 4)) { hist::Op other = hist::invalidSetup(c, d); c.note << hist::show(d, other) << "; "; CHECK(hist::trySetup(*o, d, other) == 1, "accepted an invalid call (" << other.why << "): " << hist::showSetup(d, other)); }
  }
  c.nontrivial();
}

PROPERTY("C09", accepts_valid, 240000, 2500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj o(d);
  c.note << d.name << ": ";
  if (c.flip()) history(c, o, d);
  hist::Op op;
  if (d.fam == SOS || c.chance(1, 3)) op = hist::validSetup(c, d);
  else {
    Params p = extreme(c, d);
    if (c.chance(1, 4)) {
      // round values: quarter band, half band and the like
      static const double nf[] = {0.25, 0.125, 0.375, 0.1, 0.2, 0.3, 0.4, 0.0625, 1.0 / 3, 1.0 / 6};
      static const double nw[] = {0.25, 0.125, 0.0625, 0.1, 0.2, 0.05, 1.0 / 6};
      p.fc = c.pick(nf);
      if (d.band) { p.fw = c.pick(nw); while (!(p.fc - p.fw / 2 > 1e-6 && p.fc + p.fw / 2 < 0.5 - 1e-6)) p.fw /= 2; }
      if (d.gain) p.gain = c.range(-12, 12);
      if (d.ripple) p.ripple = c.range(1, 40);
      if (d.fam == RBJF) p.ripple = (d.kind == R_LSH || d.kind == R_HSH) ? 1 : c.range(1, 4);
      c.label("round values");
    }
    if (c.chance(1, 4)) {
      // ripple, rejection, Q and slope far from the usual
      if (d.fam == CHEB1 && !d.gain) p.ripple = c.logreal(1e-9, 200);
      if (d.fam == CHEB2 && !d.gain) p.ripple = c.logreal(1e-9, d.band && p.fw < 1e-3 ? 250 : 600);
      if (d.fam == RBJF && d.kind != R_LSH && d.kind != R_HSH && d.kind != R_BSH && d.kind != R_NOTCH) p.ripple = c.logreal(1e-8, 1e8);
      c.label("ripple, rejection or Q far from the usual");
    }
    if (bandShelfOverflow(d, p)) { c.label("cookbook formula overflows"); return; }
    p.args(d, op.a);
    op.order = p.order;
    op.form = d.pole() ? (p.order == d.order ? hist::Op::N : hist::Op::NO) : hist::Op::N;
  }
  c.note << hist::show(d, op);
  int r = hist::trySetup(*o, d, op);
  CHECK(r == 0, "rejected a valid call: " << hist::showSetup(d, op));
  noNaN(c, *o, "an accepted setup");
  c.nontrivial();
}

static double weird(Case& c, double ordinary) {
  switch (c.draw(8)) {
    case 0: { static const double s[] = {0.0, -0.0, 1e-300, -1e-300, 4.9406564584124654e-324, 1e300, -1e300, 0.5, 1.0, -1.0, 0.25, 2.0, 1e-17, 1e17}; return c.pick(s); }
    case 1: { static const double s[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min()}; return c.pick(s); }
    case 2: { uint64_t b = c.draw(0); double v; memcpy(&v, &b, 8); return v; }
    case 3: return std::nextafter(0.5, c.flip() ? 1 : 0);
    case 4: return c.real(-1, 1);
    case 5: return ordinary * (c.flip() ? -1 : 1000);
    default: return ordinary;
  }
}
// documented rule
static const char* mustReject(const Desc& d, const hist::Op& o) {
  bool hz = o.form == hist::Op::HZ || o.form == hist::Op::HZO;
  if (d.fam == SOS) {
    for (size_t i = 0; i < o.sos.size(); ++i) {
      if (o.sos[i] != o.sos[i]) return "NaN coefficient";
      if (i % 6 == 3 && (o.sos[i] == 0 || std::isinf(o.sos[i]))) return "a0 zero or infinite";
    }
    return nullptr;
  }
  double f = hz ? o.a[0] / o.fs : o.a[0];
  if (!(f >= 0)) return "frequency NaN or negative";
  if (!(f < 0.5)) return "frequency not below Nyquist";
  if (d.pole() && (o.form == hist::Op::NO || o.form == hist::Op::HZO)) {
    if (o.order > d.order) return "order too high";
    if (o.order < 0) return "order negative";
  }
  if (d.band) { double w = hz ? o.a[1] / o.fs : o.a[1]; if (!(w > 0)) return "width not positive"; }
  if (d.ripple || d.fam == RBJF) { double r = o.a[d.np - 1]; if (!(r > 0)) return "ripple, Q or slope not positive"; }
  if (d.gain) { double g = o.a[d.band ? 2 : 1]; // order 0 has no coefficients that could become NaN
    bool none = d.pole() && (o.form == hist::Op::NO || o.form == hist::Op::HZO) && o.order == 0;
    if (g != g && !none) return "gain NaN"; }
  return nullptr;
}
PROPERTY("C09", arbitrary_arguments, 320000, 4000000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj o(d);
  c.note << d.name << ": ";
  if (c.chance(1, 3)) history(c, o, d);
  hist::Op op = hist::validSetup(c, d);
  if (op.form == hist::Op::DEFN) { op.form = hist::Op::N; op.a[d.np - 1] = 0.8; }
  if (op.form == hist::Op::DEFHZ) { op.form = hist::Op::HZ; op.a[d.np - 1] = 0.8; }
  if (d.fam == SOS) { int k = 1 + (int)c.draw(3); while (k--) { size_t i = c.draw(op.sos.size()); op.sos[i] = weird(c, op.sos[i]); } }
  else {
    for (int i = 0; i < d.np; ++i) op.a[i] = weird(c, op.a[i]);
    op.fs = weird(c, op.fs);
    if (d.pole() && c.chance(1, 4)) { op.order = c.flip() ? c.range(-3, d.order + 3) : (int)(uint32_t)c.draw(1ull << 32); if (op.form == hist::Op::N) op.form = hist::Op::NO; if (op.form == hist::Op::HZ) op.form = hist::Op::HZO; }
  }
  c.note << hist::show(d, op);
  int times = 1 + (int)c.draw(3);
  const char* why = mustReject(d, op);
  for (int i = 0; i < times; ++i) {
    int r = hist::trySetup(*o, d, op);
    CHECK(r != 2, "threw something other than std::invalid_argument");
    if (why) CHECK(r == 1, "attempt " << i + 1 << " accepted an invalid call (" << why << "): " << hist::showSetup(d, op));
    if (i && r == 0) CHECK(!why, "accepted only when repeated");
    noNaN(c, *o, r ? "a rejected call" : "an accepted setup");
    c.label(why ? why : r ? "rejected for other reasons" : "accepted");
  }
  c.nontrivial();
}

// outcome of a call must not depend on what happened before
PROPERTY("C09", outcome_is_history_free, 160000, 1500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj o(d), fresh(d, 0);
  c.note << d.name << ": ";
  history(c, o, d);
  hist::Op op = c.flip() ? hist::validSetup(c, d) : hist::invalidSetup(c, d);
  if (d.fam != SOS && op.form != hist::Op::DEFN && op.form != hist::Op::DEFHZ && c.flip()) { int i = (int)c.draw(d.np); op.a[i] = weird(c, op.a[i]); }
  c.note << hist::show(d, op);
  int a = hist::trySetup(*o, d, op), b = hist::trySetup(*fresh, d, op);
  CHECK(a == b, "the call is " << (a ? "rejected" : "accepted") << " on the used object but " << (b ? "rejected" : "accepted") << " on a fresh one");
  int a2 = hist::trySetup(*o, d, op);
  CHECK(a2 == b, "the repeated call is " << (a2 ? "rejected" : "accepted") << " but " << (b ? "rejected" : "accepted") << " on a fresh object");
  c.label(a ? "rejected" : "accepted");
  c.nontrivial();
}

PROPERTY("C09", response_and_index_range, 80000, 500000) {
  Filt q; q.rbj = false;
  const Desc& d = desc(c, q);
  Obj o(d);
  c.note << d.name << ": ";
  history(c, o, d);
  double f;
  switch (c.draw(5)) {
    case 0: f = std::nextafter(0.5, 1); break;
    case 1: f = -4.9406564584124654e-324; break;
    case 2: f = 0.5 + c.logreal(1e-12, 1e6); break;
    case 3: f = -c.logreal(1e-12, 1e6); break;
    default: f = c.flip() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  }
  c.note << "response(" << fmt(f) << ")";
  bool th = false;
  try { (void)o->response(f); } catch (const std::invalid_argument&) { th = true; }
  CHECK(th, "response at " << fmt(f) << " did not throw");
  for (double g : {0.0, 0.5, c.real(0, 0.5)}) { try { (void)o->response(g); } catch (const std::invalid_argument&) { CHECK(false, "response at " << fmt(g) << " threw"); } }
  int n = o->numStages();
  CHECK(n >= 0 && n <= d.storageStages, "number of stages " << n << " outside 0.." << d.storageStages);
  double k[6];
  for (int i = 0; i < n; ++i) { try { o->stage(i, k); } catch (const std::invalid_argument&) { CHECK(false, "index " << i << " of " << n << " threw"); } }
  int bads[] = {-1, n, n + 1, n + (int)c.draw(100), -1 - (int)c.draw(1 << 30), 2147483647, -2147483647 - 1};
  for (int i : bads) {
    bool t2 = false;
    try { o->stage(i, k); } catch (const std::invalid_argument&) { t2 = true; }
    CHECK(t2, "index " << i << " of " << n << " did not throw");
  }
  c.nontrivial();
}

PROPERTY("C09", single_sections, 120000, 800000) {
  const double nan = std::numeric_limits<double>::quiet_NaN();
  Iir::Biquad b;
  b.setCoefficients(2, 1, 0.5, 1, 2, 3);
  double before[6]; biquadCoefs(b, before);
  auto threw = [&](const char* what, auto fn) {
    bool t = false;
    try { fn(); } catch (const std::invalid_argument&) { t = true; }
    CHECK(t, what << " did not throw");
    double after[6]; biquadCoefs(b, after);
    for (int i = 0; i < 6; ++i) CHECK(same(before[i], after[i]), what << " was rejected but changed the section");
  };
  double v[6]; for (double& x : v) x = c.real(-3, 3);
  if (v[0] == 0) v[0] = 1;
  std::complex<double> p(c.real(-1, 1), 0), z(c.real(-1, 1), 0), ip(p.real(), c.logreal(1e-300, 2)), iz(z.real(), -c.logreal(1e-300, 2));
  // everything but exactly conjugate (or real) pairs is refused, however close
  auto nearConj = [&](std::complex<double> a) {
    double e = c.logreal(1e-15, 1);
    std::complex<double> d = std::conj(a);
    switch (c.draw(4)) {
      case 0: return std::complex<double>(d.real() + e * (1 + std::fabs(d.real())), d.imag());
      case 1: return std::complex<double>(-d.real() - e, d.imag());
      case 2: return std::complex<double>(d.real(), d.imag() * (1 + e));
      default: return std::complex<double>(d.real(), std::nextafter(d.imag(), c.flip() ? 9 : -9));
    }
  };
  std::complex<double> qp(c.real(-1, 1), (c.flip() ? 1 : -1) * c.real(0.1, 1)), qz(c.real(-1, 1), (c.flip() ? 1 : -1) * c.real(0.1, 1));
  switch (c.draw(15)) {
    case 11: { auto o = nearConj(qp); c.note << "poles " << qp << o; threw("setTwoPole with poles that are not quite conjugate", [&] { c.flip() ? b.setTwoPole(qp, z, o, z) : b.setTwoPole(o, qz, qp, std::conj(qz)); }); break; }
    case 12: { auto o = nearConj(qz); c.note << "zeros " << qz << o; threw("setTwoPole with zeros that are not quite conjugate", [&] { c.flip() ? b.setTwoPole(p, qz, p, o) : b.setTwoPole(qp, o, std::conj(qp), qz); }); break; }
    case 13: {
      // infinity times 0 is not a number, whichever coefficient it is
      int zero = (int)c.draw(3);
      double w[3] = {c.real(0.5, 2), c.real(0.5, 2), c.real(0.5, 2)}; w[zero] = 0;
      b.setCoefficients(1, 0.5, 0.25, w[0], w[1], w[2]); biquadCoefs(b, before);
      double s = c.flip() ? INFINITY : -INFINITY;
      c.note << "b" << zero << " = 0, scale " << s;
      threw("applyScale with a scale that turns a coefficient into NaN", [&] { b.applyScale(s); });
      break;
    }
    case 14: {
      Iir::Custom::OnePole f; Iir::Custom::TwoPole g;
      double s = c.flip() ? INFINITY : -INFINITY; bool t = false, two = c.flip();
      c.note << (two ? "TwoPole" : "OnePole") << " with the zero at 0 and scale " << s;
      try { if (two) g.setup(s, 0.5, 0.3, 0, 0.2); else f.setup(s, 0.5, c.flip() ? 0.0 : 0.2); } catch (const std::invalid_argument&) { t = true; }
      CHECK(t, "setup did not throw although a coefficient became NaN");
      break;
    }
    case 0: { int i = (int)c.draw(6); v[i] = nan; c.note << "setCoefficients NaN at " << i; threw("setCoefficients with a NaN", [&] { b.setCoefficients(v[0], v[1], v[2], v[3], v[4], v[5]); }); break; }
    case 1: v[0] = c.flip() ? 0.0 : -0.0; threw("setCoefficients with a0 = 0", [&] { b.setCoefficients(v[0], v[1], v[2], v[3], v[4], v[5]); }); break;
    case 2: threw("setOnePole with a complex pole", [&] { b.setOnePole(ip, z); }); break;
    case 3: threw("setOnePole with a complex zero", [&] { b.setOnePole(p, iz); }); break;
    case 4: threw("setTwoPole with unmatched poles", [&] { b.setTwoPole(ip, z, c.flip() ? ip : p, z); }); break;
    case 5: threw("setTwoPole with unmatched poles", [&] { b.setTwoPole(p, z, ip, z); }); break;
    case 6: threw("setTwoPole with unmatched zeros", [&] { b.setTwoPole(p, iz, p, c.flip() ? iz : z); }); break;
    case 7: threw("setTwoPole with unmatched zeros", [&] { b.setTwoPole(p, z, p, iz); }); break;
    case 8: threw("applyScale(NaN)", [&] { b.applyScale(nan); }); break;
    case 9: {
      Iir::Custom::OnePole f;
      double a[3] = {1, 0.5, 0.2}; a[c.draw(3)] = nan;
      bool t = false; try { f.setup(a[0], a[1], a[2]); } catch (const std::invalid_argument&) { t = true; }
      CHECK(t, "OnePole::setup with a NaN did not throw");
      break;
    }
    default: {
      Iir::Custom::TwoPole f;
      double a[5] = {1, 0.5, 0.2, 0.9, 1}; a[c.draw(5)] = nan;
      bool t = false; try { f.setup(a[0], a[1], a[2], a[3], a[4]); } catch (const std::invalid_argument&) { t = true; }
      CHECK(t, "TwoPole::setup with a NaN did not throw");
    }
  }
  c.nontrivial();
}
