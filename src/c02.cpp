// C02: response() is the DTFT of the impulse response the filter produces.
#include "hist.h"
#include "wrap.h"
#include "noise.h"
using namespace pbt;
using namespace gen;

RULE("C02", "accepted designs of every family, order, structure (and cascades, custom sections and raw biquads), set up through every overload, optionally after other setups; the impulse response produced by filter() (from a reset state, optionally with response queries in between, optionally scaled and delayed) is transformed in long double at 8 frequencies including 0, Nyquist and the band edges and compared with response(). FIR sections are compared with an exact bound. Where the impulse response is too long (designs of the whole range of parameters, queries 1e-13 from 0, Nyquist and the band edges) the reference is the transfer function of the reported coefficients in long double. Non-trivial: the impulse response has decayed below 1e-13 of its sum and at least one queried response exceeds the comparison tolerance by a factor of 1000.");

static std::vector<double> freqs(Case& c, const hist::Op& op, const Desc& d) {
  std::vector<double> q = {0.0, 0.5};
  double sc = op.form == hist::Op::HZ || op.form == hist::Op::HZO || op.form == hist::Op::DEFHZ ? op.fs : 1;
  double f0 = d.fam == SOS ? 0.1 : op.a[0] / sc;
  if (f0 > 0 && f0 < 0.5) q.push_back(f0);
  for (int i = 0; i < 3; ++i) q.push_back(c.real(0, 0.5));
  q.push_back(f0 * c.unit());
  q.push_back(f0 + (0.5 - f0) * c.unit());
  return q;
}
// sec: the sections as the object reports them; used only to bound rounding errors
template <class R, class F> static void compare(Case& c, const std::vector<LSec>& sec, R response, F fill, const std::vector<double>& q, int maxN) {
  std::vector<double> y(maxN);
  int n = fill(y);
  if (n < 0) { c.label("impulse response too long"); return; }
  ld l1 = 0; for (int i = 0; i < n; ++i) l1 += fabsl(y[i]);
  std::vector<double> imp(n);
  if (n) imp[0] = 1;
  std::vector<long double> dummy;
  Bound nb = longRef(sec, imp, dummy);
  if (!nb.ok || !(nb.sum < 1e-7L * l1 || l1 == 0)) { c.label("rounding noise too large"); return; }
  bool nt = false;
  for (double f : q) {
    cld s = 0, e = 1, w = std::polar((ld)1, -2 * PI_L * (ld)f);
    for (int i = 0; i < n; ++i) {
      if (i % 512 == 0) e = std::polar((ld)1, -2 * PI_L * fmodl((ld)f * i, 1.0L));
      s += (ld)y[i] * e; e *= w;
    }
    auto h = response(f);
    CHECK(std::isfinite(h.real()) && std::isfinite(h.imag()), "response at " << fmt(f) << " is not finite");
    ld err = std::abs(cld(h) - s), tol = 4 * (nb.sum + responseError(sec, f)) + 1e-12L * l1 + 1e-290L;
    CHECK(err <= tol, "response at " << fmt(f) << " is (" << fmt(h.real()) << "," << fmt(h.imag()) << ") but the impulse response has the transform (" << fmtl(s.real()) << "," << fmtl(s.imag()) << "), difference " << fmtl(err) << " tolerance " << fmtl(tol));
    if (l1 > 0) c.metric("error / tolerance", (double)(err / tol));
    if (std::abs(s) > 1000 * tol) nt = true;
  }
  c.nontrivial(nt);
}

PROPERTY("C02", designs, 26000, 900000) {
  Filt fq; fq.sos = true;
  const Desc& d = desc(c, fq);
  Obj o(d);
  if (c.chance(1, 4)) { hist::Op pre = hist::validSetup(c, d); hist::callSetup(*o, d, pre); c.note << hist::show(d, pre) << " then "; c.label("after another setup"); }
  Lim l; l.flo = 0.004; l.fhi = 0.496; l.minWidthRel = 0.03;
  hist::Op op = hist::validSetup(c, d, l);
  c.note << d.name << " " << hist::show(d, op);
  hist::callSetup(*o, d, op);
  if (d.pole() && op.order < d.order && (op.form == hist::Op::NO || op.form == hist::Op::HZO)) c.label("lower order");
  auto q = freqs(c, op, d);
  bool queries = c.chance(1, 4), dirty = c.chance(1, 4);
  double amp = c.chance(1, 4) ? std::ldexp(1.0, c.range(-30, 30)) : 1;
  if (dirty) { auto x = signal(c, 20); std::vector<double> z(x.size()); o->run(x.data(), z.data(), x.size()); o->reset(); }
  // gain at the normalisation frequency can be far above the sum for notches; compare relative to the sum
  compare(c, sectionsOf(*o), [&](double f) { return o->response(f); }, [&](std::vector<double>& y) {
    double sum = 0; int n = (int)y.size(), quiet = 0;
    for (int i = 0; i < n; ++i) {
      if (queries && i % 7 == 3) (void)o->response(q[i % q.size()]);
      y[i] = o->fd(i == 0 ? amp : 0) / amp;
      sum += std::fabs(y[i]);
      if (std::fabs(y[i]) < 1e-16 * sum || (sum == 0 && i > 100)) { if (++quiet > 300) return i + 1; } else quiet = 0;
    }
    return -1;
  }, q, 40000);
}

static std::vector<LSec> one(const Iir::Biquad& b) {
  double k[6]; biquadCoefs(b, k); long double a0 = k[0];
  return {{k[3] / a0, k[4] / a0, k[5] / a0, k[1] / a0, k[2] / a0}};
}
template <class ST> static void rawBiquad(Case& c) {
  Iir::Biquad b;
  double k[6];
  auto s = hist::sosSections(c, 1);
  for (int i = 0; i < 6; ++i) k[i] = s[i];
  b.setCoefficients(k[3], k[4], k[5], k[0], k[1], k[2]);
  c.note << "Biquad " << fmt(k[3]) << " " << fmt(k[4]) << " " << fmt(k[5]) << " " << fmt(k[0]) << " " << fmt(k[1]) << " " << fmt(k[2]);
  hist::Op op; op.form = hist::Op::SOSF;
  Desc d; d.fam = SOS;
  auto q = freqs(c, op, d);
  ST st;
  compare(c, one(b), [&](double f) { return b.response(f); }, [&](std::vector<double>& y) {
    double sum = 0; int quiet = 0;
    for (int i = 0; i < (int)y.size(); ++i) {
      y[i] = b.filter(i == 0 ? 1.0 : 0.0, st);
      sum += std::fabs(y[i]);
      if (std::fabs(y[i]) < 1e-16 * sum || (sum == 0 && i > 100)) { if (++quiet > 60) return i + 1; } else quiet = 0;
    }
    return -1;
  }, q, 40000);
}
PROPERTY("C02", raw_biquads, 12000, 300000) {
  switch (c.draw(3)) { case 0: rawBiquad<Iir::DirectFormI>(c); break; case 1: rawBiquad<Iir::DirectFormII>(c); break; default: rawBiquad<Iir::TransposedDirectFormII>(c); }
}

template <class F, class S> static void customSection(Case& c, S set) {
  F f;
  set(f);
  hist::Op op; op.form = hist::Op::SOSF;
  Desc d; d.fam = SOS;
  auto q = freqs(c, op, d);
  Iir::DirectFormII st;
  compare(c, one(f), [&](double v) { return f.response(v); }, [&](std::vector<double>& y) {
    double sum = 0; int quiet = 0;
    for (int i = 0; i < (int)y.size(); ++i) {
      y[i] = f.filter(i == 0 ? 1.0 : 0.0, st);
      sum += std::fabs(y[i]);
      if (std::fabs(y[i]) < 1e-16 * sum || (sum == 0 && i > 100)) { if (++quiet > 60) return i + 1; } else quiet = 0;
    }
    return -1;
  }, q, 40000);
}
PROPERTY("C02", custom_sections, 8000, 200000) {
  double sc = c.real(-3, 3), p = c.real(-0.98, 0.98), z = c.real(-2, 2), r = c.real(0, 0.98), th = c.real(-3.2, 3.2), rz = c.real(0, 2), tz = c.real(-3.2, 3.2);
  if (c.flip()) { c.note << "OnePole " << fmt(sc) << " " << fmt(p) << " " << fmt(z); customSection<Iir::Custom::OnePole>(c, [&](Iir::Custom::OnePole& f) { f.setup(sc, p, z); }); }
  else { c.note << "TwoPole " << fmt(sc) << " " << fmt(r) << " " << fmt(th) << " " << fmt(rz) << " " << fmt(tz); customSection<Iir::Custom::TwoPole>(c, [&](Iir::Custom::TwoPole& f) { f.setup(sc, r, th, rz, tz); }); }
}

// where no impulse response is short enough: designs and queries next to 0 and to Nyquist, against the transfer
// function of the coefficients the object reports (that these are what filter() uses is C01)
PROPERTY("C02", coefficients_far_out, 100000, 2000000) {
  Filt fq; fq.sos = true;
  const Desc& d = desc(c, fq);
  Obj o(d);
  Lim l; l.wide = c.flip();
  hist::Op op = hist::validSetup(c, d, l);
  if (l.wide) c.label("wide parameters");
  c.note << d.name << " " << hist::show(d, op);
  if (hist::trySetup(*o, d, op) != 0) { c.label("rejected"); return; }
  double sc = op.form == hist::Op::HZ || op.form == hist::Op::HZO || op.form == hist::Op::DEFHZ ? op.fs : 1;
  double f0 = d.fam == SOS ? 0.1 : op.a[0] / sc;
  auto sec = sectionsOf(*o);
  bool nt = false;
  for (int i = 0; i < 8; ++i) {
    double e = c.logreal(1e-13, 0.25), f;
    switch (c.draw(4)) {
      case 0: f = e; break;
      case 1: f = 0.5 - e; break;
      case 2: f = f0 * (1 + e); break;
      default: f = f0 * (c.flip() ? c.real(0, 3) : c.logreal(1e-6, 10));
    }
    if (!(f >= 0 && f <= 0.5)) continue;
    cld z1 = std::polar((ld)1, -2 * PI_L * (ld)f), z2 = std::polar((ld)1, -4 * PI_L * (ld)f), want = 1;
    for (auto& s : sec) want *= (cld(s.b0) + s.b1 * z1 + s.b2 * z2) / (cld(1) + s.a1 * z1 + s.a2 * z2);
    ld err = responseError(sec, f), tol = 4 * err + 1e-290L;
    if (!(std::abs(want) < 1e200L) || !(err < 0.05L * std::abs(want))) { c.label("query beyond double precision"); continue; }
    auto h = o->response(f);
    ld dist = std::abs(cld(h) - want);
    CHECK(dist <= tol, "response at " << fmt(f) << " is (" << fmt(h.real()) << "," << fmt(h.imag()) << ") but the coefficients have (" << fmtl(want.real()) << "," << fmtl(want.imag()) << "), difference " << fmtl(dist) << " tolerance " << fmtl(tol));
    c.metric("error / tolerance", (double)(dist / tol));
    nt = true;
  }
  c.nontrivial(nt);
}

// freshly constructed filters respond with 1 and are transparent
PROPERTY("C02", never_set_up, 3000, 60000) {
  Filt fq; fq.sos = true;
  const Desc& d = desc(c, fq);
  Obj o(d);
  c.note << d.name;
  double f = c.flip() ? c.real(0, 0.5) : c.flip() ? 0.5 : 0.0;
  auto h = o->response(f);
  CHECK(std::abs(h - 1.0) < 1e-12, "a filter never set up passes samples through but its response at " << fmt(f) << " is " << fmt(h.real()) << "," << fmt(h.imag()));
  c.nontrivial();
}
