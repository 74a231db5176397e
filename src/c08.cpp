// C08: every accepted design is stable and relaxes to zero.
#include "hist.h"
#include "wrap.h"
#include "noise.h"
using namespace pbt;
using namespace gen;

RULE("C08", "designs at and near the extremes of the accepted parameters (band edges 1e-6 .. 0.5-1e-6 of the sampling rate, all orders up to 33, ripple 1e-4..60 dB, rejection 0.05..200 dB, gains -60..60 dB, Q 0.001..1e5), three structures, optionally after other setups. jury: the coefficients of every section are tested for poles strictly inside the unit circle in long double; decay: bounded random/extreme input, then silence, output must stay finite and fall below 1e-6 of its peak within the time the slowest pole of the closed form needs, and later to nothing at all. Non-trivial: poles of the closed form are far enough inside (1e4 rounding errors) for the question to be decidable in double precision (jury), and the decay fits into 100000 samples (decay).");

// distance of the reference poles from where double precision cannot tell
static bool decidable(const Desc& d, const Params& p, const Ref& r, double* rad) {
  const ld eps = 2.220446049250313e-16L;
  ld m = 0;
  if (d.fam == RBJF) {
    *rad = -1;
    ld w0 = 2 * PI_L * p.fc, sn = sinl(w0), al = sn / (2 * p.ripple), A = powl(10, (ld)p.gain / 40);
    if (d.kind == R_BSH) { al = sn * sinhl(logl(2) / 2 * p.ripple * w0 / sn); if (al / A > 1e10L) return false; al = std::min(al * A, al / A); }
    if (d.kind == R_LSH || d.kind == R_HSH) al = sn / 2 * sqrtl((A + 1 / A) * (1 / (ld)p.ripple - 1) + 2);
    return al > 1e-10L && al < 1e10L && std::min(p.fc, 0.5 - p.fc) > 1e-5;
  }
  if (d.gain && p.ripple >= std::fabs(p.gain) && d.fam != BUTTER) { *rad = -1; return true; }  // no closed form
  bool ok = true;
  for (size_t i = 0; i < r.zp.size(); ++i) {
    ld a = std::abs(r.zp[i]);
    m = std::max(m, a);
    ld q = std::min(std::norm(cld(1) - r.zp[i]), std::norm(cld(1) + r.zp[i]));
    if (!(1 - a > 1e4L * eps * r.kp[i]) || !(q > 1e4L * eps) || !(1 - a > 1e4L * eps)) ok = false;
  }
  *rad = (double)m;
  return ok;
}

static void jury(Case& c, IFilter& f, double* rad2) {
  ld worst = 0;
  for (int i = 0; i < f.numStages(); ++i) {
    double k[6]; f.stage(i, k);
    for (double v : k) CHECK(std::isfinite(v), "section " << i << " has a coefficient " << fmt(v));
    ld a1 = (ld)k[1] / k[0], a2 = (ld)k[2] / k[0];
    CHECK(fabsl(a2) < 1 && fabsl(a1) < 1 + a2, "section " << i << " has poles on or outside the unit circle: a1=" << fmtl(a1) << " a2=" << fmtl(a2));
    ld disc = a1 * a1 - 4 * a2;
    ld r = disc < 0 ? sqrtl(a2) : (fabsl(a1) + sqrtl(disc)) / 2;
    worst = std::max(worst, r);
  }
  *rad2 = (double)worst;
}

PROPERTY("C08", poles_inside_unit_circle, 160000, 4000000) {
  const Desc& d = desc(c, Filt());
  Params p = extreme(c, d);
  c.note << show(d, p);
  Ref r(d, p);
  double rad, rad2;
  bool ok = decidable(d, p, r, &rad);
  Obj o(d);
  if (c.chance(1, 4)) { hist::Op pre = hist::validSetup(c, d); hist::callSetup(*o, d, pre); }
  double a[4]; p.args(d, a);
  try { if (d.pole()) o->setupNo(p.order, a); else o->setupN(a); }
  catch (const std::invalid_argument&) { c.label("rejected"); return; }
  if (!ok) { c.label("not decidable in double precision"); return; }
  jury(c, *o, &rad2);
  c.nontrivial();
  if (rad > 0.9) c.label("pole radius above 0.9");
  if (rad > 0.9999) c.label("pole radius above 0.9999");
  if (rad > 0.9999999) c.label("pole radius above 0.9999999");
}

PROPERTY("C08", silence_follows, 24000, 400000) {
  const Desc& d = desc(c, Filt());
  Params p = extreme(c, d);
  c.note << show(d, p);
  Ref r(d, p);
  double rad, rad2;
  bool ok = decidable(d, p, r, &rad);
  Obj o(d);
  if (c.chance(1, 4)) { hist::Op pre = hist::validSetup(c, d); hist::callSetup(*o, d, pre); }
  double a[4]; p.args(d, a);
  try { if (d.pole()) o->setupNo(p.order, a); else o->setupN(a); }
  catch (const std::invalid_argument&) { c.label("rejected"); return; }
  if (!ok) { c.label("not decidable in double precision"); return; }
  if (rad < 0) { // no closed form of the pole radius: take it from the coefficients
    jury(c, *o, &rad2); rad = rad2;
  }
  if (!(rad < 1)) { c.label("decay too long to simulate"); return; }  // 1 after rounding to double
  int sections = d.pole() ? (d.band ? p.order : (p.order + 1) / 2) : 1;
  int N = sections * 2;
  double need = (45 + 8.0 * N) / -std::log(std::max(rad, 1e-3)) + 4 * N;
  if (!(need < 100000)) { c.label("decay too long to simulate"); return; }
  int T = (int)need, K = 20 + (int)c.draw(200);
  double amp = c.chance(1, 3) ? std::ldexp(1.0, c.range(-200, 200)) : 1;
  int kind = (int)c.draw(4);
  uint64_t s = c.draw(1u << 30) + 1;
  double peak = 0, y = 0, f0 = p.fc;
  auto step = [&](double x) {
    y = o->fd(x);
    CHECK(std::isfinite(y), "output " << fmt(y) << " for bounded input");
    peak = std::max(peak, std::fabs(y));
  };
  for (int i = 0; i < K; ++i) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    double v = kind == 0 ? ((s & 1) ? 1 : -1) : kind == 1 ? 1 : kind == 2 ? std::sin(2 * M_PI * f0 * i) : (double)(int64_t)s / 9.3e18;
    step(amp * v);
  }
  for (int i = 0; i < T; ++i) step(0);
  double limit = 1e-6 * peak + 1e-9 * amp;
  for (int i = 0; i < 50; ++i) { step(0); CHECK(std::fabs(y) <= limit, "output " << fmt(y) << " after " << T << " samples of silence, peak was " << fmt(peak)); }
  c.nontrivial(peak > 0);
  double all = 2500 / -std::log(std::max(rad, 1e-3)) + 16 * N;
  if (all < 60000) {
    for (int i = 0; i < (int)all; ++i) step(0);
    CHECK(std::fabs(y) < 1e-290, "output " << fmt(y) << " never reaches zero");
    c.label("followed down to zero");
  }
}
