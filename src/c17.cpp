// C17: linearity, time invariance, causality, determinism.
#include "noise.h"
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C17", "random designs of every type, structure and order; scale: input times a power of two (2^-80..2^80, one in five up to 2^-900..2^600) against the output times it, exact; delay: leading zeros (up to 300, or so many that the signal straddles sample 2^8..2^20 or a round decimal number) against the undelayed output, exact; additivity: sums of dyadic inputs (one in six long and slow: constants, steps, small changes of a large value) against the sums of outputs within the rounding bound of the chain (computed from the l1 norms of the sections); causality: two inputs with a common beginning; determinism: the same calls on two objects in differently filled memory, calls on a third object in between, sample by sample and block-wise, exact. Non-trivial: the output of the compared run is not all zero.");

static Filt all() { Filt q; q.sos = true; return q; }
static const Desc& start(Case& c, Obj& a, Obj& b, Op* used = nullptr) {
  const Desc& d = desc(c, all());
  a = Obj(d); b = Obj(d, 0x3C);
  Op op = hist::validSetup(c, d);
  c.note << d.name << " " << hist::show(d, op) << "; ";
  int ra = hist::trySetup(*a, d, op), rb = hist::trySetup(*b, d, op);
  CHECK(ra == 0 && rb == 0, "valid setup rejected");
  if (used) *used = op;
  return d;
}
static std::vector<LSec> coefs(IFilter& f, const Desc& d) {
  if (d.fam != SOS) return sectionsOf(f);
  std::vector<LSec> sec;
  for (int i = 0; i < d.order; ++i) { double k[6]; f.storage(i, k); sec.push_back({(ld)k[3] / k[0], (ld)k[4] / k[0], (ld)k[5] / k[0], (ld)k[1] / k[0], (ld)k[2] / k[0]}); }
  return sec;
}
static std::vector<double> in(Case& c, int maxLen, int maxLong) {
  if (c.chance(1, 6)) { c.label("long signal"); return longSignal(c, 100 + (int)c.draw(maxLong)); }
  return signal(c, maxLen);
}
static std::vector<double> run(IFilter& f, const std::vector<double>& x) { std::vector<double> y(x.size()); if (!x.empty()) f.run(x.data(), y.data(), x.size()); return y; }
static bool alive(const std::vector<double>& y) { for (double v : y) if (v != 0) return true; return false; }
static std::string showX(const std::vector<double>& x) { std::ostringstream o; o << "["; for (size_t i = 0; i < x.size() && i < 8; ++i) o << (i ? " " : "") << fmt(x[i]); if (x.size() > 8) o << " .. " << x.size() << " samples"; o << "]"; return o.str(); }

PROPERTY("C17", scale, 80000, 1500000) {
  Obj a, b; start(c, a, b);
  auto x = in(c, 60, c.thorough ? 20000 : 2000);
  int e = c.range(-80, 80);
  if (c.chance(1, 5)) { e = c.range(-900, 600); c.label("far from unit scale"); }
  double s = std::ldexp(c.flip() ? 1.0 : -1.0, e);
  auto xs = x; for (double& v : xs) v *= s;
  c.note << "input " << showX(x) << " times " << fmt(s);
  auto y = run(*a, x), ys = run(*b, xs);
  double top = 0;
  for (double v : x) top = std::max(top, std::fabs(v));
  for (double v : y) top = std::max(top, std::fabs(v));
  if (std::fabs(e) > 80 && !(top * std::fabs(s) < 1e200)) { c.label("too close to overflow"); return; }
  // results in the subnormal range are not exact, and later sections amplify what the first ones made small
  long double g = 1, least = 1;
  for (auto& q : coefs(*a, *a.d)) { g *= fabsl(q.b0) + fabsl(q.b1) + fabsl(q.b2); if (g > 0) least = std::min(least, g); }
  double tiny = (double)(1e-285L / least * std::max(1.0, std::fabs(s)));
  for (size_t i = 0; i < y.size(); ++i) {
    double w = y[i] * s;
    CHECK(w == ys[i] || std::fabs(w - ys[i]) <= tiny, "output sample " << i << " for the scaled input is " << fmt(ys[i]) << " instead of " << fmt(w));
  }
  c.nontrivial(alive(y));
}

PROPERTY("C17", delay, 60000, 1000000) {
  Obj a, b; start(c, a, b);
  auto x = in(c, 60, c.thorough ? 20000 : 2000);
  size_t n = 1 + c.draw(300);
  if (c.chance(1, 8)) {  // the signal straddles a round number of samples, where counters and buffers wrap
    static const double round[] = {1000, 4096, 10000, 44100, 48000, 65536, 100000, 131072};
    double at = c.flip() ? std::ldexp(1.0, c.range(8, c.chance(1, 30) ? 20 : 16)) : c.pick(round);
    n = (size_t)at - std::min<size_t>((size_t)at - 1, c.draw(x.size() + 1));
    c.label("signal across a round sample count");
  }
  std::vector<double> xd(n, 0.0);
  xd.insert(xd.end(), x.begin(), x.end());
  c.note << "input " << showX(x) << " after " << n << " zeros";
  auto y = run(*a, x), yd = run(*b, xd);
  for (size_t i = 0; i < n; ++i) CHECK(yd[i] == 0, "output sample " << i << " for zero input is " << fmt(yd[i]));
  for (size_t i = 0; i < y.size(); ++i) CHECK(same(y[i], yd[i + n]), "output sample " << i << " of the delayed signal is " << fmt(yd[i + n]) << " instead of " << fmt(y[i]));
  c.nontrivial(alive(y));
}

PROPERTY("C17", additivity, 60000, 1000000) {
  Obj a, b; const Desc& d = start(c, a, b);
  std::vector<LSec> sec = coefs(*a, d);
  int n = 1 + (int)c.draw(80);
  const bool lng = c.chance(1, 6);  // long, slow signals: constant, steps, small changes of a large value
  double p = std::ldexp(1.0, c.range(-6, 6)) * (c.flip() ? 1 : -1), q = c.range(-8, 8);
  std::vector<double> x(n), z(n), s(n);
  for (int i = 0; i < n; ++i) {
    x[i] = c.chance(1, 3) ? 0 : std::ldexp((double)c.range(-1000, 1000), c.range(-4, 8));
    z[i] = c.chance(1, 3) ? 0 : std::ldexp((double)c.range(-1000, 1000), c.range(-4, 8));
  }
  if (lng) {
    c.label("long slow signals");
    n = 200 + (int)c.draw(c.thorough ? 4000 : 1200);
    x.assign(n, 0); z.assign(n, 0); s.assign(n, 0);
    double ax = std::ldexp((double)c.range(1, 15), c.range(-3, 3)), az = std::ldexp((double)c.range(-15, 15), -c.range(0, 24));
    int px = 1 << c.draw(11), pz = 1 << c.draw(8);
    for (int i = 0; i < n; ++i) { x[i] = i / px % 2 ? -ax : ax; z[i] = (i / pz % 5) * az; }
  }
  for (int i = 0; i < n; ++i) s[i] = p * x[i] + q * z[i];  // exact
  c.note << fmt(p) << "*" << showX(x) << " + " << fmt(q) << "*" << showX(z);
  std::vector<long double> r;
  Bound b1 = longRef(sec, x, r), b2 = longRef(sec, z, r), b3 = longRef(sec, s, r);
  if (!b1.ok || !b2.ok || !b3.ok) { c.label("bound too large"); return; }
  // each coefficient and sample of the three structures is covered by the bound
  long double tol = 2 * (fabsl(p) * b1.err + fabsl(q) * b2.err + b3.err);
  auto yx = run(*a, x); a->reset();
  auto yz = run(*a, z);
  auto ys = run(*b, s);
  long double mx = 0;
  for (int i = 0; i < n; ++i) {
    long double w = (long double)p * yx[i] + (long double)q * yz[i], e = fabsl(w - ys[i]);
    mx = std::max(mx, fabsl((long double)ys[i]));
    if (e > 0) c.metric("additivity difference / tolerance", (double)(e / tol));
    CHECK(e <= tol, "output sample " << i << " for the sum is " << fmt(ys[i]) << " instead of " << fmtl(w) << " (tolerance " << fmtl(tol) << ")");
  }
  if (tol < 1e-6L * mx) c.label("tolerance below 1e-6 of the output");
  c.nontrivial(mx > 0 && tol < 0.01L * mx);
}

PROPERTY("C17", causality, 30000, 500000) {
  Obj a, b; start(c, a, b);
  auto x = in(c, 60, 500), z = x;
  size_t n = c.draw(x.size() + 1);
  for (size_t i = n; i < z.size(); ++i) z[i] = c.chance(1, 4) ? 1e6 : -x[i] + 1;
  c.note << "input " << showX(x) << " changed from sample " << n;
  auto y = run(*a, x), w = run(*b, z);
  for (size_t i = 0; i < n; ++i) CHECK(same(y[i], w[i]), "output sample " << i << " depends on later input: " << fmt(w[i]) << " instead of " << fmt(y[i]));
  c.nontrivial(n > 0 && alive(y));
}

PROPERTY("C17", determinism, 60000, 1000000) {
  const Desc& d = desc(c, all());
  Obj a(d), b(d, 0x3C), other(desc(c, all()), 0x99);
  c.note << d.name << ": ";
  int n = 1 + (int)c.draw(8);
  bool live = false;
  for (int i = 0; i < n; ++i) {
    Op op;
    int k = i == 0 ? 0 : (int)c.draw(8);
    if (k <= 1) op = hist::validSetup(c, d);
    else if (k <= 5) { op.t = Op::FILTER; op.x = in(c, 40, 3000); }
    else if (k == 6) op.t = Op::RESET;
    else op = hist::invalidSetup(c, d);
    c.note << hist::show(d, op) << "; ";
    auto ra = hist::apply(*a, d, op);
    if (c.flip()) { Op oo = c.flip() ? hist::validSetup(c, *other.d) : hist::filterOp(c, 10); hist::apply(*other, *other.d, oo); }
    hist::Result rb;
    if (op.t == Op::FILTER) { for (double v : op.x) rb.y.push_back(b->fd(v)); } else rb = hist::apply(*b, d, op);
    CHECK(ra.threw == rb.threw, "the same setup is accepted by only one of two objects");
    auto e = hist::diffOut(rb.y, ra.y);
    CHECK(e.empty(), "the same calls on a second object: output " << e);
    if (alive(ra.y)) live = true;
  }
  auto df = hist::diff(hist::snap(*a, d, false), hist::snap(*b, d, false));
  CHECK(df.empty(), "the same calls on a second object: " << df);
  c.nontrivial(live);
}
