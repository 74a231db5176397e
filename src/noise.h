// Difference equation of a chain of sections in long double, with a bound for
// the rounding errors of a double precision implementation in any structure.
#pragma once
#include "hist.h"

struct LSec { long double b0, b1, b2, a1, a2; };
struct Bound { bool ok = true; long double err = 0, sum = 0; };  // worst sample error, sum of all sample errors

static inline bool l1(const LSec& s, long double& l1A, long double& l1H) {
  long double w1 = 0, w2 = 0; l1A = l1H = 0;
  long double quiet = 0;
  for (int i = 0; i < 60000; ++i) {
    long double w = (i == 0) - s.a1 * w1 - s.a2 * w2;
    long double h = s.b0 * w + s.b1 * w1 + s.b2 * w2;
    w2 = w1; w1 = w;
    l1A += fabsl(w); l1H += fabsl(h);
    if (fabsl(w1) + fabsl(w2) < 1e-12L * l1A) { if (++quiet > 20) { l1A *= 1.01L; l1H *= 1.01L; return true; } } else quiet = 0;
    if (!(l1A < 1e15L)) return false;
  }
  return false;
}
static inline Bound longRef(const std::vector<LSec>& sec, const std::vector<double>& x, std::vector<long double>& y) {
  const long double eps = 2.220446049250313e-16L;
  Bound b;
  y.assign(x.begin(), x.end());
  for (auto& s : sec) {
    long double lA, lH;
    if (!l1(s, lA, lH)) { b.ok = false; return b; }
    long double mx = 0, my = 0, mw = 0, sx = 0, sy = 0, sw = 0, x1 = 0, x2 = 0, y1 = 0, y2 = 0, w1 = 0, w2 = 0;
    for (auto& v : y) {
      long double in = v, w = in - s.a1 * w1 - s.a2 * w2;
      long double out = s.b0 * in + s.b1 * x1 + s.b2 * x2 - s.a1 * y1 - s.a2 * y2;
      x2 = x1; x1 = in; y2 = y1; y1 = out; w2 = w1; w1 = w;
      mx = std::max(mx, fabsl(in)); my = std::max(my, fabsl(out)); mw = std::max(mw, fabsl(w));
      sx += fabsl(in); sy += fabsl(out); sw += fabsl(w);
      v = out;
    }
    long double sb = fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2), sa = fabsl(s.a1) + fabsl(s.a2);
    b.sum = b.sum * lH + 8 * eps * ((sb * sx + sa * sy) * lA + (sx + sa * sw) * lH + sb * sw);
    b.err = b.err * lH + 8 * eps * ((sb * mx + sa * my) * lA + (mx + sa * mw) * lH + sb * mw);
  }
  return b;
}
// rounding error of the response computed from the sections
static inline long double responseError(const std::vector<LSec>& sec, long double f) {
  const long double eps = 2.220446049250313e-16L;
  cld z1 = std::polar((ld)1, -2 * PI_L * f), z2 = std::polar((ld)1, -4 * PI_L * f);
  std::vector<long double> h, a, b;
  for (auto& s : sec) {
    long double A = std::abs(cld(1) + s.a1 * z1 + s.a2 * z2), B = std::abs(cld(s.b0) + s.b1 * z1 + s.b2 * z2);
    h.push_back(B / A);
    a.push_back(16 * eps * (1 + fabsl(s.a1) + fabsl(s.a2)) / A);
    b.push_back(16 * eps * (fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2)) / A);
  }
  // what is lost when the product of the numerators gets below the smallest double
  long double under = 1e-307L;
  for (auto& s : sec) under *= std::max<long double>(1, std::abs(cld(s.b0) + s.b1 * z1 + s.b2 * z2)) / std::max<long double>(std::abs(cld(1) + s.a1 * z1 + s.a2 * z2), 1e-100L);
  long double e = 0, p = 1;  // of the product
  for (size_t i = 0; i < sec.size(); ++i) {
    long double one = b[i] + h[i] * a[i];
    e = e * (h[i] + one) + p * one;
    p *= h[i];
  }
  return e + under;
}
static inline std::vector<LSec> sectionsOf(IFilter& f) {
  std::vector<LSec> v;
  for (int i = 0; i < f.numStages(); ++i) {
    double k[6]; f.stage(i, k); long double a0 = k[0];
    v.push_back({k[3] / a0, k[4] / a0, k[5] / a0, k[1] / a0, k[2] / a0});
  }
  return v;
}
