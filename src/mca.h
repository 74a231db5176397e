// Difference equations with coefficients that change while the filter runs.
// The reference runs in long double; how far rounding can carry a double
// precision implementation away from it is measured by runs whose operations
// are randomly perturbed by an ulp (Monte Carlo arithmetic).
#pragma once
#include "hist.h"

struct MSec { double a1, a2, b0, b1, b2; };

template <class R> struct Chain {
  StateKind st;
  std::vector<std::array<R, 4>> s;
  uint64_t rng;
  bool perturb;
  Chain(StateKind k, size_t n, uint64_t seed) : st(k), s(n), rng(seed), perturb(seed != 0) { reset(); }
  void reset() { for (auto& a : s) a.fill(0); }
  R p(R x) {
    if (!perturb) return x;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return x + x * (R)((double)((int64_t)rng >> 11) * (1.0 / 4503599627370496.0) * 2.2e-16);
  }
  R step(R in, const std::vector<MSec>& c) {
    R v = in;
    for (size_t i = 0; i < s.size(); ++i) {
      auto& q = s[i];
      const MSec& k = c[i];
      R a1 = p((R)k.a1), a2 = p((R)k.a2), b0 = p((R)k.b0), b1 = p((R)k.b1), b2 = p((R)k.b2), out;
      switch (st) {
        case DF1:
          out = p(p(p(p(b0 * v) + p(b1 * q[0])) + p(b2 * q[1])) - p(p(a1 * q[2]) + p(a2 * q[3])));
          q[1] = q[0]; q[0] = v; q[3] = q[2]; q[2] = out;
          break;
        case DF2: {
          R w = p(p(v - p(a1 * q[0])) - p(a2 * q[1]));
          out = p(p(p(b0 * w) + p(b1 * q[0])) + p(b2 * q[1]));
          q[1] = q[0]; q[0] = w;
          break;
        }
        default:
          out = p(q[0] + p(b0 * v));
          q[0] = p(p(q[1] + p(b1 * v)) - p(a1 * out));
          q[1] = p(p(b2 * v) - p(a2 * out));
      }
      v = out;
    }
    return v;
  }
};

// reference output together with a tolerance
struct Tuned {
  Chain<long double> ref;
  std::vector<Chain<double>> mc;
  long double dev = 0;
  Tuned(StateKind k, size_t n) : ref(k, n, 0) { for (int i = 1; i <= 6; ++i) mc.emplace_back(k, n, 0x9E3779B97F4A7C15ull * i); }
  void reset() { ref.reset(); for (auto& m : mc) m.reset(); dev = 0; }
  long double step(double x, const std::vector<MSec>& c, long double& tol) {
    long double y = ref.step(x, c);
    for (auto& m : mc) dev = std::max(dev, fabsl((long double)m.step(x, c) - y));
    tol = 300 * dev + 1e-13L * fabsl(y) + 1e-290L;
    return y;
  }
};
static inline std::vector<MSec> storageOf(IFilter& f) {
  std::vector<MSec> v(f.numStorage());
  for (size_t i = 0; i < v.size(); ++i) { double k[6]; f.storage((int)i, k); v[i] = {k[1] / k[0], k[2] / k[0], k[3] / k[0], k[4] / k[0], k[5] / k[0]}; }
  return v;
}
