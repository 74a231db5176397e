// Generators of designs, signals and call histories.
#pragma once
#include "pbt.h"
#include "iface.h"
#include "ref.h"
#include <algorithm>

namespace gen {
using pbt::Case;

struct Filt { bool pole = true, rbj = true, sos = false; int fam = -1, kindLo = -1, kindHi = -1; int st = -1; int minOrder = 0, maxOrder = 999; };

inline const Desc& desc(Case& c, const Filt& q) {
  // choose family/kind first so that every kind has the same weight
  static std::map<std::string, std::vector<std::pair<int, std::vector<const Desc*>>>> cache;
  std::ostringstream k; k << q.pole << q.rbj << q.sos << ',' << q.fam << ',' << q.kindLo << ',' << q.kindHi << ',' << q.st << ',' << q.minOrder << ',' << q.maxOrder;
  auto& v = cache[k.str()];
  if (v.empty()) {
    std::map<int, std::vector<const Desc*>> m;
    for (auto& d : registry()) {
      if (d.pole() && !q.pole) continue;
      if (d.fam == RBJF && !q.rbj) continue;
      if (d.fam == SOS && !q.sos) continue;
      if (q.fam >= 0 && d.fam != q.fam) continue;
      if (q.kindLo >= 0 && (d.kind < q.kindLo || d.kind > q.kindHi)) continue;
      if (q.st >= 0 && d.st != q.st) continue;
      if (d.pole() && (d.order < q.minOrder || d.order > q.maxOrder)) continue;
      m[d.fam * 100 + d.kind].push_back(&d);
    }
    for (auto& e : m) v.push_back({e.first, e.second});
  }
  auto& g = v[c.draw(v.size())].second;
  // structure first, then order
  std::vector<const Desc*> s;
  int st = (int)c.draw(3);
  st = st == 0 ? DF2 : st == 1 ? DF1 : TDF2;
  for (auto* d : g) if (d->st == st) s.push_back(d);
  if (s.empty()) s = g;
  return *s[c.draw(s.size())];
}

// special values are often only nearly met
inline double nearly(Case& c, double v) {
  if (!c.chance(1, 3)) return v;
  double e = c.logreal(1e-15, 1e-2);
  return v * (c.flip() ? 1 - e : 1 + e);
}
inline double freq(Case& c, double lo = 1e-3, double hi = 0.499) {
  switch (c.draw(6)) {
    case 0: { static const double nice[] = {0.25, 0.1, 0.125, 0.05, 0.2, 0.3, 0.4, 0.01, 0.45, 0.375, 0.02, 0.49}; double f = nearly(c, c.pick(nice)); if (f >= lo && f <= hi) return f; return 0.25; }
    case 1: case 2: return c.real(std::max(lo, 0.01), std::min(hi, 0.49));
    case 3: case 4: return c.logreal(lo, std::min(hi, 0.25));
    default: return 0.5 - c.logreal(0.5 - hi, 0.25);
  }
}
// the round numbers of real programs: whole Hz and a common sampling rate
inline double roundRate(Case& c) {
  static const double ns[] = {8, 10, 12, 16, 20, 32, 50, 100, 360, 1000, 1024, 8000, 16000, 22050, 44100, 48000, 96000};
  return c.pick(ns);
}
// band edges (or only a width) of whole numbers; false if there is none within the limits
inline bool roundBand(Case& c, Params& p, double lo, double hi, double minWidth) {
  double n = roundRate(c), half = std::floor(n / 2);
  if (c.chance(1, 3)) {
    static const double w[] = {0.25, 0.125, 0.1, 0.05, 0.2, 1.0 / 3, 1.0 / 6};
    p.fw = c.flip() ? 0.25 : c.pick(w);
    p.fc = (1 + (double)c.draw((uint64_t)half)) / n;
  } else {
    double a = 1 + (double)c.draw((uint64_t)half), b = 1 + (double)c.draw((uint64_t)half);
    if (a > b) std::swap(a, b);
    p.fc = (a + b) / 2 / n; p.fw = (b - a) / n;
  }
  c.label("round frequencies");
  return p.fc - p.fw / 2 >= lo && p.fc + p.fw / 2 <= hi && p.fw >= minWidth * 2 * std::min(p.fc, 0.5 - p.fc);
}
inline bool roundFreq(Case& c, Params& p, double lo, double hi) {
  double n = roundRate(c);
  p.fc = (1 + (double)c.draw((uint64_t)(n / 2))) / n;
  c.label("round frequencies");
  return p.fc >= lo && p.fc <= hi;
}
inline double gainDb(Case& c, double mx = 40) {
  static const double nice[] = {6, -6, 1, -1, 3, -3, 12, -12, 20, -20, 0.5, -0.5, 24, -24};
  if (c.draw(3) == 0) return nearly(c, c.pick(nice));
  double g = c.logreal(0.05, mx);
  return c.flip() ? -g : g;
}
// valid, well conditioned parameters
struct Lim { double flo = 1e-3, fhi = 0.499; double minWidthRel = 0.005; double maxGain = 40; int maxOrder = 999; bool zeroGain = false; bool wide = false; };
inline Params extreme(Case& c, const Desc& d);
// slopes above 1 are possible as long as the square root in the cookbook formula is real
inline double steepSlope(Case& c, double gain) {
  double A = std::pow(10, gain / 40), s = A + 1 / A;
  double most = s - 2 > 1e-3 ? 0.9 * s / (s - 2) : 900;
  c.label("slope above 1");
  return most > 1 ? c.logreal(1, most) : 1;
}
// the whole range of sensible parameters; results may be ill-conditioned
inline Params wideParams(Case& c, const Desc& d, const Lim& l) {
  Params p = extreme(c, d);
  if (d.pole()) p.order = std::min(p.order, l.maxOrder);
  auto clip = [&](double f) { return std::min(std::max(f, 1e-6), 0.5 - 1e-6); };
  if (!d.band) p.fc = clip(p.fc);
  else if (p.fw > 0.499) p.fw *= 0.99;
  double away = d.band ? std::min(std::min(p.fc - p.fw / 2, 0.5 - p.fc - p.fw / 2), p.fw) : std::min(p.fc, 0.5 - p.fc);
  if (d.gain) { p.gain = c.logreal(c.chance(1, 4) ? 1e-9 : 1e-3, away < 3e-3 ? 60 : away < 0.02 ? 150 : 250) * (c.flip() ? 1 : -1); if (l.zeroGain && c.chance(1, 20)) p.gain = 0; }
  if (d.pole() && d.ripple) {
    if (d.gain) { p.ripple = std::fabs(p.gain) * (c.flip() ? c.logreal(1e-4, 0.95) : 1 - c.logreal(0.01, 0.5)); if (!(p.ripple > 0)) p.ripple = 0.5; }
    else p.ripple = d.fam == CHEB1 ? c.logreal(1e-7, 150) : c.logreal(1e-6, d.band && p.fw < 1e-3 ? 250 : 600);
  }
  if (d.fam == RBJF && d.kind == R_BSH) {
    double w0 = 2 * M_PI * p.fc, x = 0.3465735902799727 * p.ripple * w0 / std::sin(w0);
    if (x > 30) p.ripple *= 30 / x;
  }
  if (d.fam == RBJF && d.kind != R_LSH && d.kind != R_HSH && d.kind != R_BSH && d.kind != R_NOTCH && c.chance(1, 4)) p.ripple = c.logreal(1e-6, 1e8);
  if (d.fam == RBJF && (d.kind == R_LSH || d.kind == R_HSH) && c.chance(1, 4)) p.ripple = steepSlope(c, p.gain);
  if (d.fam == BUTTER && d.kind == LP && c.chance(1, 6)) { p.order = 1; p.fc = c.logreal(1e-11, 1e-6); }
  c.label("wide range of parameters");
  return p;
}
inline Params params(Case& c, const Desc& d, const Lim& l = Lim()) {
  if (l.wide) return wideParams(c, d, l);
  Params p;
  if (d.pole()) {
    int mx = std::min(d.order, l.maxOrder);
    p.order = c.chance(1, 2) ? mx : 1 + (int)c.draw(mx);
    if (d.band) {
      p.fc = freq(c, std::max(l.flo, 0.002), std::min(l.fhi, 0.498));
      double room = 2 * std::min(p.fc - l.flo / 2, l.fhi + (0.5 - l.fhi) / 2 - p.fc);
      p.fw = room * (c.draw(3) == 0 ? c.real(0.05, 0.95) : c.logreal(l.minWidthRel, 0.98));
      if (c.chance(1, 6)) { Params r; if (roundBand(c, r, l.flo, l.fhi, std::max(l.minWidthRel, 0.005))) p.fc = r.fc, p.fw = r.fw; }
    } else {
      p.fc = freq(c, l.flo, l.fhi);
      if (c.chance(1, 8)) { Params r; if (roundFreq(c, r, l.flo, l.fhi)) p.fc = r.fc; }
    }
    if (d.gain) { p.gain = gainDb(c, l.maxGain); if (l.zeroGain && c.chance(1, 20)) p.gain = 0; }
    if (d.ripple) {
      if (d.gain) p.ripple = std::fabs(p.gain) * c.real(0.01, 0.95), p.ripple = p.ripple > 0 ? p.ripple : 0.5;
      else if (d.fam == CHEB1) { static const double nice[] = {1, 0.5, 0.1, 3, 5, 0.01}; p.ripple = c.flip() ? nearly(c, c.pick(nice)) : c.logreal(0.002, 12); }
      else { static const double nice[] = {40, 20, 60, 80, 10, 3, 100, 120, 140, 160}; p.ripple = c.flip() ? nearly(c, c.pick(nice)) : c.logreal(1, 190); }
    }
  } else {
    p.order = 2;
    p.fc = freq(c, l.flo, l.fhi);
    if (d.gain) { p.gain = gainDb(c, l.maxGain); if (l.zeroGain && c.chance(1, 20)) p.gain = 0; }
    switch (d.kind) {
      case R_LSH: case R_HSH: { static const double nice[] = {1, 0.5, 0.75, 0.9, 0.3}; p.ripple = c.chance(1, 6) ? steepSlope(c, p.gain) : c.flip() ? std::min(1.0, nearly(c, c.pick(nice))) : c.logreal(0.05, 1); break; }
      case R_BSH: { static const double nice[] = {1, 0.5, 2, 3, 0.1}; p.ripple = c.flip() ? nearly(c, c.pick(nice)) : c.logreal(0.02, 5); 
        // keep sinh(ln2/2*bw*w0/sin w0) in a sensible range near Nyquist
        double w0 = 2 * M_PI * p.fc; double x = 0.3465735902799727 * p.ripple * w0 / std::sin(w0);
        if (x > 8) p.ripple *= 8 / x; break; }
      case R_NOTCH: { static const double nice[] = {10, 1, 20, 5, 2}; p.ripple = c.flip() ? nearly(c, c.pick(nice)) : c.logreal(0.3, 50); break; }
      default: { static const double nice[] = {0.5, 1, 2, 5, 10, 0.70710678118654752}; p.ripple = c.flip() ? nearly(c, c.pick(nice)) : c.logreal(0.05, 50); }
    }
  }
  return p;
}
inline std::string show(const Desc& d, const Params& p) {
  std::ostringstream o;
  o << d.name << "{";
  if (d.pole()) o << "order=" << p.order << ", ";
  o << "f=" << pbt::fmt(p.fc);
  if (d.band) o << ", width=" << pbt::fmt(p.fw);
  if (d.gain) o << ", gain=" << pbt::fmt(p.gain);
  if (d.ripple) o << (d.fam == CHEB2 ? ", stop=" : ", ripple=") << pbt::fmt(p.ripple);
  if (d.fam == RBJF) o << ", shape=" << pbt::fmt(p.ripple);
  o << "}";
  return o.str();
}
inline void setup(IFilter& f, const Desc& d, const Params& p) {
  double a[4];
  p.args(d, a);
  if (d.pole() && p.order != d.order) f.setupNo(p.order, a); else f.setupN(a);
}

// valid parameters up to the extremes
inline Params extreme(Case& c, const Desc& d) {
  Params p;
  auto edge = [&]() -> double {
    switch (c.draw(5)) {
      case 0: return c.logreal(1e-6, 1e-2);
      case 1: return 0.5 - c.logreal(1e-6, 1e-2);
      case 2: return c.logreal(1e-4, 0.3);
      default: return c.real(0.005, 0.495);
    }
  };
  if (!d.pole()) {
    p.order = 2; p.fc = edge();
    p.gain = c.real(-60, 60);
    p.ripple = (d.kind == R_LSH || d.kind == R_HSH) ? c.logreal(0.001, 1) : d.kind == R_BSH ? c.logreal(0.001, 4) : d.kind == R_NOTCH ? c.logreal(0.05, 1e4) : c.logreal(0.001, 1e5);
    return p;
  }
  p.order = c.chance(1, 2) ? d.order : 1 + (int)c.draw(d.order);
  if (d.band) {
    double a = edge(), b = edge();
    if (a > b) std::swap(a, b);
    if (!(b - a > 1e-6)) { b = a < 0.25 ? a * 1.5 : a + (0.5 - a) * 0.5; }
    p.fc = (a + b) / 2; p.fw = b - a;
    if (c.chance(1, 6)) { Params r; if (roundBand(c, r, 1e-6, 0.5 - 1e-6, 1e-4)) p.fc = r.fc, p.fw = r.fw; }
  } else p.fc = edge();
  if (d.gain) p.gain = c.chance(1, 3) ? gainDb(c, 60) : c.real(-60, 60);
  if (d.ripple) {
    if (d.gain) p.ripple = c.flip() ? c.logreal(0.01, 20) : std::max(1e-3, std::fabs(p.gain) * c.real(0.01, 1.2));
    else p.ripple = d.fam == CHEB1 ? c.logreal(1e-4, 60) : c.logreal(0.05, 200);
  }
  return p;
}

// the bandwidth formula of the cookbook leaves the range of double here
inline bool bandShelfOverflow(const Desc& d, const Params& p) {
  if (d.kind != R_BSH) return false;
  double w0 = 2 * M_PI * p.fc;
  return 0.3465735902799727 * p.ripple * w0 / std::sin(w0) > 600;
}

// ---- signals ---------------------------------------------------------
inline double sample(Case& c, int kind) {
  switch (kind) {
    case 0: return c.range(-4, 4);
    case 1: return c.real(-1, 1);
    case 2: { int q = c.chance(1, 8) ? 220 : 60; double m = std::ldexp(1.0, c.range(-q, q)); return c.flip() ? m : -m; }
    default: return c.range(0, 8) == 0 ? c.real(-1, 1) : 0;
  }
}
inline std::vector<double> signal(Case& c, int maxLen) {
  std::vector<double> x;
  int n = 1 + (int)c.draw(maxLen), kind = (int)c.draw(4);
  for (int i = 0; i < n; ++i) x.push_back(sample(c, kind));
  return x;
}
// long signals are generated from one choice by a fixed recipe
inline std::vector<double> longSignal(Case& c, int n) {
  uint64_t s = c.draw(1u << 30) + 1;
  int kind = (int)c.draw(9);
  double slow = std::pow(10.0, -c.range(1, 5)), small = std::pow(10.0, -c.range(1, 14));
  double f = c.real(0.0, 0.5), amp = std::pow(10.0, c.range(-3, 3));
  std::vector<double> x(n);
  uint64_t st = s * 0x9E3779B97F4A7C15ull + 12345;
  for (int i = 0; i < n; ++i) {
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    double r = (double)(int64_t)st / 9223372036854775808.0;
    switch (kind) {
      case 0: x[i] = i == 0 ? amp : 0; break;
      case 1: x[i] = amp * r; break;
      case 2: x[i] = amp * std::sin(2 * M_PI * f * i); break;
      case 3: x[i] = amp; break;
      case 5: x[i] = amp * (1 + small * std::sin(2 * M_PI * f * slow * i)); break;  // nearly constant
      case 6: x[i] = amp * std::sin(2 * M_PI * f * slow * i); break;                 // slow
      case 7: x[i] = amp * std::exp(-slow * i); break;
      case 8: x[i] = amp * (1 + small * (double)(i / 64 % 7)); break;                // small steps
      default: x[i] = (i / 50) % 2 ? amp : -amp; break;
    }
  }
  return x;
}
}  // namespace gen
