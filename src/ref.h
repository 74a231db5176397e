// Independent reference responses in long double precision, straight from the
// closed forms (analogue prototypes, pre-warped bilinear frequency mapping and
// the Audio EQ Cookbook).  Nothing here is shared with the library.
#pragma once
#include "iface.h"
#include <cmath>
#include <complex>
#include <vector>

typedef long double ld;
typedef std::complex<ld> cld;
static const ld PI_L = 3.14159265358979323846264338327950288L;

struct Params {
  int order = 0;          // requested order
  double fc = 0, fw = 0, gain = 0, ripple = 0;   // ripple: passband ripple or stopband attenuation; RBJ: shape
  // argument array for the library
  void args(const Desc& d, double* a) const {
    int i = 0;
    a[i++] = fc;
    if (d.fam == RBJF) { if (d.gain) a[i++] = gain; a[i++] = ripple; return; }
    if (d.band) a[i++] = fw;
    if (d.gain) a[i++] = gain;
    if (d.ripple) a[i++] = ripple;
  }
  void argsHz(const Desc& d, double fs, double* a) const {
    args(d, a);
    a[0] = fc * fs;
    if (d.band) a[1] = fw * fs;
  }
};

struct Ref {
  Family fam; Kind kind; int N; ld fc, fw, gain, ripple;
  std::vector<cld> p, z;   // analogue prototype roots (finite)
  ld dc = 1;               // prototype gain at s = 0 (low/high/band) or at infinity (shelves: 1)
  bool shelf = false;
  std::vector<cld> zp, zz; // digital roots
  std::vector<ld> kp, kz;  // conditioning of each digital root
  ld O1 = 0, O2 = 0, Oc = 0;

  Ref() {}
  Ref(const Desc& d, const Params& q) : Ref(d.fam, d.kind, q) {}
  Ref(Family f, Kind k, const Params& q) : fam(f), kind(k), N(q.order), fc(q.fc), fw(q.fw), gain(q.gain), ripple(q.ripple) {
    if (fam == RBJF) return;
    shelf = kind >= LSH;
    proto();
    Oc = tanl(PI_L * fc);
    O1 = tanl(PI_L * (fc - fw / 2));
    O2 = tanl(PI_L * (fc + fw / 2));
    digitalRoots();
  }
  // any analogue prototype: roots, and its gain g at s = 0 (or, with atInfinity, at infinity)
  Ref(Kind k, ld fc_, ld fw_, const std::vector<cld>& p_, const std::vector<cld>& z_, ld g, bool atInfinity)
      : fam(BUTTER), kind(k), N((int)p_.size()), fc(fc_), fw(fw_), gain(0), ripple(0), p(p_), z(z_), dc(g), shelf(atInfinity) {
    Oc = tanl(PI_L * fc);
    O1 = tanl(PI_L * (fc - fw / 2));
    O2 = tanl(PI_L * (fc + fw / 2));
    digitalRoots();
  }
  void proto() {
    if (!shelf) {
      if (fam == BUTTER) {
        for (int i = 1; i <= N; ++i) { ld th = PI_L * (2 * i - 1) / (2 * N); p.push_back(cld(-sinl(th), cosl(th))); }
      } else {
        ld eps = fam == CHEB1 ? sqrtl(expm1l(ripple * logl(10.0L) / 10)) : 1 / sqrtl(expm1l(ripple * logl(10.0L) / 10));
        ld v = asinhl(1 / eps) / N;
        for (int i = 1; i <= N; ++i) {
          ld th = PI_L * (2 * i - 1) / (2 * N);
          cld r(-sinhl(v) * sinl(th), coshl(v) * cosl(th));
          if (fam == CHEB1) p.push_back(r);
          else {
            p.push_back(cld(1) / r);
            if (2 * i - 1 != N) z.push_back(cld(0, 1 / cosl(th)));
          }
        }
        if (fam == CHEB1 && N % 2 == 0) dc = powl(10, -ripple / 20);
      }
    } else if (fam == BUTTER) {
      ld g = powl(10, gain / 20 / (2 * N));
      for (int i = 1; i <= N; ++i) {
        ld th = PI_L * (2 * i - 1) / (2 * N);
        cld r(-sinl(th), cosl(th));
        p.push_back(r / g); z.push_back(r * g);
      }
    } else {
      ld G = powl(10, -gain / 20);                                     // inverse of the band gain
      ld edge = powl(10, (gain > 0 ? gain - ripple : gain + ripple) / 10); // |H|^2 at the band edge
      ld e2 = gain == 0 ? 1 : (edge * G * G - 1) / (1 - edge);         // (1+e2)/(G^2+e2) = edge
      ld e = sqrtl(e2);
      ld u = asinhl(G / e) / N, v = asinhl(1 / e) / N;
      for (int i = 1; i <= N; ++i) {
        ld th = PI_L * (2 * i - 1) / (2 * N);
        p.push_back(cld(-sinhl(u) * sinl(th), coshl(u) * cosl(th)));
        z.push_back(cld(-sinhl(v) * sinl(th), coshl(v) * cosl(th)));
      }
    }
  }
  bool high() const { return kind == HP || kind == HSH; }
  bool bandp() const { return kind == BP || kind == BSH; }
  // low-pass prototype variable for a point on the imaginary axis / plane
  cld toProto(cld s) const {
    if (high()) return Oc / s;
    if (bandp()) return (s * s + O1 * O2) / ((O2 - O1) * s);
    if (kind == BS) return (O2 - O1) * s / (s * s + O1 * O2);
    return s / Oc;
  }
  cld Hproto(cld s) const {
    cld h(1);
    if (shelf) {
      for (size_t i = 0; i < p.size(); ++i) h *= (s - z[i]) / (s - p[i]);
      return h * dc;
    }
    for (auto& r : p) h *= -r / (s - r);
    for (auto& r : z) h *= (r - s) / r;
    return h * dc;
  }
  cld H(ld f) const {
    if (fam == RBJF) return rbj(f);
    if (f == 0) { if (high() || bandp()) return atInf(); if (kind == BS) return Hproto(0); return Hproto(0); }
    if (f == 0.5L) { if (high()) return Hproto(0); if (kind == BS) return Hproto(0); return atInf(); }
    ld t = tanl(PI_L * f);
    cld s(0, t);
    if (kind == BS) {
      ld den = O1 * O2 - t * t;
      if (fabsl(den) < 1e-18L * t * t) return atInf();
    }
    return Hproto(toProto(s));
  }
  cld atInf() const {
    if (shelf) return dc;
    if (z.size() < p.size()) return 0;
    return Hproto(cld(0, 1e30L));
  }
  void addRoots(const std::vector<cld>& from, std::vector<cld>& to, std::vector<ld>& kap, size_t total, bool zeros) {
    auto bil = [](cld s) { return (cld(1) + s) / (cld(1) - s); };
    for (auto& r : from) {
      // the pre-warped frequency loses digits near Nyquist
      auto warp = [&](cld q) { return 1 + std::abs(cld(1) - q * q) / std::max<ld>(0.5L - fc, 1e-12L); };
      if (high()) { to.push_back(bil(Oc / r)); kap.push_back(warp(to.back())); }
      else if (bandp() || kind == BS) {
        cld B = bandp() ? (O2 - O1) * r : (O2 - O1) / r;
        cld q = std::sqrt(B * B - cld(4 * O1 * O2));
        cld a = bil((B + q) / cld(2)), b = bil((B - q) / cld(2));
        // what double precision can resolve of the two roots, for any formula
        // that solves the quadratic with band-edge cosines in it
        ld t = tanl(PI_L * fw), bb = bandp() ? 1 / t : t;
        ld sep = std::max<ld>(std::abs(a - b), 1e-8L);
        // cos((w1+w2)/2)/cos((w1-w2)/2) loses digits when the band is nearly everything,
        // and so do differences of terms of the size bb*bb
        ld k = 1 / std::max<ld>(cosl(PI_L * fw), 1e-12L) + (1 + bb * bb) * (2 + 2 * std::norm(r)) / (std::norm(cld(bb) - r) * sep);
        for (auto& q2 : {a, b}) { to.push_back(q2); kap.push_back(k + std::abs(cld(1) - q2 * q2) * (1 + 1 / std::abs(r))); }
      } else { to.push_back(bil(Oc * r)); kap.push_back(warp(to.back())); }
    }
    if (zeros)
      for (size_t i = from.size(); i < total; ++i) {  // prototype zeros at infinity
        if (high()) { to.push_back(1); kap.push_back(1); }
        else if (bandp()) { to.push_back(1); to.push_back(-1); kap.push_back(1); kap.push_back(1); }
        else if (kind == BS) {
          cld a = bil(cld(0, sqrtl(O1 * O2)));
          ld bb = tanl(PI_L * fw), k = 1 + 2 * (1 + bb * bb) / std::max<ld>(std::abs(a - std::conj(a)), 1e-8L);
          k += 1 / std::max<ld>(cosl(PI_L * fw), 1e-12L);
          to.push_back(a); to.push_back(std::conj(a)); kap.push_back(k); kap.push_back(k);
        } else { to.push_back(-1); kap.push_back(1); }
      }
  }
  void digitalRoots() {
    addRoots(p, zp, kp, p.size(), false);
    addRoots(z, zz, kz, p.size(), true);
  }
  // sensitivity of the response at f to rounding of the section coefficients
  ld cond(ld f) const {
    cld e = std::polar((ld)1, 2 * PI_L * f);
    ld s = 1;
    auto add = [&](const std::vector<cld>& r, const std::vector<ld>& k) {
      for (size_t i = 0; i < r.size(); ++i) {
        // the only section of a filter of order 1 has one root
        bool single = N == 1 && r.size() == 1;
        ld d = std::abs(e - r[i]) * (single ? 1 : std::abs(e - std::conj(r[i])));
        s += 4 / std::max<ld>(d, 1e-300L) + k[i] * (1 / std::max<ld>(std::abs(e - r[i]), 1e-300L) + 1 / std::max<ld>(std::abs(e - std::conj(r[i])), 1e-300L));
      }
    };
    add(zp, kp); add(zz, kz);
    return s;
  }
  ld normFreq() const {
    switch (kind) {
      case LP: return 0;
      case HP: return 0.5L;
      case BP: return atanl(sqrtl(O1 * O2)) / PI_L;
      case LSH: return 0.5L;
      case HSH: return 0;
      default: return fc < 0.25L ? 0.5L : 0;
    }
  }
  ld maxPoleRadius() const { ld m = 0; for (auto& r : zp) m = std::max(m, std::abs(r)); return m; }
  // ---- Audio EQ Cookbook, analogue form H(s), s normalised to the corner frequency
  cld rbj(ld f) const {
    ld w0 = 2 * PI_L * fc;
    if (kind == R_NOTCH) {
      cld zi = std::polar((ld)1, -2 * PI_L * f);
      ld r = expl(-(w0 / 2) / ripple);
      cld n = (cld(1) - std::polar((ld)1, w0) * zi) * (cld(1) - std::polar((ld)1, -w0) * zi);
      cld d = (cld(1) - std::polar(r, w0) * zi) * (cld(1) - std::polar(r, -w0) * zi);
      return n / d;
    }
    // s = (1/tan(w0/2)) (1-z^-1)/(1+z^-1); at Nyquist s -> infinity
    bool inf = f >= 0.5L;
    cld s(0, inf ? 0 : tanl(PI_L * f) / tanl(w0 / 2));
    ld Q = ripple, A = powl(10, gain / 40);
    if (kind == R_LSH || kind == R_HSH) Q = 1 / sqrtl((A + 1 / A) * (1 / (ld)ripple - 1) + 2);
    if (kind == R_BSH) Q = 1 / (2 * sinhl(logl(2.0L) / 2 * (ld)ripple * w0 / sinl(w0)));
    // numerator and denominator as quadratics in s: n2 s^2 + n1 s + n0
    ld n2, n1, n0, d2 = 1, d1 = 1 / Q, d0 = 1;
    switch (kind) {
      case R_LP: n2 = 0; n1 = 0; n0 = 1; break;
      case R_HP: n2 = 1; n1 = 0; n0 = 0; break;
      case R_BP1: n2 = 0; n1 = 1; n0 = 0; break;
      case R_BP2: n2 = 0; n1 = 1 / Q; n0 = 0; break;
      case R_BS: n2 = 1; n1 = 0; n0 = 1; break;
      case R_AP: n2 = 1; n1 = -1 / Q; n0 = 1; break;
      case R_BSH: n2 = 1; n1 = A / Q; n0 = 1; d1 = 1 / (A * Q); break;
      case R_LSH: n2 = A; n1 = A * sqrtl(A) / Q; n0 = A * A; d2 = A; d1 = sqrtl(A) / Q; d0 = 1; break;
      case R_HSH: n2 = A * A; n1 = A * sqrtl(A) / Q; n0 = A; d2 = 1; d1 = sqrtl(A) / Q; d0 = A; break;
      default: n2 = n1 = n0 = 0;
    }
    if (inf) return n2 / d2;
    return (n2 * s * s + n1 * s + n0) / (d2 * s * s + d1 * s + d0);
  }
};
