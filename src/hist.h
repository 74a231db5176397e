// Call histories on filter objects.
#pragma once
#include "gen.h"
#include <stdexcept>
#include <limits>

namespace hist {
using pbt::Case;
using pbt::fmt;

struct Op {
  enum T { SETUP, FILTER, RESET, RESP, PZQ, STAGEQ } t = SETUP;
  // setup
  enum Form { N, NO, HZ, HZO, DEFN, DEFHZ, SOSF } form = N;
  int order = 0;
  double fs = 1;
  double a[4] = {0, 0, 0, 0};
  std::vector<double> sos;
  bool valid = true;
  const char* why = "";
  // filter
  std::vector<double> x;
  int sampleType = 0;   // 0 double, 1 float, 2 long double, 3 int, 4 short
  double f = 0;         // RESP
  int idx = 0;          // STAGEQ
  int times = 1;        // the call is made this often
};

inline void callSetup(IFilter& f, const Desc& d, const Op& o) {
  switch (o.form) {
    case Op::N: f.setupN(o.a); break;
    case Op::NO: f.setupNo(o.order, o.a); break;
    case Op::HZ: f.setupHz(o.fs, o.a); break;
    case Op::HZO: f.setupHzo(o.order, o.fs, o.a); break;
    case Op::DEFN: f.setupDefN(o.a); break;
    case Op::DEFHZ: f.setupDefHz(o.fs, o.a); break;
    case Op::SOSF: f.setupSos(o.sos.data()); break;
  }
  (void)d;
}
// 0 accepted, 1 std::invalid_argument, 2 anything else
inline int trySetup(IFilter& f, const Desc& d, const Op& o) {
  try { callSetup(f, d, o); return 0; }
  catch (const std::invalid_argument&) { return 1; }
  catch (...) { return 2; }
}

inline std::string showSetup(const Desc& d, const Op& o) {
  static const char* fn[] = {"setupN(", "setupN(", "setup(", "setup(", "setupN(", "setup(", "setup(sos "};
  std::ostringstream s;
  s << fn[o.form];
  bool first = true;
  auto put = [&](const std::string& t) { s << (first ? "" : ", ") << t; first = false; };
  if (o.form == Op::NO || o.form == Op::HZO) put(std::to_string(o.order));
  if (o.form == Op::HZ || o.form == Op::HZO || o.form == Op::DEFHZ) put(fmt(o.fs));
  if (o.form == Op::SOSF) { for (double v : o.sos) put(fmt(v)); }
  else { int n = d.np - (o.form == Op::DEFN || o.form == Op::DEFHZ ? 1 : 0); for (int i = 0; i < n; ++i) put(fmt(o.a[i])); }
  s << ")";
  return s.str();
}
inline std::string show(const Desc& d, const Op& o) {
  std::ostringstream s;
  switch (o.t) {
    case Op::SETUP: s << showSetup(d, o) << (o.valid ? "" : "!"); break;
    case Op::FILTER: s << "filter["; for (size_t i = 0; i < o.x.size() && i < 6; ++i) s << (i ? " " : "") << o.x[i]; if (o.x.size() > 6) s << " .. " << o.x.size() << " samples"; s << "]"; if (o.sampleType) s << "as type " << o.sampleType; break;
    case Op::RESET: s << "reset()"; break;
    case Op::RESP: s << "response(" << fmt(o.f) << ")"; break;
    case Op::PZQ: s << "getPoleZeros()"; break;
    case Op::STAGEQ: s << "[" << o.idx << "]"; break;
  }
  if (o.times > 1) s << " " << o.times << " times";
  return s.str();
}

// sections in scipy order with poles inside the unit circle
inline std::vector<double> sosSections(Case& c, int n) {
  std::vector<double> v;
  for (int i = 0; i < n; ++i) {
    double a0 = c.chance(1, 2) ? 1 : (c.flip() ? 1 : -1) * (c.chance(1, 10) ? c.logreal(1e-40, 1e40) : c.logreal(0.05, 20));
    double r = c.real(0, 0.97), th = c.real(0, M_PI), a1, a2;
    if (c.chance(1, 4)) { double r2 = c.real(-0.97, 0.97); a1 = -(r + r2); a2 = r * r2; }
    else if (c.chance(1, 6)) { a1 = -r; a2 = 0; }
    else { a1 = -2 * r * std::cos(th); a2 = r * r; }
    double b[3] = {c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)};
    if (c.chance(1, 6)) b[2] = 0;
    for (double q : b) v.push_back(q * a0);
    v.push_back(a0); v.push_back(a1 * a0); v.push_back(a2 * a0);
  }
  return v;
}

inline Op validSetup(Case& c, const Desc& d, const gen::Lim& l = gen::Lim()) {
  Op o;
  if (d.fam == SOS) { o.form = Op::SOSF; o.sos = sosSections(c, d.order); return o; }
  gen::Lim lw = l;
  if (l.flo == gen::Lim().flo && c.chance(1, 10)) lw.wide = true;
  Params p = gen::params(c, d, lw);
  int form = (int)c.draw(5);
  bool lower = d.pole() && p.order != d.order;
  if (form <= 1) { o.form = lower || (d.pole() && form == 1) ? Op::NO : Op::N; p.args(d, o.a); }
  else {
    static const double rates[] = {1000, 48000, 44100, 1, 250, 0.5, 192000};
    o.fs = c.flip() ? c.pick(rates) : c.chance(1, 5) ? c.logreal(1e-9, 1e12) : c.logreal(0.01, 1e6);
    o.form = lower || (d.pole() && form == 3) ? Op::HZO : Op::HZ;
    p.argsHz(d, o.fs, o.a);
  }
  if (!d.pole() && c.chance(1, 6) && (d.kind == R_LP || d.kind == R_HP || d.kind == R_NOTCH || d.kind == R_LSH || d.kind == R_HSH || d.kind == R_AP)) {
    if (o.form == Op::N) o.form = Op::DEFN;
    if (o.form == Op::HZ) o.form = Op::DEFHZ;
  }
  o.order = d.pole() ? p.order : 2;
  return o;
}

// a call which has to be rejected according to the documentation
inline Op invalidSetup(Case& c, const Desc& d) {
  Op o = validSetup(c, d);
  o.valid = false;
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  if (d.fam == SOS) {
    int s = (int)c.draw(d.order);
    static const double bad0[] = {0.0, -0.0};
    switch (c.draw(4)) {
      case 0: o.sos[s * 6 + 3] = c.pick(bad0); o.why = "a0 zero"; break;
      case 1: o.sos[s * 6 + 3] = nan; o.why = "a0 NaN"; break;
      case 2: o.sos[s * 6 + 3] = c.flip() ? inf : -inf; o.why = "a0 infinite"; break;
      default: o.sos[s * 6 + c.draw(6)] = nan; o.why = "NaN coefficient";
    }
    return o;
  }
  if (o.form == Op::DEFN) { o.form = Op::N; o.a[d.np - 1] = 0.9; }
  if (o.form == Op::DEFHZ) { o.form = Op::HZ; o.a[d.np - 1] = 0.9; }
  bool hz = o.form == Op::HZ || o.form == Op::HZO;
  double sc = hz ? o.fs : 1;
  std::vector<int> modes = {0, 1, 2, 3, 4};
  if (d.pole()) { modes.push_back(5); modes.push_back(6); }
  if (d.band) { modes.push_back(7); modes.push_back(8); modes.push_back(9); }
  if (d.ripple || d.fam == RBJF) { modes.push_back(10); modes.push_back(11); }
  if (d.gain) modes.push_back(12);
  if (hz) modes.push_back(13);
  int fw = 1, rip = d.np - 1, g = d.band ? 2 : 1;
  switch (c.pick(modes)) {
    case 0: o.a[0] = nan; o.why = "frequency NaN"; break;
    case 1: o.a[0] = -(c.chance(1, 4) ? c.logreal(1, 1e300) : c.logreal(1e-12, 10)) * sc; o.why = "frequency negative"; break;
    case 2: o.a[0] = 0.5 * sc; if (hz && !(o.a[0] / o.fs >= 0.5)) o.a[0] *= 1.0000001; o.why = "frequency at Nyquist"; break;
    case 3: o.a[0] = (c.chance(1, 4) ? c.logreal(1, 1e6) : c.chance(1, 6) ? c.logreal(1, 1e300) : 0.5 + c.logreal(1e-9, 100)) * sc; o.why = "frequency above Nyquist"; break;
    case 4: o.a[0] = c.flip() ? inf : -inf; o.why = "frequency infinite"; break;
    case 5: o.order = d.order + 1 + (c.flip() ? (int)c.draw(3) : c.flip() ? (int)c.draw(100000) : (int)c.draw(2147483000)); o.form = hz ? Op::HZO : Op::NO; o.why = "order too high"; break;
    case 6: o.order = -1 - (c.flip() ? (int)c.draw(3) : (int)c.draw(1 << 30)); o.form = hz ? Op::HZO : Op::NO; o.why = "order negative"; break;
    case 7: o.a[fw] = c.flip() ? 0.0 : -0.0; o.why = "width zero"; break;
    case 8: o.a[fw] = -c.logreal(1e-9, 1) * sc; o.why = "width negative"; break;
    case 9: o.a[fw] = c.flip() ? nan : inf; o.why = "width NaN or infinite"; break;
    case 10: o.a[rip] = c.flip() ? 0.0 : -c.logreal(1e-9, 60); o.why = "ripple/Q/slope not positive"; break;
    case 11: o.a[rip] = nan; o.why = "ripple/Q/slope NaN"; break;
    case 12: o.a[g] = nan; o.why = "gain NaN"; break;
    default: o.fs = c.flip() ? nan : c.flip() ? 0.0 : -o.fs; o.why = "sampling rate invalid"; break;
  }
  return o;
}

inline void spoil(Case& c, std::vector<double>& x) {  // an infinity, a NaN, a huge or a subnormal value among the samples
  static const double odd[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e308, 5e-324, -1e-310};
  if (!x.empty()) x[c.draw(x.size())] = c.pick(odd);
}
// Now and then a signal goes on for very long or a call is made very often, up
// to most times: what happens at the n-th sample or call is not the same as
// what happens at the first.
inline int howLong(Case& c, int most) {
  static const int ns[] = {300, 1100, 300, 5000, 1100, 300, 70000, 1100};
  return std::min(most, c.pick(ns));
}
inline Op filterOp(Case& c, int maxLen, int most = 0) {
  Op o; o.t = Op::FILTER;
  if (most && c.chance(1, 600)) { o.x = gen::longSignal(c, howLong(c, most)); c.label("very long signal"); }
  else o.x = gen::signal(c, maxLen);
  if (c.chance(1, 25)) spoil(c, o.x);
  return o;
}
inline void often(Case& c, Op& o, int most) {
  if (o.t == Op::FILTER || !c.chance(1, 2500)) return;
  o.times = howLong(c, most); c.label("call made very often");
}

// apply to one object; returns outcome of a setup, output of filtering
struct Result { int threw = 0; std::vector<double> y; };
inline Result apply(IFilter& f, const Desc& d, const Op& o) {
  Result r;
  for (int t = 0; t < o.times; ++t) switch (o.t) {
    case Op::SETUP: r.threw = trySetup(f, d, o); break;
    case Op::FILTER: r.y.resize(o.x.size()); if (!o.x.empty()) f.run(o.x.data(), r.y.data(), o.x.size()); break;
    case Op::RESET: f.reset(); break;
    case Op::RESP: try { (void)f.response(o.f); } catch (const std::invalid_argument&) { r.threw = 1; } break;
    case Op::PZQ: try { (void)f.poleZeros(); } catch (const std::invalid_argument&) { r.threw = 1; } break;
    case Op::STAGEQ: try { double q[6]; f.stage(o.idx, q); } catch (const std::invalid_argument&) { r.threw = 1; } break;
  }
  return r;
}

// ---- everything a design consists of ---------------------------------
struct Snap {
  std::vector<double> v;
  std::vector<std::string> what;
};
inline Snap snap(IFilter& f, const Desc& d, bool pz = true) {
  Snap s;
  auto put = [&](double x, const std::string& w) { s.v.push_back(x); s.what.push_back(w); };
  static const char* cn[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
  put(f.numStages(), "number of stages");
  double q[6];
  for (int i = 0; i < f.numStages(); ++i) { f.stage(i, q); for (int k = 0; k < 6; ++k) put(q[k], std::string(cn[k]) + " of section " + std::to_string(i)); }
  for (int i = 0; i < f.numStorage(); ++i) { f.storage(i, q); for (int k = 0; k < 6; ++k) put(q[k], std::string(cn[k]) + " of stored section " + std::to_string(i)); }
  // first and last the same: an answer remembered from before would be repeated
  for (double fr : {0.21, 0.0, 0.037, 0.43, 0.5, 0.21}) {
    auto h = f.response(fr);
    put(h.real(), "response at " + fmt(fr)); put(h.imag(), "response at " + fmt(fr));
  }
  if (pz && d.fam != SOS) {
    try {
      auto z = f.poleZeros();
      put((double)z.size(), "number of pole/zero pairs");
      for (auto& e : z) {
        put(e.p1.real(), "pole"); put(e.p1.imag(), "pole"); put(e.p2.real(), "pole"); put(e.p2.imag(), "pole");
        put(e.z1.real(), "zero"); put(e.z1.imag(), "zero"); put(e.z2.real(), "zero"); put(e.z2.imag(), "zero");
        put(e.single, "single pole flag");
      }
    } catch (const std::invalid_argument&) { put(-1, "pole/zero query rejected"); }
  }
  return s;
}
// empty when identical
inline std::string diff(const Snap& a, const Snap& b) {
  for (size_t i = 0; i < a.v.size() && i < b.v.size(); ++i)
    if (a.what[i] != b.what[i] || !pbt::same(a.v[i], b.v[i])) return a.what[i] + ": " + fmt(a.v[i]) + " instead of " + fmt(b.v[i]);
  if (a.v.size() != b.v.size()) return "different number of reported values";
  return "";
}
inline std::string diffOut(const std::vector<double>& a, const std::vector<double>& b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!pbt::same(a[i], b[i])) return "sample " + std::to_string(i) + " is " + fmt(a[i]) + " instead of " + fmt(b[i]);
  return "";
}
}  // namespace hist
