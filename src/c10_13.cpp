// C10 rejected setups, C11 history independence, C12 copies, C13 overloads.
#include "hist.h"
#include "wrap.h"
using namespace pbt;
using namespace gen;
using hist::Op;

static Filt all() { Filt q; q.sos = true; return q; }

// ---------------------------------------------------------------- C10
RULE("C10", "two objects of the same type get the same random calls (setups, samples, resets, queries); one of them additionally gets calls that are rejected (documented-invalid ones and arbitrary ones, several in a row, now and then up to a thousand, before the first setup, between samples). After every rejected call and at the end the coefficients, responses and all further output samples have to be bit-identical, and a following valid setup has to give the design of a fresh object. Non-trivial: at least one call was rejected on the one object and at least one sample was filtered afterwards.");

static double odd(Case& c, double v) {
  switch (c.draw(4)) {
    case 0: { static const double s[] = {0.0, -1.0, 1e300, -1e300, 0.5, 1e-300, 1e17}; return c.pick(s); }
    case 1: { static const double s[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}; return c.pick(s); }
    default: return v * (c.flip() ? -1 : 1e6);
  }
}
static Op arbitrary(Case& c, const Desc& d) {
  Op o = hist::validSetup(c, d);
  if (o.form == Op::DEFN || o.form == Op::DEFHZ) return o;
  if (d.fam == SOS) { size_t i = c.draw(o.sos.size()); o.sos[i] = odd(c, o.sos[i]); }
  else { int i = (int)c.draw(d.np); o.a[i] = odd(c, o.a[i]); }
  return o;
}

PROPERTY("C10", twin_without_the_rejected_calls, 200000, 2000000) {
  const Desc& d = desc(c, all());
  Obj a(d), b(d, 0x11);
  c.note << d.name << ": ";
  int n = 2 + (int)c.draw(10), rejected = 0, after = 0;
  for (int i = 0; i < n; ++i) {
    int k = (int)c.draw(8);
    if (k <= 2) {  // a call that should be rejected, only on a
      Op bad = c.chance(1, 4) ? arbitrary(c, d) : hist::invalidSetup(c, d);
      int times = 1 + (int)c.draw(3);
      if (c.chance(1, 2500)) { times = hist::howLong(c, 1100); c.label("rejected very often"); c.note << times << " times "; }
      for (int t = 0; t < times; ++t) {
        int r = hist::trySetup(*a, d, bad);
        if (r == 0) {  // accepted after all: keep the twins equal
          hist::trySetup(*b, d, bad);
          c.note << hist::show(d, bad) << " accepted; ";
          break;
        }
        ++rejected;
        if (t < 3) c.note << hist::show(d, bad) << " rejected; "; else if (t + 1 < times) continue;
        auto df = hist::diff(hist::snap(*a, d, false), hist::snap(*b, d, false));
        CHECK(df.empty(), "after the rejected call " << hist::showSetup(d, bad) << ": " << df);
      }
      continue;
    }
    Op op;
    if (k <= 4) op = hist::validSetup(c, d);
    else if (k <= 6) op = hist::filterOp(c, 20, 70000);
    else op.t = Op::RESET;
    hist::often(c, op, 5000);
    c.note << hist::show(d, op) << "; ";
    auto ra = hist::apply(*a, d, op), rb = hist::apply(*b, d, op);
    CHECK(ra.threw == rb.threw, "a call is " << (ra.threw ? "rejected" : "accepted") << " only on the object with the rejected calls");
    auto e = hist::diffOut(ra.y, rb.y);
    CHECK(e.empty(), "after a rejected call " << e << " (twin without the rejected calls)");
    if (rejected && !ra.y.empty()) ++after;
  }
  Op probe = hist::filterOp(c, 40, 70000);
  auto ra = hist::apply(*a, d, probe), rb = hist::apply(*b, d, probe);
  auto e = hist::diffOut(ra.y, rb.y);
  CHECK(e.empty(), "after rejected calls " << e << " (twin without the rejected calls)");
  auto df = hist::diff(hist::snap(*a, d, false), hist::snap(*b, d, false));
  CHECK(df.empty(), "after rejected calls: " << df);
  Op again = hist::validSetup(c, d);
  Obj fresh(d, 0);
  c.note << "then " << hist::show(d, again);
  int x = hist::trySetup(*a, d, again), y = hist::trySetup(*fresh, d, again);
  CHECK(x == y, "a later valid setup is not accepted like on a fresh object");
  df = hist::diff(hist::snap(*a, d), hist::snap(*fresh, d));
  CHECK(df.empty(), "a valid setup after rejected ones differs from that of a fresh object: " << df);
  c.nontrivial(rejected > 0);
}
// ---------------------------------------------------------------- C11
RULE("C11", "a random history (valid and rejected setups with other orders, ripples, gains, frequencies and overloads, filtering, resets, queries, work on up to two other objects of any type) followed by one accepted setup; coefficients of all sections, stage count, responses, pole/zero report and the output after reset() are compared bit for bit with a fresh object in differently initialised memory. Now and then a call is made up to thousands of times, a signal is up to 70000 samples long, or the final setup is the 256th or 65536th since the last query. The parameters of the final setup are often those of an earlier setup with a single value changed. Filtering, reset and queries are checked not to change the design. Non-trivial: the history contains at least one setup before the final one.");

static Op mutateOne(Case& c, const Desc& d, Op o) {
  // the same call with one value changed
  if (d.fam == SOS) { size_t i = c.draw(o.sos.size()); Op v = hist::validSetup(c, d); size_t s = i / 6 * 6; for (int k = 0; k < 6; ++k) o.sos[s + k] = v.sos[s + k]; return o; }
  bool hz = o.form == Op::HZ || o.form == Op::HZO || o.form == Op::DEFHZ;
  double sc = hz ? o.fs : 1;
  switch (c.draw(5)) {
    case 4: {  // barely changed: anything that compares with a tolerance is too coarse
      int n = d.np - (o.form == Op::DEFN || o.form == Op::DEFHZ ? 1 : 0), i = (int)c.draw(n);
      double e = c.logreal(1e-16, 1e-2);
      double v = o.a[i] * (c.flip() ? 1 - e : 1 + e);
      if (v == o.a[i]) v = std::nextafter(o.a[i], 0.0);
      o.a[i] = v;
      c.label("barely changed parameter");
      break;
    }
    case 0: if (d.pole()) { o.order = 1 + (int)c.draw(d.order); if (o.form == Op::N) o.form = Op::NO; if (o.form == Op::HZ) o.form = Op::HZO; } break;
    case 1: if (!d.band) o.a[0] = freq(c) * sc; else o.a[1] *= c.real(0.2, 1); break;
    case 2: if (d.gain) o.a[d.band ? 2 : 1] *= c.flip() ? -1 : 1.25; else o.a[0] *= 0.9; break;
    default: if (d.ripple || d.fam == RBJF) { if (o.form != Op::DEFN && o.form != Op::DEFHZ) o.a[d.np - 1] *= c.real(0.3, 0.99); } else o.a[0] *= 0.95;
  }
  return o;
}
static void fullCompare(Case& c, IFilter& a, IFilter& b, const Desc& d, const char* what) {
  auto df = hist::diff(hist::snap(a, d), hist::snap(b, d));
  CHECK(df.empty(), what << ": " << df);
}
PROPERTY("C11", fresh_object_equivalence, 250000, 2000000) {
  const Desc& d = desc(c, all());
  static const int pats[] = {0x00, 0xA5, 0xFF, 0x3F};
  Obj o(d, c.pick(pats));
  Obj others[2]; const Desc* od[2] = {nullptr, nullptr};
  c.note << d.name << ": ";
  int n = 1 + (int)c.draw(8), setups = 0;
  std::vector<Op> done;
  for (int i = 0; i < n; ++i) {
    Op op;
    switch (c.draw(10)) {
      case 0: case 1: case 2: op = !done.empty() && c.flip() ? mutateOne(c, d, c.pick(done)) : hist::validSetup(c, d); break;
      case 3: op = hist::invalidSetup(c, d); break;
      case 4: op.t = Op::RESET; break;
      case 5: op.t = c.flip() ? Op::PZQ : Op::RESP; op.f = c.flip() ? 0.21 : c.real(0, 0.5); break;
      case 6: case 7: {
        int k = (int)c.draw(2);
        if (!others[k].f) { od[k] = c.flip() ? &d : &desc(c, all()); others[k] = Obj(*od[k]); }
        Op oo = c.chance(2, 3) ? hist::validSetup(c, *od[k]) : hist::filterOp(c, 5);
        c.note << "(" << od[k]->name << " " << hist::show(*od[k], oo) << "); ";
        hist::often(c, oo, 5000);
        hist::apply(*others[k], *od[k], oo);
        c.label("other object");
        continue;
      }
      default: op = hist::filterOp(c, 10, 70000);
    }
    hist::often(c, op, 5000);
    c.note << hist::show(d, op) << "; ";
    bool isSetup = op.t == Op::SETUP;
    hist::Snap before; if (!isSetup) before = hist::snap(*o, d);
    auto r = hist::apply(*o, d, op);
    if (isSetup && r.threw == 0) { ++setups; done.push_back(op); }
    if (!isSetup) { auto df = hist::diff(hist::snap(*o, d), before); CHECK(df.empty(), hist::show(d, op) << " changed the design: " << df); }
  }
  Op fin = !done.empty() && c.chance(2, 3) ? mutateOne(c, d, c.pick(done)) : hist::validSetup(c, d);
  if (c.chance(1, 1500)) {  // whatever counts the setups in few bits arrives where it was
    static const int ns[] = {255, 255, 127, 511, 255, 65535, 1023, 255};
    Op op = hist::validSetup(c, d);
    op.times = c.pick(ns);
    (void)hist::snap(*o, d, setups > 0);
    c.note << "queries; " << hist::show(d, op) << "; ";
    if (hist::apply(*o, d, op).threw == 0) ++setups;
    c.label("setups up to a power of two");
  }
  Obj fresh(d, c.pick(pats));
  c.note << "final " << hist::show(d, fin);
  int a = hist::trySetup(*o, d, fin), b = hist::trySetup(*fresh, d, fin);
  CHECK(a == b, "the final setup is " << (a ? "rejected" : "accepted") << ", on a fresh object " << (b ? "rejected" : "accepted"));
  if (a) { c.label("final setup rejected"); return; }
  fullCompare(c, *o, *fresh, d, "after this history");
  o->reset();
  auto x = signal(c, 30);
  std::vector<double> ya(x.size()), yb(x.size());
  o->run(x.data(), ya.data(), x.size());
  fresh->run(x.data(), yb.data(), x.size());
  auto e = hist::diffOut(ya, yb);
  CHECK(e.empty(), "after this history and reset() " << e << " (fresh object)");
  fullCompare(c, *o, *fresh, d, "after filtering");
  c.nontrivial(setups > 0);
}

// ---------------------------------------------------------------- C12
RULE("C12", "up to 5 objects of one type undergo copies, assignments (copy, move, self, swap), passing by value, setups, rejected setups, samples, resets and destruction (the memory is overwritten and freed). Every object is compared bit for bit with an object that was never copied and was given the calls in the object's own line of history; after an assignment the delay lines may be those of the source or cleared. Non-trivial: at least one copy or assignment happened and an object involved in it was used afterwards.");

namespace {
struct Live { Obj o; std::vector<std::vector<Op>> cand; bool copied = false; };
}
static void replay(Obj& t, const Desc& d, const std::vector<Op>& h) { for (auto& op : h) hist::apply(*t, d, op); }

PROPERTY("C12", copies_are_independent, 120000, 1500000) {
  const Desc& d = desc(c, all());
  std::vector<Live> live(1);
  live[0].o = Obj(d);
  live[0].cand = {{}};
  c.note << d.name << ": ";
  int n = 3 + (int)c.draw(18);
  bool used = false;
  auto RST = [] { Op r; r.t = Op::RESET; return r; };
  auto record = [&](Live& l, const Op& op, const hist::Result& r) {
    std::vector<std::vector<Op>> keep;
    std::string why;
    for (auto& h : l.cand) {
      if (op.t == Op::FILTER || op.t == Op::SETUP) {
        Obj t(d, 0x33);
        replay(t, d, h);
        auto w = hist::apply(*t, d, op);
        auto e = hist::diffOut(r.y, w.y);
        if (w.threw != r.threw) e = "the setup is accepted by only one of the two";
        if (!e.empty()) { why = e; continue; }
      }
      h.push_back(op);
      keep.push_back(h);
    }
    CHECK(!keep.empty(), "object " << &l - &live[0] << ": " << why << " (object never copied with the same calls)");
    l.cand = keep;
    if (l.copied) used = true;
  };
  auto checkDesign = [&](Live& l, const char* what) {
    Obj t(d, 0x44);
    replay(t, d, l.cand[0]);
    auto df = hist::diff(hist::snap(*l.o, d, false), hist::snap(*t, d, false));
    CHECK(df.empty(), what << ": object " << &l - &live[0] << " " << df << " (object never copied with the same calls)");
    // poles and zeros are only defined when the last setup was accepted
    bool lastOk = true; Obj t2(d, 0x44); for (auto& op : l.cand[0]) { auto r = hist::apply(*t2, d, op); if (op.t == Op::SETUP) lastOk = r.threw == 0; }
    if (lastOk) { df = hist::diff(hist::snap(*l.o, d), hist::snap(*t, d)); CHECK(df.empty(), what << ": object " << &l - &live[0] << " " << df); }
  };
  for (int i = 0; i < n; ++i) {
    int k = (int)c.draw(live.size());
    Live& l = live[k];
    int what = (int)c.draw(16);
    if (what <= 3) {
      Op op = what == 3 ? hist::invalidSetup(c, d) : hist::validSetup(c, d);
      c.note << k << "." << hist::show(d, op) << "; ";
      auto r = hist::apply(*l.o, d, op);
      record(l, op, r);
    } else if (what <= 7) {
      Op op = hist::filterOp(c, 8, 1100);
      c.note << k << "." << hist::show(d, op) << "; ";
      auto r = hist::apply(*l.o, d, op);
      record(l, op, r);
    } else if (what == 8) {
      c.note << k << ".reset(); ";
      l.o->reset();
      record(l, RST(), hist::Result());
    } else if (what <= 11 && live.size() < 5) {
      Live m;
      m.o.alloc(d, 0x77);
      int how = (int)c.draw(3);
      if (how == 0) m.o.f = l.o->copyTo(m.o.mem); else if (how == 1) m.o.f = l.o->byValue(m.o.mem); else m.o.f = l.o->moveTo(m.o.mem);
      c.note << live.size() << "=" << (how == 0 ? "copy of " : how == 1 ? "by value from " : "moved from ") << k << "; ";
      c.label(how == 0 ? "copy" : how == 1 ? "by value" : "move");
      m.cand = l.cand; m.copied = true; l.copied = true;
      if (how == 2) { l.o = Obj(d, 0x55); l.cand = {{}}; l.copied = false; c.note << k << "=fresh; "; }
      live.push_back(std::move(m));
      checkDesign(live.back(), "after copying");
      checkDesign(live[k], "after being copied");
    } else if (what <= 13) {
      int j = (int)c.draw(live.size());
      Live& s = live[j];
      int how = (int)c.draw(3);
      c.note << k << (how == 0 ? "=" : how == 1 ? "=move " : " swap ") << j << "; ";
      c.label(j == k ? "self assignment" : how == 2 ? "swap" : how == 1 ? "move assignment" : "assignment");
      auto withReset = [&](const std::vector<std::vector<Op>>& v) { auto r = v; for (auto& h : v) {
          bool used = false; // a reset() changes nothing when no sample came since the last one
          for (auto& op : h) if (op.t == Op::FILTER) used = true; else if (op.t == Op::RESET) used = false;
          if (used) { r.push_back(h); r.back().push_back(RST()); }
        } return r; };
      if (how == 0) {
        l.o->assign(*s.o);
        if (j != k) { l.cand = withReset(s.cand); l.copied = s.copied = true; } else l.cand = withReset(l.cand);
      } else if (how == 1) {
        if (j == k) continue;
        l.o->moveAssign(*s.o);
        l.cand = withReset(s.cand); l.copied = true;
        s.o = Obj(d, 0x66); s.cand = {{}}; s.copied = false; c.note << j << "=fresh; ";
      } else {
        if (j == k) continue;
        l.o->swapWith(*s.o);
        auto a = withReset(s.cand), b = withReset(l.cand);
        l.cand = a; s.cand = b; l.copied = s.copied = true;
      }
      // too many possibilities: reset() makes them the same again
      for (Live* q : {&l, &s}) if (q->cand.size() > 12) {
        q->o->reset();
        q->cand.resize(1);
        q->cand[0].push_back(RST());
        c.note << q - &live[0] << ".reset(); ";
      }
      checkDesign(live[k], "after assignment");
      checkDesign(live[j], "after being assigned from");
    } else if (what == 14 && live.size() > 1) {
      c.note << "destroy " << k << "; ";
      l.o.clear();
      std::swap(live[k], live.back());
      live.pop_back();
      c.label("destroyed");
    } else checkDesign(l, "later");
  }
  for (auto& l : live) {
    Op op; op.t = Op::FILTER; op.x = {1, -0.5, 0.25, 0, 0, 3, 0, 0, 0, 1};
    auto r = hist::apply(*l.o, d, op);
    record(l, op, r);
    checkDesign(l, "at the end");
  }
  c.nontrivial(used);
}

// ---------------------------------------------------------------- C13
RULE("C13", "hz_power_of_two: setups in Hz with a power-of-two sampling rate against the normalised setup, bit for bit; hz_any_rate: arbitrary rates, coefficients within the change that a 1e-13 relative change of the frequency makes; order_override: a lower (or the same) order requested at setup against an object instantiated with that order, bit for bit in coefficients, stage count, response, poles/zeros and output; defaults: omitted arguments and template parameters against their documented values. All after optional other setups. Non-trivial: every compared case; for order_override the requested order differs from the instantiated one.");

PROPERTY("C13", hz_power_of_two, 150000, 1000000) {
  Filt q;
  const Desc& d = desc(c, q);
  Lim l;
  Params p = params(c, d, l);
  double fs = std::ldexp(1.0, c.range(-10, 30));
  Obj a(d), b(d);
  c.note << show(d, p) << " fs=" << fmt(fs);
  if (c.chance(1, 3)) { Op pre = hist::validSetup(c, d); hist::apply(*a, d, pre); c.note << " after " << hist::show(d, pre); }
  double n[4], h[4]; p.args(d, n); p.argsHz(d, fs, h);
  bool ord = d.pole() && c.flip();
  if (!ord) p.order = d.order;
  if (ord) { a->setupHzo(p.order, fs, h); b->setupNo(p.order, n); } else { a->setupHz(fs, h); b->setupN(n); }
  auto df = hist::diff(hist::snap(*a, d), hist::snap(*b, d));
  CHECK(df.empty(), "setup in Hz against the normalised setup: " << df);
  a->reset(); b->reset();
  auto x = signal(c, 20);
  for (double v : x) { double ya = a->fd(v), yb = b->fd(v); CHECK(same(ya, yb), "output " << fmt(ya) << " instead of " << fmt(yb)); }
  c.nontrivial();
}

PROPERTY("C13", hz_any_rate, 100000, 800000) {
  Filt q;
  const Desc& d = desc(c, q);
  Params p = params(c, d);
  double fs = c.flip() ? c.logreal(1e-3, 1e7) : 44100;
  c.note << show(d, p) << " fs=" << fmt(fs);
  double n[4], h[4], up[4], dn[4];
  p.args(d, n); p.argsHz(d, fs, h);
  for (int i = 0; i < 4; ++i) { bool fr = i == 0 || (d.band && i == 1); up[i] = n[i] * (fr ? 1 + 1e-13 : 1); dn[i] = n[i] * (fr ? 1 - 1e-13 : 1); }
  Obj a(d), b(d), u(d), l(d);
  bool ord = d.pole() && c.flip();
  if (ord) a->setupHzo(p.order, fs, h); else a->setupHz(fs, h);
  int o = ord ? p.order : d.order;
  if (d.pole()) { b->setupNo(o, n); u->setupNo(o, up); l->setupNo(o, dn); } else { b->setupN(n); u->setupN(up); l->setupN(dn); }
  CHECK(a->numStages() == b->numStages(), "different number of sections");
  for (int i = 0; i < a->numStages(); ++i) {
    double ka[6], kb[6], ku[6], kl[6];
    a->stage(i, ka); b->stage(i, kb); u->stage(i, ku); l->stage(i, kl);
    double size = 0; for (double v : kb) size = std::max(size, std::fabs(v));
    double tol = 1e-11 * size; for (int k = 0; k < 6; ++k) tol += 32 * (std::fabs(ku[k] - kb[k]) + std::fabs(kl[k] - kb[k]));
    for (int k = 0; k < 6; ++k) {
      CHECK(std::fabs(ka[k] - kb[k]) <= tol, "coefficient " << k << " of section " << i << " is " << fmt(ka[k]) << ", normalised setup gives " << fmt(kb[k]));
      c.metric("difference / tolerance", std::fabs(ka[k] - kb[k]) / tol);
    }
    c.metric("tolerance / size", tol / size);
  }
  c.nontrivial();
}

PROPERTY("C13", order_override, 200000, 1500000) {
  Filt q; q.rbj = false;
  const Desc& d = desc(c, q);
  // an instantiation with the requested order
  std::vector<const Desc*> cand;
  for (auto& e : registry()) if (e.fam == d.fam && e.kind == d.kind && e.st == d.st && e.order <= d.order) cand.push_back(&e);
  const Desc& s = *cand[c.draw(cand.size())];
  Params p = params(c, s);
  p.order = s.order;
  double n[4]; p.args(d, n);
  double fs = 1;
  bool hz = c.flip();
  if (hz) { fs = c.flip() ? 48000 : c.logreal(0.1, 1e5); p.argsHz(d, fs, n); }
  Obj a(d), b(s);
  c.note << d.name << " with order " << s.order << " " << show(s, p) << (hz ? " Hz form" : "");
  if (c.flip()) {
    int k = 1 + (int)c.draw(3);
    while (k--) { Op pre = c.chance(1, 5) ? hist::invalidSetup(c, d) : hist::validSetup(c, d); hist::apply(*a, d, pre); c.note << " after " << hist::show(d, pre); }
  }
  if (hz) { a->setupHzo(s.order, fs, n); b->setupHz(fs, n); } else { a->setupNo(s.order, n); b->setupN(n); }
  CHECK(a->numStages() == b->numStages(), "stage count " << a->numStages() << " instead of " << b->numStages());
  double ka[6], kb[6];
  for (int i = 0; i < a->numStages(); ++i) {
    a->stage(i, ka); b->stage(i, kb);
    for (int k = 0; k < 6; ++k) CHECK(same(ka[k], kb[k]), "coefficient " << k << " of section " << i << ": " << fmt(ka[k]) << " instead of " << fmt(kb[k]));
  }
  for (double f : {0.0, 0.5, c.real(0, 0.5)}) { auto x = a->response(f), y = b->response(f); CHECK(same(x.real(), y.real()) && same(x.imag(), y.imag()), "response at " << fmt(f) << " differs"); }
  auto za = a->poleZeros(), zb = b->poleZeros();
  CHECK(za.size() == zb.size(), "different number of pole/zero pairs");
  for (size_t i = 0; i < za.size(); ++i) CHECK(za[i].p1 == zb[i].p1 && za[i].p2 == zb[i].p2 && (za[i].z1 == zb[i].z1 || (std::isinf(za[i].z1.real()) && std::isinf(zb[i].z1.real()))) && za[i].single == zb[i].single, "pole/zero pair " << i << " differs");
  a->reset();
  auto x = signal(c, 40);
  for (double v : x) { double ya = a->fd(v), yb = b->fd(v); CHECK(same(ya, yb), "output " << fmt(ya) << " instead of " << fmt(yb)); }
  c.nontrivial(d.order != s.order);
}

// documented defaults
template <class A, class B, class S> static void pairCheck(Case& c, S set, const char* what) {
  A a; B b;
  set(a); set(b);
  CHECK(a.getNumStages() == b.getNumStages(), what << ": different number of sections");
  for (int i = 0; i < a.getNumStages(); ++i) {
    double ka[6], kb[6]; biquadCoefs(a[i], ka); biquadCoefs(b[i], kb);
    for (int k = 0; k < 6; ++k) CHECK(same(ka[k], kb[k]), what << ": coefficients differ");
  }
  for (int i = 0; i < 30; ++i) {
    double v = c.real(-1, 1), ya = a.filter(v), yb = b.filter(v);
    CHECK(same(ya, yb), what << ": output " << fmt(ya) << " instead of " << fmt(yb));
  }
}
PROPERTY("C13", template_defaults, 30000, 100000) {
  using namespace Iir;
  double f = freq(c, 0.02, 0.47), w = std::min(f, 0.5 - f) * c.real(0.1, 0.9), g = gainDb(c, 24), r = std::fabs(g) * 0.4 + 0.01, rp = c.logreal(0.05, 5), st = c.logreal(5, 80);
  c.note << "f=" << fmt(f) << " w=" << fmt(w) << " g=" << fmt(g);
  int k = (int)c.draw(21);
#define PAIR(n, NS, T, call) case n: pairCheck<NS::T<>, NS::T<4, DirectFormII>>(c, [&](auto& x) { x.call; }, #NS "::" #T "<>"); break;
  switch (k) {
    PAIR(0, Butterworth, LowPass, setupN(f)) PAIR(1, Butterworth, HighPass, setupN(f)) PAIR(2, Butterworth, BandPass, setupN(f, w)) PAIR(3, Butterworth, BandStop, setupN(f, w))
    PAIR(4, Butterworth, LowShelf, setupN(f, g)) PAIR(5, Butterworth, HighShelf, setupN(f, g)) PAIR(6, Butterworth, BandShelf, setupN(f, w, g))
    PAIR(7, ChebyshevI, LowPass, setupN(f, rp)) PAIR(8, ChebyshevI, HighPass, setupN(f, rp)) PAIR(9, ChebyshevI, BandPass, setupN(f, w, rp)) PAIR(10, ChebyshevI, BandStop, setupN(f, w, rp))
    PAIR(11, ChebyshevI, LowShelf, setupN(f, g, r)) PAIR(12, ChebyshevI, HighShelf, setupN(f, g, r)) PAIR(13, ChebyshevI, BandShelf, setupN(f, w, g, r))
    PAIR(14, ChebyshevII, LowPass, setupN(f, st)) PAIR(15, ChebyshevII, HighPass, setupN(f, st)) PAIR(16, ChebyshevII, BandPass, setupN(f, w, st)) PAIR(17, ChebyshevII, BandStop, setupN(f, w, st))
    PAIR(18, ChebyshevII, LowShelf, setupN(f, g, r)) PAIR(19, ChebyshevII, HighShelf, setupN(f, g, r)) PAIR(20, ChebyshevII, BandShelf, setupN(f, w, g, r))
  }
  c.nontrivial();
}
PROPERTY("C13", argument_defaults, 100000, 400000) {
  Filt q; q.pole = false;
  const Desc& d = desc(c, q);
  double f = freq(c), fs = c.flip() ? 48000 : std::ldexp(1.0, c.range(-5, 20)), g = gainDb(c, 24);
  bool hz = c.flip();
  double a[4] = {hz ? f * fs : f, 0, 0, 0};
  double def = d.kind == R_NOTCH ? 10 : (d.kind == R_LSH || d.kind == R_HSH) ? 1 : 1 / std::sqrt(2.0);
  if (d.gain) { a[1] = g; a[2] = def; } else a[1] = def;
  Obj x(d), y(d);
  if (c.flip()) { Op pre = hist::validSetup(c, d); hist::apply(*x, d, pre); }
  c.note << d.name << " f=" << fmt(f) << " fs=" << fmt(fs) << " g=" << fmt(g);
  bool has = hz ? x->setupDefHz(fs, a) : x->setupDefN(a);
  if (!has) { c.label("no default argument"); return; }
  if (hz) y->setupHz(fs, a); else y->setupN(a);
  // 1/sqrt(2) may be written in different ways
  double k1[6], k2[6]; x->stage(0, k1); y->stage(0, k2);
  for (int i = 0; i < 6; ++i) CHECK(std::fabs(k1[i] - k2[i]) <= 1e-14 * (std::fabs(k2[i]) + 1), "omitting the last argument gives coefficient " << fmt(k1[i]) << " instead of " << fmt(k2[i]));
  c.nontrivial();
}
