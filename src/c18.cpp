// C18: nothing a caller can do with the public interface is undefined behaviour.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer (and, for the
// uninitialised-memory part, run in differently filled memory).
#include "hist.h"
#include "wrap.h"
#include <climits>
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C18", "random histories of up to 25 operations on up to 4 objects of random types: construction in filled memory, copy/move construction, pass by value, copy/move/self assignment, swap, destruction (memory freed), setups in every overload with valid, documented-invalid and arbitrary arguments (any bit pattern of a double, any int as order), filtering with arbitrary doubles (NaN, infinities, subnormals) in double, float and long double, reset, response at any frequency, pole/zero and coefficient queries, section access at any index. Every call has to finish or throw std::invalid_argument without a report of AddressSanitizer, UndefinedBehaviorSanitizer or the libstdc++ assertions, and every value returned has to be bit-identical when the same history runs in memory (heap and stack) filled with another pattern. sections: the same for Biquad, OnePole, TwoPole and BiquadPoleState. Non-trivial: at least one object survived a copy, assignment, rejected call or destruction of another one and was used afterwards.");

static double anyDouble(Case& c) {
  switch (c.draw(6)) {
    case 0: { static const double s[] = {0.0, -0.0, 0.5, 1.0, -1.0, 0.25, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 0.49999999999999994, 1e-9, 1e9}; return c.pick(s); }
    case 1: { uint64_t b = c.draw(1ull << 32) << 32 | c.draw(1ull << 32); double d; memcpy(&d, &b, 8); return d; }
    case 2: return c.real(-1, 1);
    case 3: return (c.flip() ? 1 : -1) * c.logreal(1e-300, 1e300);
    case 4: return c.real(0, 0.5);
    default: return c.range(-100, 100);
  }
}
static int anyInt(Case& c) {
  switch (c.draw(4)) {
    case 0: return c.range(-2, 12);
    case 1: { static const int s[] = {INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, -1, 1 << 16, 1 << 30, -(1 << 30)}; return c.pick(s); }
    case 2: return (int)(uint32_t)c.draw(1ull << 32);
    default: return c.range(0, 40);
  }
}
__attribute__((noinline)) static void dirtyStack(int pattern) {
  volatile char b[8192];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)pattern;
}
static Op anySetup(Case& c, const Desc& d) {
  int k = (int)c.draw(4);
  if (k == 0) return hist::validSetup(c, d);
  if (k == 1) return hist::invalidSetup(c, d);
  Op o = hist::validSetup(c, d);
  if (d.fam == SOS) { for (auto& v : o.sos) if (c.chance(1, 3)) v = anyDouble(c); return o; }
  if (k == 2 || o.form == Op::DEFN || o.form == Op::DEFHZ) { o.a[c.draw(d.np)] = anyDouble(c); if (c.chance(1, 4)) o.fs = anyDouble(c); if (c.chance(1, 4)) o.order = anyInt(c); }
  else { for (double& v : o.a) v = anyDouble(c); o.fs = anyDouble(c); o.order = anyInt(c); o.form = (Op::Form)c.draw(4); }
  return o;
}

// outcome of one call, for the comparison between the two memories
struct Log {
  std::vector<double> v;
  void put(double x) { v.push_back(x); }
};
template <class F> static void guarded(Case& c, Log& l, const char* what, F f) {
  try { f(); l.put(0); }
  catch (const std::invalid_argument&) { l.put(1); }
  catch (const std::exception& e) { c.fail(std::string(what) + " throws something else: " + e.what()); }
}

struct Step { int t = 0, a = 0, b = 0; const Desc* d = nullptr; Op op; std::vector<double> x; double f = 0; int idx = 0; int how = 0; };

static void execute(Case& c, const std::vector<Step>& steps, int pattern, Log& l) {
  Obj o[4];
  for (auto& s : steps) {
    dirtyStack(pattern);
    Obj& a = o[s.a];
    switch (s.t) {
      case 0: a = Obj(*s.d, pattern); break;
      case 1: {
        Obj n; n.alloc(*s.d, pattern);
        if (s.how == 0) n.f = o[s.b]->copyTo(n.mem); else if (s.how == 1) n.f = o[s.b]->byValue(n.mem); else n.f = o[s.b]->moveTo(n.mem);
        a = std::move(n);
        break;
      }
      case 2:
        if (s.how == 0) a->assign(*o[s.b]); else if (s.how == 1) a->moveAssign(*o[s.b]); else a->swapWith(*o[s.b]);
        break;
      case 3: a.clear(); break;
      case 4: guarded(c, l, "setup", [&] { hist::callSetup(*a, *s.d, s.op); }); break;
      case 5:
        for (double v : s.x) {
          switch (s.how) {
            case 0: l.put(a->fd(v)); break;
            case 1: l.put(std::fabs(v) < 1e37 ? a->ff((float)v) : a->fd(v)); break;
            default: l.put((double)a->fl(v)); break;
          }
        }
        break;
      case 6: a->reset(); break;
      case 7: guarded(c, l, "response", [&] { auto h = a->response(s.f); l.put(h.real()); l.put(h.imag()); }); break;
      case 8:
        guarded(c, l, "getPoleZeros", [&] {
          auto v = s.how == 0 ? a->poleZeros() : a->cascadePoleZeros();
          for (auto& e : v) { l.put(e.p1.real()); l.put(e.p1.imag()); l.put(e.p2.real()); l.put(e.p2.imag()); l.put(e.z1.real()); l.put(e.z1.imag()); l.put(e.z2.real()); l.put(e.z2.imag()); l.put(e.single); }
        });
        break;
      case 9: guarded(c, l, "operator[]", [&] { double k[6]; int i = s.d->pole() ? s.idx : 0; a->stage(i, k); for (double v : k) l.put(v); }); break;
      case 10: guarded(c, l, "getCascadeStorage", [&] { double k[6]; for (int i = 0; i < a->numStorage(); ++i) { a->storage(i, k); for (double v : k) l.put(v); } l.put(a->numStages()); }); break;
    }
  }
}

PROPERTY("C18", histories, 50000, 1500000) {
  Filt q; q.sos = true;
  const Desc* live[4] = {nullptr, nullptr, nullptr, nullptr};
  bool moved[4] = {false, false, false, false};
  std::vector<Step> st;
  int n = 3 + (int)c.draw(23);
  bool shared = false, used = false;
  std::ostringstream& o = c.note;
  for (int i = 0; i < n; ++i) {
    Step s;
    s.a = (int)c.draw(4);
    if (!live[s.a]) {
      s.b = (int)c.draw(4);
      if (live[s.b] && !moved[s.b] && c.chance(2, 3)) {
        s.t = 1; s.d = live[s.b]; s.how = (int)c.draw(3); shared = true;
        o << s.a << (s.how == 0 ? "=copy of " : s.how == 1 ? "=by value from " : "=moved from ") << s.b << "; ";
        if (s.how == 2) moved[s.b] = true;
      } else {
        s.t = 0;
        const Desc* like = nullptr;
        if (c.flip()) for (auto* e : live) if (e) like = e;
        s.d = like ? like : &desc(c, q);
        o << s.a << "=" << s.d->name << "; ";
      }
      live[s.a] = s.d; moved[s.a] = false;
      st.push_back(s);
      continue;
    }
    s.d = live[s.a];
    int k = moved[s.a] ? (int)c.draw(2) : (int)c.draw(16);
    if (k == 0) {
      s.t = 3; live[s.a] = nullptr; o << "destroy " << s.a << "; "; c.label("destroyed");
    } else if (k == 1 || k == 2) {
      s.b = (int)c.draw(4);
      if (live[s.b] != s.d || moved[s.b]) { s.b = s.a; if (moved[s.a]) continue; }
      s.t = 2; s.how = (int)c.draw(3);
      if (moved[s.a]) s.how = 0;
      if (s.how == 2 && s.a == s.b) s.how = 0;
      if (s.how == 1) { if (s.a == s.b) s.how = 0; else moved[s.b] = true; }
      moved[s.a] = false; shared = true;
      o << s.a << (s.how == 0 ? "=" : s.how == 1 ? "=move " : " swap ") << s.b << "; ";
      c.label(s.a == s.b ? "self assignment" : "assignment");
    } else if (k <= 7) {
      s.t = 4; s.op = anySetup(c, *s.d);
      o << s.a << "." << hist::show(*s.d, s.op) << "; ";
    } else if (k <= 9) {
      s.t = 5; s.how = (int)c.draw(3);
      int m = 1 + (int)c.draw(12);
      if (c.chance(1, 2000)) { s.x = longSignal(c, hist::howLong(c, 70000)); c.label("very long signal"); m = 2; }
      for (int j = 0; j < m; ++j) s.x.push_back(c.chance(1, 6) ? anyDouble(c) : sample(c, 1));
      o << s.a << ".filter x" << m << "; ";
    } else if (k == 10) { s.t = 6; o << s.a << ".reset; "; }
    else if (k == 11) { s.t = 7; s.f = anyDouble(c); o << s.a << ".response(" << fmt(s.f) << "); "; }
    else if (k == 12) { s.t = 8; s.how = (int)c.draw(2); o << s.a << ".getPoleZeros; "; }
    else if (k == 13) { s.t = 9; s.idx = anyInt(c); o << s.a << "[" << s.idx << "]; "; }
    else { s.t = 10; o << s.a << ".coefficients; "; }
    if (shared && s.t >= 4) used = true;
    st.push_back(s);
  }
  for (int a = 0; a < 4; ++a) if (live[a] && !moved[a]) {
    Step s; s.a = a; s.d = live[a];
    s.t = 5; s.x = {1, 0, -0.5}; st.push_back(s);
    s.t = 10; st.push_back(s);
    s.t = 7; s.f = 0.1; st.push_back(s);
  }
  Log l1, l2;
  execute(c, st, 0xA5, l1);
  execute(c, st, 0x00, l2);
  CHECK(l1.v.size() == l2.v.size(), "the outcome depends on what was in the memory before");
  size_t rejected = 0;
  for (size_t i = 0; i < l1.v.size(); ++i) {
    CHECK(same(l1.v[i], l2.v[i]), "returned value " << i << " depends on what was in the memory before: " << fmt(l1.v[i]) << " or " << fmt(l2.v[i]));
    if (l1.v[i] == 1) ++rejected;
  }
  (void)rejected;
  c.nontrivial(used);
}

typedef std::complex<double> cd;
PROPERTY("C18", sections, 40000, 1000000) {
  int n = 1 + (int)c.draw(8);
  struct One { int t; double v[6]; cd p[4]; double f; };
  std::vector<One> ops;
  for (int i = 0; i < n; ++i) {
    One s; s.t = (int)c.draw(9); s.f = anyDouble(c);
    for (double& v : s.v) v = anyDouble(c);
    for (cd& p : s.p) p = c.flip() ? cd(c.real(-1, 1), 0) : cd(anyDouble(c), c.flip() ? 0 : anyDouble(c));
    if (c.flip()) { s.p[2] = std::conj(s.p[0]); s.p[3] = std::conj(s.p[1]); }
    ops.push_back(s);
    c.note << s.t << "; ";
  }
  Log l[2];
  for (int w = 0; w < 2; ++w) {
    int pat = w ? 0 : 0xA5;
    void* m[3]; size_t sz[3] = {sizeof(Iir::Biquad), sizeof(Iir::Custom::OnePole), sizeof(Iir::Custom::TwoPole)};
    for (int i = 0; i < 3; ++i) { m[i] = malloc(sz[i]); memset(m[i], pat, sz[i]); }
    dirtyStack(pat);
    Iir::Biquad* b = new (m[0]) Iir::Biquad; Iir::Custom::OnePole* one = new (m[1]) Iir::Custom::OnePole; Iir::Custom::TwoPole* two = new (m[2]) Iir::Custom::TwoPole;
    for (auto& s : ops) {
      dirtyStack(pat);
      guarded(c, l[w], "a section call", [&] {
        switch (s.t) {
          case 0: b->setCoefficients(s.v[0], s.v[1], s.v[2], s.v[3], s.v[4], s.v[5]); break;
          case 1: b->setOnePole(s.p[0], s.p[1]); break;
          case 2: b->setTwoPole(s.p[0], s.p[1], s.p[2], s.p[3]); break;
          case 3: b->setPoleZeroPair(Iir::PoleZeroPair(s.p[0], s.p[1], s.p[2], s.p[3])); break;
          case 4: { Iir::BiquadPoleState q(*b); b->setPoleZeroForm(q); break; }
          case 5: b->applyScale(s.v[0]); break;
          case 6: one->setup(s.v[0], s.v[1], s.v[2]); break;
          case 7: two->setup(s.v[0], s.v[1], s.v[2], s.v[3], s.v[4]); break;
          default: { auto v = b->getPoleZeros(); l[w].put((double)v.size()); l[w].put(v[0].poles.first.real()); l[w].put(v[0].zeros.second.imag()); l[w].put(v[0].isSinglePole()); }
        }
      });
      for (const Iir::Biquad* q : {(const Iir::Biquad*)b, (const Iir::Biquad*)one, (const Iir::Biquad*)two}) {
        double k[6]; biquadCoefs(*q, k); for (double v : k) l[w].put(v);
        auto h = q->response(s.f); l[w].put(h.real()); l[w].put(h.imag());
      }
      Iir::DirectFormI f1; Iir::DirectFormII f2; Iir::TransposedDirectFormII f3;
      for (double x : s.v) { l[w].put(b->filter(x, f1)); l[w].put(b->filter(x, f2)); l[w].put(one->filter(x, f3)); l[w].put(two->filter(x, f1)); }
    }
    for (int i = 0; i < 3; ++i) free(m[i]);
  }
  for (size_t i = 0; i < l[0].v.size(); ++i) CHECK(same(l[0].v[i], l[1].v[i]), "returned value " << i << " depends on what was in the memory before");
  c.nontrivial();
}
