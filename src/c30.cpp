// C30: running out of memory, and what calls keep of it.  The allocator entry
// points are replaced by ones which count and, when asked to, fail.
#include "hist.h"
#include "wrap.h"
#include <cerrno>
#include <new>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using hist::Op;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace heap {
static __thread bool active = false;
static __thread unsigned calls = 0, failed = 0;
static __thread long net = 0;                  // blocks taken and not returned
static __thread unsigned failAt = 0; static __thread bool failAfter = false;  // 0: never
static inline bool deny() {
  if (!active) return false;
  ++calls;
  if (failAt && (calls == failAt || (failAfter && calls > failAt))) { ++failed; errno = ENOMEM; return true; }
  return false;
}
static inline void* took(void* p) { if (active && p) ++net; return p; }
static inline void gave(void* p) { if (active && p) --net; }
struct Watch {
  Watch(unsigned at, bool after) { calls = failed = 0; net = 0; failAt = at; failAfter = after; active = true; }
  ~Watch() { active = false; }
};
}
extern "C" {
void* malloc(size_t n) { return heap::deny() ? nullptr : heap::took(__libc_malloc(n)); }
void free(void* p) { heap::gave(p); __libc_free(p); }
void* calloc(size_t n, size_t m) { return heap::deny() ? nullptr : heap::took(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) {
  if (heap::deny()) return nullptr;
  if (!p) return heap::took(__libc_realloc(p, n));
  if (!n) heap::gave(p);
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) { return heap::deny() ? nullptr : heap::took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return heap::deny() ? nullptr : heap::took(__libc_memalign(a, n)); }
int posix_memalign(void** r, size_t a, size_t n) { if (heap::deny()) return ENOMEM; void* p = heap::took(__libc_memalign(a, n)); if (!p) return ENOMEM; *r = p; return 0; }
}

RULE("C30", "malloc, calloc, realloc, aligned_alloc, posix_memalign and memalign are replaced by versions that count the blocks taken and not returned and, for a random part of the calls, fail: at the k-th allocation (k = 1..4) only, or from it on. Random histories of up to 15 calls (valid setups, setups to be rejected, filtering, reset, response, pole/zero queries of the filter, its cascade and single sections, copies and assignments) on one object; a twin makes those that return normally with memory available. A call with failing allocations either does what it does on the twin or throws std::bad_alloc or, if it has to be rejected, std::invalid_argument; valid setups, filtering, reset, response and copying have to succeed. After each call the design and afterwards the output are compared bit for bit with the twin, and no block taken during the call may be left. Non-trivial: at least one allocation failed, or one call that allocates was counted, and samples were filtered afterwards.");

enum Out { DONE, INVALID, NOMEM, OTHER };
template <class F> static Out guarded(F f) {
  try { f(); return DONE; }
  catch (const std::invalid_argument&) { return INVALID; }
  catch (const std::bad_alloc&) { return NOMEM; }
  catch (...) { return OTHER; }
}
static const char* outName(Out o) { static const char* n[] = {"returns", "throws std::invalid_argument", "throws std::bad_alloc", "throws something else"}; return n[o]; }

// values of which some are only found out late in the design
static Op arbitrary(Case& c, const Desc& d) {
  Op o = hist::validSetup(c, d);
  if (o.form == Op::DEFN || o.form == Op::DEFHZ || d.fam == SOS) return hist::invalidSetup(c, d);
  static const double s[] = {0.0, 1e300, -1e300, 1e-300, 1e17, 1e-12, 1e5};
  for (int i = 1 + (int)c.draw(2); i > 0; --i) o.a[c.draw(d.np)] = c.pick(s);
  return o;
}
static uint64_t digest(const std::vector<PZ>& v) {
  uint64_t h = v.size();
  auto put = [&](double x) { uint64_t b; if (x == 0) x = 0; memcpy(&b, &x, 8); h = (h ^ b) * 1099511628211ull + (h >> 29); };
  for (auto& e : v) for (auto& z : {e.p1, e.p2, e.z1, e.z2}) { put(z.real()); put(z.imag()); }
  return h;
}

PROPERTY("C30", out_of_memory, 150000, 2500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj a(d), b(d, 0x11);
  c.note << d.name << ": ";
  bool pz = true, warmed = false;
  if (!warmed) {  // whatever the C++ runtime sets up once
    guarded([] { throw std::invalid_argument("x"); });
    guarded([&] { throw std::bad_alloc(); });
  }
  int n = 1 + (int)c.draw(15); bool touched = false, used = false;
  for (int i = 0; i < n; ++i) {
    unsigned failAt = c.chance(2, 3) ? 1 + (unsigned)c.draw(4) : 0;
    bool after = c.flip();
    Op op;
    int k = (int)c.draw(11), what = -1;
    if (k <= 1) op = hist::validSetup(c, d);
    else if (k <= 4) op = c.flip() ? hist::invalidSetup(c, d) : arbitrary(c, d);
    else if (k == 5) op = hist::filterOp(c, 20, 70000);
    else if (k == 6) op.t = Op::RESET;
    else if (k == 7) { op.t = Op::RESP; op.f = c.real(-0.1, 0.6); }
    else if (k <= 9) { op.t = Op::PZQ; what = (int)c.draw(3); }
    else what = 10 + (int)c.draw(3);
    if (k == 10) c.note << (what == 10 ? "copied" : what == 11 ? "copied by value" : "assigned to itself");
    else c.note << hist::show(d, op) << (what == 1 ? " of a section" : what == 2 ? " of the cascade" : "");
    if (failAt) c.note << " (allocation " << failAt << (after ? " and all later ones fail" : " fails") << ")";
    c.note << "; ";
    int sec = what == 1 ? (int)c.draw(std::max(1, a->numStages())) : 0;
    if (what == 1 && sec >= a->numStages()) what = 0;
    std::vector<double> ya(op.x.size()), yb(op.x.size());
    uint64_t pa = 0, pb = 0;
    void* mem = nullptr;
    if (k == 10) mem = malloc(d.size + 64);
    auto doit = [&](IFilter& f, std::vector<double>& y, uint64_t& h) {
      switch (op.t) {
        case Op::SETUP: if (k == 10) {
            if (what == 12) { f.assign(f); break; }
            IFilter* g = what == 10 ? f.copyTo(mem) : f.byValue(mem);
            g->~IFilter();
            break;
          }
          hist::callSetup(f, d, op); break;
        case Op::FILTER: if (!op.x.empty()) f.run(op.x.data(), y.data(), op.x.size()); break;
        case Op::RESET: f.reset(); break;
        case Op::RESP: (void)f.response(op.f); break;
        default: { std::vector<PZ> v = what == 1 ? f.sectionPoleZeros(sec) : what == 2 ? f.cascadePoleZeros() : f.poleZeros(); h = digest(v); }
      }
    };
    Out oa, ob;
    unsigned failed, calls; long net;
    { heap::Watch w(failAt, after); oa = guarded([&] { doit(*a, ya, pa); }); failed = heap::failed; calls = heap::calls; net = heap::net; }
    ob = guarded([&] { doit(*b, yb, pb); });
    if (mem) free(mem);
    if (calls) touched = true;
    if (failed) c.label("an allocation failed");
    CHECK(net == 0, "the call " << outName(oa) << " and " << (net > 0 ? "keeps " : "returns too many, ") << std::labs(net) << " block(s) of memory");
    if (failed) {
      CHECK(oa == ob || oa == NOMEM, "with failing allocations the call " << outName(oa) << " where it otherwise " << outName(ob));
      if (ob == DONE && op.t != Op::PZQ) CHECK(oa == DONE, "for want of memory the call " << outName(oa));
      if (oa == DONE) c.label("done without memory");
      if (oa == NOMEM) c.label("std::bad_alloc");
    } else CHECK(oa == ob, "the call " << outName(oa) << ", on a twin it " << outName(ob));
    if (oa == DONE && ob == DONE && (pz || what > 0)) CHECK(pa == pb, "the poles and zeros differ from those of a twin which had memory");
    if (ob == INVALID && op.t == Op::SETUP) pz = false;  // see the known finding of C16
    if (oa == DONE && op.t == Op::SETUP && k != 10) pz = true;
    if (op.t == Op::FILTER) {
      auto e = hist::diffOut(ya, yb);
      CHECK(e.empty(), e << " (twin which had memory)");
      if (touched && !ya.empty()) used = true;
    }
    if (oa != DONE || failed) {
      auto df = hist::diff(hist::snap(*a, d, pz), hist::snap(*b, d, pz));
      CHECK(df.empty(), "after a call that " << outName(oa) << ": " << df << " (twin which had memory)");
    }
  }
  // what is reported after a failed query is what would have been reported
  auto df = hist::diff(hist::snap(*a, d, pz), hist::snap(*b, d, pz));
  CHECK(df.empty(), "at the end: " << df << " (twin which had memory)");
  Op probe = hist::filterOp(c, 40, 70000);
  auto ra = hist::apply(*a, d, probe), rb = hist::apply(*b, d, probe);
  auto e = hist::diffOut(ra.y, rb.y);
  CHECK(e.empty(), "at the end " << e << " (twin which had memory)");
  c.nontrivial(touched && (used || !ra.y.empty()));
}

// single sections
PROPERTY("C30", sections, 60000, 800000) {
  Iir::Biquad s, t;
  int n = 1 + (int)c.draw(10); bool touched = false;
  double ka[6], kb[6];
  for (int i = 0; i < n; ++i) {
    unsigned failAt = c.chance(2, 3) ? 1 + (unsigned)c.draw(3) : 0;
    int op = (int)c.draw(6);
    double v[6];
    for (double& x : v) x = c.chance(1, 8) ? NAN : c.chance(1, 6) ? 0 : c.real(-2, 2);
    std::complex<double> p(v[0], c.flip() ? v[1] : 0), z(v[2], c.flip() ? v[3] : 0), p2 = c.chance(1, 4) ? std::complex<double>(v[4], v[5]) : std::conj(p), z2 = std::conj(z);
    c.note << op << " ";
    for (double x : v) c.note << fmt(x) << " ";
    c.note << (failAt ? "(no memory); " : "; ");
    double ra[9], rb[9];
    auto doit = [&](Iir::Biquad& b, double* o) {
      for (int j = 0; j < 9; ++j) o[j] = 0;
      auto put = [&](const Iir::PoleZeroPair& e) { int j = 1; for (auto& x : {e.poles.first, e.poles.second, e.zeros.first, e.zeros.second}) { o[j++] = x.real(); o[j++] = x.imag(); } };
      switch (op) {
        case 0: b.setCoefficients(v[0], v[1], v[2], v[3], v[4], v[5]); break;
        case 1: b.setOnePole(p, z); break;
        case 2: b.setTwoPole(p, z, p2, z2); break;
        case 3: b.applyScale(v[0]); break;
        case 4: { auto r = b.getPoleZeros(); o[0] = (double)r.size(); if (!r.empty()) put(r[0]); break; }
        default: { Iir::BiquadPoleState r(b); b.setPoleZeroForm(r); }
      }
    };
    Out oa, ob; long net; unsigned failed, calls;
    { heap::Watch w(failAt, true); oa = guarded([&] { doit(s, ra); }); failed = heap::failed; calls = heap::calls; net = heap::net; }
    ob = guarded([&] { doit(t, rb); });
    if (calls) touched = true;
    CHECK(net == 0, "the call " << outName(oa) << " and keeps " << net << " block(s) of memory");
    CHECK(oa == ob || (failed && oa == NOMEM), "the call " << outName(oa) << " where it otherwise " << outName(ob));
    if (ob == DONE && op < 4) CHECK(oa == DONE, "for want of memory the call " << outName(oa));
    if (oa == NOMEM && op == 5 && ob == DONE) t = s;
    if (oa == DONE && ob == DONE) for (int j = 0; j < 9; ++j) CHECK(same(ra[j], rb[j]), "the poles and zeros differ from those reported with memory");
    biquadCoefs(s, ka); biquadCoefs(t, kb);
    for (int j = 0; j < 6; ++j) CHECK(same(ka[j], kb[j]), "coefficient " << j << " is " << fmt(ka[j]) << ", with memory " << fmt(kb[j]));
  }
  c.nontrivial(touched);
}
