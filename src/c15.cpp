// C15: every sample type is processed in double precision.
#include "hist.h"
#include <limits>
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C15", "one object is fed samples of randomly changing types (double, float, long double, int, short, long long, unsigned, signed char, unsigned char, unsigned short, unsigned long long; full ranges of the types, 64-bit ones beyond 2^53 included, float and double samples from 2^-120 to 2^120), a twin of the same type and design gets the same values as doubles. Each returned sample has to be the twin's double output converted once to the sample type, bit for bit; a sequence ends before a value that the integer type cannot hold. All filter types, with re-tuning and resets in between; one sequence in 1500 up to 70000 samples long. Non-trivial: at least one conversion of a result was inexact (fraction cut off or rounded) and further samples followed it.");

template <class T> static bool fits(double y) {
  if (!(y == y)) return false;
  long double lo = (long double)std::numeric_limits<T>::min() - 1, hi = (long double)std::numeric_limits<T>::max() + 1;
  return (long double)y > lo && (long double)y < hi;
}
template <class T> static T intIn(Case& c, int mag) {
  switch (mag) {
    case 0: { int lo = std::numeric_limits<T>::is_signed ? -4 : 0; return (T)c.range(lo, 4); }
    case 1: { int lo = std::numeric_limits<T>::is_signed ? -100 : 0; return (T)c.range(lo, 100); }
    default: {
      if (sizeof(T) == 8 && c.chance(1, 2)) return (T)(std::numeric_limits<T>::min() / 2 + (T)(c.draw(1u << 20) * 0x9E3779B97F4A7C15ull >> 1));
      return (T)(c.draw(1u << 20) * 0x9E3779B97F4A7C15ull >> 11);
    }
  }
}

PROPERTY("C15", one_conversion_at_the_end, 400000, 4000000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj a(d), b(d, 0x11);
  c.note << d.name << ": ";
  static const char* tn[] = {"double", "float", "long double", "int", "short", "long long", "unsigned", "signed char", "unsigned char", "unsigned short", "unsigned long long"};
  int mode = (int)c.draw(13);  // one type or a mixture
  int mag = (int)c.draw(3);
  int n = 2 + (int)c.draw(30);
  bool lasting = c.chance(1, 1500);
  if (lasting) { n = hist::howLong(c, 70000); c.label("very long signal"); }
  bool inexact = false, after = false;
  for (int i = 0; i < n; ++i) {
    int k = i == 0 ? 0 : lasting ? 2 : (int)c.draw(12);
    if (k == 0) {
      if (i == 0 && c.chance(1, 20)) continue;  // never set up
      Op op = hist::validSetup(c, d);
      c.note << hist::show(d, op) << "; ";
      int ra = hist::trySetup(*a, d, op), rb = hist::trySetup(*b, d, op);
      CHECK(ra == rb, "setup accepted by one of two objects only");
      continue;
    }
    if (k == 1) { a->reset(); b->reset(); c.note << "reset; "; continue; }
    int t = mode < 11 ? mode : (int)c.draw(11);
    c.label(tn[t]);
    auto bad = [&](const std::string& in, const std::string& got, const std::string& want) {
      std::ostringstream o; o << "filter<" << tn[t] << ">(" << in << ") returns " << got << " instead of " << want; c.fail(o.str());
    };
    double y;
    switch (t) {
      case 0: { double x = sample(c, mag); y = b->fd(x); double r = a->fd(x); if (!same(r, y)) bad(fmt(x), fmt(r), fmt(y)); break; }
      case 1: {
        float x = (float)(mag == 2 ? std::ldexp(c.real(-1, 1), c.chance(1, 4) ? c.range(-120, 120) : 0) : sample(c, mag));
        y = b->fd((double)x);
        if (std::fabs(y) > 3e38) return;
        float r = a->ff(x), w = (float)y;
        if (!same(r, w)) bad(fmt(x), fmt(r), fmt(w) + " (double result " + fmt(y) + ")");
        if ((double)w != y) inexact = true;
        break;
      }
      case 2: {
        long double x = sample(c, mag);
        if (c.flip()) x = x / 3 + (long double)c.real(-1, 1) / 3;
        y = b->fd((double)x);
        long double r = a->fl(x);
        if (!(r == (long double)y) && y == y) bad(fmtl(x), fmtl(r), fmt(y));
        if ((long double)(double)x != x) inexact = true;
        break;
      }
#define INT(N, T, CALL)                                                                                       \
      case N: {                                                                                               \
        T x = intIn<T>(c, mag);                                                                               \
        y = b->fd((double)x);                                                                                 \
        if (!fits<T>(y)) { c.note << tn[t] << " " << +x << " leaves the range"; c.label("ends out of range"); c.nontrivial(after); return; } \
        T r = a->CALL(x), w = static_cast<T>(y);                                                              \
        if (r != w) bad(std::to_string(x), std::to_string(r), std::to_string(w) + " (double result " + fmt(y) + ")"); \
        if ((double)w != y) inexact = true;                                                                   \
        break;                                                                                                \
      }
      INT(3, int, fi)
      INT(4, short, fs)
      INT(5, long long, fll)
      INT(6, unsigned, fu)
      INT(7, signed char, fsc)
      INT(8, unsigned char, fuc)
      INT(9, unsigned short, fus)
      INT(10, unsigned long long, full)
    }
    if (after || inexact) after = inexact && i + 1 < n ? true : after;
  }
  c.nontrivial(after);
}
