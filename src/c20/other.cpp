#define THIS_UNIT 2
#include "use.h"
#include "types.h"
void setupThere(Both& b, const Vec& a) { b.f1.setupN(a[0]); b.f2.setup(100, a[0] * 100, a[1] * 100, a[2]); b.f3.setupN(a[0], a[3], a[2]); }
double filterThere(Both& b, double x) { return b.f3.filter(b.f2.filter(b.f1.filter(x))); }
void runThere(int type, int order, const Vec& a, const Vec& x) { runHere(type, order, a, x); }
size_t sizeThere(int w) { return w == 0 ? sizeof(Iir::Biquad) : w == 1 ? sizeof(Iir::Butterworth::LowPass<4>) : w == 2 ? sizeof(Iir::ChebyshevII::BandStop<5>) : sizeof(Iir::RBJ::LowPass); }
#ifndef IIR1_NO_EXCEPTIONS
int invalidThere(int w) {
  try {
    Iir::Butterworth::BandPass<4> f; Iir::RBJ::LowPass r;
    if (w == 0) f.setupN(0.5, 0.1); else if (w == 1) f.setupN(5, 0.2, 0.1); else if (w == 2) f.setup(100, 20, -1); else if (w == 3) f.response(0.6); else if (w == 4) { f.setupN(0.2, 0.1); f[4].getA0(); } else r.setupN(0.2, -1);
    return 0;
  } catch (const std::invalid_argument&) { return 1; }
}
#else
int invalidThere(int) { return 1; }
#endif
