// shared between the two translation units of the consumer
#ifndef USE_H
#define USE_H
#include ORDER_OF_HEADERS
#include <cstdio>
#include <cstdlib>
#include <vector>
typedef std::vector<double> Vec;
struct Both {
  Iir::Butterworth::LowPass<4> f1;
  Iir::ChebyshevI::BandPass<3, Iir::DirectFormI> f2;
  Iir::RBJ::BandShelf f3;
};
// defined in the second unit
void setupThere(Both& b, const Vec& a);
double filterThere(Both& b, double x);
void runThere(int type, int order, const Vec& a, const Vec& x);
size_t sizeThere(int which);
int invalidThere(int which);
template <class F> void coefficients(F& f) {
  for (int i = 0; i < f.getNumStages(); ++i)
    printf(" %.17g %.17g %.17g %.17g %.17g %.17g", f[i].getA0(), f[i].getA1(), f[i].getA2(), f[i].getB0(), f[i].getB1(), f[i].getB2());
}
inline void section(const Iir::Biquad& f) {
  printf(" %.17g %.17g %.17g %.17g %.17g %.17g", f.getA0(), f.getA1(), f.getA2(), f.getB0(), f.getB1(), f.getB2());
}
template <class F> void outputs(F& f, const Vec& x) {
  printf("\ny");
  for (size_t i = 0; i < x.size(); ++i) printf(" %.17g", (double)f.filter(x[i]));
  F g(f);
  f.reset();
  printf("\nr");
  for (size_t i = 0; i < x.size(); ++i) printf(" %.17g", (double)f.filter((float)x[i]));
  printf("\nc");
  for (size_t i = 0; i < x.size(); ++i) printf(" %.17g", (double)g.filter(x[i]));
  for (int i = 0; i <= 4; ++i) { Iir::complex_t h = f.response(i * 0.124); printf(" %.17g %.17g", h.real(), h.imag()); }
  printf("\n");
}
template <class F> void one(int order, const Vec& a, const Vec& x) { F f; if (order > 0) f.setupN(order, a[0]); else f.setup(1000, a[0] * 1000); printf("k %d", f.getNumStages()); coefficients(f); outputs(f, x); }
template <class F> void two(int order, const Vec& a, const Vec& x) { F f; if (order > 0) f.setupN(order, a[0], a[1]); else f.setupN(a[0], a[1]); printf("k %d", f.getNumStages()); coefficients(f); outputs(f, x); }
template <class F> void three(int order, const Vec& a, const Vec& x) { F f; if (order > 0) f.setupN(order, a[0], a[1], a[2]); else f.setupN(a[0], a[1], a[2]); printf("k %d", f.getNumStages()); coefficients(f); outputs(f, x); }
template <class F> void four(int order, const Vec& a, const Vec& x) { F f; if (order > 0) f.setupN(order, a[0], a[1], a[2], a[3]); else f.setupN(a[0], a[1], a[2], a[3]); printf("k %d", f.getNumStages()); coefficients(f); outputs(f, x); }
template <class F> void rbj1(int, const Vec& a, const Vec& x) { F f; f.setupN(a[0]); printf("k 1"); section(f); outputs(f, x); }
template <class F> void rbj2(int, const Vec& a, const Vec& x) { F f; f.setup(48000, a[0] * 48000, a[1]); printf("k 1"); section(f); outputs(f, x); }
template <class F> void rbj3(int, const Vec& a, const Vec& x) { F f; f.setupN(a[0], a[1], a[2]); printf("k 1"); section(f); outputs(f, x); }
inline void sos(int, const Vec& a, const Vec& x) {
  const double k[2][6] = {{1, a[0], a[1], 2, a[2], a[3]}, {a[0], 1, a[2], 1, a[1], a[3]}};
  Iir::Custom::SOSCascade<2, Iir::TransposedDirectFormII> f(k);
  printf("k 2");
  printf("\ny"); for (size_t i = 0; i < x.size(); ++i) printf(" %.17g", f.filter(x[i]));
  Iir::Custom::OnePole o; o.setup(a[0], a[1], a[2]); section(o);
  Iir::Custom::TwoPole t; t.setup(1, a[3], a[2], a[1], a[0]); section(t);
  printf("\n");
}
#endif
