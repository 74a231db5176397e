#include "wrap.h"
#if defined(__has_include)
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif
#endif

void Obj::undefined(void* m, size_t n) {
#ifdef VALGRIND_MAKE_MEM_UNDEFINED
  VALGRIND_MAKE_MEM_UNDEFINED(m, n);
#endif
  (void)m; (void)n;
}
void Obj::poison(void* m, size_t n) { memset(m, 0x5A, n); }

#if REG_SMALL
#define D(fn, st) void reg_##fn##st##_0(RegList&);
#define A(fn, st) reg_##fn##st##_0(r);
#else
#define D(fn, st) void reg_##fn##st##_0(RegList&); void reg_##fn##st##_1(RegList&);
#define A(fn, st) reg_##fn##st##_0(r); reg_##fn##st##_1(r);
#endif
D(butter, 0) D(butter, 1) D(butter, 2) D(cheb1, 0) D(cheb1, 1) D(cheb1, 2) D(cheb2, 0) D(cheb2, 1) D(cheb2, 2)

template <class F, int NP, bool DEF> static void addRbj(RegList& r, Kind k, const char* n, bool gain) {
  Desc d;
  d.name = std::string("RBJ::") + n;
  d.fam = RBJF; d.kind = k; d.st = DF1; d.order = 2; d.np = NP; d.band = false; d.gain = gain; d.ripple = false;
  d.storageStages = 1;
  d.size = sizeof(RbjW<F, NP, DEF>);
  d.make = &RbjW<F, NP, DEF>::make;
  r.push_back(d);
}
template <class ST, int N> static void addSos(RegList& r, StateKind st) {
  static const char* sn[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};
  typedef Iir::Custom::SOSCascade<N, ST> F;
  Desc d;
  d.name = "Custom::SOSCascade<" + std::to_string(N) + "," + sn[st] + ">";
  d.fam = SOS; d.kind = K_SOS; d.st = st; d.order = N; d.np = 0; d.band = d.gain = d.ripple = false;
  d.storageStages = N;
  d.size = sizeof(SosW<F, N>);
  d.make = &SosW<F, N>::make;
  r.push_back(d);
}
template <class ST> static void addSosAll(RegList& r, StateKind st) {
  addSos<ST, 1>(r, st); addSos<ST, 2>(r, st); addSos<ST, 3>(r, st); addSos<ST, 4>(r, st);
  addSos<ST, 5>(r, st); addSos<ST, 8>(r, st); addSos<ST, 16>(r, st); addSos<ST, 33>(r, st);
}

static RegList build() {
  RegList r;
#if REG_FAMS & 1
  A(butter, 1) A(butter, 0) A(butter, 2)
#endif
#if REG_FAMS & 2
  A(cheb1, 1) A(cheb1, 0) A(cheb1, 2)
#endif
#if REG_FAMS & 4
  A(cheb2, 1) A(cheb2, 0) A(cheb2, 2)
#endif
  using namespace Iir::RBJ;
  addRbj<LowPass, 2, true>(r, R_LP, "LowPass", false);
  addRbj<HighPass, 2, true>(r, R_HP, "HighPass", false);
  addRbj<BandPass1, 2, false>(r, R_BP1, "BandPass1", false);
  addRbj<BandPass2, 2, false>(r, R_BP2, "BandPass2", false);
  addRbj<BandStop, 2, false>(r, R_BS, "BandStop", false);
  addRbj<IIRNotch, 2, true>(r, R_NOTCH, "IIRNotch", false);
  addRbj<LowShelf, 3, true>(r, R_LSH, "LowShelf", true);
  addRbj<HighShelf, 3, true>(r, R_HSH, "HighShelf", true);
  addRbj<BandShelf, 3, false>(r, R_BSH, "BandShelf", true);
  addRbj<AllPass, 2, true>(r, R_AP, "AllPass", false);
  addSosAll<Iir::DirectFormI>(r, DF1);
  addSosAll<Iir::DirectFormII>(r, DF2);
  addSosAll<Iir::TransposedDirectFormII>(r, TDF2);
  return r;
}

const std::vector<Desc>& registry() {
  static const RegList& r = *new RegList(build());  // never destroyed: C26 uses it at exit
  return r;
}
