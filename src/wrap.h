#pragma once
#include "iface.h"
#include "Iir.h"
#include <new>
#include <utility>

template <int NP> struct Call;
template <> struct Call<1> {
  template <class F> static void n(F& f, const double* a) { f.setupN(a[0]); }
  template <class F> static void no(F& f, int o, const double* a) { f.setupN(o, a[0]); }
  template <class F> static void h(F& f, double s, const double* a) { f.setup(s, a[0]); }
  template <class F> static void ho(F& f, int o, double s, const double* a) { f.setup(o, s, a[0]); }
};
template <> struct Call<2> {
  template <class F> static void n(F& f, const double* a) { f.setupN(a[0], a[1]); }
  template <class F> static void no(F& f, int o, const double* a) { f.setupN(o, a[0], a[1]); }
  template <class F> static void h(F& f, double s, const double* a) { f.setup(s, a[0], a[1]); }
  template <class F> static void ho(F& f, int o, double s, const double* a) { f.setup(o, s, a[0], a[1]); }
};
template <> struct Call<3> {
  template <class F> static void n(F& f, const double* a) { f.setupN(a[0], a[1], a[2]); }
  template <class F> static void no(F& f, int o, const double* a) { f.setupN(o, a[0], a[1], a[2]); }
  template <class F> static void h(F& f, double s, const double* a) { f.setup(s, a[0], a[1], a[2]); }
  template <class F> static void ho(F& f, int o, double s, const double* a) { f.setup(o, s, a[0], a[1], a[2]); }
};
template <> struct Call<4> {
  template <class F> static void n(F& f, const double* a) { f.setupN(a[0], a[1], a[2], a[3]); }
  template <class F> static void no(F& f, int o, const double* a) { f.setupN(o, a[0], a[1], a[2], a[3]); }
  template <class F> static void h(F& f, double s, const double* a) { f.setup(s, a[0], a[1], a[2], a[3]); }
  template <class F> static void ho(F& f, int o, double s, const double* a) { f.setup(o, s, a[0], a[1], a[2], a[3]); }
};

inline void biquadCoefs(const Iir::Biquad& b, double* c) {
  c[0] = b.getA0(); c[1] = b.getA1(); c[2] = b.getA2();
  c[3] = b.getB0(); c[4] = b.getB1(); c[5] = b.getB2();
}
inline std::vector<PZ> convPZ(const std::vector<Iir::PoleZeroPair>& v) {
  std::vector<PZ> r;
  for (const auto& p : v) r.push_back({p.poles.first, p.poles.second, p.zeros.first, p.zeros.second, p.isSinglePole()});
  return r;
}

template <class F> __attribute__((noinline)) F passByValue(F f) { return f; }

// Everything that does not depend on how the filter is set up.
template <class F, class Derived> struct WBase : IFilter {
  F f;
  WBase() {}
  explicit WBase(const F& o) : f(o) {}
  explicit WBase(F&& o) : f(std::move(o)) {}
  double fd(double x) override { return f.filter(x); }
  float ff(float x) override { return f.filter(x); }
  long double fl(long double x) override { return f.filter(x); }
  int fi(int x) override { return f.filter(x); }
  short fs(short x) override { return f.filter(x); }
  long long fll(long long x) override { return f.filter(x); }
  unsigned char fuc(unsigned char x) override { return f.filter(x); }
  signed char fsc(signed char x) override { return f.filter(x); }
  unsigned fu(unsigned x) override { return f.filter(x); }
  unsigned short fus(unsigned short x) override { return f.filter(x); }
  unsigned long long full(unsigned long long x) override { return f.filter(x); }
  void run(const double* in, double* out, size_t n) override { for (size_t i = 0; i < n; ++i) out[i] = f.filter(in[i]); }
  void reset() override { f.reset(); }
  IFilter* copyTo(void* m) const override { return new (m) Derived(f); }
  IFilter* moveTo(void* m) override { return new (m) Derived(std::move(f)); }
  IFilter* byValue(void* m) const override { return new (m) Derived(passByValue(f)); }
  void assign(const IFilter& o) override { f = static_cast<const Derived&>(o).f; }
  void moveAssign(IFilter& o) override { f = std::move(static_cast<Derived&>(o).f); }
  void swapWith(IFilter& o) override { std::swap(f, static_cast<Derived&>(o).f); }
};

template <class F, int NP> struct PoleW final : WBase<F, PoleW<F, NP>> {
  using B = WBase<F, PoleW<F, NP>>;
  using B::f;
  using B::B;
  PoleW() {}
  void setupN(const double* a) override { Call<NP>::n(f, a); }
  void setupNo(int o, const double* a) override { Call<NP>::no(f, o, a); }
  void setupHz(double s, const double* a) override { Call<NP>::h(f, s, a); }
  void setupHzo(int o, double s, const double* a) override { Call<NP>::ho(f, o, s, a); }
  std::complex<double> response(double q) override { return f.response(q); }
  std::vector<PZ> poleZeros() override { return convPZ(f.getPoleZeros()); }
  std::vector<PZ> sectionPoleZeros(int i) override { return convPZ(f[i].getPoleZeros()); }
  std::vector<PZ> cascadePoleZeros() override { return convPZ(f.Iir::Cascade::getPoleZeros()); }
  int numStages() override { return f.getNumStages(); }
  void stage(int i, double* c) override { biquadCoefs(f[i], c); }
  int numStorage() override { return f.getCascadeStorage().maxStages; }
  void storage(int i, double* c) override { biquadCoefs(f.getCascadeStorage().stageArray[i], c); }
  static IFilter* make(void* m) { return new (m) PoleW; }
};

template <class F, int NP, bool HASDEF> struct RbjDef {
  static bool n(F&, const double*) { return false; }
  static bool h(F&, double, const double*) { return false; }
};
template <class F> struct RbjDef<F, 2, true> {
  static bool n(F& f, const double* a) { f.setupN(a[0]); return true; }
  static bool h(F& f, double s, const double* a) { f.setup(s, a[0]); return true; }
};
template <class F> struct RbjDef<F, 3, true> {
  static bool n(F& f, const double* a) { f.setupN(a[0], a[1]); return true; }
  static bool h(F& f, double s, const double* a) { f.setup(s, a[0], a[1]); return true; }
};

template <class F, int NP, bool HASDEF> struct RbjW final : WBase<F, RbjW<F, NP, HASDEF>> {
  using B = WBase<F, RbjW<F, NP, HASDEF>>;
  using B::f;
  using B::B;
  RbjW() {}
  void setupN(const double* a) override { Call<NP>::n(f, a); }
  void setupNo(int, const double* a) override { Call<NP>::n(f, a); }
  void setupHz(double s, const double* a) override { Call<NP>::h(f, s, a); }
  void setupHzo(int, double s, const double* a) override { Call<NP>::h(f, s, a); }
  bool setupDefN(const double* a) override { return RbjDef<F, NP, HASDEF>::n(f, a); }
  bool setupDefHz(double s, const double* a) override { return RbjDef<F, NP, HASDEF>::h(f, s, a); }
  std::complex<double> response(double q) override { return f.response(q); }
  std::vector<PZ> poleZeros() override { return convPZ(f.getPoleZeros()); }
  std::vector<PZ> sectionPoleZeros(int) override { return poleZeros(); }
  std::vector<PZ> cascadePoleZeros() override { return poleZeros(); }
  int numStages() override { return 1; }
  void stage(int, double* c) override { biquadCoefs(f, c); }
  int numStorage() override { return 1; }
  void storage(int, double* c) override { biquadCoefs(f, c); }
  static IFilter* make(void* m) { return new (m) RbjW; }
};

template <class F, int N> struct SosW final : WBase<F, SosW<F, N>> {
  using B = WBase<F, SosW<F, N>>;
  using B::f;
  using B::B;
  SosW() {}
  void setupN(const double*) override {}
  void setupNo(int, const double*) override {}
  void setupHz(double, const double*) override {}
  void setupHzo(int, double, const double*) override {}
  bool setupSos(const double* a) override {
    double s[N][6];
    memcpy(s, a, sizeof s);
    f.setup(s);
    return true;
  }
  std::complex<double> response(double q) override {
    std::complex<double> h(1);
    auto st = f.getCascadeStorage();
    for (int i = 0; i < N; ++i) h *= st.stageArray[i].response(q);
    return h;
  }
  std::vector<PZ> poleZeros() override { return {}; }
  std::vector<PZ> sectionPoleZeros(int i) override { return convPZ(f.getCascadeStorage().stageArray[i].getPoleZeros()); }
  std::vector<PZ> cascadePoleZeros() override { std::vector<PZ> r; for (int i = 0; i < N; ++i) for (auto& p : sectionPoleZeros(i)) r.push_back(p); return r; }
  int numStages() override { return N; }
  void stage(int i, double* c) override { biquadCoefs(f.getCascadeStorage().stageArray[i], c); }
  int numStorage() override { return f.getCascadeStorage().maxStages; }
  void storage(int i, double* c) override { biquadCoefs(f.getCascadeStorage().stageArray[i], c); }
  static IFilter* make(void* m) { return new (m) SosW; }
};

typedef std::vector<Desc> RegList;

template <class F, int NP> static void addPole(RegList& r, Family fam, Kind k, StateKind st, int order, bool band, bool gain, bool ripple) {
  static const char* fn[] = {"Butterworth", "ChebyshevI", "ChebyshevII"};
  static const char* kn[] = {"LowPass", "HighPass", "BandPass", "BandStop", "LowShelf", "HighShelf", "BandShelf"};
  static const char* sn[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};
  Desc d;
  d.name = std::string(fn[fam]) + "::" + kn[k] + "<" + std::to_string(order) + "," + sn[st] + ">";
  d.fam = fam; d.kind = k; d.st = st; d.order = order; d.np = NP;
  d.band = band; d.gain = gain; d.ripple = ripple;
  d.storageStages = band ? order : (order + 1) / 2;
  d.size = sizeof(PoleW<F, NP>);
  d.make = &PoleW<F, NP>::make;
  r.push_back(d);
}

template <class ST, int O> static void addOrder(RegList& r, StateKind st) {
#ifdef REG_BUTTER
  using namespace Iir::Butterworth;
  const Family fm = BUTTER;
  addPole<LowPass<O, ST>, 1>(r, fm, LP, st, O, false, false, false);
  addPole<HighPass<O, ST>, 1>(r, fm, HP, st, O, false, false, false);
  addPole<BandPass<O, ST>, 2>(r, fm, BP, st, O, true, false, false);
  addPole<BandStop<O, ST>, 2>(r, fm, BS, st, O, true, false, false);
  addPole<LowShelf<O, ST>, 2>(r, fm, LSH, st, O, false, true, false);
  addPole<HighShelf<O, ST>, 2>(r, fm, HSH, st, O, false, true, false);
  addPole<BandShelf<O, ST>, 3>(r, fm, BSH, st, O, true, true, false);
#else
#ifdef REG_CHEB1
  using namespace Iir::ChebyshevI;
  const Family fm = CHEB1;
#else
  using namespace Iir::ChebyshevII;
  const Family fm = CHEB2;
#endif
  addPole<LowPass<O, ST>, 2>(r, fm, LP, st, O, false, false, true);
  addPole<HighPass<O, ST>, 2>(r, fm, HP, st, O, false, false, true);
  addPole<BandPass<O, ST>, 3>(r, fm, BP, st, O, true, false, true);
  addPole<BandStop<O, ST>, 3>(r, fm, BS, st, O, true, false, true);
  addPole<LowShelf<O, ST>, 3>(r, fm, LSH, st, O, false, true, true);
  addPole<HighShelf<O, ST>, 3>(r, fm, HSH, st, O, false, true, true);
  addPole<BandShelf<O, ST>, 4>(r, fm, BSH, st, O, true, true, true);
#endif
}

template <class ST, int... Os> static void addOrders(RegList& r, StateKind st) {
  int dummy[] = {(addOrder<ST, Os>(r, st), 0)...};
  (void)dummy;
}
