// Type-erased view of every filter type of the library (public API only).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <string>
#include <vector>

enum Family { BUTTER = 0, CHEB1 = 1, CHEB2 = 2, RBJF = 3, SOS = 4 };
enum Kind { LP, HP, BP, BS, LSH, HSH, BSH,                       // pole filters
            R_LP, R_HP, R_BP1, R_BP2, R_BS, R_NOTCH, R_LSH, R_HSH, R_BSH, R_AP,
            K_SOS };
enum StateKind { DF1 = 0, DF2 = 1, TDF2 = 2 };

struct PZ { std::complex<double> p1, p2, z1, z2; bool single; };

struct IFilter {
  virtual ~IFilter() {}
  // arguments in the order of the library: freq [width] [gain] [ripple] / freq shape ...
  virtual void setupN(const double* a) = 0;
  virtual void setupNo(int order, const double* a) = 0;
  virtual void setupHz(double fs, const double* a) = 0;
  virtual void setupHzo(int order, double fs, const double* a) = 0;
  virtual bool setupDefN(const double*) { return false; }        // omit the last (defaulted) argument
  virtual bool setupDefHz(double, const double*) { return false; }
  virtual bool setupSos(const double*) { return false; }
  virtual double fd(double) = 0;
  virtual float ff(float) = 0;
  virtual long double fl(long double) = 0;
  virtual int fi(int) = 0;
  virtual short fs(short) = 0;
  virtual long long fll(long long) = 0;
  virtual unsigned char fuc(unsigned char) = 0;
  virtual signed char fsc(signed char) = 0;
  virtual unsigned fu(unsigned) = 0;
  virtual unsigned short fus(unsigned short) = 0;
  virtual unsigned long long full(unsigned long long) = 0;
  virtual void run(const double* in, double* out, size_t n) = 0;
  virtual void reset() = 0;
  virtual std::complex<double> response(double f) = 0;
  virtual std::vector<PZ> poleZeros() = 0;
  virtual std::vector<PZ> sectionPoleZeros(int i) = 0;            // recovered from the coefficients of one section
  virtual std::vector<PZ> cascadePoleZeros() = 0;                 // recovered from the coefficients of all sections
  virtual int numStages() = 0;
  virtual void stage(int i, double* c6) = 0;                      // a0 a1 a2 b0 b1 b2 through operator[]
  virtual int numStorage() = 0;
  virtual void storage(int i, double* c6) = 0;                    // through getCascadeStorage()
  virtual IFilter* copyTo(void* mem) const = 0;                   // copy-construct
  virtual IFilter* moveTo(void* mem) = 0;                         // move-construct
  virtual void assign(const IFilter& o) = 0;                      // same dynamic type
  virtual void moveAssign(IFilter& o) = 0;
  virtual void swapWith(IFilter& o) = 0;
  virtual IFilter* byValue(void* mem) const = 0;                  // through a function returning by value
};

struct Desc {
  std::string name;
  Family fam;
  Kind kind;
  StateKind st;
  int order;          // instantiated order (sections for SOS)
  int np;             // number of double arguments of setupN
  bool band, gain, ripple;
  int storageStages;
  size_t size;
  IFilter* (*make)(void* mem);
  bool pole() const { return fam <= CHEB2; }
};

const std::vector<Desc>& registry();

// Owns the memory of one filter object; the memory is filled with a pattern
// before construction and poisoned after destruction.
struct Obj {
  const Desc* d = nullptr;
  void* mem = nullptr;
  IFilter* f = nullptr;
  Obj() {}
  explicit Obj(const Desc& dd, int pattern = 0xA5) { alloc(dd, pattern); f = dd.make(mem); }
  Obj(const Obj&) = delete;
  Obj& operator=(const Obj&) = delete;
  Obj(Obj&& o) noexcept : d(o.d), mem(o.mem), f(o.f) { o.mem = nullptr; o.f = nullptr; }
  Obj& operator=(Obj&& o) noexcept { if (this != &o) { clear(); d = o.d; mem = o.mem; f = o.f; o.mem = nullptr; o.f = nullptr; } return *this; }
  ~Obj() { clear(); }
  void alloc(const Desc& dd, int pattern) {
    d = &dd;
    mem = malloc(dd.size + SLACK);
    memset(mem, pattern, dd.size + SLACK);
    undefined(mem, dd.size + SLACK);
  }
  void clear() {
    if (f) { f->~IFilter(); f = nullptr; }
    if (mem) { poison(mem, d->size); free(mem); mem = nullptr; }
  }
  static void poison(void* m, size_t n);
  static void undefined(void* m, size_t n);   // tells valgrind, if it is there
#if defined(__SANITIZE_ADDRESS__)
  static const size_t SLACK = 0;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
  static const size_t SLACK = 0;
#else
  static const size_t SLACK = 64;
#endif
#else
  static const size_t SLACK = 64;
#endif
  IFilter* operator->() const { return f; }
  IFilter& operator*() const { return *f; }
};
