// C24: a filter touches nothing but itself, and nothing outside touches it.
#include "hist.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <locale>
#include <new>
#include <pthread.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
using namespace pbt;
using namespace gen;
using hist::Op;

// ---- calls into the C library which read or change process-wide state ----
namespace outside {
static bool active = false;
static const char* what = nullptr;
static long sysnr = -1;
static inline void seen(const char* w) { if (active && !what) what = w; }
}
#define NEXT(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name); outside::seen(#name "()")
extern "C" {
int rand(void) { NEXT(rand); return real(); }
void srand(unsigned s) { NEXT(srand); real(s); }
long random(void) noexcept { NEXT(random); return real(); }
void srandom(unsigned s) noexcept { NEXT(srandom); real(s); }
double drand48(void) noexcept { NEXT(drand48); return real(); }
time_t time(time_t* t) noexcept { NEXT(time); return real(t); }
clock_t clock(void) noexcept { NEXT(clock); return real(); }
int clock_gettime(clockid_t k, struct timespec* t) noexcept { NEXT(clock_gettime); return real(k, t); }
int gettimeofday(struct timeval* t, void* z) noexcept { NEXT(gettimeofday); return real(t, z); }
char* getenv(const char* n) noexcept { NEXT(getenv); return real(n); }
char* secure_getenv(const char* n) noexcept { NEXT(secure_getenv); return real(n); }
int setenv(const char* n, const char* v, int o) noexcept { NEXT(setenv); return real(n, v, o); }
int putenv(char* s) noexcept { NEXT(putenv); return real(s); }
char* setlocale(int c, const char* l) noexcept { NEXT(setlocale); return real(c, l); }
locale_t uselocale(locale_t l) noexcept { NEXT(uselocale); return real(l); }
int fesetround(int r) noexcept { NEXT(fesetround); return real(r); }
int fesetenv(const fenv_t* e) noexcept { NEXT(fesetenv); return real(e); }
int feenableexcept(int e) noexcept { NEXT(feenableexcept); return real(e); }
}

// ---- system calls --------------------------------------------------------
#if defined(__x86_64__) && defined(SYS_rt_sigreturn)
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
static volatile char selector = 0;  // 0 allow, 1 block
static bool memoryAllowed = false;
static void onSyscall(int, siginfo_t* si, void* u) {
  selector = 0;
  greg_t* g = ((ucontext_t*)u)->uc_mcontext.gregs;
  const long nr = si->si_syscall;
  bool mem = nr == SYS_brk || nr == SYS_mmap || nr == SYS_munmap || nr == SYS_mprotect || nr == SYS_madvise || nr == SYS_mremap || nr == SYS_futex;
  if (!(memoryAllowed && mem) && outside::sysnr < 0) outside::sysnr = nr;
  // make the call here and keep watching
  long ret;
  register long r10 __asm__("r10") = g[REG_R10];
  register long r8 __asm__("r8") = g[REG_R8];
  register long r9 __asm__("r9") = g[REG_R9];
  __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(g[REG_RDI]), "S"(g[REG_RSI]), "d"(g[REG_RDX]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  g[REG_RAX] = ret;
  selector = 1;  // the return from this handler is in the range which is always allowed
}
static bool trapSyscalls() {
  static pid_t owner = 0; static bool works = false;
  if (owner == getpid()) return works;
  owner = getpid();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSyscall;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  struct { void* h; unsigned long fl; void* restorer; unsigned long mask[2]; } k;
  memset(&k, 0, sizeof k);
  if (syscall(SYS_rt_sigaction, SIGSYS, nullptr, &k, 8) || !k.restorer) return works = false;
  selector = 0;
  works = prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, k.restorer, 16, &selector) == 0;
  if (works) {  // does it see one, and go on watching?
    memoryAllowed = true;
    outside::sysnr = -1; selector = 1;
    (void)syscall(SYS_madvise, 0, 0, 0); long first = outside::sysnr; (void)syscall(SYS_getppid); (void)syscall(SYS_getuid);
    selector = 0;
    works = first < 0 && outside::sysnr == SYS_getppid;
    outside::sysnr = -1;
  }
  return works;
}
static inline void block(bool b) { selector = b; }
#else
static bool memoryAllowed = false;
static bool trapSyscalls() { return false; }
static inline void block(bool) {}
#endif

// ---- process-wide state ----------------------------------------------------
struct World {
  unsigned mxcsr = 0, x87 = 0; int round = 0;
  std::terminate_handler th; std::new_handler nh;
  locale_t loc; std::string cloc; std::locale cpploc;
  char** env; size_t envHash = 0;
  std::streambuf* rb[3]; std::ios::fmtflags fl[3]; std::streamsize prec[3]; std::ios::iostate st[3];
  size_t pending = 0; int unc = 0;
};
extern char** environ;
static void fp(unsigned& m, unsigned& x) {
#if defined(__x86_64__)
  m = _mm_getcsr() & 0xFFC0u;
  unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); x = cw;
#else
  m = x = 0;
#endif
}
static World look() {
  World w;
  fp(w.mxcsr, w.x87); w.round = fegetround();
  w.th = std::get_terminate(); w.nh = std::get_new_handler();
  w.loc = uselocale((locale_t)0); w.cloc = setlocale(LC_ALL, nullptr);
  w.env = environ;
  for (char** e = environ; e && *e; ++e) { w.envHash = w.envHash * 31 + (size_t)*e; for (char* q = *e; *q; ++q) w.envHash = w.envHash * 131 + (unsigned char)*q; }
  std::ios* s[3] = {&std::cout, &std::cerr, &std::clog};
  for (int i = 0; i < 3; ++i) { w.rb[i] = s[i]->rdbuf(); w.fl[i] = s[i]->flags(); w.prec[i] = s[i]->precision(); w.st[i] = s[i]->rdstate(); }
  w.pending = __fpending(stdout) + __fpending(stderr);
  w.unc = std::uncaught_exceptions();
  return w;
}
static const char* changed(const World& a, const World& b) {
  if (a.mxcsr != b.mxcsr) return "the floating-point control register (rounding, flush to zero or trap masks)";
  if (a.x87 != b.x87) return "the x87 control word";
  if (a.round != b.round) return "the rounding mode";
  if (a.th != b.th) return "the terminate handler";
  if (a.nh != b.nh) return "the new handler";
  if (a.loc != b.loc || a.cloc != b.cloc || !(a.cpploc == b.cpploc)) return "the locale";
  if (a.env != b.env || a.envHash != b.envHash) return "the environment";
  for (int i = 0; i < 3; ++i) if (a.rb[i] != b.rb[i] || a.fl[i] != b.fl[i] || a.prec[i] != b.prec[i] || a.st[i] != b.st[i]) return "a standard stream";
  if (a.pending != b.pending) return "the output of the program (text waiting in stdout)";
  if (a.unc != b.unc) return "the number of uncaught exceptions";
  return nullptr;
}
// swallows and counts
struct Count : std::streambuf {
  size_t n = 0;
  int overflow(int ch) override { ++n; return ch == EOF ? 0 : ch; }
  std::streamsize xsputn(const char*, std::streamsize k) override { n += (size_t)k; return k; }
};
static std::string sysName(long n) {
  switch (n) {
    case SYS_write: return "write"; case SYS_writev: return "writev"; case SYS_read: return "read"; case SYS_openat: return "openat"; case SYS_open: return "open";
    case SYS_close: return "close"; case SYS_brk: return "brk"; case SYS_mmap: return "mmap"; case SYS_munmap: return "munmap"; case SYS_mprotect: return "mprotect";
    case SYS_futex: return "futex"; case SYS_getpid: return "getpid"; case SYS_rt_sigaction: return "rt_sigaction"; case SYS_rt_sigprocmask: return "rt_sigprocmask";
    case SYS_clock_gettime: return "clock_gettime"; case SYS_sched_yield: return "sched_yield"; case SYS_nanosleep: case SYS_clock_nanosleep: return "nanosleep";
    default: return "number " + std::to_string(n);
  }
}

RULE("C24", "untouched_world: random histories over up to 3 objects of random types (construction, copies, assignment, swap, accepted and rejected setups in every overload, samples of several types, reset, response, coefficient and pole/zero queries, destruction). Before each call the floating-point control registers are set to one of the rounding modes and flush-to-zero settings, and some exception flags are raised (which have to stay raised); around each call these, the locale, environment, terminate and new handlers, standard streams and their buffers are compared, calls to rand, time, clock, getenv, setlocale, fesetround and the like are counted, and every system call is trapped (syscall user dispatch; memory management is allowed where the library may allocate, in rejected setups and pole/zero queries). untouched_results: a random history is run plainly and then again in a changed world (errno, floating-point status flags, C++ locale, stream formatting, environment, random state, on another stack with other contents, inside a signal handler, during stack unwinding, with the calls made by different threads in turn, with the surroundings changing from call to call); everything returned and the final design have to be bit-identical. Non-trivial: at least one accepted setup and two kinds of calls.");

PROPERTY("C24", untouched_world, 500000, 6000000) {
  Filt q; q.sos = true;
  const bool trap = trapSyscalls();
  c.label(trap ? "system calls trapped" : "system calls not trapped");
  struct S { Obj o; bool ok = true; } s[3];
  Count cnt[3];
  struct Restore {
    std::streambuf *a, *b, *d; fenv_t env;
#if defined(__x86_64__)
    unsigned csr = _mm_getcsr();
#endif
    ~Restore() {
      outside::active = false; block(false);
      fesetenv(&env);
#if defined(__x86_64__)
      _mm_setcsr(csr);
#endif
      std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(d);
    }
  } restore;
  fegetenv(&restore.env);
  restore.a = std::cout.rdbuf(&cnt[0]); restore.b = std::cerr.rdbuf(&cnt[1]); restore.d = std::clog.rdbuf(&cnt[2]);
  static const int rounds[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  unsigned kinds = 0; bool setup = false;
  int round = FE_TONEAREST; bool ftz = false, daz = false;
  if (c.chance(1, 2)) { round = c.pick(rounds); ftz = c.flip(); daz = c.flip(); }
  if (round != FE_TONEAREST) c.label("other rounding mode");
  if (ftz || daz) c.label("flush to zero");
  const int raised = c.flip() ? (int)c.draw(64) & FE_ALL_EXCEPT : 0;
  // one watched call
  auto watched = [&](const char* op, const Desc& d, bool mayAllocate, const std::function<void()>& call) {
    fesetround(round);
#if defined(__x86_64__)
    _mm_setcsr((_mm_getcsr() & ~0x8040u) | (ftz ? 0x8000u : 0) | (daz ? 0x40u : 0));
#endif
    feclearexcept(FE_ALL_EXCEPT);
    if (raised) feraiseexcept(raised);
    World w0 = look();
    size_t out0 = cnt[0].n + cnt[1].n + cnt[2].n;
    outside::what = nullptr; outside::sysnr = -1; outside::active = true;
    memoryAllowed = mayAllocate;
    if (trap) block(true);
    call();
    block(false); outside::active = false;
    const int still = fetestexcept(raised);
    World w1 = look();
    fesetenv(&restore.env);
#if defined(__x86_64__)
    _mm_setcsr(restore.csr);
#endif
    const char* ch = changed(w0, w1);
    CHECK(still == raised, op << " of " << d.name << " clears floating-point exception flags");
    CHECK(!ch, op << " of " << d.name << " changes " << ch);
    CHECK(cnt[0].n + cnt[1].n + cnt[2].n == out0, op << " of " << d.name << " writes to a standard stream");
    CHECK(!outside::what, op << " of " << d.name << " calls " << outside::what);
    CHECK(outside::sysnr < 0, op << " of " << d.name << " makes the system call " << sysName(outside::sysnr));
    c.label(op);
  };
  int n = 2 + (int)c.draw(14);
  for (int i = 0; i < n; ++i) {
    int k = (int)c.draw(3);
    S& a = s[k];
    if (!a.o.f) {
      int src = (int)c.draw(4);
      S* from = src >= 1 && s[src - 1].o.f ? &s[src - 1] : nullptr;
      const Desc* like = nullptr;
      if (!from && c.chance(1, 2)) for (auto& e : s) if (e.o.f) like = e.o.d;
      const Desc& d = from ? *from->o.d : like ? *like : desc(c, q);
      Obj nw; nw.alloc(d, 0xA5);
      c.note << k << (from ? "=copy of " + std::to_string(src - 1) : "=" + d.name) << "; ";
      int how = from ? (int)c.draw(2) : 0;
      watched(from ? "copy construction" : "construction", d, false, [&] { nw.f = !from ? d.make(nw.mem) : how ? from->o.f->byValue(nw.mem) : from->o.f->copyTo(nw.mem); });
      a.o = std::move(nw); a.ok = from ? from->ok : true;
      kinds |= 1;
      continue;
    }
    const Desc& d = *a.o.d;
    switch (c.draw(11)) {
      case 0: case 1: {
        Op op = hist::validSetup(c, d);
        c.note << k << "." << hist::show(d, op) << "; ";
        // in another rounding mode a setup at the edge of what is possible may be rejected
        bool odd = round != FE_TONEAREST || ftz || daz;
        int r = 0;
        if (odd) { watched("setup in an unusual floating-point mode", d, true, [&] { r = hist::trySetup(*a.o, d, op); }); }
        else watched("setup", d, false, [&] { r = hist::trySetup(*a.o, d, op); });
        a.ok = r == 0; setup = setup || r == 0; kinds |= 2;
        break;
      }
      case 2: case 3: {
        Op op = hist::invalidSetup(c, d);
        c.note << k << "." << hist::show(d, op) << "; ";
        int r = 0;
        watched("rejected setup", d, true, [&] { r = hist::trySetup(*a.o, d, op); });
        a.ok = r == 0; kinds |= 4;
        break;
      }
      case 4: case 5: {
        auto x = signal(c, 12); std::vector<double> y(x.size());
        int t = (int)c.draw(4);
        c.note << k << ".filter " << x.size() << " samples; ";
        watched("filter", d, false, [&] {
          for (size_t j = 0; j < x.size(); ++j) switch (t) {
            case 0: y[j] = a.o.f->ff((float)x[j]); break;
            case 1: y[j] = (double)a.o.f->fl(x[j]); break;
            case 2: y[j] = a.o.f->fs((short)std::max(-1.0, std::min(1.0, x[j]))); break;
            default: y[j] = a.o.f->fd(x[j]);
          }
        });
        kinds |= 8;
        break;
      }
      case 6: c.note << k << ".reset; "; watched("reset", d, false, [&] { a.o.f->reset(); }); kinds |= 16; break;
      case 7: { double f = c.real(0, 0.5); volatile double sink = 0; c.note << k << ".response; "; watched("response", d, false, [&] { sink = std::abs(a.o.f->response(f)); }); kinds |= 32; break; }
      case 8: {
        c.note << k << ".coefficients; "; double q6[6];
        watched("coefficient query", d, false, [&] { int ns = a.o.f->numStages(), m = a.o.f->numStorage(); for (int z = 0; z < ns; ++z) a.o.f->stage(z, q6); for (int z = 0; z < m; ++z) a.o.f->storage(z, q6); });
        kinds |= 64;
        break;
      }
      case 9: {
        if (c.flip()) { c.note << k << ".getPoleZeros; "; watched("pole/zero query", d, true, [&] { try { (void)a.o.f->poleZeros(); } catch (const std::invalid_argument&) {} }); kinds |= 128; break; }
        int j = (int)c.draw(3);
        if (!s[j].o.f || s[j].o.d != a.o.d) break;
        c.note << k << "=" << j << "; ";
        if (j != k && c.flip()) watched("swap", d, false, [&] { a.o.f->swapWith(*s[j].o.f); });
        else watched("assignment", d, false, [&] { a.o.f->assign(*s[j].o.f); });
        kinds |= 256;
        break;
      }
      default: {
        c.note << "destroy " << k << "; ";
        IFilter* f = a.o.f;
        watched("destruction", d, false, [&] { f->~IFilter(); });
        a.o.f = nullptr; a.o.clear();
        kinds |= 512;
      }
    }
  }
  c.nontrivial(setup && __builtin_popcount(kinds) >= 2);
}

// ---- results in another world ---------------------------------------------
struct Point : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct Item { int obj = 0, src = -1; bool assign = false; const Desc* d = nullptr; Op op; };
typedef std::function<void(size_t, const std::function<void()>&)> Around;
static std::vector<double> runAll(const std::vector<Item>& h, const Around& around = nullptr) {
  std::vector<double> log;
  Obj o[2]; bool ok[2] = {true, true};
  auto one = [&](const Item& t) {
    Obj& a = o[t.obj];
    if (!a.f) {
      if (t.src >= 0 && o[t.src].f && o[t.src].d == t.d) { Obj n; n.alloc(*t.d, 0x33); n.f = o[t.src]->copyTo(n.mem); a = std::move(n); ok[t.obj] = ok[t.src]; }
      else { a = Obj(*t.d); ok[t.obj] = true; }
      return;
    }
    if (t.assign) { if (o[1 - t.obj].f) { a->assign(*o[1 - t.obj]); ok[t.obj] = ok[1 - t.obj]; } return; }
    auto r = hist::apply(*a, *t.d, t.op);
    log.push_back(r.threw);
    if (t.op.t == Op::SETUP) ok[t.obj] = r.threw == 0;
    if (t.op.t == Op::RESP && !r.threw) { auto z = a->response(t.op.f); log.push_back(z.real()); log.push_back(z.imag()); }
    for (double v : r.y) log.push_back(v);
  };
  for (size_t i = 0; i < h.size(); ++i) if (around) around(i, [&] { one(h[i]); }); else one(h[i]);
  for (int i = 0; i < 2; ++i) if (o[i].f) { auto s = hist::snap(*o[i], *o[i].d, ok[i]); for (double v : s.v) log.push_back(v); }
  return log;
}
// threads that take turns; none of them ends before the last call
struct Turns {
  std::mutex m; std::condition_variable cv;
  const std::function<void()>* job = nullptr; int who = -1; bool quit = false;
  std::exception_ptr error;
  std::vector<std::thread> t;
  explicit Turns(int n) {
    for (int i = 0; i < n; ++i) t.emplace_back([this, i] {
      std::unique_lock<std::mutex> l(m);
      for (;;) {
        cv.wait(l, [&] { return quit || who == i; });
        if (quit) return;
        try { (*job)(); } catch (...) { error = std::current_exception(); }
        who = -1; cv.notify_all();
      }
    });
  }
  void run(int i, const std::function<void()>& f) {
    std::unique_lock<std::mutex> l(m);
    job = &f; who = i; error = nullptr; cv.notify_all();
    cv.wait(l, [&] { return who == -1; });
    if (error) std::rethrow_exception(error);
  }
  ~Turns() { { std::lock_guard<std::mutex> l(m); quit = true; } cv.notify_all(); for (auto& x : t) x.join(); }
};
static const std::function<void()>* g_call;
static void onUsr2(int) { (*g_call)(); }
struct UnwindingOne { const std::function<void()>& f; ~UnwindingOne() { f(); } };

static const std::vector<Item>* g_hist;
static std::vector<double>* g_out;
static void onUsr(int) { *g_out = runAll(*g_hist); }
struct Unwinding { ~Unwinding() { *g_out = runAll(*g_hist); } };
__attribute__((noinline)) static void dirtyStack(unsigned char v) { volatile unsigned char b[60000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = v; }

PROPERTY("C24", untouched_results, 250000, 3000000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  std::vector<Item> h;
  bool setup = false, other = false;
  int n = 2 + (int)c.draw(10);
  bool live[2] = {false, false};
  for (int i = 0; i < n; ++i) {
    Item t; t.obj = i == 0 ? 0 : (int)c.draw(2); t.d = &d;
    if (!live[t.obj]) { live[t.obj] = true; t.src = c.flip() ? 1 - t.obj : -1; c.note << t.obj << (t.src >= 0 ? "=copy or new " : "=new ") << d.name << "; "; h.push_back(t); continue; }
    switch (c.draw(8)) {
      case 0: case 1: case 2: t.op = c.chance(1, 6) ? hist::invalidSetup(c, d) : hist::validSetup(c, d); setup = setup || t.op.valid; break;
      case 3: case 4: t.op = hist::filterOp(c, 12, 5000); other = true; break;
      case 5: t.op.t = Op::RESET; break;
      case 6: t.op.t = Op::RESP; t.op.f = c.real(0, 0.5); other = true; break;
      default: t.assign = true;
    }
    if (!t.assign) hist::often(c, t.op, 1100);
    c.note << t.obj << "." << (t.assign ? std::string("assign") : hist::show(d, t.op)) << "; ";
    h.push_back(t);
  }
  auto want = runAll(h);
  std::vector<double> got;
  g_hist = &h; g_out = &got;
  const int how = (int)c.draw(11);
  static const char* names[] = {"with errno set", "with floating-point exception flags raised", "with another C++ locale", "with other stream formatting", "with another environment", "with another random state", "on a stack with other contents", "in a signal handler on another stack", "during stack unwinding", "with the calls made by different threads in turn", "in surroundings that change from call to call"};
  c.label(names[how]);
  c.note << "then again " << names[how] << " ";
  switch (how) {
    case 0: { static const int e[] = {ERANGE, EDOM, EINTR, ENOMEM, 9999}; errno = c.pick(e); got = runAll(h); errno = 0; break; }
    case 1: { int m = 1 + (int)c.draw(31); int f = (m & 1 ? FE_DIVBYZERO : 0) | (m & 2 ? FE_INEXACT : 0) | (m & 4 ? FE_INVALID : 0) | (m & 8 ? FE_OVERFLOW : 0) | (m & 16 ? FE_UNDERFLOW : 0);
              feclearexcept(FE_ALL_EXCEPT); feraiseexcept(f); got = runAll(h); feclearexcept(FE_ALL_EXCEPT); got.resize(got.size()); break; }
    case 2: { std::locale old = std::locale::global(std::locale(std::locale::classic(), new Point)); try { got = runAll(h); } catch (...) { std::locale::global(old); throw; } std::locale::global(old); break; }
    case 3: { auto f = std::cout.flags(std::ios::hex | std::ios::scientific | std::ios::showbase); auto p = std::cout.precision(2); got = runAll(h); std::cout.flags(f); std::cout.precision(p); break; }
    case 4: {
      static const char* vars[] = {"LANG", "LC_ALL", "IIR1_DEBUG", "DEBUG", "HOME"};
      const char* v = c.pick(vars); const char* o = getenv(v); std::string ov = o ? o : "";
      setenv(v, "de_DE.UTF-8", 1); got = runAll(h); if (o) setenv(v, ov.c_str(), 1); else unsetenv(v);
      break;
    }
    case 5: srand((unsigned)c.draw(1000)); srandom((unsigned)c.draw(1000)); got = runAll(h); break;
    case 6: dirtyStack((unsigned char)c.draw(256)); got = runAll(h); break;
    case 7: {
      static char* alt = nullptr; const size_t N = 1 << 20;
      if (!alt) alt = (char*)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      memset(alt + N - 65536, (int)c.draw(256), 65536);
      stack_t ss, old; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = N;
      struct sigaction sa, so; memset(&sa, 0, sizeof sa); sa.sa_handler = onUsr; sa.sa_flags = SA_ONSTACK;
      sigaltstack(&ss, &old); sigaction(SIGUSR1, &sa, &so);
      raise(SIGUSR1);
      sigaction(SIGUSR1, &so, nullptr); sigaltstack(&old, nullptr);
      break;
    }
    case 8: try { Unwinding u; throw 1; } catch (int) {} break;
    case 9: {
      std::vector<int> who; for (size_t i = 0; i < h.size(); ++i) who.push_back((int)c.draw(3));
      Turns t(2);
      got = runAll(h, [&](size_t i, const std::function<void()>& f) { if (who[i] == 2) f(); else t.run(who[i], f); });
      break;
    }
    default: {
      std::vector<int> what; for (size_t i = 0; i < h.size(); ++i) what.push_back((int)c.draw(8));
      struct sigaction sa, so; memset(&sa, 0, sizeof sa); sa.sa_handler = onUsr2; sigaction(SIGUSR1, &sa, &so);
      std::locale old;
      const char* o = getenv("LANG"); std::string ov = o ? o : "";
      got = runAll(h, [&](size_t i, const std::function<void()>& f) {
        feclearexcept(FE_ALL_EXCEPT);
        switch (what[i]) {
          case 0: f(); break;
          case 1: errno = ERANGE; f(); errno = 0; break;
          case 2: feraiseexcept(FE_ALL_EXCEPT); f(); feclearexcept(FE_ALL_EXCEPT); break;
          case 3: { std::locale::global(std::locale(std::locale::classic(), new Point)); struct Back { std::locale& l; ~Back() { std::locale::global(l); } } back{old}; f(); break; }
          case 4: { setenv("LANG", "de_DE.UTF-8", 1); f(); if (o) setenv("LANG", ov.c_str(), 1); else unsetenv("LANG"); break; }
          case 5: g_call = &f; raise(SIGUSR1); break;
          case 6: dirtyStack((unsigned char)(i * 37)); f(); break;
          default: try { UnwindingOne u{f}; throw 1; } catch (int) {}
        }
      });
      sigaction(SIGUSR1, &so, nullptr);
    }
  }
  CHECK(got.size() == want.size(), "returns " << got.size() << " values instead of " << want.size());
  for (size_t i = 0; i < got.size(); ++i) CHECK(same(got[i], want[i]), "value " << i << " returned is " << fmt(got[i]) << " instead of " << fmt(want[i]));
  c.nontrivial(setup && other);
}
