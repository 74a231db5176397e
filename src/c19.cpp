// C19: the build without exceptions.  registry() is the normal build; the
// shared library libnoexc.so holds the same filters compiled with
// -fno-exceptions -DIIR1_NO_EXCEPTIONS (hidden visibility, so nothing of the
// two builds is merged).
#include "hist.h"
#include <dlfcn.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using hist::Op;

extern "C" const Desc* noexc_registry(size_t* n);

RULE("C19", "the same random history runs on an object of the normal build and on one of the build with -fno-exceptions -DIIR1_NO_EXCEPTIONS. As long as the normal build accepts, everything returned (coefficients, stage counts, responses, poles and zeros, samples) has to be bit-identical. A call which throws in the normal build (invalid setups in every overload, arbitrary arguments, responses and section indices out of range) runs in a forked child of the other build, which has to end by SIGABRT without reaching the statement after the call; the history then goes on without it. Non-trivial: at least one call aborted, or at least one setup and ten samples were compared.");

static const Desc* twin(const Desc& d) {
  static std::map<std::string, const Desc*> m;
  if (m.empty()) { size_t n; const Desc* p = noexc_registry(&n); for (size_t i = 0; i < n; ++i) m[p[i].name] = &p[i]; }
  auto it = m.find(d.name);
  return it == m.end() ? nullptr : it->second;
}
static Obj makeTwin(const Desc& t) { Obj o; o.alloc(t, 0x42); o.f = t.make(o.mem); return o; }

static double odd(Case& c) {
  static const double s[] = {0.0, -0.0, 0.5, -1.0, 1e300, 1e-320, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.75, 1e6};
  return c.pick(s);
}
// runs f in a child; 0 = returned, 1 = aborted, 2 = anything else
template <class F> static int inChild(F f, std::string& how) {
  pid_t p = fork();
  if (p == 0) {
    struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
    signal(SIGABRT, SIG_DFL);
    try { f(); } catch (...) { _exit(4); }
    _exit(3);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 0;
  how = WIFSIGNALED(st) ? "ends with signal " + std::to_string(WTERMSIG(st)) : WIFEXITED(st) && WEXITSTATUS(st) == 4 ? "throws" : "exits with status " + std::to_string(WEXITSTATUS(st));
  return 2;
}

PROPERTY("C19", same_or_abort, 50000, 600000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  const Desc* t = twin(d);
  if (!t) c.fail("filter missing in the build without exceptions: " + d.name);
  Obj a(d), b = makeTwin(*t);
  c.note << d.name << ": ";
  int n = 2 + (int)c.draw(8), aborted = 0, setups = 0, samples = 0;
  bool rejectedLast = false;
  for (int i = 0; i < n; ++i) {
    Op op;
    switch (c.draw(8)) {
      case 0: case 1: op = hist::validSetup(c, d); break;
      case 2: op = hist::invalidSetup(c, d); break;
      case 3:
        op = hist::validSetup(c, d); op.valid = false;
        if (d.fam == SOS) op.sos[c.draw(op.sos.size())] = odd(c);
        else if (op.form != Op::DEFN && op.form != Op::DEFHZ) op.a[c.draw(d.np)] = odd(c);
        break;
      case 4: op = hist::filterOp(c, 20, 70000); break;
      case 5: op.t = Op::RESET; break;
      case 6: op.t = Op::RESP; op.f = c.flip() ? c.real(0, 0.5) : c.real(-1, 2); if (d.fam == SOS || d.fam == RBJF) op.f = c.real(0, 0.5); break;
      default: op.t = c.flip() && d.pole() ? Op::STAGEQ : Op::PZQ; op.idx = c.range(-2, 10); break;
    }
    hist::often(c, op, 1100);
    // after a rejected setup the pole/zero report is not specified (see C16)
    if (op.t == Op::PZQ && rejectedLast) continue;
    c.note << hist::show(d, op) << "; ";
    auto ra = hist::apply(*a, d, op);
    if (op.t == Op::SETUP) rejectedLast = ra.threw != 0;
    if (ra.threw) {
      if (aborted >= 3) continue;
      std::string how;
      int r = inChild([&] { hist::apply(*b, *t, op); }, how);
      CHECK(r == 1, "the call " << hist::show(d, op) << " throws in the normal build and " << (r == 0 ? "returns" : how) << " instead of aborting in the build without exceptions");
      ++aborted;
      c.label(op.t == Op::SETUP ? (op.why[0] ? std::string("aborts: ") + op.why : "aborts: arbitrary setup") : "aborts: query");
      continue;
    }
    auto rb = hist::apply(*b, *t, op);
    auto e = hist::diffOut(rb.y, ra.y);
    CHECK(e.empty(), "without exceptions " << e << " (normal build)");
    if (op.t == Op::SETUP) ++setups;
    samples += (int)ra.y.size();
  }
  bool pzOk = !rejectedLast;
  try { if (pzOk && d.fam != SOS) (void)a->poleZeros(); } catch (const std::invalid_argument&) { pzOk = false; }
  auto df = hist::diff(hist::snap(*b, *t, pzOk), hist::snap(*a, d, pzOk));
  CHECK(df.empty(), "without exceptions: " << df << " (normal build)");
  c.nontrivial(aborted > 0 || (setups > 0 && samples >= 10));
}
