// C14: no heap use.  The allocator entry points are replaced by counting ones.
#include "hist.h"
#include <cerrno>
#include <unistd.h>
using namespace pbt;
using namespace gen;
using hist::Op;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace heap {
static __thread bool active = false;
static __thread unsigned calls = 0;
static __thread const char* what = "";
static __thread size_t bytes = 0;
static inline void seen(const char* w, size_t n) { if (active) { if (!calls) { what = w; bytes = n; } ++calls; } }
struct Watch { Watch() { calls = 0; what = ""; active = true; } ~Watch() { active = false; } };
}
extern "C" {
void* malloc(size_t n) { heap::seen("malloc", n); return __libc_malloc(n); }
void free(void* p) { if (p) heap::seen("free", 0); __libc_free(p); }
void* calloc(size_t n, size_t m) { heap::seen("calloc", n * m); return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { heap::seen("realloc", n); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { heap::seen("memalign", n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { heap::seen("aligned_alloc", n); return __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { heap::seen("posix_memalign", n); void* p = __libc_memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
// the program break would be heap memory under another name
extern void* __sbrk(intptr_t);
void* sbrk(intptr_t d) { heap::seen("sbrk", (size_t)d); return __sbrk(d); }
}

RULE("C14", "malloc, calloc, realloc, free, aligned_alloc, posix_memalign, memalign and sbrk are replaced by counting versions (operator new and delete of libstdc++ end there, as does a class-specific one). Random histories over up to 4 objects of random types: every construction, copy/move construction, pass by value, assignment, swap, accepted setup in any overload, filtering with any sample type, reset, response and coefficient query and destruction is watched separately and must not call any of them; now and then thousands of samples or setups in a row; rejected setups and the vector-returning pole/zero query run unwatched in between. Non-trivial: at least three different kinds of operation were watched, one of them an accepted setup.");

PROPERTY("C14", no_heap_calls, 240000, 2000000) {
  Filt q; q.sos = true;
  struct O { void* mem = nullptr; IFilter* f = nullptr; const Desc* d = nullptr; };
  O o[4];
  struct Cleanup { O* o; ~Cleanup() { for (int i = 0; i < 4; ++i) if (o[i].mem) { o[i].f->~IFilter(); free(o[i].mem); } } } cl{o};
  unsigned kinds = 0; bool setup = false;
  auto done = [&](const char* op, const Desc* d) {
    heap::active = false;
    CHECK(heap::calls == 0, op << " of " << d->name << " calls " << heap::what << "(" << heap::bytes << ")");
    c.label(op);
  };
  int n = 3 + (int)c.draw(20);
  for (int i = 0; i < n; ++i) {
    int k = (int)c.draw(4);
    O& a = o[k];
    if (!a.f) {
      // construct: new, or from another object
      int src = (int)c.draw(5);
      const O* s = src >= 1 && o[src - 1].f ? &o[src - 1] : nullptr;
      const O* like = nullptr;
      if (!s && c.chance(2, 3)) for (auto& e : o) if (e.f) like = &e;
      a.d = s ? s->d : like ? like->d : &desc(c, q);
      a.mem = malloc(a.d->size + 64);
      memset(a.mem, 0xA5, a.d->size + 64);
      const char* op = "construction";
      int how = s ? (int)c.draw(3) : 0;
      { heap::Watch w;
        if (!s) a.f = a.d->make(a.mem);
        else if (how == 0) { a.f = s->f->copyTo(a.mem); op = "copy construction"; }
        else if (how == 1) { a.f = s->f->byValue(a.mem); op = "pass by value"; }
        else { a.f = const_cast<O*>(s)->f->moveTo(a.mem); op = "move construction"; } }
      c.note << k << " " << op << " " << a.d->name << "; ";
      done(op, a.d); kinds |= 1u << how;
      if (how == 2) { // moved-from objects are only destroyed
        O* m = const_cast<O*>(s);
        { heap::Watch w; m->f->~IFilter(); }
        free(m->mem); m->mem = nullptr; m->f = nullptr;
        done("destruction", a.d);
      }
      continue;
    }
    switch (c.draw(10)) {
      case 0: case 1: case 2: {
        Op op = hist::validSetup(c, *a.d);
        c.note << k << "." << hist::show(*a.d, op) << "; ";
        int r = 0;
        hist::often(c, op, 5000);
        { heap::Watch w; for (int t = 0; t < op.times; ++t) r = hist::trySetup(*a.f, *a.d, op); }
        CHECK(r == 0, "valid setup rejected");
        done("setup", a.d); kinds |= 8; setup = true;
        break;
      }
      case 3: {
        auto x = hist::filterOp(c, 20, 70000).x;
        c.note << k << ".filter x" << x.size() << "; ";
        int t = (int)c.draw(9);
        volatile double sink = 0;
        for (double v : x) {
          double w0 = std::max(-100.0, std::min(100.0, v));
          heap::Watch w;
          switch (t) {
            case 0: sink = a.f->fd(v); break;
            case 1: sink = a.f->ff((float)v); break;
            case 2: sink = (double)a.f->fl(v); break;
            default: sink = a.f->fd(w0); break;
          }
          heap::active = false;
          CHECK(heap::calls == 0, "filter() of " << a.d->name << " calls " << heap::what << "(" << heap::bytes << ")");
        }
        (void)sink; kinds |= 16; c.label("filter");
        break;
      }
      case 4: { c.note << k << ".reset; "; { heap::Watch w; a.f->reset(); } done("reset", a.d); kinds |= 32; break; }
      case 5: { double f = c.real(0, 0.5); c.note << k << ".response; "; std::complex<double> h; { heap::Watch w; h = a.f->response(f); } done("response", a.d); kinds |= 64; break; }
      case 6: {
        double q6[6]; int m = a.f->numStorage();
        { heap::Watch w; int ns = a.f->numStages(); for (int s = 0; s < ns; ++s) a.f->stage(s, q6); for (int s = 0; s < m; ++s) a.f->storage(s, q6); }
        done("coefficient query", a.d); kinds |= 128; break;
      }
      case 7: {
        int j = (int)c.draw(4);
        if (!o[j].f || o[j].d != a.d) break;
        int how = (int)c.draw(2);
        c.note << k << (how ? " swap " : "=") << j << "; ";
        { heap::Watch w; if (how && j != k) a.f->swapWith(*o[j].f); else a.f->assign(*o[j].f); }
        done(how ? "swap" : "assignment", a.d); kinds |= 256; break;
      }
      case 8: { // unwatched
        if (c.flip()) { Op op = hist::invalidSetup(c, *a.d); hist::trySetup(*a.f, *a.d, op); c.note << k << "." << hist::show(*a.d, op) << "; "; }
        else { try { (void)a.f->poleZeros(); } catch (const std::invalid_argument&) {} c.note << k << ".getPoleZeros; "; }
        break;
      }
      default: {
        c.note << "destroy " << k << "; ";
        const Desc* d = a.d;
        { heap::Watch w; a.f->~IFilter(); }
        free(a.mem); a.mem = nullptr; a.f = nullptr;
        done("destruction", d); kinds |= 512;
      }
    }
  }
  c.nontrivial(setup && __builtin_popcount(kinds) >= 3);
}
