// compiled once per family (REG_BUTTER / REG_CHEB1 / REG_CHEB2), structure
// (REG_ST) and order set (REG_SET)
#include "wrap.h"
#if REG_ST == 0
typedef Iir::DirectFormI ST;
#elif REG_ST == 1
typedef Iir::DirectFormII ST;
#else
typedef Iir::TransposedDirectFormII ST;
#endif
#ifdef REG_BUTTER
#define FN butter
#elif defined(REG_CHEB1)
#define FN cheb1
#else
#define FN cheb2
#endif
#define CAT5(a, b, c, d, e) a##b##c##d##e
#define MK(a, b, c, d, e) CAT5(a, b, c, d, e)
extern "C++" void MK(reg_, FN, REG_ST, _, REG_SET)(RegList& r) {
  StateKind st = (StateKind)REG_ST;
#if REG_SMALL
  addOrders<ST, 1, 2, 3, 4, 5, 8, REG_ST == 0 ? 17 : REG_ST == 1 ? 33 : 11>(r, st);
#elif REG_ST == 1
#if REG_SET == 0
  addOrders<ST, 1, 2, 3, 4, 5, 6, 7>(r, st);
#else
  addOrders<ST, 8, 9, 10, 11, 12, 16, 20, 33, 47>(r, st);
#endif
#else
#if REG_SET == 0
  addOrders<ST, 1, 2, 3, 4>(r, st);
#else
  addOrders<ST, 5, 6, 7, 8, 12, 17>(r, st);
#endif
#endif
}
