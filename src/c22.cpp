// C22: re-tuning a running filter keeps its delay lines.
#include <array>
#include "mca.h"
using namespace pbt;
using namespace gen;
using hist::Op;

RULE("C22", "retune: a random filter of any type is set up, fed samples, set up again (other frequency, order up or down, gain, overload), fed samples, reset, and so on; every output sample is compared with the difference equations of the chosen structure over all stored sections, evaluated in long double with the coefficients in force at that sample and the delay lines carried over. The tolerance is 300 times the largest deviation of six runs in perturbed double arithmetic. repeat: one of two twins gets every setup twice or more (also between samples, also through another overload giving the same design); all outputs have to stay bit-identical. Non-trivial: a setup with different coefficients while the delay lines are not all zero, samples after it, tolerance below 1e-6 of the output.");

static Op nearOp(Case& c, const Desc& d, const Op& last) {
  // one parameter moved a little, as when a knob is turned
  Op o = last;
  if (d.fam == SOS || o.form == Op::DEFN || o.form == Op::DEFHZ) return hist::validSetup(c, d);
  int i = (int)c.draw(d.np);
  double k = c.real(0.8, 1.0);
  o.a[i] *= k;
  return o;
}

PROPERTY("C22", retune, 200000, 1500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj o(d);
  Tuned m(d.st, o->numStorage());
  auto co = storageOf(*o);
  c.note << d.name << ": ";
  int n = 3 + (int)c.draw(9);
  bool live = false, tuned = false, good = false;
  Op last; bool have = false;
  long double mx = 0;
  for (int i = 0; i < n; ++i) {
    int k = i == 0 ? 0 : (int)c.draw(10);
    if (k <= 3) {
      Op op = have && c.flip() ? nearOp(c, d, last) : hist::validSetup(c, d);
      c.note << hist::show(d, op) << "; ";
      if (hist::trySetup(*o, d, op) != 0) { c.note << "rejected; "; continue; }
      last = op; have = true;
      auto cn = storageOf(*o);
      CHECK(cn.size() == co.size(), "the number of stored sections changes");
      bool diff = false;
      for (size_t s = 0; s < cn.size(); ++s) diff |= memcmp(&cn[s], &co[s], sizeof cn[s]) != 0;
      co = cn;
      if (diff && live) tuned = true;
    } else if (k <= 8) {
      auto x = signal(c, 16);
      c.note << "filter x" << x.size() << "; ";
      for (size_t j = 0; j < x.size(); ++j) {
        double y = o->fd(x[j]);
        long double tol, w = m.step(x[j], co, tol);
        if (!std::isfinite((double)w) || !std::isfinite((double)tol) || fabsl(w) > 1e280L) { c.label("overflow"); return; }
        long double e = fabsl(w - y);
        c.metric("difference / tolerance", (double)(e / tol));
        CHECK(e <= tol, "sample " << j << " of call " << i << " (input " << fmt(x[j]) << ") is " << fmt(y) << ", the difference equations with the kept delay lines give " << fmtl(w) << " (tolerance " << fmtl(tol) << ")");
        mx = std::max(mx, fabsl(w));
        if (x[j] != 0) live = true;
        if (tuned && mx > 0 && tol < 1e-6L * mx) good = true;
      }
    } else { o->reset(); m.reset(); live = false; c.note << "reset; "; }
  }
  c.nontrivial(tuned && good);
}

PROPERTY("C22", repeat, 200000, 1500000) {
  Filt q; q.sos = true;
  const Desc& d = desc(c, q);
  Obj a(d), b(d, 0x11);
  c.note << d.name << ": ";
  int n = 3 + (int)c.draw(8), repeats = 0, after = 0;
  Op last; bool have = false;
  for (int i = 0; i < n; ++i) {
    Op op;
    int k = i == 0 ? 0 : (int)c.draw(8);
    if (k <= 1) op = hist::validSetup(c, d);
    else if (k <= 4) op = hist::filterOp(c, 12, 70000);
    else if (k == 5) { op.t = Op::RESET; }
    else if (have) {  // the setup in force once more, on a only
      int times = 1 + (int)c.draw(3);
      if (c.chance(1, 2000)) { times = hist::howLong(c, 70000); c.label("repeated very often"); }
      Op r = last;
      if (r.form == Op::N && d.pole() && c.flip()) { r.form = Op::NO; r.order = d.order; }
      else if (r.form == Op::NO && r.order == d.order && c.flip()) r.form = Op::N;
      for (int t = 0; t < times; ++t) {
        CHECK(hist::trySetup(*a, d, r) == 0, "repeating an accepted setup is rejected");
        ++repeats;
      }
      c.note << "repeat x" << times << "; ";
      auto df = hist::diff(hist::snap(*a, d), hist::snap(*b, d));
      CHECK(df.empty(), "repeating the setup in force: " << df);
      continue;
    } else continue;
    c.note << hist::show(d, op) << "; ";
    auto ra = hist::apply(*a, d, op), rb = hist::apply(*b, d, op);
    if (op.t == Op::SETUP && ra.threw == 0) { last = op; have = true; }
    auto e = hist::diffOut(ra.y, rb.y);
    CHECK(e.empty(), "after repeating the setup in force " << e << " (twin without the repetition)");
    if (repeats && !ra.y.empty()) ++after;
  }
  Op op; op.t = Op::FILTER; op.x = {0, 0, 1, 0, 0};
  auto e = hist::diffOut(hist::apply(*a, d, op).y, hist::apply(*b, d, op).y);
  CHECK(e.empty(), "after repeating the setup in force " << e << " (twin without the repetition)");
  c.nontrivial(repeats > 0);
}
