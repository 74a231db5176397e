#define THIS_UNIT 1
#include "use.h"
#include "types.h"
#include <iostream>
#include <sstream>
#include <string>
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line);
    std::string cmd; s >> cmd;
    if (cmd == "sizes") {
      size_t m[] = {sizeof(Iir::Biquad), sizeof(Iir::Butterworth::LowPass<4>), sizeof(Iir::ChebyshevII::BandStop<5>), sizeof(Iir::RBJ::LowPass)};
      for (int i = 0; i < 4; ++i) if (m[i] != sizeThere(i)) printf("object size differs between the translation units\n");
      continue;
    }
    if (cmd == "invalid") { for (int i = 0; i < 6; ++i) printf("invalid %d %d\n", i, invalidThere(i)); continue; }
    int type, order; size_t n, m;
    s >> type >> order >> n;
    Vec a(n); for (size_t i = 0; i < n; ++i) s >> a[i];
    s >> m; Vec x(m); for (size_t i = 0; i < m; ++i) s >> x[i];
    if (cmd == "here") runHere(type, order, a, x);
    else if (cmd == "there") runThere(type, order, a, x);
    else { // an object that is used in both units
      Both b; setupThere(b, a);
      printf("k"); coefficients(b.f1); coefficients(b.f2); section(b.f3); printf("\ny");
      for (size_t i = 0; i < m; ++i) printf(" %.17g", i % 2 ? filterThere(b, x[i]) : b.f3.filter(b.f2.filter(b.f1.filter(x[i]))));
      printf("\n");
    }
  }
  return 0;
}
