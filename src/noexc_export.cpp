#include "iface.h"
extern "C" __attribute__((visibility("default"))) const Desc* noexc_registry(size_t* n) {
  *n = registry().size();
  return registry().data();
}
