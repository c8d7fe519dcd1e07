#include "sim.hpp"
#ifndef TYPES
#define TYPES 63
#endif
#define X(n) std::unique_ptr<Exec> make##n(Ctx&, const Plan&);
X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
#ifdef COST
std::unique_ptr<Exec> makeCost(Ctx&, const Plan&);
#endif
std::unique_ptr<Exec> makeExec(int type, Ctx& c, const Plan& p) {
#define X(n) if constexpr (TYPES >> n & 1) if (type == n) return make##n(c, p);
  X(0) X(1) X(2) X(3) X(4) X(5)
#ifdef COST
  if (p.prop == 21) return makeCost(c, p);
#endif
  fprintf(stderr, "cache type %d is not built\n", type); _Exit(3);
}
