#include "exec.hpp"
std::unique_ptr<Exec> make3(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrU<int, int, std::hash<int>, std::equal_to<int>>>(c, p)); }
