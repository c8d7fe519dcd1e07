#include "exec.hpp"
std::unique_ptr<Exec> make4(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrT<std::chrono::duration<double, std::milli>, int, int, std::hash<int>, std::equal_to<int>>>(c, p)); }
