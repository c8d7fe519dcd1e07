#include "exec.hpp"
std::unique_ptr<Exec> make1(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrT<std::chrono::duration<double, std::milli>, TKey, TVal, THash, TEq>>(c, p)); }
