#include "exec.hpp"
std::unique_ptr<Exec> make5(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrT<std::chrono::milliseconds, TKey, TVal, THash, TEq>>(c, p)); }
