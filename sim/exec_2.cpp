#include "exec.hpp"
std::unique_ptr<Exec> make2(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrT<std::chrono::seconds, TKey, TVal, THash, TEq>>(c, p)); }
