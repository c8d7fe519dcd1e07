#include "exec.hpp"
std::unique_ptr<Exec> make0(Ctx& c, const Plan& p) { return std::unique_ptr<Exec>(new ExecT<TrU<TKey, TVal, THash, TEq>>(c, p)); }
