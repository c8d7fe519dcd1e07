// Force-included: what the project's own build environment does (see /opt/vp/cmake/prelude.hpp),
// i.e. the library's own Optional is used, because its std::optional branch does not compile.
#include <bits/stdc++.h>
#undef __has_include
