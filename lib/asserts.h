// Force-included in every translation unit. Library assertions are on, other
// than in <random>: SMASH passes the bounds of some uniform distributions in
// decreasing order, which is formally undefined but harmless in libstdc++.
#ifdef __cplusplus
#include <algorithm>
#include <cmath>
#include <istream>
#include <numeric>
#include <string>
#include <vector>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(x)
#include <random>
#pragma pop_macro("__glibcxx_assert")
#endif
