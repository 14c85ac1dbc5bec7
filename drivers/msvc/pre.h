// Selects the branches for MSVC on x86-64, after the standard headers were read as usual.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define _MSC_VER 1900
#define _M_AMD64 100
#define _M_X64 100
#define __assume(x) do { if (!(x)) __builtin_unreachable(); } while (0)
