/* standard headers first, with clang's own macros; the library then sees the GCC view */
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstddef>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cassert>
#include <algorithm>
#include <iostream>
#include <iomanip>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <map>
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <float.h>
#include <limits.h>
#include <errno.h>
#include <sys/types.h>
#if __cplusplus >= 201103L
#include <array>
#include <functional>
#include <tuple>
#include <type_traits>
#include <cstdint>
#include <stdint.h>
#endif
#if __cplusplus >= 202002L
#include <concepts>
#endif
#if defined(__x86_64__) && !defined(NSIMD_NO_IMMINTRIN)
#include <immintrin.h>
#endif
#undef __clang__
