#include <nsimd/friendly_but_not_optimized.hpp>
