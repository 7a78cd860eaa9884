#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/tet1d.hpp>
#include <nsimd/modules/spmd.hpp>
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/memory_management.hpp>
#include <nsimd/modules/random/functions.hpp>
