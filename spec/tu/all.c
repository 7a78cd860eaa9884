#include <nsimd/nsimd-all.h>
