// A second translation unit that includes the module: functions it shares with
// the first one must not clash at link time.
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/random/functions.hpp>
nsimd::packx2<u32> rand_two(nsimd::packx2<u32> a, nsimd::packx1<u32> b) { return nsimd::random::philox_2x32_10(a, b); }
