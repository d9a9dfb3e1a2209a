// the hardware steps are replaced by functions the check controls; the generators themselves are the repository's
#define _rdrand32_step orig_rdrand32_step
#define _rdrand64_step orig_rdrand64_step
#define _rdseed32_step orig_rdseed32_step
#define _rdseed64_step orig_rdseed64_step
#include <immintrin.h>
#undef _rdrand32_step
#undef _rdrand64_step
#undef _rdseed32_step
#undef _rdseed64_step
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <random>
extern "C" {
int hw_rand32(unsigned int* p);
int hw_rand64(unsigned long long* p);
int hw_seed32(unsigned int* p);
int hw_seed64(unsigned long long* p);
}
static inline int _rdrand32_step(unsigned int* p) { return hw_rand32(p); }
static inline int _rdrand64_step(unsigned long long* p) { return hw_rand64(p); }
static inline int _rdseed32_step(unsigned int* p) { return hw_seed32(p); }
static inline int _rdseed64_step(unsigned long long* p) { return hw_seed64(p); }
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#include <gmlib/rng/std_rng.h>

#ifdef NATIVE
static unsigned char script[4096];
static std::size_t   nscript, pos, byteno;
static std::uint64_t word(int n)
{
    std::uint64_t r = 0;
    for (int i = 0; i < n; i++)
        r |= (std::uint64_t)(unsigned char)(1 + byteno++ % 250) << 8 * i;
    return r;
}
static bool good() { return pos >= nscript ? (pos++, true) : script[pos++] != 0; }
extern "C" {
void hw_script(const unsigned char* p, std::size_t n)
{
    std::memcpy(script, p, n);
    nscript = n, pos = 0, byteno = 0;
}
std::size_t hw_calls() { return pos; }
int hw_rand32(unsigned int* p) { bool g = good(); *p = g ? (unsigned)word(4) : 0; return g; }
int hw_rand64(unsigned long long* p) { bool g = good(); *p = g ? word(8) : 0; return g; }
int hw_seed32(unsigned int* p) { return hw_rand32(p); }
int hw_seed64(unsigned long long* p) { return hw_rand64(p); }
int  rand() noexcept { return (int)(word(4) & 0x7fffffff); }
void srand(unsigned) noexcept {}
}
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return (unsigned)word(4); }
#endif

struct T12
{
    unsigned char b[12];
};
template <class G>
static int run(unsigned char* o, std::size_t n, int typed)
{
    try
    {
        G        g;
        rng::Rng& r = g;
        if (!typed)
            r.gen(o, n);
        else if (n == 1)
            *o = r.rand<std::uint8_t>();
        else if (n == 4)
        {
            std::uint32_t x = r.rand<std::uint32_t>();
            std::memcpy(o, &x, 4);
        }
        else if (n == 8)
        {
            std::uint64_t x = r.rand<std::uint64_t>();
            std::memcpy(o, &x, 8);
        }
        else if (n == 12)
        {
            T12 x = r.rand<T12>();
            std::memcpy(o, &x, 12);
        }
        return 0;
    }
    catch (...)
    {
        return 1;
    }
}
// two requests to one generator object
template <class G>
static int run2(unsigned char* o, std::size_t n, std::size_t m)
{
    try
    {
        G g;
        g.gen(o, n);
        g.gen(o + n, m);
        return 0;
    }
    catch (...)
    {
        return 1;
    }
}
#define GEN(nm, ...)                                                                                   \
    extern "C" int g_##nm(unsigned char* o, std::size_t n, int t) { return run<__VA_ARGS__>(o, n, t); } \
    extern "C" int h_##nm(unsigned char* o, std::size_t n, std::size_t m) { return run2<__VA_ARGS__>(o, n, m); }
using namespace rng::hardware_rng;
GEN(rand32_0, RdrandRng_32<0>)
GEN(rand32_1, RdrandRng_32<1>)
GEN(rand32_2, RdrandRng_32<2>)
GEN(rand32_10, RdrandRng_32<>)
GEN(rand64_0, RdrandRng_64<0>)
GEN(rand64_1, RdrandRng_64<1>)
GEN(rand64_2, RdrandRng_64<2>)
GEN(rand64_10, RdrandRng_64<>)
GEN(seed32_0, RdseedRng_32<0>)
GEN(seed32_1, RdseedRng_32<1>)
GEN(seed32_2, RdseedRng_32<2>)
GEN(seed32_10, RdseedRng_32<>)
GEN(seed64_0, RdseedRng_64<0>)
GEN(seed64_1, RdseedRng_64<1>)
GEN(seed64_2, RdseedRng_64<2>)
GEN(seed64_10, RdseedRng_64<>)
GEN(std, rng::StdRng)
GEN(cstd, rng::CstdRng)
