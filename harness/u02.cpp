#include <gmlib/memory_utils/endian.h>
#include <cstring>
using namespace memory_utils;
#define X extern "C"
#define D(w, e) \
    X std::uint64_t ld##w##e(const std::uint8_t* p, std::size_t off) { return load##w##_##e(p + off); } \
    X void st##w##e(std::uint8_t* p, std::size_t off, std::uint64_t v) { store##w##_##e(p + off, (std::uint##w##_t)v); } \
    X std::uint64_t rt##w##e(std::uint64_t v) { std::uint8_t b[8]; store##w##_##e(b, (std::uint##w##_t)v); return load##w##_##e(b); }
D(16, le) D(32, le) D(64, le) D(16, be) D(32, be) D(64, be)
#ifdef HAS8LE
D(8, le)
#endif
#ifdef HAS8BE
D(8, be)
#endif
