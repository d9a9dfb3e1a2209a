#include <gmlib/memory_utils/memxor.h>
#include <utility>
using namespace memory_utils;
extern "C" void h_n(void* o, const void* a, const void* b, std::size_t n) { memxor_n(o, a, b, n); }
#define NT 700
template <std::size_t N> static void tx(void* o, const void* a, const void* b) { memxor<N>(o, a, b); }
typedef void (*fp)(void*, const void*, const void*);
template <std::size_t... I> struct tab { static constexpr fp t[] = {&tx<I>...}; };
template <std::size_t... I> static fp get(std::size_t n, std::index_sequence<I...>)
{
    static const fp t[] = {&tx<I>...};
    return t[n];
}
#ifdef CHUNKED
#endif
extern "C" void h_t(void* o, const void* a, const void* b, std::size_t n) { get(n, std::make_index_sequence<NT>{})(o, a, b); }
