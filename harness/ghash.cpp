#include <gmlib/ghash/internal/ghash_common.h>
#include <gmlib/ghash/internal/ghash_lut256.h>
#include <gmlib/ghash/internal/ghash_pclmul.h>
#define G(nm, ns)                                                                                                       \
    extern "C" int gh_##nm(unsigned char* o, const unsigned char* h, const unsigned char* in, std::size_t a, std::size_t b, \
                           unsigned reset)                                                                              \
    {                                                                                                                   \
        using namespace ghash::internal::ns;                                                                            \
        GHashCTX c;                                                                                                     \
        ghash_init(&c, h);                                                                                              \
        if (reset)                                                                                                      \
        {                                                                                                               \
            ghash_update_blocks(&c, in + 16 * (a + b), reset);                                                          \
            ghash_reset(&c);                                                                                            \
        }                                                                                                               \
        ghash_update_blocks(&c, in, a);                                                                                 \
        ghash_update_blocks(&c, in + 16 * a, b);                                                                        \
        return ghash_final_block(&c, o, in, 0);                                                                         \
    }                                                                                                                   \
    extern "C" int gp_##nm(unsigned char* o, const unsigned char* h, const unsigned char* in, std::size_t l)            \
    {                                                                                                                   \
        using namespace ghash::internal::ns;                                                                            \
        GHashCTX c;                                                                                                     \
        ghash_init(&c, h);                                                                                              \
        return ghash_final_block(&c, o, in, l);                                                                         \
    }
G(common, common)
G(lut, lut256)
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
G(pclmul, pclmul)
#endif
