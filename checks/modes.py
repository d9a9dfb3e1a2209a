import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.script import *
M64 = (1 << 64) - 1
SRC = ['src/memory_utils/memxor.cpp']
GSRC = SRC + ['src/ghash/ghash_lut256.cpp', 'src/ghash/ghash_pclmul.cpp', 'src/ghash/ghash_common.cpp']


def toy_mix(outl, tag, a, b):
    h = 0xcbf29ce484222325
    h = (h ^ (tag & 0xffffffff)) * 0x100000001b3 & M64
    for x in a + b:
        h = (h ^ x) * 0x100000001b3 & M64
    out = b''
    for i in range(outl):
        h ^= h >> 29
        h = (h ^ i) * 0x100000001b3 & M64
        out += bytes([h >> 40 & 255])
    return out


def le(x, n):
    return x.to_bytes(n, 'little')


def bits(cells):
    """term of a byte list (first byte least significant)"""
    return tm.concat([(c, 8) for c in reversed(cells)])


def split(t, n):
    return [tm.extract(t, 8 * i, 8) for i in range(n)]


def ufname(bs, kind):
    return 'E%d_%d' % (bs, kind)


UFS = {}
for bs in (4, 8, 16, 24):
    for kind in (0, 1, 2, 3):
        UFS[ufname(bs, kind)] = lambda k, x, bs=bs, kind=kind: int.from_bytes(toy_mix(bs, kind, le(k, 8), le(x, bs)), 'little')


def E(bs, kind, key, blk):
    """kind 1: encryption, 2 -> decryption is kind 0 (cipher keyed for decryption)"""
    return split(tm.uf(ufname(bs, kind), 8 * bs, [(bits(key), 64), (bits(blk), 8 * bs)]), bs)


def install(e):
    def h(ex, st, a):
        bs, kind = a[1], a[2]
        if kind.__class__ is not int:
            kind = ex.values(st, kind, 4)
            if kind is None or len(kind) != 1:
                raise X.Unsupported('cipher direction not determined')
            kind = kind[0]
        k = st.load(a[3], 8)
        x = st.load(a[4], bs)
        st.store(a[0], tm.uf(ufname(bs, kind), 8 * bs, [(k, 64), (x, 8 * bs)]), bs)
    e.hook('uf_block', h)


def xorb(a, b):
    return [tm.xor(8, x, y) for x, y in zip(a, b)]


def inc(c, width=None):
    """big-endian increment of the last `width` bytes"""
    w = width or len(c)
    t = tm.add(8 * w, tm.concat([(x, 8) for x in c[-w:]]), 1)
    return list(c[:-w]) + [tm.extract(t, 8 * (w - 1 - i), 8) for i in range(w)]


def spec(mode, bs, key, iv, data):
    """-> list of output bytes (full blocks; the stream modes also the tail)"""
    out = []
    enc = mode[-1] == 'e'
    m = mode[:3]
    c = list(iv)
    n = len(data)
    for p in range(0, n, bs):
        b = data[p:p + bs]
        if m in ('ecb', 'cbc') and len(b) < bs:
            return out
        if m == 'ecb':
            o = E(bs, 1 if enc else 0, key, b)
            if not enc:
                o = D(bs, key, b)
        elif m == 'cbc':
            if enc:
                o = c = E(bs, 1, key, xorb(b, c))
            else:
                o = xorb(D(bs, key, b), c)
                c = b
        elif m == 'cfb':
            ks = E(bs, 1, key, c)
            o = xorb(b, ks)
            c = o if enc else b
        elif m == 'ofb':
            c = E(bs, 1, key, c)
            o = xorb(b, c)
        else:
            o = xorb(b, E(bs, 1, key, c))
            c = inc(c)
        out += o
    return out


def D(bs, key, blk):
    return E(bs, 0, key, blk)


def outl_bytes(n):
    return list(le(n, 8))
