from modes import *
import gcm
from gcm import ghash_model, gmul, gf_mul, pad16
SM3SRC = GSRC + ['src/sm3/sm3_common.cpp', 'src/sm3/sm3_yang15.cpp']
A3 = r'sm3::internal::(?:common|yang15)::sm3_'
IV3 = (0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e)
M32 = 0xffffffff


def rol(x, n):
    n &= 31
    return (x << n | x >> (32 - n)) & M32 if n else x


def sm3_cf(V, B):
    """V: 8 ints, B: 64 bytes"""
    W = [int.from_bytes(B[4 * i:4 * i + 4], 'big') for i in range(16)]
    p1 = lambda x: x ^ rol(x, 15) ^ rol(x, 23)
    for i in range(16, 68):
        W.append(p1(W[i - 16] ^ W[i - 9] ^ rol(W[i - 3], 15)) ^ rol(W[i - 13], 7) ^ W[i - 6])
    a, b, c, d, e, f, g, h = V
    for i in range(64):
        t = 0x79cc4519 if i < 16 else 0x7a879d8a
        ss1 = rol((rol(a, 12) + e + rol(t, i)) & M32, 7)
        ss2 = ss1 ^ rol(a, 12)
        ff = a ^ b ^ c if i < 16 else (a & b) | (a & c) | (b & c)
        gg = e ^ f ^ g if i < 16 else (e & f) | (~e & g & M32)
        t1 = (ff + d + ss2 + (W[i] ^ W[i + 4])) & M32
        t2 = (gg + h + ss1 + W[i]) & M32
        d, c, b, a = c, rol(b, 9), a, t1
        h, g, f, e = g, rol(f, 19), e, t2 ^ rol(t2, 9) ^ rol(t2, 17)
    return [x ^ y for x, y in zip(V, (a, b, c, d, e, f, g, h))]


def sm3(msg):
    V = list(IV3)
    n = len(msg)
    m = msg + b'\x80' + b'\0' * ((55 - n) % 64) + (8 * n).to_bytes(8, 'big')
    for i in range(0, len(m), 64):
        V = sm3_cf(V, m[i:i + 64])
    return b''.join(x.to_bytes(4, 'big') for x in V)


def _sm3cf(v, b):
    V = [int.from_bytes(le(v, 32)[4 * i:4 * i + 4], 'big') for i in range(8)]
    return int.from_bytes(b''.join(x.to_bytes(4, 'big') for x in sm3_cf(V, le(b, 64))), 'little')


UFS['sm3cf'] = _sm3cf
for bs in (4, 8, 16, 64, 128):
    UFS['comp%d' % bs] = lambda s, b, bs=bs: int.from_bytes(toy_mix(8, 5, le(s, 8), le(b, bs)), 'little')
    for n in range(bs):
        for ds in (4, 8, 16, 20):
            if n:
                UFS['fin%d_%d' % (ds, n)] = lambda s, b, ds=ds, n=n: int.from_bytes(toy_mix(ds, 1000 + n, le(s, 8), le(b, n)), 'little')
            else:
                UFS['fin%d_%d' % (ds, n)] = lambda s, ds=ds: int.from_bytes(toy_mix(ds, 1000, le(s, 8), b''), 'little')


def toy_fin(ds, st, tail):
    a = [(st, 64)] + ([(bits(tail), 8 * len(tail))] if tail else [])
    return tm.uf('fin%d_%d' % (ds, len(tail)), 8 * ds, a)


def toy_digest(bs, ds, msg):
    st = int.from_bytes(b'\x11' * 8, 'little')
    n = len(msg) // bs * bs
    for i in range(0, n, bs):
        st = tm.uf('comp%d' % bs, 64, [(st, 64), (bits(msg[i:i + bs]), 8 * bs)])
    return split(toy_fin(ds, st, msg[n:]), ds)


def sm3_blocks(V, m):
    for i in range(0, len(m), 64):
        V = split(tm.uf('sm3cf', 256, [(bits(V), 256), (bits(m[i:i + 64]), 512)]), 32)
    return V


def sm3_digest(msg):
    n = len(msg)
    V = list(b''.join(x.to_bytes(4, 'big') for x in IV3))
    return sm3_blocks(V, list(msg) + [0x80] + [0] * ((55 - n) % 64) + list((8 * n).to_bytes(8, 'big')))


def install_hash(e):
    def comp(ex, st, a):
        bs = a[2]
        st.store(a[0], tm.uf('comp%d' % bs, 64, [(st.load(a[0], 8), 64), (st.load(a[1], bs), 8 * bs)]), 8)

    def fin(ex, st, a):
        ds, n = a[1], a[4]
        if n.__class__ is not int:
            raise X.Unsupported('symbolic tail length')
        tail = split(st.load(a[3], n), n) if n else []
        st.store(a[0], toy_fin(ds, st.load(a[2], 8), tail), ds)
    e.hook('uf_comp', comp)
    e.hook('uf_fin', fin)
    ghash_model(e)
    sm3_model(e)


def sm3_model(e):
    """the SM3 primitives by contract (H01): state bytes first, then the bit count"""
    iv = int.from_bytes(b''.join(x.to_bytes(4, 'big') for x in IV3), 'little')

    def init(ex, st, a):
        st.store(a[0], iv, 32)
        st.store(tm.add(64, a[0], 32), 0, 8)

    def upd(ex, st, a):
        n = a[2]
        if n.__class__ is not int:
            raise X.Unsupported('symbolic block count')
        for i in range(n):
            st.store(a[0], tm.uf('sm3cf', 256, [(st.load(a[0], 32), 256), (st.load(tm.add(64, a[1], 64 * i), 64), 512)]), 32)
        c = st.load(tm.add(64, a[0], 32), 8)
        st.store(tm.add(64, a[0], 32), tm.add(64, c, 512 * n), 8)
        return 0

    def fin(ex, st, a):
        n = a[3]
        if n.__class__ is not int:
            raise X.Unsupported('symbolic tail length')
        if n >= 64:
            raise X.Unsupported('a full block in sm3_final_block')
        tail = split(st.load(a[2], n), n) if n else []
        c = tm.add(64, st.load(tm.add(64, a[0], 32), 8), 8 * n)
        m = tail + [0x80] + [0] * ((55 - n) % 64) + [tm.extract(c, 56 - 8 * i, 8) for i in range(8)]
        V = sm3_blocks(split(st.load(a[0], 32), 32), m)
        st.store(tm.add(64, a[0], 32), c, 8)
        st.store(a[1], bits(V), 32)
        return 0
    e.hook(A3 + 'init', init, required=False)
    e.hook(A3 + 'reset', init, required=False)
    e.hook(A3 + 'update_blocks', upd, required=False)
    e.hook(A3 + 'final_block', fin, required=False)


def build_hash(tag, variants):
    import concurrent.futures as cf
    import ctypes
    tmpdir()
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {v: (ex.submit(compile_ir, tag + v, 'hash.cpp', SM3SRC, v), ex.submit(compile_so, tag + v, 'hash.cpp', SM3SRC, v)) for v in variants}
        for v, (a, b) in fs.items():
            try:
                out[v] = (a.result(), b.result())
            except BuildError as e:
                out[v] = e
    sizes = {}
    for v in variants:
        if not isinstance(out[v], Exception):
            L = ctypes.CDLL(out[v][1])
            for n in ('t4', 't8', 't16', 't64', 't128', 'sm3', 'gh', 'm4', 'm8', 'm16', 'm64', 'msm3'):
                sizes[(v, n)] = getattr(L, n + '_size')()
    return out, sizes


def engine(L):
    if isinstance(L, Exception):
        raise L
    ll, so = L
    e = X.Ex(X.Prog(ll), 700)
    install_hash(e)
    return e, so


def feed(s, p, parts, data, digest, final0=False, tag='', ds=None):
    """update with all parts but the last, final with the last (or final without data)"""
    pos = 0
    for i, n in enumerate(parts):
        last = i == len(parts) - 1
        s.buf(tag + 'i%d' % i, n, data[pos:pos + n])
        pos += n
        if last and not final0:
            s.buf(tag + 'dg', len(digest))
            s.call(p + '_final', 'ctx', tag + 'dg', tag + 'i%d' % i, n, ret=0)
        else:
            s.call(p + '_update', 'ctx', tag + 'i%d' % i, n, ret=0)
    if final0:
        s.buf(tag + 'dg', len(digest))
        s.call(p + '_final0', 'ctx', tag + 'dg', ret=0)
    s.expect(tag + 'dg', digest)


PAR = {'t4': (4, 4), 't8': (8, 20), 't16': (16, 8), 't64': (64, 16), 't128': (128, 16), 'sm3': (64, 32), 'gh': (16, 16)}


def digest_of(p, msg):
    if p == 'sm3':
        return sm3_digest(msg)
    return toy_digest(PAR[p][0], PAR[p][1], msg)


def split_list(bs, quick):
    out = []
    step = 1 if bs <= 16 and not quick else 1 if bs <= 8 else 5 if bs == 16 else 21
    ks = sorted(set(range(0, bs, step)) | {0, 1, bs - 1})
    for k in ks:
        ns = set()
        for b in (0, bs, 2 * bs, 3 * bs, 5 * bs):
            for d in (-1, 0, 1, bs - k - 1, bs - k, bs - k + 1, bs // 2):
                if b + d >= 0:
                    ns.add(b + d)
        for n in sorted(ns):
            out.append((k, n))
            out.append((k, n, 0, bs - 1))
            if not quick:
                out.append((k, 0, n, 1, bs + 1))
                out.append((k, n, bs, 2))
    return out
