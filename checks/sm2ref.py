"""reference of the SM2 schemes (GB/T 32918) over the native hash of harness/proto.h, and the jobs' common pieces"""
from proto import *
C2 = CURVE['s2']
n, p = N2, P2
SRC = FIELD + ['src/memory_utils/memxor.cpp']
ID = b'1234567812345678'
A2 = (P2 - 3).to_bytes(32, 'big')
B2B = B2.to_bytes(32, 'big')
GX, GY = G2X.to_bytes(32, 'big'), G2Y.to_bytes(32, 'big')


def b32(v):
    return v.to_bytes(32, 'big')


def pub(d):
    return C2.mul(d, C2.G)


def draw(raw, m=None):
    """nonce of 32 generator bytes"""
    v = int.from_bytes(raw, 'big')
    m = m or n - 1
    return (v if v < m else v - m) + 1


def zid(H, ident, P, dl):
    return H.h((8 * len(ident)).to_bytes(2, 'big') + ident + A2 + B2B + GX + GY + b32(P[0]) + b32(P[1]), dl)


def e_of(H, P, msg, ident, dl):
    return int.from_bytes(H.h(zid(H, ident, P, dl) + msg, dl), 'big')


def sign(d, msg, ident, rng, digests, dl=32):
    """(sig, draws used) or None"""
    if not 1 <= d <= n - 2 or 8 * len(ident) > 65535:
        return None
    H = NHash(digests)
    e = e_of(H, pub(d), msg, ident, dl)
    i = 0
    while True:
        raw = rng[32 * i:32 * i + 32]
        if len(raw) < 32:
            return None
        i += 1
        k = draw(raw)
        x1 = C2.mul(k, C2.G)[0]
        r = (e + x1) % n
        if r == 0 or (r + k) % n == 0:
            continue
        s = pow(1 + d, -1, n) * (k - r * d) % n
        if s:
            return b32(r) + b32(s), i


def verify(P, sig, msg, ident, digests, dl=32):
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if not (1 <= r < n and 1 <= s < n):
        return False
    t = (r + s) % n
    if not t:
        return False
    H = NHash(digests)
    e = e_of(H, P, msg, ident, dl)
    Q = C2.add(C2.mul(s, C2.G), C2.mul(t, P))
    return Q is not None and (e + Q[0]) % n == r


def kdf(H, z, L, dl):
    out = b''
    ct = 1
    while len(out) < L:
        out += H.h(z + ct.to_bytes(4, 'big'), dl)
        ct += 1
    return out[:L]


def point(P, fmt):
    if fmt == 0:
        return b'\x04' + b32(P[0]) + b32(P[1])
    if fmt == 1:
        return bytes([2 + (P[1] & 1)]) + b32(P[0])
    return bytes([6 + (P[1] & 1)]) + b32(P[0]) + b32(P[1])


def encrypt(P, pt, fmt, rng, digests, dl=32):
    H = NHash(digests)
    i = 0
    while True:
        raw = rng[32 * i:32 * i + 32]
        if len(raw) < 32:
            return None
        i += 1
        k = draw(raw)
        K = C2.mul(k, C2.G)
        Q = C2.mul(k, P)
        t = kdf(H, b32(Q[0]) + b32(Q[1]), len(pt), dl)
        if pt and not any(t):
            continue
        c2 = bytes(a ^ b for a, b in zip(pt, t))
        c3 = H.h(b32(Q[0]) + pt + b32(Q[1]), dl)
        return point(K, fmt) + c3 + c2, i


def decrypt(d, ct, digests, dl=32):
    if not ct or ct[0] not in (2, 3, 4, 6, 7):
        return None
    from codec import decode
    cl = 33 if ct[0] in (2, 3) else 65
    if len(ct) < cl + dl:
        return None
    w = decode(C2, ct[:cl])
    if w is None or w[1] != cl:
        return None
    H = NHash(digests)
    Q = C2.mul(d, w[0])
    c3, c2 = ct[cl:cl + dl], ct[cl + dl:]
    t = kdf(H, b32(Q[0]) + b32(Q[1]), len(c2), dl)
    if c2 and not any(t):
        return None
    pt = bytes(a ^ b for a, b in zip(c2, t))
    if H.h(b32(Q[0]) + pt + b32(Q[1]), dl) != c3:
        return None
    return pt


def setting(L, variant, draws=2, budget=300):
    ll, so = lib(L, variant)
    S = Setting(ll, {'s2': r'sm2::internal::sm2_ec_'}, 'p2', 'n2', draws, budget)
    return S, so


def keyrange(D):
    """1 <= D <= n-2"""
    return tm.and_(1, tm.not_(tm.eq(256, D, 0)), tm.ult(256, D, n - 1))


def pubterm(S, st, dl):
    """(x, y) byte terms of the point with that logarithm"""
    c = S.G['s2'].coords(st, dl)
    v = [S.d.value(S.rp, q) for q in c]
    S.d.assume(st)
    return v


def pubkey(S, st):
    """a public key: any point of the group; integer coordinates (symbols)"""
    dp = S.rn.gen('dP', nonzero=True)
    return dp, pubterm(S, st, dp)


def nonce(S, q, i):
    """reference nonce of draw i"""
    V = S.draw(i)
    return tm.add(256, tm.ite(256, tm.ult(256, V, n - 1), V, tm.sub(256, V, n - 1)), 1)


def catch(jd, f):
    try:
        f()
    except (X.Unsupported, Lost) as ex:
        jd.fail(str(ex))


def tprefix(ilen):
    return [(((8 * ilen) >> 8) & 0xff | ((8 * ilen) & 0xff) << 8, 2)]


def zterm(S, idt, il, x, y, dl):
    """digest term of the identity block"""
    le = lambda b: int.from_bytes(b, 'little')
    t = tprefix(il) + ([(idt, il)] if il else []) + [(le(A2), 32), (le(B2B), 32), (le(GX), 32), (le(GY), 32), (rev(x), 32), (rev(y), 32)]
    return S.digest(dl, t)


def eterm(S, idt, il, x, y, mt, ml, dl):
    return S.digest(dl, [(zterm(S, idt, il, x, y, dl), dl)] + ([(mt, ml)] if ml else []))


def epoly(S, dig, dl):
    V = rev(dig, dl)
    if dl == 32:
        return S.d.residue(S.rn, V)
    k = (n, ('ex', dl, V))
    if k not in S.d.fb:
        S.d.fb[k] = S.rn.gen('rex%d' % len(S.d.fb))
    return S.d.fb[k]
