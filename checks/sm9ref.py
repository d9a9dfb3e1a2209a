"""reference of the SM9 signature scheme (GM/T 0044.2) over the native hash of harness/proto.h, and the jobs' common pieces"""
from proto import *
import pairref
from tower import F12_
from codec import encode, decode
C1, CT = CURVE['g1'], CURVE['g2']
n, p = MOD['n9'], MOD['p9']
SRC = FIELD + ['src/memory_utils/memxor.cpp']
FMT = {0: 'tounc', 1: 'tocmp', 2: 'tomix'}
FNAME = {0: 'uncompressed', 1: 'compressed', 2: 'hybrid'}
SLEN = {0: 65, 1: 33, 2: 65}


def b32(v):
    return v.to_bytes(32, 'big')


def draw(raw):
    v = int.from_bytes(raw, 'big')
    return (v if v < n - 1 else v - (n - 1)) + 1


def hn(H, Z, tag, dl):
    Ha = b''.join(H.h(bytes([tag]) + Z + (i + 1).to_bytes(4, 'big'), dl) for i in range(-(-40 // dl)))[:40]
    return int.from_bytes(Ha, 'big') % (n - 1) + 1


def ha_script(r, v, dl, first):
    """digest overrides that make Hn equal v; first: number of digests computed before"""
    t = v - 1 + (n - 1) * r.choice([0, 1, r.randrange((1 << 320) // n - 1)])
    b = t.to_bytes(40, 'big') + r.randbytes(64)
    return {first + i: b[dl * i:dl * i + dl] for i in range(-(-40 // dl))}


_g = {}


def gen(ks):
    """e(P1, [ks]P2)"""
    if 1 not in _g:
        _g[1] = pairref.pairing(C1.G, CT.G)
    if ks not in _g:
        _g[ks] = F12_.pow(_g[1], ks)
    return _g[ks]


def gt(k):
    return F12_.tobytes(F12_.pow(gen(1), k % n))


def e2(Q):
    """x, y big-endian bytes of a G2 point: higher coefficient first"""
    return b32(Q[0][1]) + b32(Q[0][0]), b32(Q[1][1]) + b32(Q[1][0])


def mpub(ks):
    return CT.mul(ks, CT.G)


def userlog(ks, ident, hid, digests, dl):
    """logarithm of the user key or None"""
    h1 = hn(NHash(digests), ident + bytes([hid]), 1, dl)
    t = (h1 + ks) % n
    return ks * pow(t, -1, n) % n if t else None


def sign(ks, u, msg, rng, digests, dl, fmt):
    """ks: master key, u: logarithm of the user key"""
    H = NHash(digests)
    i = 0
    while True:
        raw = rng[32 * i:32 * i + 32]
        if len(raw) < 32:
            return None
        i += 1
        r = draw(raw)
        h = hn(H, msg + gt(ks * r), 2, dl)
        l = (r - h) % n
        if l:
            return b32(h) + encode(C1, C1.mul(l * u % n, C1.G), FMT[fmt]), i


def verify(ks, sig, msg, ident, hid, digests, dl, slog=None):
    """slog: logarithm of S when known; otherwise S must not decode"""
    if len(sig) < 32:
        return False
    w = decode(C1, sig[32:])
    if w is None or w[1] + 32 != len(sig):
        return False
    H = NHash(digests)
    h1 = hn(H, ident + bytes([hid]), 1, dl)
    h = int.from_bytes(sig[:32], 'big')
    if slog is not None and C1.mul(slog, C1.G) == w[0]:
        wb = gt(slog * (h1 + ks) + ks * h)
    else:
        e = pairref.pairing(w[0], CT.mul((h1 + ks) % n, CT.G))
        wb = F12_.tobytes(F12_.mul(e, F12_.pow(gen(ks), h)))
    return hn(H, msg + wb, 2, dl) == h


# ---- symbolic side
class GTGroup:
    """the target group: elements as logarithms to the base e(P1, P2)"""

    def __init__(self, S, fp12=r'sm9::internal::sm9_fp12_', pre=r'sm9::internal::sm9_pairing'):
        self.S, self.reg, self.tok, self.byt = S, {}, {}, {}
        N = self.N = S.rn
        e = S.e
        G1, G2 = S.G['g1'], S.G['g2']

        def h(rx, fn):
            def g(ex, st, a):
                r = fn(st, *a)
                S.d.assume(st)
                return r
            e.hook(rx, g, required=False)

        def hv(nm, fn):
            h(fp12 + nm, lambda st, r, *a: self.put(st, r, fn(st, *a)))
        h(pre, lambda st, r, P, Q: self.put(st, r, N.mul(G1.aff(st, P), G2.aff(st, Q))))
        hv('mul', lambda st, a, b: N.add(self.get(st, a), self.get(st, b)))
        hv('sqr', lambda st, a: N.scale(self.get(st, a), 2))
        hv('inv', lambda st, a: N.scale(self.get(st, a), -1))
        hv('cpy', lambda st, a: self.get(st, a))
        hv('set_one', lambda st: {})
        hv('pow', self.pow)
        h(fp12 + 'to_bytes', lambda st, o, a: st.store(o, self.bytes(st, self.get(st, a)), 384))
        h(fp12 + 'equal', lambda st, a, b: S.d.zero(N, N.sub(self.get(st, a), self.get(st, b))))

    def pow(self, st, a, k):
        V = rev(st.load(k, 32))
        st.data['scal'] = st.data.get('scal', ()) + (('gt', 'p', V),)
        return self.N.mul(self.S.d.residue(self.N, V), self.get(st, a))

    def put(self, st, p, q):
        k = self.N.key(q) if q else 0
        if k not in self.tok:
            self.tok[k] = tm.fresh('GT', 3072)
            self.reg[self.tok[k]] = q
        st.store(p, self.tok[k], 384)

    def get(self, st, p):
        t = st.load(p, 384)
        if t not in self.reg:
            raise Lost('not an element of the target group')
        return self.reg[t]

    def bytes(self, st, q):
        for p_, t in self.byt.values():
            if p_ == q:
                return t
        for p_, t in self.byt.values():
            if self.S.path(st).zero(self.N.sub(p_, q)):
                return t
        t = tm.fresh('gtb', 3072)
        self.byt[len(self.byt)] = (q, t)
        return t


def setting(L, variant, draws=2, budget=300):
    ll, so = lib(L, variant)
    S = Setting(ll, {'g1': r'sm9::internal::sm9_ec_', 'g2': r'sm9::internal::sm9_ec2_'}, 'p9', 'n9', draws, budget)
    S.gt = GTGroup(S)
    S.hn_ = {}

    def umod(ex, st, a):
        """number::uint256_mod(r, bytes, len, m): contract (N06)"""
        r, src, ln, m = a
        mm = st.load(m, 32)
        if mm != n - 1 or ln.__class__ is not int:
            raise Lost('reduction modulo %s of %s bytes' % (mm, ln))
        st.store(r, reduce_(S, st.load(src, ln), ln), 32)
        S.d.assume(st)
    S.e.hook(r'number::(?:\w+::)*uint256_mod', umod, required=False)
    return S, so


def reduce_(S, t, ln):
    """term of (big-endian bytes t) mod n-1"""
    V = rev(t, ln)
    if V.__class__ is int:
        return V % (n - 1)
    k = (ln, V)
    if k not in S.hn_:
        v = tm.fresh('hn', 256)
        S.d.cons.append(tm.ult(256, v, n - 1))
        for (l2, V2), v2 in S.hn_.items():
            if l2 == ln:
                S.d.cons.append(tm.or_(1, tm.ne(8 * ln, V, V2), tm.eq(256, v, v2)))
        S.hn_[k] = v
    return S.hn_[k]


def hnterm(S, z, tag, dl):
    """integer term H_tag(z); z: [(term, bytes)]"""
    parts = []
    for i in range(-(-40 // dl)):
        ct = int.from_bytes((i + 1).to_bytes(4, 'big'), 'little')
        parts.append(S.digest(dl, [(tag, 1)] + [x for x in z if x[1]] + [(ct, 4)]))
    t = tm.concat([(v, 8 * dl) for v in reversed(parts)])
    t = tm.extract(t, 0, 320)
    return tm.add(256, reduce_(S, t, 40), 1)


def keyrange(D):
    return tm.and_(1, tm.not_(tm.eq(256, D, 0)), tm.ult(256, D, n))


def xy(S, st, g, dl):
    """big-endian coordinate byte terms (x, y) of the element with that logarithm"""
    c = S.G[g].coords(st, dl)
    v = [rev(S.d.value(S.rp, q)) for q in c]
    S.d.assume(st)
    if g == 'g1':
        return v[0], v[1]
    return tm.concat([(v[0], 256), (v[1], 256)]), tm.concat([(v[2], 256), (v[3], 256)])


def nonce(S, i):
    V = S.draw(i)
    return tm.add(256, tm.ite(256, tm.ult(256, V, n - 1), V, tm.sub(256, V, n - 1)), 1)


def catch(jd, f):
    try:
        f()
    except (X.Unsupported, Lost) as ex:
        jd.fail(str(ex))


def i32(q):
    return q.st.ret & 0xffffffff if q.st.ret.__class__ is int else tm.extract(q.st.ret, 0, 32)
