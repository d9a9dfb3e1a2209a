"""SM2 keys: generation, setting private and public keys"""
from sm2ref import *
C = Check('K01', 'model_checking')
EDGE = [0, 1, 2, n - 3, n - 2, n - 1, n, n + 1, n + 2, (1 << 256) - 1, (1 << 256) - 2, 1 << 255, 1 << 224, (1 << 32) - 1]


def tryset(so, fn, v):
    r, b, _ = nat(so, fn, [('buf', b32(v)), ('buf', bytes(32)), ('buf', bytes(32)), ('buf', bytes(32))])
    cx = dict(function=fn, private_key=hex(v))
    if r is None:
        cx['observed'] = b
        return cx
    ok = 1 <= v <= n - 2
    if (r == 0) != ok:
        cx['observed'] = 'accepted' if r == 0 else 'rejected'
        return cx
    if ok:
        P = pub(v)
        if b[1] != b32(v) or b[2] != b32(P[0]) or b[3] != b32(P[1]):
            cx.update(observed=[x.hex() for x in b[1:4]], expected=[b32(v).hex(), hex(P[0]), hex(P[1])])
            return cx


def trygen(so, fn, raw):
    r, b, used = nat(so, fn, [('buf', bytes(32)), ('buf', bytes(32)), ('buf', bytes(32))], rng=raw)
    cx = dict(function=fn, generator_output=raw.hex())
    if r != 0:
        cx['observed'] = b if r is None else 'throws'
        return cx
    v = int.from_bytes(b[0], 'big')
    P = pub(v % n) if v % n else None
    if not 1 <= v <= n - 2 or (b32(P[0]), b32(P[1])) != (b[1], b[2]):
        cx.update(private_key=hex(v), public=[b[1].hex(), b[2].hex()])
        return cx


def trypub(so, fn, x, y):
    r, b, _ = nat(so, fn, [('buf', b32(x)), ('buf', b32(y)), ('buf', bytes(32)), ('buf', bytes(32))])
    cx = dict(function=fn, x=hex(x), y=hex(y))
    if r is None:
        cx['observed'] = b
        return cx
    ok = x < p and y < p and C2.on((x, y))
    if (r == 0) != ok:
        cx['observed'] = 'accepted' if r == 0 else 'rejected'
        return cx
    if ok and (b[2], b[3]) != (b32(x), b32(y)):
        cx['observed'] = [b[2].hex(), b[3].hex()]
        return cx


def setpriv(j, L, variant, fn):
    S, so = setting(L, variant)
    what = '%s %s' % (variant, fn)

    def hunt():
        r = random.Random(SEED)
        for v in EDGE + [r.getrandbits(256) for _ in range(20)] + [r.randrange(n - 5, 1 << 256) for _ in range(20)]:
            cx = tryset(so, fn, v)
            if cx:
                return cx
    jd = Judge(j, S, what, hunt)

    def go():
        st = S.ctor()
        V = tm.var('priv', 256)
        ip = buf(st, rev(V), 32)
        o = [st.alloc(32) for _ in range(3)]
        ok = keyrange(V)
        for q in jd.paths(st, fn, [ip] + o):
            r = q.st.ret
            z = tm.eq(32, r, 0)
            jd.never(q, [tm.xor(1, z, ok)], 'accepts exactly 1..n-2')
            if jd.j.query(q.st.conds() + [z])[0] == 'unsat':
                continue
            x, y = pubterm(S, q.st, S.d.residue(S.rn, V))
            for pp, w, nm in zip(o, (V, x, y), ('private key', 'public x', 'public y')):
                jd.same(q, 256, q.st.load(pp, 32), rev(w), nm)
    catch(jd, go)
    j.absorb(S.e)
    j.bound('set_priv: every 256-bit value')


def genpriv(j, L, variant, fn):
    S, so = setting(L, variant, draws=3)
    what = '%s %s' % (variant, fn)

    def hunt():
        r = random.Random(SEED)
        for v in EDGE + [n - 4] + [r.getrandbits(256) for _ in range(20)] + [r.randrange(n - 5, 1 << 256) for _ in range(20)]:
            cx = trygen(so, fn, b32(v) + bytes(range(96)))
            if cx:
                return cx
    jd = Judge(j, S, what, hunt)

    def go():
        st = S.ctor()
        o = [st.alloc(32) for _ in range(3)]
        for q in jd.paths(st, fn, o):
            D = rev(q.st.load(o[0], 32))
            jd.never(q, [tm.not_(keyrange(D))], 'private key in 1..n-2')
            if q.st.ret != 0:
                jd.fail('key generation throws')
                continue
            sc = [V for c, h, V in q.st.data.get('scal', ()) if h == 'g']
            if len(sc) != 1:
                raise Lost('public key not made by one generator multiplication')
            jd.same(q, 256, sc[0], D, 'multiplier is the private key')
            x, y = pubterm(S, q.st, S.d.residue(S.rn, sc[0]))
            for pp, w, nm in zip(o[1:], (x, y), ('public x', 'public y')):
                jd.same(q, 256, q.st.load(pp, 32), rev(w), nm)
    catch(jd, go)
    j.absorb(S.e)
    j.bound('gen_priv: every generator output')


def setpub(j, L, variant, fn):
    S, so = setting(L, variant)
    what = '%s %s' % (variant, fn)

    def hunt():
        r = random.Random(SEED)
        xs = list(range(0, 60)) + [p - 1, p - 2, n, n - 1] + [r.randrange(p) for _ in range(20)]
        for x in xs:
            y = sqrtp((x ** 3 - 3 * x + B2) % p, p)
            for yy in ([y, p - y, y ^ 1] if y is not None else [r.randrange(p)]):
                for X_ in {x, x + p}:
                    for Y_ in {yy, yy + p}:
                        if X_ < 1 << 256 and Y_ < 1 << 256:
                            cx = trypub(so, fn, X_, Y_)
                            if cx:
                                return cx
        for x, y in ((0, 0), (0, 1), (p, p), ((1 << 256) - 1,) * 2):
            cx = trypub(so, fn, x, y)
            if cx:
                return cx
        # small y: roots of x^3 - 3x + b - y^2 are rare to hit; take y from a table of multiples
        for k in range(1, 200):
            P = C2.mul(k, C2.G)
            cx = trypub(so, fn, *P)
            if cx:
                return cx
    jd = Judge(j, S, what, hunt)

    def go():
        st = S.ctor()
        Xv, Yv = tm.var('px', 256), tm.var('py', 256)
        a = [buf(st, rev(Xv), 32), buf(st, rev(Yv), 32)]
        o = [st.alloc(32) for _ in range(2)]
        c = [S.d.residue(S.rp, Xv), S.d.residue(S.rp, Yv)]
        ok = tm.and_(1, tm.and_(1, tm.ult(256, Xv, p), tm.ult(256, Yv, p)), S.d.zero(S.rp, S.G['s2'].curve_eq(c)[0][0]))
        for q in jd.paths(st, fn, a + o):
            z = tm.eq(32, q.st.ret, 0)
            jd.never(q, [tm.xor(1, z, ok)], 'accepts exactly the points of the curve with reduced coordinates')
            if jd.j.query(q.st.conds() + [z])[0] == 'unsat':
                continue
            for pp, w, nm in zip(o, (Xv, Yv), ('x', 'y')):
                jd.same(q, 256, q.st.load(pp, 32), rev(w), 'stored ' + nm)
    catch(jd, go)
    j.absorb(S.e)
    j.bound('set_pub: every pair of 256-bit values')


def main():
    L = build('k01', 'sm2p.cpp', SRC, extra=['-DDIG=32'])
    for v in ('portable', 'simd'):
        for sfx in ('', '_ctor'):
            C.job('%s set%s' % (v, sfx), setpriv, L, v, 'p_set' + sfx)
            C.job('%s gen%s' % (v, sfx), genpriv, L, v, 'p_gen' + sfx)
            C.job('%s pub%s' % (v, sfx), setpub, L, v, 'p_pub' + sfx)
    C.assume('scalar multiplication, point conversion and field operations by contract (E01, E02, N03-N05)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
