"""SM2 encryption and decryption"""
from sm2ref import *
C = Check('S03', 'model_checking')
C1LEN = {0: 65, 1: 33, 2: 65}
ID_OF = {0: 'uncompressed', 1: 'compressed', 2: 'hybrid'}


def tryenc(so, d, pt, fmt, rng, dg, dl):
    P = pub(d)
    L = C1LEN[fmt] + dl + len(pt)
    r, b, used = nat(so, 'p_enc', [('buf', b32(P[0])), ('buf', b32(P[1])), ('buf', pt), len(pt), fmt, ('buf', bytes(L)), ('buf', bytes(8))], rng=rng, digests=dg)
    cx = dict(function='encrypt', public_key=[hex(v) for v in P], plaintext=pt.hex(), format=ID_OF[fmt], generator_output=rng.hex(),
              digests={k: v.hex() for k, v in dg.items()})
    if r is None:
        cx['observed'] = b
        return cx
    w = encrypt(P, pt, fmt, rng, dg, dl)
    if w is None:
        return None
    if r != 0:
        cx['observed'] = 'throws' if r == 2 else 'length differs from the announced one'
        return cx
    if b[3] != w[0] or int.from_bytes(b[4], 'little') != L or used != 32 * w[1]:
        cx.update(observed=b[3].hex(), expected=w[0].hex(), used=used)
        return cx


def trydec(so, d, ct, dg, dl):
    r, b, used = nat(so, 'p_dec', [('buf', b32(d)), ('buf', ct), len(ct), ('buf', bytes(max(1, len(ct)))), ('buf', bytes(8))], digests=dg)
    w = decrypt(d, ct, dg, dl)
    cx = dict(function='decrypt', private_key=hex(d), ciphertext=ct.hex(), digests={k: v.hex() for k, v in dg.items()})
    if r is None:
        cx['observed'] = b
        return cx
    if (r == 0) != (w is not None) or r == 1:
        cx.update(observed={0: 'accepted', 1: 'length differs from plaintext_len'}.get(r, 'throws'), expected='throws' if w is None else w.hex())
        return cx
    if w is not None:
        m = int.from_bytes(b[3], 'little')
        if m != len(w) or b[2][:m] != w:
            cx.update(observed=b[2][:m].hex(), expected=w.hex())
            return cx


def dig_script(r, dl, pl, what):
    """digest overrides of one encryption: KDF blocks come first"""
    nb = -(-pl // dl) if pl else 0
    last = pl - (nb - 1) * dl if nb else 0
    if not nb:
        return {}
    if what == 0:                       # all zero key, then anything
        return {i: bytes(dl) for i in range(nb)}
    if what == 1:                       # zero up to the bytes used
        return {i: bytes(dl) if i < nb - 1 else bytes(last) + r.randbytes(dl - last) for i in range(nb)}
    if what == 2:                       # first block zero only
        return {0: bytes(dl)} if nb > 1 else {}
    if what == 3:                       # only the last used byte is non-zero
        return {i: bytes(dl) if i < nb - 1 else bytes(last - 1) + b'\x01' + bytes(dl - last) for i in range(nb)}
    if what == 4:                       # last block zero only
        return {nb - 1: bytes(dl)} if nb > 1 else {}
    if what == 5:
        return {i: b'\x01' + bytes(dl - 1) if i == 0 else bytes(dl) for i in range(nb)}
    return {}


def enc_hunter(so, pl, fmt, dl):
    def hunt():
        r = random.Random(SEED)
        for rnd in range(3):
            for what in range(7):
                d = r.choice([1, 2, n - 2, r.randrange(1, n - 1)])
                rng = b''.join(r.choice([b32(r.getrandbits(256)), b32(0), b32(n - 2), b32(n - 1), b32((1 << 256) - 1)]) for _ in range(4))
                cx = tryenc(so, d, r.randbytes(pl), fmt, rng, dig_script(r, dl, pl, what), dl)
                if cx:
                    return cx
    return hunt


def dec_hunter(so, cl, dl):
    def hunt():
        r = random.Random(SEED)
        for rnd in range(4):
            for what in range(7):
                for fmt in range(3):
                    pl = cl - C1LEN[fmt] - dl
                    d = r.choice([1, 2, n - 2, r.randrange(1, n - 1)])
                    dg = dig_script(r, dl, max(pl, 0), what)
                    if pl >= 0:
                        dg.pop(None, None)
                        P = pub(d)
                        k = r.randrange(1, n)
                        K, Q = C2.mul(k, C2.G), C2.mul(k, P)
                        H = NHash(dg)
                        t = kdf(H, b32(Q[0]) + b32(Q[1]), pl, dl)
                        m = r.randbytes(pl)
                        ct = point(K, fmt) + H.h(b32(Q[0]) + m + b32(Q[1]), dl) + bytes(a ^ b for a, b in zip(m, t))
                    else:
                        ct = (point(C2.mul(r.randrange(1, n), C2.G), fmt) + r.randbytes(dl))[:cl]
                    muts = [ct]
                    for _ in range(6):
                        if ct:
                            b = bytearray(ct)
                            i = r.randrange(len(b)) if r.randrange(3) else min(len(b) - 1, r.choice([0, C1LEN[fmt] - 1, C1LEN[fmt], C1LEN[fmt] + dl - 1, C1LEN[fmt] + dl, len(b) - 1]))
                            b[i] ^= 1 << r.randrange(8)
                            muts.append(bytes(b))
                    if ct:
                        muts += [bytes([v]) + ct[1:] for v in range(9)]
                        x = int.from_bytes(ct[1:33], 'big')
                        if x + p < 1 << 256 and len(ct) >= 33:
                            muts.append(ct[:1] + b32(x + p) + ct[33:])
                    for c in muts:
                        cx = trydec(so, d, c, dg, dl)
                        if cx:
                            return cx
    return hunt


def kdf_terms(S, z, L, dl):
    """key stream term of L bytes; z: [(term, bytes)]"""
    out = []
    left, ct = L, 1
    while left > 0:
        dg = S.digest(dl, z + [(int.from_bytes(ct.to_bytes(4, 'big'), 'little'), 4)])
        m = min(dl, left)
        out.append((tm.extract(dg, 0, 8 * m), m))
        left -= m
        ct += 1
    return tm.concat([(v, 8 * m) for v, m in reversed(out)]) if out else 0


def point_term(S, st, c, fmt):
    x, y = [S.d.value(S.rp, v) for v in c]
    S.d.assume(st)
    par = tm.zext(8, tm.extract(y, 0, 1), 1)
    if fmt == 0:
        parts = [(4, 8), (rev(x), 256), (rev(y), 256)]
    elif fmt == 1:
        parts = [(tm.add(8, 2, par), 8), (rev(x), 256)]
    else:
        parts = [(tm.add(8, 6, par), 8), (rev(x), 256), (rev(y), 256)]
    return tm.concat(list(reversed(parts)))


def longenc(j, L, variant, fmt, pl, dl):
    """more key stream blocks than fit a byte counter; the first block's first byte is taken as non-zero (the retry is decided by enc)"""
    S, so = setting(L, variant, 1)
    S.firstnonzero = True
    jd = Judge(j, S, '%s encrypt %d bytes, %s, digest %d' % (variant, pl, ID_OF[fmt], dl), enc_hunter(so, pl, fmt, dl))
    catch(jd, lambda: enc1(j, S, jd, fmt, pl, dl))
    j.absorb(S.e)
    j.bound('%s: plaintexts of %d bytes, for key streams whose first byte is not zero' % (variant, pl))


def enc(j, L, variant, fmt, pls, dl, draws=2):
    for pl in pls:
        S, so = setting(L, variant, draws)
        what = '%s encrypt %d bytes, %s, digest %d' % (variant, pl, ID_OF[fmt], dl)
        jd = Judge(j, S, what, enc_hunter(so, pl, fmt, dl))
        catch(jd, lambda: enc1(j, S, jd, fmt, pl, dl))
        j.absorb(S.e)


def enc1(j, S, jd, fmt, pl, dl):
    R, d = S.rn, S.d
    st = S.ctor()
    dp, (x, y) = pubkey(S, st)
    M = tm.var('m', 8 * pl) if pl else 0
    cl = C1LEN[fmt] + dl + pl
    op, lp = st.alloc(cl), st.alloc(8)
    seen = 0
    for q in jd.paths(st, 'p_enc', [buf(st, rev(x), 32), buf(st, rev(y), 32), buf(st, M, pl), pl, fmt, op, lp]):
        if q.st.ret != 0:
            jd.never(q, [tm.ne(32, q.st.ret, 0)] if q.st.ret.__class__ is not int else [], 'encryption throws or the length is not the announced one')
            continue
        m = q.st.data.get('draws', 0)
        sc = [v for c, h, v in q.st.data.get('scal', ()) if h == 'g']
        if len(sc) != m or not m:
            raise Lost('%d generator multiplications for %d draws' % (len(sc), m))
        for i, k in enumerate(sc):
            jd.same(q, 256, k, nonce(S, q, i), 'nonce %d' % i)
            kp = d.residue(R, k)
            Q = R.mul(kp, dp)
            x2, y2 = pubterm(S, q.st, Q)
            t = kdf_terms(S, [(rev(x2), 32), (rev(y2), 32)], pl, dl)
            zero = tm.eq(8 * pl, t, 0) if pl else 0
            if i < m - 1:
                jd.never(q, [tm.not_(zero)], 'a usable nonce is dropped')
                continue
            jd.never(q, [zero], 'an all-zero key stream is used')
            c1 = point_term(S, q.st, S.G['s2'].coords(q.st, kp), fmt)
            c3 = S.digest(dl, [(rev(x2), 32)] + ([(M, pl)] if pl else []) + [(rev(y2), 32)])
            c2 = tm.xor(8 * pl, M, t) if pl else 0
            want = tm.concat(([(c2, 8 * pl)] if pl else []) + [(c3, 8 * dl), (c1, 8 * C1LEN[fmt])])
            jd.same(q, 8 * cl, q.st.load(op, cl), want, 'ciphertext is C1 || C3 || C2')
            jd.same(q, 64, q.st.load(lp, 8), cl, 'ciphertext length')
        seen += 1
    if not seen:
        j.inconclusive(jd.what + ': no path completes')


def dec(j, L, variant, cls, dl):
    for cl in cls:
        S, so = setting(L, variant)
        what = '%s decrypt %d bytes, digest %d' % (variant, cl, dl)
        jd = Judge(j, S, what, dec_hunter(so, cl, dl))
        catch(jd, lambda: dec1(j, S, jd, cl, dl))
        j.absorb(S.e)


def dec1(j, S, jd, cl, dl):
    R, Rp, d, G = S.rn, S.rp, S.d, S.G['s2']
    st = S.ctor()
    V = tm.var('priv', 256)
    st.assume(keyrange(V))
    dp = d.residue(R, V)
    B = tm.var('ct', 8 * cl) if cl else 0
    op, lp = st.alloc(max(1, cl)), st.alloc(8)
    by = lambda i, k: tm.extract(B, 8 * i, 8 * k)
    b0 = by(0, 1) if cl else 0
    is_ = lambda *v: __import__('functools').reduce(lambda a, b: tm.or_(1, a, b), [tm.eq(8, b0, k) for k in v])
    for q in jd.paths(st, 'p_dec', [buf(st, rev(V), 32), buf(st, B, cl), cl, op, lp]):
        ret = tm.extract(q.st.ret, 0, 32) if q.st.ret.__class__ is not int else q.st.ret & 0xffffffff
        acc = tm.eq(32, ret, 0)
        jd.never(q, [tm.eq(32, ret, 1)], 'length differs from plaintext_len')
        alts = []           # (condition that the buffer is a ciphertext of this form, plaintext term, length)

        def body(c1, sel, coords):
            pl = cl - c1 - dl
            dlg = G.dlog(q.st, coords, trusted=True)
            x2, y2 = pubterm(S, q.st, R.mul(dp, dlg))
            t = kdf_terms(S, [(rev(x2), 32), (rev(y2), 32)], pl, dl)
            c2 = by(c1 + dl, pl) if pl else 0
            m = tm.xor(8 * pl, c2, t) if pl else 0
            h = S.digest(dl, [(rev(x2), 32)] + ([(m, pl)] if pl else []) + [(rev(y2), 32)])
            ok = tm.and_(1, sel, tm.eq(8 * dl, h, by(c1, dl)))
            if pl:
                ok = tm.and_(1, ok, tm.not_(tm.eq(8 * pl, t, 0)))
            alts.append((ok, m, pl))
        if cl >= 65 + dl:
            xv, yv = rev(by(1, 32)), rev(by(33, 32))
            c = [d.residue(Rp, xv), d.residue(Rp, yv)]
            par = tm.eq(1, tm.extract(b0, 0, 1), tm.extract(yv, 0, 1))
            sel = tm.or_(1, is_(4), tm.and_(1, is_(6, 7), par))
            sel = tm.and_(1, sel, tm.and_(1, tm.ult(256, xv, p), tm.ult(256, yv, p)))
            body(65, tm.and_(1, sel, d.zero(Rp, G.curve_eq(c)[0][0])), c)
        if cl >= 33 + dl:
            xv = rev(by(1, 32))
            gx = d.residue(Rp, xv)
            nb, y = S.root(G.curve_eq([gx, Rp.c(1)])[1][0])
            val = d.value(Rp, y)
            neg = d.value(Rp, Rp.scale(y, -1))
            S.d.assume(q.st)
            base = tm.and_(1, tm.and_(1, is_(2, 3), tm.ult(256, xv, p)), tm.not_(nb))
            for yy, vv in ((y, val), (Rp.scale(y, -1), neg)):
                body(33, tm.and_(1, base, tm.eq(1, tm.extract(b0, 0, 1), tm.extract(vv, 0, 1))), [gx, yy])
        good = 0
        for ok, m, pl in alts:
            good = tm.or_(1, good, ok)
        jd.never(q, [acc, tm.not_(good)], 'a buffer that is no valid ciphertext is accepted')
        jd.never(q, [tm.not_(acc), good], 'a valid ciphertext is rejected')
        if acc == 0:
            continue
        for ok, m, pl in alts:
            cs = [acc, ok]
            if 0 in cs or j.query(q.st.conds() + S.d.cons + cs)[0] == 'unsat':
                continue
            jd.never(q, cs + [tm.ne(64, q.st.load(lp, 8), pl)], 'plaintext length')
            if pl:
                jd.never(q, cs + [tm.ne(8 * pl, q.st.load(op, pl), m)], 'plaintext')


def rt(j, L, variant, fmt, pls, dl):
    """encrypt, then decrypt with the matching key"""
    for pl in pls:
        S, so = setting(L, variant, 2)
        what = '%s round trip of %d bytes, %s, digest %d' % (variant, pl, ID_OF[fmt], dl)

        def hunt():
            r = random.Random(SEED)
            for _ in range(30):
                d, pt = r.choice([1, 2, n - 2, r.randrange(1, n - 1)]), r.randbytes(pl)
                L_ = C1LEN[fmt] + dl + pl
                rng = r.randbytes(96)
                ret, b, _u = nat(so, 'p_encdec', [('buf', b32(d)), ('buf', pt), pl, fmt, ('buf', bytes(L_)), ('buf', bytes(8)), ('buf', bytes(max(1, pl))), ('buf', bytes(8))], rng=rng)
                cx = dict(function='encrypt, decrypt', private_key=hex(d), plaintext=pt.hex(), format=ID_OF[fmt], generator_output=rng.hex())
                if ret is None:
                    cx['observed'] = b
                    return cx
                if ret != 0 or b[4][:pl] != pt or int.from_bytes(b[5], 'little') != pl:
                    cx['observed'] = 'throws' if ret else b[4].hex()
                    return cx
        jd = Judge(j, S, what, hunt)

        def go():
            st = S.ctor()
            V = tm.var('priv', 256)
            st.assume(keyrange(V))
            M = tm.var('m', 8 * pl) if pl else 0
            cl = C1LEN[fmt] + dl + pl
            cp, lp, op, ol = st.alloc(cl), st.alloc(8), st.alloc(max(1, pl)), st.alloc(8)
            seen = 0
            for q in jd.paths(st, 'p_encdec', [buf(st, rev(V), 32), buf(st, M, pl), pl, fmt, cp, lp, op, ol]):
                ret = q.st.ret
                if ret != 0:
                    if not jd.never(q, [tm.ne(32, ret, 0)], 'decrypting a fresh ciphertext throws') or ret.__class__ is int:
                        continue
                if pl:
                    jd.same(q, 8 * pl, q.st.load(op, pl), M, 'plaintext')
                jd.same(q, 64, q.st.load(ol, 8), pl, 'plaintext length')
                seen += 1
            if not seen:
                j.inconclusive(what + ': no path completes')
        catch(jd, go)
        j.absorb(S.e)


def main():
    Ls = {dl: build('s03_%d' % dl, 'sm2p.cpp', SRC, extra=['-DDIG=%d' % dl]) for dl in ((32,) if C.quick else (32, 20, 64))}
    for dl, L in Ls.items():
        for v in ('portable', 'simd'):
            pls = [0, 1, 2, dl - 1, dl, dl + 1, 2 * dl, 2 * dl + 5] + ([] if C.quick else [3, 7, 8, 9, 15, 16, 17, 3 * dl - 1, 3 * dl, 3 * dl + 1, 4 * dl])
            for fmt in range(3):
                for pl in pls:
                    C.job('%s enc %d %s %d' % (v, fmt, pl, dl), enc, L, v, fmt, [pl], dl)
                for pl in pls if not C.quick else (0, 1, 32, 69):
                    C.job('%s rt %d %d %d' % (v, fmt, pl, dl), rt, L, v, fmt, [pl], dl)
            if dl == 32:
                C.job('%s long' % v, longenc, L, v, 0, 256 * dl + 5, dl)
            a, b = 33 + dl, 65 + dl
            cls = [0, 1, 2, 31, 32, 33, 34, 64, 65, 66, a - 1, a, a + 1, a + dl - 1, a + dl, b - 1, b, b + 1, b + dl, b + dl + 1, b + 2 * dl + 3]
            if not C.quick:
                cls = sorted(set(cls) | set(range(0, b + 2 * dl + 4, 3)) | set(range(b - 3, b + 4)))
            for cl in sorted(set(cls)):
                C.job('%s dec %d %d' % (v, cl, dl), dec, L, v, [cl], dl)
    C.bound('encrypt, decrypt: every key, nonce, plaintext and ciphertext buffer of each listed length')
    C.assume('the hash is an arbitrary function of the bytes fed to it')
    C.assume('scalar multiplication, group law, square root, field operations by contract (E01, E02, E03, N03-N05)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
