"""SM9 signatures"""
from sm9ref import *
C = Check('P04', 'model_checking')


def trysign(so, ks, u, msg, fmt, rng, dg, dl):
    D, Q = C1.mul(u, C1.G), mpub(ks)
    x, y = e2(Q)
    L = 32 + SLEN[fmt]
    ret, b, used = nat(so, 'p_sign', [('buf', b32(D[0])), ('buf', b32(D[1])), ('buf', x), ('buf', y), ('buf', msg), len(msg), fmt, ('buf', bytes(L)), ('buf', bytes(8))],
                       rng=rng, digests=dg)
    w = sign(ks, u, msg, rng, dg, dl, fmt)
    cx = dict(function='sign', ks=hex(ks), user_key_log=hex(u), message=msg.hex(), format=FNAME[fmt], generator_output=rng.hex(), digests={k: v.hex() for k, v in dg.items()})
    if ret is None:
        return dict(cx, observed=b)
    if w is None:
        return None
    if ret != 0 or b[5] != w[0] or int.from_bytes(b[6], 'little') != L or used != 32 * w[1]:
        return dict(cx, observed='throws' if ret else b[5].hex(), length=int.from_bytes(b[6], 'little'), used=used, expected=w[0].hex())


def signhunt(so, ml, fmt, dl):
    def hunt():
        r = random.Random(SEED)
        nb = -(-40 // dl)
        for k in range(16):
            ks, u = [r.choice([1, 2, n - 1, r.randrange(1, n)]) for _ in range(2)]
            if not k % 2:
                u = r.randrange(1, n)
            raws = [b32(r.choice([r.getrandbits(256), 0, n - 2, n - 1, n, (1 << 256) - 1])) for _ in range(4)]
            dg = {}
            if k % 3 == 1:                          # h = r for the first nonce
                dg = ha_script(r, draw(raws[0]), dl, 0)
            if k % 3 == 2:
                dg = ha_script(r, r.choice([1, n - 1]), dl, 0)
            cx = trysign(so, ks, u, r.randbytes(ml), fmt, b''.join(raws), dg, dl)
            if cx:
                return cx
    return hunt


def signs(j, L, variant, ml, fmt, dl):
    S, so = setting(L, variant)
    jd = Judge(j, S, '%s sign %d bytes, %s, digest %d' % (variant, ml, FNAME[fmt], dl), signhunt(so, ml, fmt, dl))
    R, d = S.rn, S.d

    def go():
        st = S.ctor()
        M = tm.var('msg', 8 * ml) if ml else 0
        up, kp = R.gen('u', nonzero=True), R.gen('ks', nonzero=True)
        dx, dy = xy(S, st, 'g1', up)
        px, py = xy(S, st, 'g2', kp)
        sl = 32 + SLEN[fmt]
        sp, lp = st.alloc(sl), st.alloc(8)
        seen = 0
        for q in jd.paths(st, 'p_sign', [buf(st, dx, 32), buf(st, dy, 32), buf(st, px, 64), buf(st, py, 64), buf(st, M, ml), ml, fmt, sp, lp]):
            if q.st.ret != 0:
                jd.never(q, [tm.ne(32, i32(q), 0)], 'signing throws')
                continue
            m = q.st.data.get('draws', 0)
            for i in range(m):
                k = nonce(S, i)
                rp = d.residue(R, k)
                wb = S.gt.bytes(q.st, R.mul(kp, rp))
                h = hnterm(S, [(M, ml), (wb, 384)], 2, dl)
                l = R.sub(rp, d.residue(R, h))
                z = d.zero(R, l)
                if i < m - 1:
                    jd.never(q, [tm.not_(z)], 'a usable nonce is dropped')
                    continue
                jd.never(q, [z], 'a degenerate nonce is used')
                jd.same(q, 256, q.st.load(sp, 32), rev(h), 'h')
                x, y = xy(S, q.st, 'g1', R.mul(l, up))
                par = tm.zext(8, tm.extract(y, 8 * 31, 1), 1)
                parts = [(4, 8), (x, 256), (y, 256)] if fmt == 0 else [(tm.add(8, 2, par), 8), (x, 256)] if fmt == 1 else [(tm.add(8, 6, par), 8), (x, 256), (y, 256)]
                jd.same(q, 8 * SLEN[fmt], q.st.load(sp + 32, SLEN[fmt]), tm.concat(list(reversed(parts))), 'S')
                jd.same(q, 64, q.st.load(lp, 8), sl, 'length')
            if not m:
                jd.fail('no nonce is drawn')
            seen += 1
        if not seen:
            j.inconclusive(jd.what + ': no path completes')
    catch(jd, go)
    j.absorb(S.e)


def tryver(so, ks, how, sig, msg, ident, hid, dg, dl, slog=None, u=1):
    x, y = e2(mpub(ks))
    tail = [('buf', sig), len(sig), ('buf', msg), len(msg), ('buf', ident), len(ident), hid & 0xffffffff]
    if how == 'p_verify':
        args = [('buf', x), ('buf', y)] + tail
    elif how == 'p_verifym':
        args = [('buf', b32(ks))] + tail
    else:
        D = C1.mul(u, C1.G)
        args = [('buf', b32(D[0])), ('buf', b32(D[1])), ('buf', x), ('buf', y)] + tail
    ret, b, _ = nat(so, how, args, digests=dg)
    w = verify(ks, sig, msg, ident, 1 if hid < 0 else hid, dg, dl, slog)
    cx = dict(function='verify', ks=hex(ks), signature=sig.hex(), message=msg.hex(), id=ident.hex(), hid=hid, digests={k: v.hex() for k, v in dg.items()})
    if ret is None:
        return dict(cx, observed=b)
    if ret != int(w):
        return dict(cx, observed={0: 'rejected', 1: 'accepted'}.get(ret, 'throws'), expected='accepted' if w else 'rejected')


def verhunt(so, sl, ml, il, hid, dl, how):
    def hunt():
        r = random.Random(SEED)
        nb = -(-40 // dl)
        hh = 1 if hid < 0 else hid
        for k in range(8):
            ks = r.choice([1, 2, n - 1, r.randrange(1, n), r.randrange(1, n)])
            msg, ident = r.randbytes(ml), r.randbytes(il)
            fmts = [f for f in range(3) if 32 + SLEN[f] == sl] or [0, 1]
            fmt = r.choice(fmts)
            u = userlog(ks, ident, hh, {}, dl)
            w = sign(ks, u, msg, r.randbytes(64), {}, dl, fmt)[0]
            # an honest one, then the equation forced for a chosen h
            cand = [(w[:sl] + r.randbytes(max(0, sl - len(w))), {}, None)]
            hv = r.choice([1, n - 1, 2, r.randrange(1, n)])
            s = r.randrange(1, n)
            Sg = encode(C1, C1.mul(s, C1.G), FMT[fmt])
            dg = ha_script(r, hv, dl, nb)
            base = (b32(hv) + Sg)[:sl]
            cand.append((base, dg, s))
            for hb in (hv + n, 0, n, hv - 1, hv + 1):
                if hb < 1 << 256:
                    cand.append(((b32(hb) + Sg)[:sl], dg, s))
                    cand.append(((b32(hb) + Sg)[:sl], ha_script(r, n - 1 if hb == 0 else 1, dl, nb), s))
            for t in range(8):
                cand.append((base[:32] + bytes([t]) + base[33:] if sl > 32 else base, dg, s))
            if sl > 40:
                for _ in range(4):
                    b = bytearray(base)
                    b[32 + r.randrange(len(b) - 32)] ^= 1 << r.randrange(8)
                    cand.append((bytes(b), dg, None))
                for i in (0, 31, r.randrange(32), r.randrange(32)):
                    b = bytearray(base)
                    b[i] ^= 1 << r.randrange(6)
                    cand.append((bytes(b), dg, s))
                x = 1
                while sqrtp((x ** 3 + 5) % p, p) is None:
                    x += 1
                e = encode(C1, (x, sqrtp((x ** 3 + 5) % p, p)), FMT[fmt])
                cand.append(((b32(hv) + e[:1] + b32(x + p) + e[33:])[:sl], dg, None))
            for sig, g, s_ in cand:
                sig = sig[:sl] + bytes(max(0, sl - len(sig)))
                cx = tryver(so, ks, how, sig, msg, ident, hid, g, dl, s_)
                if cx:
                    return cx
    return hunt


def verifies(j, L, variant, sl, ml, il, hid, dl, how='p_verify'):
    S, so = setting(L, variant)
    jd = Judge(j, S, '%s %s: signature %d bytes, message %d, id %d, hid %s, digest %d' % (variant, how, sl, ml, il, 'any' if hid is None else hid, dl),
               verhunt(so, sl, ml, il, 7 if hid is None else hid, dl, how))
    R, Rp, d, G = S.rn, S.rp, S.d, S.G['g1']

    def go():
        st = S.ctor()
        M, I, B = [tm.var(nm, 8 * k) if k else 0 for nm, k in (('msg', ml), ('id', il), ('sig', sl))]
        hv = tm.var('hid', 8) if hid is None else 1 if hid < 0 else hid
        ha = tm.zext(32, hv, 8) if hid is None else hid & 0xffffffff
        tail = [buf(st, B, sl), sl, buf(st, M, ml), ml, buf(st, I, il), il, ha]
        if how == 'p_verifym':
            V = tm.var('ks', 256)
            st.assume(keyrange(V))
            kp = d.residue(R, V)
            args = [buf(st, rev(V), 32)] + tail
        else:
            kp = R.gen('ks', nonzero=True)
            px, py = xy(S, st, 'g2', kp)
            args = [buf(st, px, 64), buf(st, py, 64)] + tail
            if how == 'p_verifyu':
                dx, dy = xy(S, st, 'g1', R.gen('u', nonzero=True))
                args = [buf(st, dx, 32), buf(st, dy, 32)] + args
        h1 = hnterm(S, [(I, il), (hv, 1)], 1, dl)
        h1p = R.add(d.residue(R, h1), kp)
        st.assume(tm.not_(d.zero(R, h1p)))
        d.assume(st)
        by = lambda i, k: tm.extract(B, 8 * i, 8 * k)
        seen = set()
        hb = rev(by(0, 32)) if sl >= 32 else 0
        rng_ok = keyrange(hb) if sl >= 32 else 0
        b0 = by(32, 1) if sl > 32 else 0
        is_ = lambda *v: __import__('functools').reduce(lambda a, b: tm.or_(1, a, b), [tm.eq(8, b0, k) for k in v])
        for q in jd.paths(st, how, args):
            ret = i32(q)
            acc = tm.eq(32, ret, 1)
            jd.never(q, [tm.and_(1, tm.ne(32, ret, 0), tm.ne(32, ret, 1))], 'verification throws')
            good = 0

            def eqn(coords):
                s = G.dlog(q.st, coords, trusted=True)
                w = R.add(R.mul(s, h1p), R.mul(kp, d.residue(R, hb)))
                h2 = hnterm(S, [(M, ml), (S.gt.bytes(q.st, w), 384)], 2, dl)
                return tm.and_(1, rng_ok, tm.eq(256, h2, hb))
            if sl == 97:
                xv, yv = rev(by(33, 32)), rev(by(65, 32))
                c = [d.residue(Rp, xv), d.residue(Rp, yv)]
                par = tm.eq(1, tm.extract(b0, 0, 1), tm.extract(yv, 0, 1))
                sel = tm.or_(1, is_(4), tm.and_(1, is_(6, 7), par))
                sel = tm.and_(1, sel, tm.and_(1, tm.ult(256, xv, p), tm.ult(256, yv, p)))
                sel = tm.and_(1, sel, d.zero(Rp, G.curve_eq(c)[0][0]))
                good = tm.and_(1, sel, eqn(c))
            if sl == 65:
                xv = rev(by(33, 32))
                gx = d.residue(Rp, xv)
                nb, y = S.root(G.curve_eq([gx, Rp.c(1)])[1][0])
                val, neg = d.value(Rp, y), d.value(Rp, Rp.scale(y, -1))
                d.assume(q.st)
                base = tm.and_(1, tm.and_(1, is_(2, 3), tm.ult(256, xv, p)), tm.not_(nb))
                for yy, vv in ((y, val), (Rp.scale(y, -1), neg)):
                    sel = tm.and_(1, base, tm.eq(1, tm.extract(b0, 0, 1), tm.extract(vv, 0, 1)))
                    good = tm.or_(1, good, tm.and_(1, sel, eqn([gx, yy])))
            jd.never(q, [acc, tm.not_(good)], 'a signature that does not satisfy the equation is accepted')
            jd.never(q, [tm.not_(acc), good], 'a valid signature is rejected')
            if acc != 0:
                seen.add(1)
            if acc != 1:
                seen.add(0)
        if seen != ({0, 1} if sl in (65, 97) else {0}):
            j.inconclusive(jd.what + ': not all outcomes are reachable')
    catch(jd, go)
    j.absorb(S.e)


def rt(j, L, variant, fmt, ml, il, dl):
    """extract, sign, verify"""
    S, so = setting(L, variant)

    def hunt():
        r = random.Random(SEED)
        for k in range(12):
            ks = r.choice([1, 2, n - 1, r.randrange(1, n)])
            ident, msg, rng, hid = r.randbytes(il), r.randbytes(ml), r.randbytes(96), r.randrange(256)
            L_ = 32 + SLEN[fmt]
            ret, b, _ = nat(so, 'p_round', [('buf', b32(ks)), ('buf', ident), il, hid, ('buf', msg), ml, fmt, ('buf', bytes(L_)), ('buf', bytes(8))], rng=rng)
            if ret != 1:
                return dict(function='gen_SignPrivateKey, sign, verify', ks=hex(ks), id=ident.hex(), hid=hid, message=msg.hex(), generator_output=rng.hex(), format=FNAME[fmt],
                            observed=b if ret is None else 'rejected' if ret == 0 else 'throws')
    jd = Judge(j, S, '%s round trip %s, message %d, id %d, digest %d' % (variant, FNAME[fmt], ml, il, dl), hunt)
    R, d = S.rn, S.d

    def go():
        st = S.ctor()
        V = tm.var('ks', 256)
        st.assume(keyrange(V))
        M, I = [tm.var(nm, 8 * k) if k else 0 for nm, k in (('msg', ml), ('id', il))]
        hid = tm.var('hid', 8)
        h1 = hnterm(S, [(I, il), (hid, 1)], 1, dl)
        st.assume(tm.not_(d.zero(R, R.add(d.residue(R, h1), d.residue(R, V)))))
        d.assume(st)
        sp, lp = st.alloc(32 + SLEN[fmt]), st.alloc(8)
        seen = 0
        for q in jd.paths(st, 'p_round', [buf(st, rev(V), 32), buf(st, I, il), il, tm.zext(32, hid, 8), buf(st, M, ml), ml, fmt, sp, lp]):
            jd.never(q, [tm.ne(32, i32(q), 1)], 'a fresh signature is not accepted')
            seen += 1
        if not seen:
            j.inconclusive(jd.what + ': no path completes')
    catch(jd, go)
    j.absorb(S.e)


def main():
    Ls = {dl: build('p04_%d' % dl, 'sm9p.cpp', SRC, extra=['-DDIG=%d' % dl]) for dl in ((32,) if C.quick else (32, 20, 64))}
    for v in ('portable', 'simd'):
        for dl, L in Ls.items():
            for fmt in range(3):
                for ml in (0, 1, 20, 64) + (() if C.quick else (31, 32, 33, 63, 65, 200)):
                    C.job('%s sign %d %d %d' % (v, fmt, ml, dl), signs, L, v, ml, fmt, dl)
                for ml, il in ((0, 0), (20, 5)) + (() if C.quick else ((1, 1), (64, 32), (33, 100))):
                    C.job('%s round %d %d %d' % (v, fmt, ml, dl), rt, L, v, fmt, ml, il, dl)
            for sl in (97, 65):
                for ml, il in ((0, 0), (1, 1), (20, 5), (64, 40)) + (() if C.quick else ((31, 16), (32, 31), (33, 32), (200, 64))):
                    C.job('%s verify %d %d %d %d' % (v, sl, ml, il, dl), verifies, L, v, sl, ml, il, None, dl)
                C.job('%s verify %d default %d' % (v, sl, dl), verifies, L, v, sl, 8, 5, -1, dl)
                for how in ('p_verifym', 'p_verifyu'):
                    C.job('%s %s %d %d' % (v, how, sl, dl), verifies, L, v, sl, 8, 5, None, dl, how)
            for sl in (0, 1, 31, 32, 33, 34, 63, 64, 66, 95, 96, 98, 99, 128) if C.quick else [k for k in range(0, 140) if k not in (65, 97)]:
                C.job('%s verify %d %d' % (v, sl, dl), verifies, L, v, sl, 8, 5, 1, dl)
    C.bound('sign, verify: every key, nonce, signature of the listed lengths, message and id contents')
    C.assume('the hash is an arbitrary function of the bytes fed to it; reduction modulo n-1 by contract (N06)')
    C.assume('scalar multiplication, group law, pairing (bilinear), GT power, field operations by contract (E01, E02, P01, P06, N03-N05)')
    C.assume('verification: H1(id) + ks is not 0 modulo n (no user key exists for such an identity)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
