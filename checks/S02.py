"""SM2 verification accepts exactly the signatures of the standard"""
from sm2ref import *
C = Check('S02', 'model_checking')


def tryver(so, d, msg, ident, sig, dg, dl, how):
    P = pub(d)
    if how == 'p_verify':
        args = [('buf', b32(P[0])), ('buf', b32(P[1]))]
    else:
        args = [('buf', b32(d))]
    args += [('buf', msg), len(msg), ('buf', ident), len(ident), ('buf', sig)]
    r, b, _ = nat(so, how, args, digests=dg)
    w = verify(P, sig, msg, ident, dg, dl)
    cx = dict(function=how, public_key=[hex(v) for v in P], message=msg.hex(), id=ident.hex()[:200], id_length=len(ident), signature=sig.hex(),
              digests={k: v.hex() for k, v in dg.items()})
    if r is None:
        cx['observed'] = b
        return cx
    if r != int(w):
        cx.update(observed={0: 'rejected', 1: 'accepted'}.get(r, 'throws'), expected='accepted' if w else 'rejected')
        return cx


def hunter(so, ml, il, dl, how):
    def hunt():
        r = random.Random(SEED)
        for rnd in range(4):
            msg, ident = r.randbytes(ml), r.randbytes(il)
            d = r.choice([1, 2, n - 2, r.randrange(1, n - 1)])
            P = pub(d)
            cases = []

            def dig(e):
                if dl < 32:
                    return {}
                v = e % n
                if dl == 32 and v + n < 1 << 256 and r.randrange(2):
                    v += n
                return {1: v.to_bytes(dl, 'big')}
            # choose s, t freely; set e so that r fits
            for rr, ss in ((None, None), (1, None), (n - 1, None), (None, 1), (None, n - 1), (1, n - 1), (n - 1, 1), (1, 1)):
                a = r.randrange(1, n) if rr is None else rr
                s = r.randrange(1, n) if ss is None else ss
                t = (a + s) % n
                Q = C2.add(C2.mul(s, C2.G), C2.mul(t, P)) if t else C2.mul(s, C2.G)
                x = Q[0] if Q else 0
                cases.append((a, s, dig(a - x)))
                if Q and dl >= 32:
                    # digests above n and above p
                    cases.append((a, s, {1: ((a - x) % n).to_bytes(dl, 'big')}))
            # [s]G + [t]P = infinity: s + t d = 0 with t = r + s
            t = r.randrange(1, n)
            s = -t * d % n
            a = (t - s) % n
            if s and a:
                for x in (0, a, 1, -a % n):
                    cases.append((a, s, dig(a - x)))
            # t = 0
            s = r.randrange(1, n)
            Q = C2.mul(s, C2.G)
            cases.append(((n - s) % n, s, dig(n - s - Q[0])))
            # x1 above n
            for k in range(3):
                e = r.choice([n, n + 1, p, (1 << 256) - 1, p + 5])
                k_ = r.randrange(1, n)
                a = (e + C2.mul(k_, C2.G)[0]) % n
                s = pow(1 + d, -1, n) * (k_ - a * d) % n
                if dl == 32 and e < 1 << 256:
                    cases.append((a, s, {1: b32(e)}))
            for a, s, dg in cases:
                sigs = [b32(a) + b32(s)]
                for v in (a + n, s + n):
                    pass
                if a + n < 1 << 256:
                    sigs.append(b32(a + n) + b32(s))
                if s + n < 1 << 256:
                    sigs.append(b32(a) + b32(s + n))
                sigs += [b32(0) + b32(s), b32(a) + b32(0), b32(n) + b32(s), b32(a) + b32(n), b32(a) + b32(n - s), b32((1 << 256) - 1) + b32(s)]
                for sig in sigs:
                    cx = tryver(so, d, msg, ident, sig, dg, dl, how)
                    if cx:
                        return cx
            # r = 0 / s = 0 where everything else fits
            s = r.randrange(1, n)
            Q = C2.add(C2.mul(s, C2.G), C2.mul(s, P))
            if Q:
                cx = tryver(so, d, msg, ident, b32(0) + b32(s), dig(-Q[0]), dl, how)
                if cx:
                    return cx
            a = r.randrange(1, n)
            Q = C2.mul(a, P)
            cx = tryver(so, d, msg, ident, b32(a) + b32(0), dig(a - Q[0]), dl, how)
            if cx:
                return cx
            # an honest one
            w = sign(d, msg, ident, r.randbytes(96), {}, dl)
            cx = tryver(so, d, msg, ident, w[0], {}, dl, how)
            if cx:
                return cx
    return hunt


def verifies(j, L, variant, ml, il, dl, how):
    S, so = setting(L, variant)
    what = '%s %s: message %d bytes, id %d bytes, digest %d' % (variant, how, ml, il, dl)
    jd = Judge(j, S, what, hunter(so, ml, il, dl, how))
    R, d = S.rn, S.d

    def go():
        st = S.ctor()
        mt, it = tm.var('msg', 8 * ml) if ml else 0, tm.var('id', 8 * il) if il else 0
        r_, s_ = tm.var('r', 256), tm.var('s', 256)
        sp = buf(st, tm.concat([(rev(s_), 256), (rev(r_), 256)]), 64)
        tail = [buf(st, mt, ml), ml, buf(st, it, il), il, sp]
        if how == 'p_verify':
            dp, (x, y) = pubkey(S, st)
            args = [buf(st, rev(x), 32), buf(st, rev(y), 32)] + tail
        else:
            V = tm.var('priv', 256)
            st.assume(keyrange(V))
            dp = d.residue(R, V)
            args = [buf(st, rev(V), 32)] + tail
        rng_ok = 1
        for v in (r_, s_):
            rng_ok = tm.and_(1, rng_ok, tm.and_(1, tm.not_(tm.eq(256, v, 0)), tm.ult(256, v, n)))
        rp, sp_ = d.residue(R, r_), d.residue(R, s_)
        seen = [0, 0]
        for q in jd.paths(st, how, args):
            if how != 'p_verify':
                x, y = pubterm(S, q.st, dp)
            t = R.add(rp, sp_)
            Q = R.add(sp_, R.mul(t, dp))
            x1 = pubterm(S, q.st, Q)[0]
            e = epoly(S, eterm(S, it, il, x, y, mt, ml, dl), dl)
            z = lambda f: d.zero(R, f)
            good = tm.and_(1, rng_ok, tm.and_(1, tm.not_(z(t)), tm.and_(1, tm.not_(z(Q)), z(R.sub(R.add(e, d.residue(R, x1)), rp)))))
            ret = tm.extract(q.st.ret, 0, 32) if q.st.ret.__class__ is not int else q.st.ret & 0xffffffff
            acc = tm.eq(32, ret, 1)
            jd.never(q, [tm.and_(1, tm.ne(32, ret, 0), tm.ne(32, ret, 1))], 'verification throws')
            jd.never(q, [acc, tm.not_(good)], 'a signature that does not satisfy the equations is accepted')
            jd.never(q, [tm.not_(acc), good], 'a valid signature is rejected')
            if acc != 0:
                seen[1] += 1
            if acc != 1:
                seen[0] += 1
        if not all(seen):
            j.inconclusive(what + ': not both outcomes are reachable')
    catch(jd, go)
    j.absorb(S.e)


def main():
    Ls = {dl: build('s02_%d' % dl, 'sm2p.cpp', SRC, extra=['-DDIG=%d' % dl]) for dl in ((32,) if C.quick else (32, 20, 64))}
    for v in ('portable', 'simd'):
        sizes = [(0, 0), (1, 1), (32, 16), (64, 16), (200, 100), (3, 8191)]
        if not C.quick:
            sizes += [(a, b) for a in (31, 33, 55, 56, 63, 65, 119, 120, 128) for b in (0, 7, 31, 32)]
        for ml, il in sizes:
            C.job('%s verify %d %d' % (v, ml, il), verifies, Ls[32], v, ml, il, 32, 'p_verify')
        C.job('%s verify by the private key object' % v, verifies, Ls[32], v, 32, 16, 32, 'p_verifyd')
        for dl in Ls:
            if dl != 32:
                C.job('%s digest %d' % (v, dl), verifies, Ls[dl], v, 20, 16, dl, 'p_verify')
    C.bound('verify: every signature, every public key point, every message and id of each listed length')
    C.assume('the hash is an arbitrary function of the bytes fed to it')
    C.assume('scalar multiplication, group law, field operations by contract (E01, E02, N03-N05)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
