"""SM2 signing: equations, retries, and acceptance by verification"""
from sm2ref import *
C = Check('S01', 'model_checking')


def crafted(r, ident, msg, dl, kinds=range(9)):
    """(d, generator output, digest overrides): nonces that must be retried, then a good one"""
    for kind in kinds:
        d = r.choice([1, 2, n - 2, n - 3, r.randrange(1, n - 1)])
        raws = []
        k = r.choice([1, 2, n - 1, r.randrange(1, n)])
        x1 = C2.mul(k, C2.G)[0]
        e = None
        if kind == 0:
            e = -x1 % n                       # r = 0
        elif kind == 1:
            e = (-k - x1) % n                 # r + k = n
        elif kind == 2:
            e = (k * pow(d, -1, n) - x1) % n  # s = 0
        elif kind == 3:
            e = (1 - x1) % n
        elif kind == 4:
            e = (n - 1 - x1) % n
        elif kind == 6:
            e = p + r.getrandbits(16)
        elif kind == 7:
            e = (1 << 256) - 1 - r.getrandbits(r.choice([1, 200]))
        elif kind == 8:
            e = n + r.getrandbits(r.choice([1, 100]))
        raws.append(b32(k - 1 if r.randrange(2) or k - 1 + n - 1 >= 1 << 256 else k - 1 + n - 1))
        raws += [b32(r.choice([r.getrandbits(256), n - 2, n - 1, n, (1 << 256) - 1, 0])) for _ in range(3)]
        dg = {}
        if e is not None:
            if dl >= 32:
                dg[1] = e.to_bytes(dl, 'big')
                if dl == 32 and e + n < 1 << 256 and r.randrange(2):
                    dg[1] = b32(e + n)
        yield d, b''.join(raws), dg


def trysign(so, fn, d, msg, ident, rng, dg, dl):
    args = [('buf', b32(d)), ('buf', msg), len(msg)]
    if fn != 'p_signdef':
        args += [('buf', ident), len(ident)]
    args.append(('buf', bytes(64)))
    dg2 = dict(dg)
    if fn == 'p_signver':
        if 1 in dg2:
            dg2[3] = dg2[1]
    r, b, used = nat(so, fn, args, rng=rng, digests=dg2)
    w = sign(d, msg, ident, rng, dg, dl)
    cx = dict(function=fn, private_key=hex(d), message=msg.hex(), id=ident.hex()[:200], id_length=len(ident), generator_output=rng.hex(),
              digests={k: v.hex() for k, v in dg.items()})
    if r is None:
        cx['observed'] = b
        return cx
    if w is None:
        if r != 2 and 8 * len(ident) > 65535:
            cx.update(observed='accepted', expected='throws')
            return cx
        return None
    if r != (1 if fn == 'p_signver' else 0):
        cx.update(observed='verification rejects' if fn == 'p_signver' and r == 0 else 'throws')
        return cx
    sig = b[-1]
    if sig != w[0] or used != 32 * w[1]:
        cx.update(observed='%s after %d bytes' % (sig.hex(), used), expected='%s after %d bytes' % (w[0].hex(), 32 * w[1]))
        return cx


def hunter(so, fn, ml, il, dl):
    def hunt():
        r = random.Random(SEED)
        for rnd in range(6):
            msg = r.randbytes(ml)
            ident = ID if fn == 'p_signdef' else r.randbytes(il)
            for d, rng, dg in crafted(r, ident, msg, dl):
                cx = trysign(so, fn, d, msg, ident, rng, dg, dl)
                if cx:
                    return cx
    return hunt


def signs(j, L, variant, fn, ml, il, dl, draws):
    S, so = setting(L, variant, draws)
    what = '%s %s: message %d bytes, id %d bytes, digest %d' % (variant, fn, ml, il, dl)
    jd = Judge(j, S, what, hunter(so, fn, ml, il, dl))
    R, d = S.rn, S.d

    def go():
        st = S.ctor()
        V, mt, it = tm.var('priv', 256), tm.var('msg', 8 * ml) if ml else 0, tm.var('id', 8 * il) if il else 0
        st.assume(keyrange(V))
        if fn == 'p_signdef':
            it = int.from_bytes(ID, 'little')
        sp = st.alloc(64)
        args = [buf(st, rev(V), 32), buf(st, mt, ml), ml]
        if fn != 'p_signdef':
            args += [buf(st, it, il), il]
        args.append(sp)
        dp = d.residue(R, V)
        seen = 0
        for q in jd.paths(st, fn, args):
            bad = 8 * il > 65535
            if fn == 'p_signver':
                if jd.never(q, [tm.ne(32, q.st.ret, 1)], 'verification accepts the signature made'):
                    seen += 1
                continue
            if q.st.ret.__class__ is not int:
                raise Lost('symbolic result')
            if q.st.ret == 2:
                if bad:
                    j.ok(structural=True)
                    seen += 1
                else:
                    jd.never(q, [], 'signing throws')
                continue
            if bad:
                jd.never(q, [], 'an id of 65536 bits or more is accepted')
                continue
            m = q.st.data.get('draws', 0)
            sc = [v for c, h, v in q.st.data.get('scal', ()) if h == 'g'][1:]   # the first one makes the public key
            if len(sc) != m or not m:
                raise Lost('%d generator multiplications for %d draws' % (len(sc), m))
            x, y = pubterm(S, q.st, dp)
            e = epoly(S, eterm(S, it, il, x, y, mt, ml, dl), dl)
            for i, k in enumerate(sc):
                jd.same(q, 256, k, nonce(S, q, i), 'nonce %d in 1..n-1 from the generator' % i)
                kp = d.residue(R, k)
                x1 = pubterm(S, q.st, kp)[0]
                r = R.add(e, d.residue(R, x1))
                s1 = R.sub(kp, R.mul(r, dp))
                bad_k = tm.or_(1, d.zero(R, r), tm.or_(1, d.zero(R, R.add(r, kp)), d.zero(R, s1)))
                if i < m - 1:
                    jd.never(q, [tm.not_(bad_k)], 'a usable nonce is dropped')
                    continue
                jd.never(q, [bad_k], 'a degenerate nonce is used')
                u = d.inverse(R, R.add(R.c(1), dp))
                s = R.mul(u, s1)
                rt, s_ = d.value(R, r), d.value(R, s)
                jd.same(q, 256, q.st.load(sp, 32), rev(rt), 'r')
                jd.same(q, 256, q.st.load(sp + 32, 32), rev(s_), 's')
                jd.never(q, [tm.or_(1, tm.eq(256, rt, 0), tm.not_(tm.ult(256, rt, n)))], 'r in range')
                jd.never(q, [tm.or_(1, tm.eq(256, s_, 0), tm.not_(tm.ult(256, s_, n)))], 's in range')
            seen += 1
        if not seen:
            j.inconclusive(what + ': no path completes')
    catch(jd, go)
    j.absorb(S.e)


def main():
    Ls = {dl: build('s01_%d' % dl, 'sm2p.cpp', SRC, extra=['-DDIG=%d' % dl]) for dl in ((32,) if C.quick else (32, 20, 64))}
    for v in ('portable', 'simd'):
        L = Ls[32]
        sizes = [(0, 0), (1, 1), (32, 16), (64, 16), (200, 100), (3, 8191), (3, 8192)]
        if not C.quick:
            sizes += [(a, b) for a in (1, 31, 33, 55, 56, 63, 64, 65, 119, 120, 128) for b in (0, 7, 31, 32)]
        for ml, il in sizes:
            C.job('%s sign %d %d' % (v, ml, il), signs, L, v, 'p_sign', ml, il, 32, 3 if (ml, il) == (32, 16) else 2)
        C.job('%s signdef' % v, signs, L, v, 'p_signdef', 32, 16, 32, 2)
        for ml, il in ((32, 16), (0, 0)) if C.quick else ((32, 16), (0, 0), (65, 33)):
            C.job('%s signver %d %d' % (v, ml, il), signs, L, v, 'p_signver', ml, il, 32, 2)
        for dl in Ls:
            if dl != 32:
                C.job('%s digest %d' % (v, dl), signs, Ls[dl], v, 'p_sign', 20, 16, dl, 2)
                C.job('%s digest %d signver' % (v, dl), signs, Ls[dl], v, 'p_signver', 20, 16, dl, 2)
    C.bound('sign: every private key, message and id of each listed length, every generator output; up to %d nonces' % 3)
    C.assume('the hash is an arbitrary function of the bytes fed to it')
    C.assume('scalar multiplication, group law, field operations by contract (E01, E02, N03-N05)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
