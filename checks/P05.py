"""SM9 hash-to-range, master keys and user key extraction"""
from sm9ref import *
C = Check('P05', 'model_checking')
EDGE = (0, 1, n - 1, n, n - 2, n + 1, (1 << 256) - 1, 2, 1 << 255)


def hnhunt(so, l1, l2, tag, dl):
    def hunt():
        r = random.Random(SEED)
        for k in range(60):
            z1, z2 = r.randbytes(l1), r.randbytes(l2)
            dg = {} if k % 2 else ha_script(r, r.choice([1, 2, n - 1, n - 2, r.randrange(1, n)]), dl, 0)
            ret, b, _ = nat(so, 'p_hn', [('buf', bytes(32)), ('buf', z1), l1, ('buf', z2), l2, tag], digests=dg)
            w = hn(NHash(dg), z1 + z2, tag, dl)
            if ret is None or b[0] != b32(w):
                return dict(function='sm9_Hn', Z1=z1.hex(), Z2=z2.hex(), tag=tag, digests={k: v.hex() for k, v in dg.items()}, observed=b if ret is None else b[0].hex(), expected=hex(w))
    return hunt


def hashes_to(j, L, variant, l1, l2, dl):
    for tag in (1, 2):
        S, so = setting(L, variant)
        jd = Judge(j, S, '%s Hn, tag %d, %d + %d bytes, digest %d' % (variant, tag, l1, l2, dl), hnhunt(so, l1, l2, tag, dl))

        def go():
            st = S.ctor()
            z1, z2 = tm.var('z1', 8 * l1) if l1 else 0, tm.var('z2', 8 * l2) if l2 else 0
            o = st.alloc(32)
            for q in jd.paths(st, 'p_hn', [o, buf(st, z1, l1), l1, buf(st, z2, l2), l2, tag]):
                w = hnterm(S, [(z1, l1), (z2, l2)], tag, dl)
                jd.same(q, 256, q.st.load(o, 32), rev(w), 'value')
                jd.never(q, [tm.not_(keyrange(rev(q.st.load(o, 32))))], 'value in 1..n-1')
        catch(jd, go)
        j.absorb(S.e)


def mhunt(so, fn):
    def hunt():
        r = random.Random(SEED)
        for k in range(40):
            v = EDGE[k] if k < len(EDGE) else r.getrandbits(256)
            raw = b32(v)
            o = [('buf', bytes(32)), ('buf', bytes(64)), ('buf', bytes(64))]
            if 'gen' in fn:
                ret, b, used = nat(so, fn, o, rng=raw)
                d, b = draw(raw), b and [b'', *b] if b.__class__ is not str else b
            else:
                ret, b, used = nat(so, fn, [('buf', raw)] + o)
                d, used = (v if 1 <= v < n else None), 32
            cx = dict(function=fn, input=raw.hex())
            if ret is None:
                return dict(cx, observed=b)
            if d is None:
                if ret != 2:
                    return dict(cx, observed='accepted')
                continue
            x, y = e2(mpub(d))
            if ret != 0 or b[1] != b32(d) or b[2] != x or b[3] != y or used != 32:
                return dict(cx, observed='throws' if ret else [t.hex() for t in b[1:]], expected=[b32(d).hex(), x.hex(), y.hex()])
    return hunt


def master(j, L, variant, fn):
    S, so = setting(L, variant)
    d = S.d
    jd = Judge(j, S, '%s %s' % (variant, fn), mhunt(so, fn))

    def go():
        st = S.ctor()
        V = tm.var('ks', 256)
        o = [st.alloc(32), st.alloc(64), st.alloc(64)]
        g = 'gen' in fn
        seen = set()
        for q in jd.paths(st, fn, o if g else [buf(st, rev(V), 32)] + o):
            want = nonce(S, 0) if g else V
            ok = 1 if g else keyrange(V)
            jd.never(q, [tm.not_(ok), tm.ne(32, i32(q), 2)], 'a key outside 1..n-1 is accepted')
            jd.never(q, [ok, tm.ne(32, i32(q), 0)], 'a valid key is rejected')
            if i32(q) != 0:
                seen.add(0)
                continue
            seen.add(1)
            if g and q.st.data.get('draws') != 1:
                jd.fail('draws')
            got = rev(q.st.load(o[0], 32))
            jd.same(q, 256, got, want, 'private key')
            jd.never(q, [tm.not_(keyrange(got))], 'private key in 1..n-1')
            x, y = xy(S, q.st, 'g2', d.residue(S.rn, want))
            jd.same(q, 512, q.st.load(o[1], 64), x, 'Ppub x')
            jd.same(q, 512, q.st.load(o[2], 64), y, 'Ppub y')
        if 1 not in seen or (not g and 0 not in seen):
            j.inconclusive(jd.what + ': not both outcomes are reachable')
    catch(jd, go)
    j.absorb(S.e)


def exhunt(so, il, hid, dl):
    def hunt():
        r = random.Random(SEED)
        for k in range(14):
            ks = r.choice([1, 2, n - 1, r.randrange(1, n)])
            ident = r.randbytes(il)
            h = {0: -ks % n, 1: (1 - ks) % n, 2: (-1 - ks) % n}.get(k, r.randrange(1, n)) or 1
            dg = ha_script(r, h, dl, 0) if k < 7 else {}
            hh = 1 if hid < 0 else hid
            ret, b, _ = nat(so, 'p_extract', [('buf', b32(ks)), ('buf', ident), il, hid & 0xffffffff, ('buf', bytes(32)), ('buf', bytes(32)), ('buf', bytes(64)), ('buf', bytes(64))], digests=dg)
            u = userlog(ks, ident, hh, dg, dl)
            cx = dict(function='gen_SignPrivateKey', ks=hex(ks), id=ident.hex(), hid=hid, digests={k: v.hex() for k, v in dg.items()})
            if ret is None:
                return dict(cx, observed=b)
            if u is None:
                if ret != 2:
                    return dict(cx, observed='accepted', expected='throws')
                continue
            D = C1.mul(u, C1.G)
            x, y = e2(mpub(ks))
            w = [b32(D[0]), b32(D[1]), x, y]
            if ret != 0 or list(b[2:6]) != w:
                return dict(cx, observed='throws' if ret else [t.hex() for t in b[2:6]], expected=[t.hex() for t in w])
    return hunt


def extract(j, L, variant, il, hid, dl):
    S, so = setting(L, variant)
    d, R = S.d, S.rn
    jd = Judge(j, S, '%s user key, id %d bytes, hid %s, digest %d' % (variant, il, hid if hid is not None else 'any', dl), exhunt(so, il, 3 if hid is None else hid, dl))

    def go():
        st = S.ctor()
        V = tm.var('ks', 256)
        st.assume(keyrange(V))
        I = tm.var('id', 8 * il) if il else 0
        hv = tm.var('hid', 8) if hid is None else hid
        ha = tm.zext(32, hv, 8) if hid is None else hid & 0xffffffff
        o = [st.alloc(k) for k in (32, 32, 64, 64)]
        seen = set()
        hb = hv if hid is None else 1 if hid < 0 else hid
        h1 = hnterm(S, [(I, il), (hb, 1)], 1, dl)
        for q in jd.paths(st, 'p_extract', [buf(st, rev(V), 32), buf(st, I, il), il, ha] + o):
            ksp = d.residue(R, V)
            t = R.add(d.residue(R, h1), ksp)
            z = d.zero(R, t)
            jd.never(q, [z, tm.ne(32, i32(q), 2)], 'H1 + ks = 0 is not rejected')
            jd.never(q, [tm.not_(z), tm.ne(32, i32(q), 0)], 'a usable identity is rejected')
            if i32(q) != 0:
                seen.add(0)
                continue
            seen.add(1)
            u = R.mul(ksp, d.inverse(R, t))
            w = xy(S, q.st, 'g1', u) + xy(S, q.st, 'g2', ksp)
            for a, k, v, nm in zip(o, (32, 32, 64, 64), w, ('dsA x', 'dsA y', 'Ppub x', 'Ppub y')):
                jd.same(q, 8 * k, q.st.load(a, k), v, nm)
        if seen != {0, 1}:
            j.inconclusive(jd.what + ': not both outcomes are reachable')
    catch(jd, go)
    j.absorb(S.e)


def main():
    Ls = {dl: build('p05_%d' % dl, 'sm9p.cpp', SRC, extra=['-DDIG=%d' % dl]) for dl in ((32, 20) if C.quick else (32, 20, 64, 48, 40))}
    for v in ('portable', 'simd'):
        for dl, L in Ls.items():
            for l1, l2 in [(0, 0), (0, 1), (1, 0), (5, 1), (20, 384), (16, 1)] + ([] if C.quick else [(k, 1) for k in (31, 32, 33, 55, 63, 64, 100, 256)] + [(k, 384) for k in (0, 1, 64)]):
                C.job('%s Hn %d %d %d' % (v, l1, l2, dl), hashes_to, L, v, l1, l2, dl)
        for fn in ('p_mset', 'p_mset_ctor', 'p_mgen', 'p_mgen_ctor'):
            C.job('%s %s' % (v, fn), master, Ls[32], v, fn)
        for il in (0, 1, 5, 16, 40) + (() if C.quick else (31, 32, 33, 64, 200)):
            C.job('%s extract %d' % (v, il), extract, Ls[32], v, il, None, 32)
        C.job('%s extract default hid' % v, extract, Ls[32], v, 8, -1, 32)
        C.job('%s extract digest 20' % v, extract, Ls[20], v, 8, None, 20)
    C.bound('Hn, master keys, user keys: every key, generator output, hash value and content; input lengths listed')
    C.assume('the hash is an arbitrary function of the bytes fed to it; reduction modulo n-1 by contract (N06)')
    C.assume('scalar multiplication, pairing, field operations by contract (E01, E02, P06, N03-N05)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
