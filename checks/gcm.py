from modes import *
import M01
A = r'ghash::internal::(?:lut256|pclmul|common)::ghash_'


def gf_mul(x, y):
    """GCM field product of two 128-bit values given as little-endian integers of the 16 bytes"""
    X_ = int.from_bytes(le(x, 16), 'big')
    Y_ = int.from_bytes(le(y, 16), 'big')
    z = 0
    v = Y_
    for i in range(127, -1, -1):
        if X_ >> i & 1:
            z ^= v
        v = v >> 1 ^ (0xe1 << 120 if v & 1 else 0)
    return int.from_bytes(z.to_bytes(16, 'big'), 'little')


UFS['gmul'] = gf_mul


def ghz(y, h, n):
    """y h^n: the state after n zero blocks"""
    while n:
        if n & 1:
            y = gf_mul(y, h)
        h = gf_mul(h, h)
        n >>= 1
    return y


UFS['ghz'] = ghz


def zeros(h, y, n):
    return y if y.__class__ is int and not y or not n else tm.uf('ghz', 128, [(y, 128), (h, 128), (n, 64)])


def gmul(h, x):
    return split(tm.uf('gmul', 128, [(bits(h), 128), (bits(x), 128)]), 16)


def ghash_model(e):
    """GHASH functions by contract: key and state kept in the first 32 bytes of the context"""
    def init(ex, st, a):
        st.store(a[0], st.load(a[1], 16), 16)
        st.store(tm.add(64, a[0], 16), 0, 16)

    def reset(ex, st, a):
        st.store(tm.add(64, a[0], 16), 0, 16)

    def upd(ex, st, a):
        n = a[2]
        if n.__class__ is not int:
            raise X.Unsupported('symbolic block count')
        i0 = 0
        if n > 4096:
            d = st.objs[a[1] >> 32].data
            if d.__class__ is not X.LongBuf:
                raise X.Unsupported('%d blocks at once' % n)
            i0 = min(n, (d.total - len(d.tail) - d.seg - (a[1] & 0xffffffff) + X.HALF) // 16)
            if n - i0 > 64:
                raise X.MemErr('read of %d bytes at offset %d of an input of %d bytes' % (16 * n, d.seg + (a[1] & 0xffffffff) - X.HALF, d.total))
            st.store(tm.add(64, a[0], 16), zeros(st.load(a[0], 16), st.load(tm.add(64, a[0], 16), 16), i0), 16)
        for i in range(i0, n):
            y = st.load(tm.add(64, a[0], 16), 16)
            x = st.load(tm.add(64, a[1], 16 * i), 16)
            st.store(tm.add(64, a[0], 16), tm.uf('gmul', 128, [(st.load(a[0], 16), 128), (tm.xor(128, x, y), 128)]), 16)

    def fin(ex, st, a):
        if a[3] != 0:
            return 0xffffffff
        st.store(a[1], st.load(tm.add(64, a[0], 16), 16), 16)
        return 0
    e.hook(A + 'init', init, required=False)
    e.hook(A + 'reset', reset, required=False)
    e.hook(A + 'update_blocks', upd, required=False)
    e.hook(A + 'final_block', fin, required=False)


def pad16(x):
    return list(x) + [0] * (-len(x) % 16)


def ghash(h, data):
    y = [0] * 16
    for i in range(0, len(data), 16):
        y = gmul(h, xorb(y, data[i:i + 16]))
    return y


def ghash_long(h, pre, z, tail):
    """GHASH of pre || z zero bytes || tail, padded with zeros to whole blocks"""
    k = min(-len(pre) % 16, z)
    a = list(pre) + [0] * k
    z -= k
    if not z:
        return ghash(h, pad16(a + list(tail)))
    y = bits(ghash(h, a))
    y = split(zeros(bits(h), y, z // 16), 16)
    rest = pad16([0] * (z % 16) + list(tail))
    for i in range(0, len(rest), 16):
        y = gmul(h, xorb(y, rest[i:i + 16]))
    return y


def gcm_tag_tail(h, y, blocks):
    for i in range(0, len(blocks), 16):
        y = gmul(h, xorb(y, blocks[i:i + 16]))
    return y


LONG = (1 << 29, (1 << 29) + 32, (1 << 32) + 16, (1 << 32) + 256, (1 << 33) + (1 << 30))


def longjob(j, variant, dec, cfg, zs):
    """AAD and IV longer than 2^29 and 2^32 bytes: zeros with an arbitrary tail"""
    e, so = engine(variant)
    fn = ('gcmd_' if dec else 'gcme_') + cfg
    for z in zs:
        for t in (0, 1, 16, 21):
            for which in ('aad', 'iv'):
                s = Script(j, e, so, 'GCM %s (config %s), %s of %d bytes' % ('decryption' if dec else 'encryption', cfg, which, z + t), UFS)
                s.buf('ctx', SIZES[fn])
                s.call(fn + '_new', 'ctx')
                key = s.sym('key', 8)
                tail = [tm.var('t_%d' % i, 8) for i in range(t)]
                s.long('big', z + t, tail)
                other = s.sym('other', 12 if which == 'aad' else 7)
                h = E(16, 1, key, [0] * 16)
                if which == 'aad':
                    j0 = list(other) + [0, 0, 0, 1]
                    s.call(fn + '_init', 'ctx', 'key', 'other', 12, 'big', z + t, ret=0)
                    y, al = ghash_long(h, [], z, tail), z + t
                else:
                    j0 = gcm_tag_tail(h, ghash_long(h, [], z, tail), [0] * 8 + list((8 * (z + t)).to_bytes(8, 'big')))
                    s.call(fn + '_init', 'ctx', 'key', 'big', z + t, 'other', 7, ret=0)
                    y, al = ghash(h, pad16(other)), 7
                data = [tm.var('d_%d' % i, 8) for i in range(19)]
                c, out = j0, []
                for i in range(0, 19, 16):
                    c = inc(c, 4)
                    out += xorb(data[i:i + 16], E(16, 1, key, c))
                ct = data if dec else out
                y = gcm_tag_tail(h, y, pad16(ct) + list((8 * al).to_bytes(8, 'big')) + list((8 * 19).to_bytes(8, 'big')))
                parts_calls(s, fn, (19,), data, out, xorb(y, E(16, 1, key, j0)), dec, 'good')
                s.run()
                if j.viol:
                    return
    j.absorb(e)
    j.bound('%s %s: AAD and IV of %s (+ 0, 1, 16, 21) bytes: zeros with an arbitrary tail' % (variant, cfg, ', '.join(map(str, zs))))


def countjob(j, variant, dec, cfg):
    """the length block for any number of earlier data bytes.  The object's byte counter is found by behaviour (the words of the object that
    are k, 2k after one and two blocks) and replaced by an arbitrary multiple of 16; the step of one update and the final tag are then
    decided for every value: by induction over the updates, the tag holds the right length for every total length below 2^60"""
    e, so = engine(variant)
    fn = ('gcmd_' if dec else 'gcme_') + cfg
    st = X.State(e)
    var = lambda n, k: [tm.var('%s_%d' % (n, i), 8) for i in range(k)]
    key, iv, aad, d = var('key', 8), var('iv', 12), var('aad', 5), var('d', 16 * 3 + 5)

    def buf(data):
        p = st.alloc(len(data))
        st.putbytes(p, list(data))
        return p
    size = SIZES[fn]
    ctx, out, ol = st.alloc(size), st.alloc(64), st.alloc(8)
    bufs = [buf(key), buf(iv), buf(aad), buf(d)]
    st = e.call1(st, fn + '_new', [ctx])
    st = e.call1(st, fn + '_init', [ctx, bufs[0], bufs[1], 12, bufs[2], 5])
    snap = []
    for i in range(2):
        st = e.call1(st, fn + '_update', [ctx, out, ol, bufs[3] + 16 * i, 16])
        snap.append(st.cells(ctx, size))
    M = tm.var('M', 56)
    L = tm.concat([(0, 4), (M, 56), (0, 4)])
    hits = []
    for n in (8, 4):
        for o in range(0, size - n + 1, n):
            a, b = (s[o:o + n] for s in snap)
            if any(x.__class__ is not int for x in a + b):
                continue
            a, b = int.from_bytes(bytes(a), 'little'), int.from_bytes(bytes(b), 'little')
            if a in (1, 16, 128) and b == 2 * a and not any(p <= o < p + m for p, m, _ in hits):
                hits.append((o, n, a))
    if not hits:
        j.inconclusive('no data length counter found in the object')
        return
    h = E(16, 1, key, [0] * 16)
    j0 = list(iv) + [0, 0, 0, 1]
    c, ks = j0, []
    for i in range(4):
        c = inc(c, 4)
        ks += E(16, 1, key, c)
    ct = d if dec else xorb(d, ks[:53])
    total = tm.add(64, L, 21)
    lens = [0] * 7 + [40] + [tm.extract(total, 53 - 8 * i, 8) if i < 7 else tm.concat([(tm.extract(total, 0, 5), 5), (0, 3)]) for i in range(8)]
    y = ghash(h, pad16(aad) + pad16(ct) + lens)
    tag = xorb(y, E(16, 1, key, j0))
    for o, n, a in hits:
        v = L if a == 16 else tm.concat([(0, 8), (M, 56)]) if a == 1 else tm.concat([(0, 1), (M, 56), (0, 7)])
        st.store(ctx + o, v if n == 8 else tm.extract(v, 0, 32), n)
    st = e.call1(st, fn + '_update', [ctx, out, ol, bufs[3] + 32, 16])
    if dec:
        t = st.alloc(16)
        st.putbytes(t, tag)
        st = e.call1(st, fn + '_settag', [ctx, t])
    paths = e.call(st, fn + '_final', [ctx, out, ol, bufs[3] + 48, 5])
    for p in paths:
        s = p.st
        if p.kind != 'ret':
            bad = [1]
        elif dec:
            bad = [tm.ne(32, s.ret, 0)]
        else:
            q = s.alloc(16)
            s = e.call1(s, fn + '_tag', [ctx, q])
            r = 0
            for i in range(16):
                r = tm.or_(1, r, tm.ne(8, s.load(q + i, 1), tag[i]))
            bad = [r]
        conds = [x for x in s.conds() + bad if not (x.__class__ is int and x)]
        if any(x.__class__ is int for x in conds):
            j.ok(structural=True)
            continue
        # the smallest reachable counterexamples first: they are replayed over a real message of that length
        for lim in (1 << 30, (1 << 32) + 64, 1 << 34, 1 << 62):
            r, env = j.query(conds + [tm.ult(64, L, lim)], uf=True)
            if r != 'unsat':
                break
        if r == 'unsat':
            j.ok()
            continue
        if r == 'sat':
            n = 16 * env.get('M', 0)
            cx = dict(function=fn, data_bytes=n + 21, key=(b'\x07' * 8).hex(), iv=(b'\x09' * 12).hex(), data='zeros')
            if n < 1 << 34:
                R = native(so, [('gcml_' + fn[3:], [('buf', b'\x07' * 8), ('buf', b'\x09' * 12), n + 21, ('buf', b'\xa5' * 16), ('buf', b'\xa5' * 16)])], 400)
                if 'crash' in R or R['ret'][0] & 0xffffffff or R['bufs'][2] != R['bufs'][3]:
                    cx['observed'] = R.get('crash') or ('rejected' if R['ret'][0] & 0xffffffff else R['bufs'][2].hex())
                    cx['expected'] = 'the SP 800-38D tag' if 'crash' in R else R['bufs'][3].hex()
                    j.violation('GCM %s of %d bytes: wrong tag' % ('decryption' if dec else 'encryption', n + 21), cx)
                    return
            j.inconclusive('tag after %d data bytes differs in the model; not reproduced' % (n + 21))
            return
        j.inconclusive('tag for an arbitrary data length: solver undecided')
    j.absorb(e)
    j.bound('%s %s: data of any total length below 2^60 (a multiple of 16, then 21 bytes), by an inductive step on the byte counter' % (variant, cfg))


def gcm_spec(key, iv, aad, data, dec):
    h = E(16, 1, key, [0] * 16)
    if len(iv) == 12:
        j0 = list(iv) + [0, 0, 0, 1]
    else:
        j0 = ghash(h, pad16(iv) + [0] * 8 + list((8 * len(iv)).to_bytes(8, 'big')))
    c = inc(j0, 4)
    out = []
    for i in range(0, len(data), 16):
        out += xorb(data[i:i + 16], E(16, 1, key, c))
        c = inc(c, 4)
    ct = data if dec else out
    s = ghash(h, pad16(aad) + pad16(ct) + list((8 * len(aad)).to_bytes(8, 'big')) + list((8 * len(ct)).to_bytes(8, 'big')))
    return out, xorb(s, E(16, 1, key, j0))


def parts_calls(s, fn, parts, data, want, tag, dec, tagmode, pre=''):
    """update/final calls with expectations; tagmode for decryption: 'good', 'sym'"""
    if dec:
        if tagmode == 'good':
            s.buf(pre + 'tag', 16, tag)
            ret = 0
        else:
            # the supplied tag is the right one xor an arbitrary difference: every 16-byte value, and easy to replay
            t = [tm.var('%sdelta_%d' % (pre, i), 8) for i in range(16)]
            s.buf(pre + 'tag', 16, xorb(tag, t))
            ret = tm.ite(32, tm.eq(128, bits(t), 0), 0, 1)
        s.call(fn + '_settag', pre + 'ctx', pre + 'tag')
    pos = done = 0
    for i, n in enumerate(parts):
        last = i == len(parts) - 1
        s.buf(pre + 'i%d' % i, n, data[pos:pos + n])
        pos += n
        produced = (pos if last else pos // 16 * 16) - done
        s.buf(pre + 'o%d' % i, produced)
        s.buf(pre + 'l%d' % i, 8)
        s.call(fn + ('_final' if last else '_update'), pre + 'ctx', pre + 'o%d' % i, pre + 'l%d' % i, pre + 'i%d' % i, n, ret=ret if last and dec else 0)
        if not (last and dec and tagmode != 'good'):
            s.expect(pre + 'l%d' % i, outl_bytes(produced))
            s.expect(pre + 'o%d' % i, want[done:done + produced])
        done += produced
    if not dec:
        s.buf(pre + 'gt', 16)
        s.call(fn + '_tag', pre + 'ctx', pre + 'gt')
        s.expect(pre + 'gt', tag)


def one(j, e, so, cfg, dec, ivl, aadl, parts, tagmode='good', hist=None, other=None):
    fn = ('gcmd_' if dec else 'gcme_') + cfg
    what = 'GCM %s (config %s), iv %d, aad %d, data %s%s%s%s' % ('decryption' if dec else 'encryption', cfg, ivl, aadl, '+'.join(map(str, parts)),
                                                               ', arbitrary tag' if tagmode == 'sym' else '', ', after %s' % (hist,) if hist else '', ', next to another object' if other else '')
    s = Script(j, e, so, what, UFS)
    s.buf('ctx', SIZES[fn])
    s.call(fn + '_new', 'ctx')
    if hist:
        hiv, haad, hparts = hist
        s.sym('hk', 8), s.sym('hiv', hiv), s.sym('haad', haad)
        s.call(fn + '_init', 'ctx', 'hk', 'hiv', hiv, 'haad', haad, ret=0)
        for i, a in enumerate(hparts):
            m = int(a[1:])
            s.sym('h%d' % i, m), s.buf('ho%d' % i, m + 16), s.buf('hl%d' % i, 8)
            if dec and a[0] == 'f':
                s.sym('htag%d' % i, 16)
                s.call(fn + '_settag', 'ctx', 'htag%d' % i)
            s.call(fn + ('_final' if a[0] == 'f' else '_update'), 'ctx', 'ho%d' % i, 'hl%d' % i, 'h%d' % i, m)
    key, iv, aad = s.sym('key', 8), s.sym('iv', ivl), s.sym('aad', aadl)
    data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
    want, tag = gcm_spec(key, iv, aad, data, dec)
    s.call(fn + '_init', 'ctx', 'key', 'iv', ivl, 'aad', aadl, ret=0)
    if other:
        # a second object of the same type, at work between the calls of the first
        s.buf('xctx', SIZES[fn])
        s.call(fn + '_new', 'xctx')
        s.sym('xkey', 8), s.sym('xiv', 12), s.sym('xaad', 3), s.sym('xd', 21), s.sym('xtag', 16), s.buf('xo', 48), s.buf('xl', 8)
        s.call(fn + '_init', 'xctx', 'xkey', 'xiv', 12, 'xaad', 3, ret=0)
        if dec:
            s.call(fn + '_settag', 'xctx', 'xtag')
        s.call(fn + '_final', 'xctx', 'xo', 'xl', 'xd', 21)
    parts_calls(s, fn, parts, data, want, tag, dec, tagmode)
    s.run()


def engine(variant):
    L = LIB[variant]
    if isinstance(L, Exception):
        raise L
    ll, so = L
    e = X.Ex(X.Prog(ll), 700)
    install(e)
    ghash_model(e)
    return e, so


def rejob(j, variant, mode, cfg):
    e, so = engine(variant)
    dec = mode == 'gcmd'
    H = [(12, 5, ['u%d' % a]) for a in (0, 1, 7, 15, 16, 17, 33)] + [(12, 16, ['u%d' % a, 'f%d' % b]) for a in (0, 3, 20) for b in (0, 1, 14)] + \
        [(7, 3, ['u5']), (33, 0, ['u5', 'f2', 'u1']), (16, 20, []), (12, 3, [])]
    for h in H:
        for ivl, aadl, parts in ((12, 5, (20, 13)), (17, 0, (3, 30))) if C.quick else ((12, 5, (20, 13)), (17, 0, (3, 30)), (8, 33, (0, 40))):
            one(j, e, so, cfg, dec, ivl, aadl, parts, 'good', h)
    j.absorb(e)
    j.bound('%s %s: %d earlier lives, then init; all data' % (variant, mode, len(H)))
