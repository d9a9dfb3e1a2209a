from hashes import *
HM = {'m4': 't4', 'm8': 't8', 'm16': 't16', 'm64': 't64', 'msm3': 'sm3'}


def hmac(h, key, msg):
    """RFC 2104 over the hash with an arbitrary compression function"""
    bs, ds = PAR[h]
    k = list(key)
    if len(k) > bs:
        k = digest_of(h, k)[:bs]
    k = k + [0] * (bs - len(k))
    x = lambda c: [tm.xor(8, a, c) for a in k]
    return digest_of(h, x(0x5c) + list(digest_of(h, x(0x36) + list(msg))))


def klens(bs, quick):
    s = {0, 1, bs // 2, bs - 1, bs, bs + 1, bs + bs // 2, 2 * bs - 1, 2 * bs, 2 * bs + 1, 5 * bs + 3}
    if not quick:
        s |= set(range(2 * bs + 2))
    return sorted(s)


def job(j, v, p, kl, sp):
    e, so = engine(LIB[v])
    h = HM[p]
    bs, ds = PAR[h]
    for q, parts in enumerate(sp):
        how = q % 3
        s = Script(j, e, so, '%s %s: key of %d bytes, message split as %s' % (v, p, kl, parts), UFS)
        s.buf('ctx', SIZES[(v, p)])
        key = s.sym('key', kl)
        if how == 0:
            s.call(p + '_newkey', 'ctx', 'key', kl)
        else:
            s.call(p + '_new', 'ctx')
            s.call(p + '_setkey', 'ctx', 'key', kl, ret=0)
        data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
        feed(s, p, parts, data, hmac(h, key, data), final0=how == 2)
        s.run()
    j.absorb(e)
    j.bound('%s %s: key of %d bytes, %d message splits of up to %d bytes' % (v, p, kl, len(sp), max(map(sum, sp))))


def life(j, v, p):
    """set_key after any history gives a fresh MAC under the new key"""
    e, so = engine(LIB[v])
    h = HM[p]
    bs, ds = PAR[h]
    H = [[('u', a)] for a in (0, 1, bs - 1, bs, 3 * bs - 1)] + [[('u', a), ('f', b)] for a in (0, 2) for b in (0, 1, bs)]
    for hist in H:
        for k1, k2 in ((3, bs + 1), (bs + 2, 0), (bs, 2), (2, bs)):
            for parts in ((bs + 1, 2), (0,)):
                s = Script(j, e, so, '%s %s: new key of %d bytes after key of %d and %s, then message split as %s' % (v, p, k2, k1, hist, parts), UFS)
                s.buf('ctx', SIZES[(v, p)])
                s.sym('k1', k1)
                key = s.sym('k2', k2)
                s.call(p + '_newkey', 'ctx', 'k1', k1)
                for i, (k, n) in enumerate(hist):
                    s.sym('h%d' % i, n)
                    if k == 'u':
                        s.call(p + '_update', 'ctx', 'h%d' % i, n, ret=0)
                    else:
                        s.buf('hd%d' % i, ds)
                        s.call(p + '_final', 'ctx', 'hd%d' % i, 'h%d' % i, n, ret=0)
                s.call(p + '_setkey', 'ctx', 'k2', k2, ret=0)
                data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
                feed(s, p, parts, data, hmac(h, key, data))
                s.run()
    j.absorb(e)
    j.bound('%s %s: new key after %d histories' % (v, p, len(H)))


if __name__ == '__main__':
    C = Check('H03', 'model_checking')
    V = ('portable', 'yang15')
    LIB, SIZES = build_hash('h03', V)
    for v in V:
        for p in ('m4', 'm16', 'm64', 'msm3') if v == 'portable' else ('msm3',):
            bs = PAR[HM[p]][0]
            sp = [(0,), (1,), (bs,), (2 * bs + 3,), (1, bs), (bs - 1, 1, 0), (3, 2 * bs, 5)]
            if not C.quick:
                sp += [(a, b) for a in range(0, bs + 1) for b in (0, 1, bs - 1, bs, 2 * bs + 1)][::1 if bs <= 16 else 3]
            for kl in klens(bs, C.quick):
                C.job('%s %s key %d' % (v, p, kl), job, v, p, kl, sp)
            C.job('%s %s re-key' % (v, p), life, v, p)
    C.assume('the compression and padding of SM3 behave as H01 shows; the digest is not longer than the block (as for every hash in the library)')
    C.run()
    C.finish()
