from hashes import *


def gspec(h, msg):
    return gcm.ghash(h, pad16(msg))


def gfeed(s, parts, data, h, final0):
    """the object has no implicit padding: callers append zeros to a whole block"""
    total = sum(parts)
    parts = list(parts) + [-total % 16]
    d = list(data) + [0] * (-total % 16)
    feed(s, 'gh', parts, d, gspec(h, data), final0)


def job(j, v, sp):
    e, so = engine(LIB[v])
    for q, parts in enumerate(sp):
        s = Script(j, e, so, '%s GHash: data split as %s' % (v, '+'.join(map(str, parts))), UFS)
        s.buf('ctx', SIZES[(v, 'gh')])
        h = s.sym('h', 16)
        if q % 3:
            s.call('gh_newkey', 'ctx', 'h')
        else:
            s.call('gh_new', 'ctx')
            s.call('gh_setkey', 'ctx', 'h')
        data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
        gfeed(s, parts, data, h, q % 2)
        s.run()
    j.absorb(e)
    j.bound('%s: %d splits of up to %d bytes, every key and message' % (v, len(sp), max(map(sum, sp))))


def longjob(j, v):
    """one update of more than 2^32 bytes: zeros with arbitrary ends"""
    e, so = engine(LIB[v])
    for pre in (0, 5, 16, 31):
        for z in gcm.LONG[:3:2] if C.quick else gcm.LONG:
            for t in (0, 3, 16, 27):
                s = Script(j, e, so, '%s GHash: %d bytes, then %d zero bytes with a tail of %d' % (v, pre, z, t), UFS)
                s.buf('ctx', SIZES[(v, 'gh')])
                h = s.sym('h', 16)
                s.call('gh_newkey', 'ctx', 'h')
                a = s.sym('pre', pre)
                tail = [tm.var('t_%d' % i, 8) for i in range(t)]
                s.long('big', z + t, tail)
                s.call('gh_update', 'ctx', 'pre', pre, ret=0)
                s.call('gh_update', 'ctx', 'big', z + t, ret=0)
                k = -(pre + z + t) % 16
                s.buf('pad', k, [0] * k), s.buf('dg', 16)
                s.call('gh_final', 'ctx', 'dg', 'pad', k, ret=0)
                s.expect('dg', gcm.ghash_long(h, a, z, tail))
                s.run()
                if j.viol:
                    return
    j.absorb(e)
    j.bound('%s: single updates of %s bytes (+ up to 27), after 0, 5, 16 or 31 bytes' % (v, ', '.join(map(str, gcm.LONG[:3:2] if C.quick else gcm.LONG))))


def life(j, v):
    e, so = engine(LIB[v])
    H = [[('u', a)] for a in (0, 1, 5, 15, 16, 17, 33, 47)] + [[('u', a), ('f', b)] for a in (0, 2, 15) for b in (0, 1, 14, 16)] + [[('f', 16), ('u', 2)], [('f', 3), ('u', 2)]]
    for h in H:
        for how in ('reset', 'setkey'):
            for parts in ((33,), (1, 16), (15, 3)):
                s = Script(j, e, so, '%s GHash: %s after %s, then data split as %s' % (v, how, h, parts), UFS)
                s.buf('ctx', SIZES[(v, 'gh')])
                k = s.sym('h', 16)
                s.call('gh_newkey', 'ctx', 'h')
                for i, (kk, n) in enumerate(h):
                    s.sym('h%d' % i, n)
                    if kk == 'u':
                        s.call('gh_update', 'ctx', 'h%d' % i, n, ret=0)
                    else:
                        s.buf('hd%d' % i, 16)
                        s.call('gh_final', 'ctx', 'hd%d' % i, 'h%d' % i, n)
                if how == 'setkey':
                    k = s.sym('k2', 16)
                    s.call('gh_setkey', 'ctx', 'k2')
                else:
                    s.call('gh_reset', 'ctx')
                data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
                gfeed(s, parts, data, k, False)
                s.run()
    j.absorb(e)
    j.bound('%s: reset / new key after %d histories' % (v, len(H)))


if __name__ == '__main__':
    C = Check('G02', 'model_checking')
    V = ('portable', 'simd')
    LIB, SIZES = build_hash('g02', V)
    for v in V:
        sp = [(k, n) for k in range(16) for n in range(0, 50 if C.quick else 100, 1)] + [(a, b, c) for a in (0, 3, 16) for b in range(0, 20) for c in (0, 1, 31, 80)] + [(1,) * 40, (300,), (5, 290)]
        if C.quick:
            sp = sp[::2]
        for a in range(0, len(sp), 150):
            C.job('%s %d' % (v, a), job, v, sp[a:a + 150])
        C.job('%s reset' % v, life, v)
        C.job('%s long' % v, longjob, v)
    C.assume('the GHASH primitives behave as G01 shows; multiplication by H is an arbitrary function of its operands')
    C.run()
    C.finish()
