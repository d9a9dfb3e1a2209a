from hashes import *


def job(j, v, p, sp):
    e, so = engine(LIB[v])
    bs, ds = PAR[p]
    for q, parts in enumerate(sp):
        what = '%s %s: message split as %s' % (v, p, '+'.join(map(str, parts)))
        s = Script(j, e, so, what, UFS)
        s.buf('ctx', SIZES[(v, p)])
        s.call(p + '_new', 'ctx')
        data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
        feed(s, p, parts, data, digest_of(p, data), final0=q % 2)
        s.run()
    j.absorb(e)
    j.bound('%s %s (%d-byte blocks): %d splits of up to %d bytes, every message' % (v, p, bs, len(sp), max(map(sum, sp))))


def life(j, v, p):
    """reset in any state restores a fresh object"""
    e, so = engine(LIB[v])
    bs, ds = PAR[p]
    H = [[('u', a)] for a in (0, 1, bs - 1, bs, bs + 1, 3 * bs - 1)] + [[('u', a), ('f', b)] for a in (0, 2, bs - 1) for b in (0, 1, bs)] + [[('f', 3), ('u', 2)]]
    for h in H:
        for parts in ((2 * bs + 1,), (1, bs), (bs - 1, 3, 0)):
            s = Script(j, e, so, '%s %s: reset after %s, then message split as %s' % (v, p, h, parts), UFS)
            s.buf('ctx', SIZES[(v, p)])
            s.call(p + '_new', 'ctx')
            for i, (k, n) in enumerate(h):
                s.sym('h%d' % i, n)
                if k == 'u':
                    s.call(p + '_update', 'ctx', 'h%d' % i, n, ret=0)
                else:
                    s.buf('hd%d' % i, ds)
                    s.call(p + '_final', 'ctx', 'hd%d' % i, 'h%d' % i, n, ret=0)
            s.call(p + '_reset', 'ctx')
            data = [tm.var('d_%d' % i, 8) for i in range(sum(parts))]
            feed(s, p, parts, data, digest_of(p, data))
            s.run()
    j.absorb(e)
    j.bound('%s %s: reset after %d histories' % (v, p, len(H)))


if __name__ == '__main__':
    C = Check('H02', 'model_checking')
    V = ('portable', 'yang15')
    LIB, SIZES = build_hash('h02', V)
    for v in V:
        for p in ('t4', 't16', 't64', 't128', 'sm3') if v == 'portable' else ('sm3',):
            sp = split_list(PAR[p][0], C.quick)
            for a in range(0, len(sp), 120):
                C.job('%s %s %d' % (v, p, a), job, v, p, sp[a:a + 120])
            C.job('%s %s reset' % (v, p), life, v, p)
    C.assume('the compression and padding of SM3 behave as H01 shows (an arbitrary compression function); the Hash template is also decided with arbitrary primitives at block sizes 4, 16, 64, 128')
    C.run()
    C.finish()
