from M01 import *
import M01


def history(j, e, so, mode, cfg, bs, hist, how, parts):
    """fresh object, an earlier life described by hist, then init/reset and the parts"""
    fn = '%s_%s' % (mode, cfg)
    what = '%s (config %s): %s after %s, then data split as %s' % (mode, cfg, how, hist, '+'.join(map(str, parts)))
    s = Script(j, e, so, what, UFS)
    s.buf('ctx', SIZES[fn])
    k1, v1 = s.sym('k', 8), s.sym('v', bs)
    s.call(fn + '_new', 'ctx')
    n = 0
    if hist != 'construction':
        s.call(fn + '_init', 'ctx', 'k', 'v', ret=0)
        pos = 0
        for a in hist:
            final = a[0] == 'f'
            m = int(a[1:])
            s.sym('h%d' % n, m)
            s.buf('ho%d' % n, m + bs)
            s.buf('hl%d' % n, 8)
            s.call(fn + ('_final' if final else '_update'), 'ctx', 'ho%d' % n, 'hl%d' % n, 'h%d' % n, m)
            n += 1
    if how == 'init':
        key, iv = s.sym('k2', 8), s.sym('v2', bs)
        s.call(fn + '_init', 'ctx', 'k2', 'v2', ret=0)
    else:
        key, iv = k1, s.sym('v2', bs)
        s.call(fn + '_reset', 'ctx', 'v2', ret=0)
    total = sum(parts)
    data = [tm.var('d_%d' % i, 8) for i in range(total)]
    want = spec(mode, bs, key, iv, data)
    stream = mode[:3] not in ('ecb', 'cbc')
    pos = done = 0
    for i, n in enumerate(parts):
        last = i == len(parts) - 1
        s.buf('i%d' % i, n, data[pos:pos + n])
        pos += n
        full = pos // bs * bs
        err = last and not stream and pos % bs
        produced = (pos if last and stream else full) - done
        s.buf('o%d' % i, produced if not err else full - done)
        s.buf('l%d' % i, 8)
        s.call(fn + ('_final' if last else '_update'), 'ctx', 'o%d' % i, 'l%d' % i, 'i%d' % i, n, ret=1 if err else 0)
        if not err:
            s.expect('l%d' % i, outl_bytes(produced))
            s.expect('o%d' % i, want[done:done + produced])
        done += produced
    s.run()


def job(j, variant, mode, cfg):
    bs, par = CFG[cfg]
    ll, so = lib(M01.LIB, variant)
    e = X.Ex(X.Prog(ll), 700)
    install(e)
    H = [['u%d' % a] for a in range(0, 2 * bs + 1, 1 if bs < 16 else 5)] + [['u%d' % a, 'f%d' % b] for a in (0, 1, bs - 1, bs + 2) for b in (0, 1, bs, 2 * bs - 1)] + \
        [['f0'], ['u3', 'f1', 'u2'], ['u%d' % (bs - 1), 'f0', 'f1']]
    P = [(2 * bs,), (1, bs, bs - 1), (bs - 1, 2)] if not C.quick else [(2 * bs,), (1, bs, bs - 1)]
    for h in H:
        for how in ('init', 'reset'):
            for p in P:
                history(j, e, so, mode, cfg, bs, h, how, p)
    for p in P:
        history(j, e, so, mode, cfg, bs, 'construction', 'init', p)
    j.absorb(e)
    j.bound('%s %s %s: %d earlier lives x init/reset, all data' % (variant, mode, cfg, len(H)))


if __name__ == '__main__':
    C = Check('M05', 'model_checking')
    M01.C = C
    import gcm
    M01.LIB, M01.SIZES = LIB, SIZES = build_modes('m05', ('portable', 'simd'), ('-DWITH_GCM',), GSRC)
    gcm.LIB, gcm.SIZES, gcm.C = LIB, SIZES, C
    for m in ('ecbe', 'ecbd', 'cbce', 'cbcd', 'cfbe', 'cfbd', 'ofbe', 'ofbd', 'ctre', 'ctrd'):
        C.job('portable %s' % m, job, 'portable', m, '8_2' if C.quick else '16_4')
        C.job('portable %s 4_3' % m, job, 'portable', m, '4_3')
    for v in ('portable', 'simd'):
        for m in ('gcme', 'gcmd'):
            C.job('%s %s' % (v, m), gcm.rejob, v, m, '16_4')
    C.assume('input and output buffers do not overlap; the block cipher is an arbitrary keyed function; GHASH by contract (G01)')
    C.run()
    C.finish()
