from modes import *
import M01, gcm


def job(j, variant, dec, cfg, cases):
    e, so = gcm.engine(variant)
    for ivl, aadl, parts, tagmode, other in cases:
        gcm.one(j, e, so, cfg, dec, ivl, aadl, parts, tagmode, None, other)
    j.absorb(e)
    j.bound('%s %s: %d combinations of IV length (0..%d), AAD length (0..%d) and splits of up to %d data bytes; all contents' % (
        variant, cfg, len(cases), max(c[0] for c in cases), max(c[1] for c in cases), max(sum(c[2]) for c in cases)))


def cases(par, quick, dec):
    out = []
    B = 16
    IV = [0, 1, 8, 11, 12, 13, 15, 16, 17, 32, 60] if quick else list(range(0, 35)) + [47, 48, 60, 64, 128]
    AAD = [0, 1, 13, 15, 16, 17, 20, 32, 40] if quick else list(range(0, 35)) + [48, 64, 65, 100]
    top = B * (par + 2)
    for ivl in IV:
        out.append((ivl, 20, (37,)))
        out.append((ivl, 0, (0,)))
    for aadl in AAD:
        out.append((12, aadl, (5,)))
        out.append((12, aadl, (16, 0)))
    for n in range(0, top + 1, 1):
        out.append((12, 13, (n,)))
        if not quick or n % 3 == 0:
            for k in (1, 5, 15) if quick else range(1, 16):
                out.append((12, 3, (k, n)))
                out.append((9, 16, (k, n, 0)))
    for k in range(0, 17):
        for n in (1, 15, 16, 17, B * par, B * par + 1):
            if quick and (k + n) % 3:
                continue
            out.append((12, 7, (k, n, 2, 16)))
    res = []
    for i, c in enumerate(out):
        if dec:
            res.append(c + ('good', False))
            res.append(c + ('sym', False))
            if i % 7 == 0:
                res.append(c + ('good', True))
        else:
            res.append(c + ('good', i % 11 == 0))
    return res


def main(prop, dec):
    C = Check(prop, 'model_checking')
    gcm.LIB, gcm.SIZES = M01.build_modes(prop.lower(), ('portable', 'simd'), ('-DWITH_GCM',), GSRC)
    gcm.C = C
    q = C.quick
    for v, cfg in (('portable', '16_4'), ('simd', '16_8')) if q else [(v, c) for v in ('portable', 'simd') for c in ('16_1', '16_4', '16_8')]:
        cs = cases(int(cfg.split('_')[1]), q, dec)
        if q and v == 'simd':
            cs = cs[::5]
        n = 40 if dec else 60
        for a in range(0, len(cs), n):
            C.job('%s %s %d' % (v, cfg, a), job, v, dec, cfg, cs[a:a + n])
    for v in ('portable', 'simd'):
        C.job('%s long' % v, gcm.longjob, v, dec, '16_4', gcm.LONG if not q else gcm.LONG[:3:2])
    for v, cfg in (('portable', '16_4'), ('simd', '16_8')):
        C.job('%s %s count' % (v, cfg), gcm.countjob, v, dec, cfg)
    C.assume('input and output buffers do not overlap')
    C.assume('the block cipher is an arbitrary keyed function (C01, C02); the GHASH primitives behave as G01 shows, multiplication by H being an arbitrary function of its operands')
    C.run()
    C.finish()


if __name__ == '__main__':
    main('M03', False)
