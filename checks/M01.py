from modes import *


def chunks_script(j, e, so, mode, cfg, bs, parts, junk=None):
    """init; update for every part but the last; do_final with the last part"""
    fn = '%s_%s' % (mode, cfg)
    what = '%s (%d-byte blocks, config %s), data split as %s' % (mode, bs, cfg, '+'.join(map(str, parts)))
    s = Script(j, e, so, what, UFS)
    ctx = s.buf('ctx', SIZES[fn])
    key = s.sym('key', 8)
    iv = s.sym('iv', bs)
    total = sum(parts)
    data = [tm.var('d_%d' % i, 8) for i in range(total)]
    want = spec(mode, bs, key, iv, data)
    s.call(fn + '_new', 'ctx')
    s.call(fn + '_init', 'ctx', 'key', 'iv', ret=0)
    stream = mode[:3] not in ('ecb', 'cbc')
    pos = 0
    done = 0
    for i, n in enumerate(parts):
        last = i == len(parts) - 1
        s.buf('i%d' % i, n, data[pos:pos + n])
        pos += n
        full = pos // bs * bs
        err = last and not stream and pos % bs
        produced = (pos if last and stream else full) - done
        s.buf('o%d' % i, produced if not err else full - done)
        s.buf('l%d' % i, 8)
        s.call(fn + ('_final' if last else '_update'), 'ctx', 'o%d' % i, 'l%d' % i, 'i%d' % i, n, ret=1 if err else 0)
        if not err:
            s.expect('l%d' % i, outl_bytes(produced))
            s.expect('o%d' % i, want[done:done + produced])
        if n:
            s.expect('i%d' % i, data[pos - n:pos])
        done += produced
    s.run()


def job(j, variant, mode, cfg, bs, par, parts):
    ll, so = lib(LIB, variant)
    e = X.Ex(X.Prog(ll), 700)
    install(e)
    for p in parts:
        chunks_script(j, e, so, mode, cfg, bs, p)
    j.absorb(e)
    j.bound('%s %s: %d splits of up to %d bytes (block %d, parallelism %d), all data, key and IV values; block cipher uninterpreted' % (
        variant, mode, len(parts), max(sum(p) for p in parts), bs, par))


def lib(L, v):
    if isinstance(L[v], Exception):
        raise L[v]
    return L[v]


CFG = {'16_1': (16, 1), '16_4': (16, 4), '16_8': (16, 8), '8_2': (8, 2), '8_1': (8, 1), '4_3': (4, 3), '24_2': (24, 2)}


def splits(bs, par, quick):
    """generic state (0..bs-1 buffered bytes), one update over several lengths, a further one, the rest at the end"""
    top = bs * (par + 2)
    out = []
    for k in range(bs):
        for n in range(0, top + 1):
            if quick and bs >= 8 and n % bs not in (0, 1, bs - 1, bs - k, bs - k - 1, (bs - k + 1) % bs):
                continue
            ms = [(0,), (bs - 1,), (3, 2 * bs)] if quick else [(0,), (1,), (bs - 1,), (bs,), (bs + 1, 0), (3, 2 * bs), (1, 1, 1, bs)]
            if quick and bs == 16:
                ms = [ms[(k + n) % 3]]
            for m in ms:
                out.append((k, n) + m if k else (n,) + m)
    return out


def build_modes(tag, variants, flags=(), srcs=SRC):
    import concurrent.futures as cf
    import ctypes
    tmpdir()
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {v: (ex.submit(compile_ir, tag + v, 'modes.cpp', srcs, v, flags), ex.submit(compile_so, tag + v, 'modes.cpp', srcs, v, flags)) for v in variants}
        for v, (a, b) in fs.items():
            try:
                out[v] = (a.result(), b.result())
            except BuildError as e:
                out[v] = e
    sizes = {}
    for v in variants:
        if not isinstance(out[v], Exception):
            r = [(m + '_' + c) for m in ('ecbe', 'ecbd', 'cbce', 'cbcd', 'cfbe', 'cfbd', 'ofbe', 'ofbd', 'ctre', 'ctrd', 'gcme', 'gcmd') for c in CFG]
            L = ctypes.CDLL(out[v][1])
            for n in r:
                if hasattr(L, n + '_size'):
                    sizes[n] = max(sizes.get(n, 0), getattr(L, n + '_size')())
    return out, sizes


def main(prop, modes):
    global C, LIB, SIZES
    C = Check(prop, 'model_checking')
    LIB, SIZES = build_modes(prop.lower(), ('portable', 'simd'))
    q = C.quick
    for v in ('portable', 'simd'):
        for m in modes:
            for cfg in (('4_3', '8_2', '16_4') + (('24_2',) if m[:3] == 'ctr' else ()) if v == 'portable' else ('16_8',)) if q else CFG:
                bs, par = CFG[cfg]
                if par == 1 and q:
                    continue
                sp = splits(bs, par, q)
                if v == 'simd' and q:
                    sp = sp[::9]
                if q and m[:3] in ('ecb', 'ctr') and bs > 4:
                    sp = sp[::3]
                for a in range(0, len(sp), 150):
                    C.job('%s %s %s %d' % (v, m, cfg, a), job, v, m, cfg, bs, par, sp[a:a + 150])
    C.assume('input and output buffers do not overlap')
    C.assume('the block cipher is an arbitrary keyed function (C01, C02 decide the ciphers); E and D are unrelated')
    C.run()
    C.finish()


if __name__ == '__main__':
    main('M01', ('ecbe', 'ecbd', 'cbce', 'cbcd'))
