from numlib import *
import u256
C = Check('U02', 'model_checking')


def job(j, v, name):
    ll, so = lib(L, v)
    p = X.Prog(ll)
    for w in (8, 16, 32, 64):
        for en in ('le', 'be'):
            n = w // 8
            if not p.find('ld%d%s' % (w, en)):
                continue

            def val(x):
                return x if en == 'le' or n == 1 else u256.rev(x, n)
            for off in range(8):
                size = off + n + 3
                for fn, params in (('ld', [('in', 'm', size), ('k', off)]), ('st', [('io', 'm', size), ('k', off), ('u', 'v', 64)]), ('rt', [('u', 'v', 64)])):
                    if fn == 'rt' and off:
                        continue
                    e = X.Ex(p, 60)
                    f = Fn(j, e, so, '%s%d%s' % (fn, w, en), params, '%s %s%d_%s offset %d' % (name, {'ld': 'load', 'st': 'store', 'rt': 'store-load'}[fn], w, en, off))
                    V = f.V
                    if fn == 'ld':
                        f.check({'ret': (64, tm.zext(64, val(tm.extract(V['m'], 8 * off, w)), w))})
                    elif fn == 'st':
                        m = V['m']
                        parts = [(tm.extract(m, 8 * (off + n), 24), 24), (val(tm.extract(V['v'], 0, w)), w)] + ([(tm.extract(m, 0, 8 * off), 8 * off)] if off else [])
                        f.check({'m': tm.concat(parts)})
                    else:
                        f.check({'ret': (64, tm.zext(64, tm.extract(V['v'], 0, w), w))})
                    j.absorb(e)
    j.bound('%s: every value, every width and byte order, address offsets 0..7 inside a buffer whose other bytes must not change' % name)


if __name__ == '__main__':
    hdr = open(os.path.join(REPO, 'include/gmlib/memory_utils/endian.h')).read()
    fl = [x for k, x in (('load8_le', '-DHAS8LE'), ('load8_be', '-DHAS8BE')) if k in hdr]
    L = {}
    for v in ('portable', 'simd'):
        try:
            L[v] = (compile_ir('u02' + v, 'u02.cpp', [], v, fl), compile_so('u02' + v, 'u02.cpp', [], v, fl))
        except BuildError as ex:
            L[v] = ex
        C.job(v, job, v, v)
    C.assume('little-endian host (the library\'s MOVBE path assumes it)')
    C.run()
    C.finish()
