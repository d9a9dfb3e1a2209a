from asn1lib import *
KINDS = ('tlv', 'bool', 'int', 'bits', 'oct', 'null', 'seq', 'set')


def job(j, kind, ns):
    for n in ns:
        e, so = engine(LIB)
        b = [tm.var('b_%d' % i, 8) for i in range(n)]
        alts = list(ref(kind, b, n))

        def judge(ret, o):
            z = tm.eq(32, ret, 0)
            good = disj([conj([may] + [tm.eq(64, o[k], v) for k, v in want.items()]) for may, _, want in alts])
            must = disj([m for _, m, _ in alts])
            return [tm.ite(1, z, good, tm.not_(must)), disj([z, tm.eq(32, ret, 0xffffffff), tm.eq(32, ret, 0xfffffffe)])]
        Dec(j, e, so, 'a_' + kind, n, 6, judge, 'decode %s, %d input bytes' % (kind, n)).run()
        j.absorb(e)
    j.bound('%s decoder: every byte string of %s bytes' % (kind, ', '.join(map(str, ns)) if len(ns) < 9 else '%d..%d' % (ns[0], ns[-1])))


def trees(b, lo, hi, memo):
    """(may, must): bytes lo..hi parse as a sequence of elements, recursively inside constructed ones"""
    if lo == hi:
        return 1, 1
    if (lo, hi) in memo:
        return memo[(lo, hi)]
    may, must = [], []
    for cond, mini, H, L in forms(b[lo:hi], hi - lo):
        t = b[lo]
        for l in range(hi - lo - H + 1):
            c = [cond, tm.eq(64, L, l), tm.ne(8, tm.and_(8, t, 31), 31)]
            a = trees(b, lo + H, lo + H + l, memo)
            r = trees(b, lo + H + l, hi, memo)
            prim = tm.eq(8, tm.and_(8, t, 32), 0)
            may.append(conj(c + [disj([prim, a[0]]), r[0]]))
            must.append(conj(c + [mini, disj([prim, a[1]]), r[1]]))
    memo[(lo, hi)] = disj(may), disj(must)
    return memo[(lo, hi)]


def dump(j, n):
    e, so = engine(LIB)
    # the names are only printed (and decided by their own job)
    for f in ('class', 'pc', 'number'):
        e.hook(r'asn1::asn1_tag_%s_name' % f, lambda ex, st, a: 0, required=False)
    b = [tm.var('b_%d' % i, 8) for i in range(n)]
    may, must = trees(b, 0, n, {})

    def judge(ret, o):
        z = tm.eq(32, ret, 0)
        return [tm.ite(1, z, may, tm.not_(must)), disj([z, tm.eq(32, ret, 0xffffffff), tm.eq(32, ret, 0xfffffffe)])]
    Dec(j, e, so, 'a_dump', n, 0, judge, 'dump of %d input bytes' % n).run()
    j.absorb(e)
    j.bound('recursive dump: every byte string of up to %d bytes' % n)


def names(j):
    e, so = engine(LIB)
    f = Fn(j, e, so, 'a_names', [('u', 'v', 32), ('out', 'o', 24)], 'tag names')
    f.check({'o': 1 | 1 << 64 | 1 << 128})
    j.absorb(e)


if __name__ == '__main__':
    C = Check('A01', 'model_checking')
    LIB = build(C, 'a01')
    for k in KINDS:
        C.job(k, job, k, list(range(0, 18 if C.quick else 41)))
        C.job(k + ' long', job, k, [128, 130, 131, 260] if C.quick else [126, 127, 128, 129, 130, 131, 132, 135, 200, 255, 256, 257, 258, 259, 260, 261, 300, 515, 1000])
    for n in range(0, 7 if C.quick else 9):
        C.job('dump %d' % n, dump, n)
    C.job('names', names)
    C.assume('the tag class is not part of what the typed decoders check; non-minimal length octets may be accepted or rejected')
    C.run()
    C.finish()
