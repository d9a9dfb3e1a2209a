from asn1lib import *


def hdr(tag, L, hl=None):
    """DER identifier and length octets; L is an int, or a term known to need hl-1 length octets"""
    if L.__class__ is int:
        if L < 128:
            return [tag, L]
        k = (L.bit_length() + 7) // 8
        return [tag, 0x80 | k] + list(L.to_bytes(k, 'big'))
    if hl == 2:
        return [tag, tm.extract(L, 0, 8)]
    k = hl - 2
    return [tag, 0x80 | k] + [tm.extract(L, 8 * (k - 1 - i), 8) for i in range(k)]


def ranges():
    yield 2, 0, 127
    for k in range(1, 9):
        yield 2 + k, 128 if k == 1 else 1 << 8 * (k - 1), min((1 << 8 * k) - 1, (1 << 63) - 1)


def outls(j):
    """announced lengths for every value length below 2^63, and the announced maxima"""
    for nm, tag in (('tlv', 0), ('oct', 4), ('seq', 0x30), ('set', 0x31)):
        for hl, lo, hi in ranges():
            e, so = engine(LIB)
            pre = lambda V: [tm.ule(64, lo, V['n']), tm.ule(64, V['n'], hi)]
            f = Fn(j, e, so, 'e_%s_outl' % nm, [('u', 'n', 64)], 'length of %s, value of %d..%d bytes' % (nm, lo, hi), pre)
            f.check({'ret': (64, tm.add(64, f.V['n'], hl))})
            j.absorb(e)
            if nm != 'tlv':
                e, so = engine(LIB)
                f = Fn(j, e, so, 'e_%s_tl' % nm, [('out', 'o', hl), ('out', 'l', 8), ('u', 'n', 64)], 'tag and length of %s, value of %d..%d bytes' % (nm, lo, hi), pre)
                h = hdr(tag, f.V['n'], hl)
                if nm == 'oct':
                    h[0] = 0x24
                f.check({'o': tm.concat([(x, 8) for x in reversed(h)]), 'l': hl})
                j.absorb(e)
            maxf(j, 'm_' + nm, lo, hi, hl)
    for hl, lo, hi in ranges():
        # BIT STRING: value = one octet and ceil(bits/8)
        blo, bhi = max(0, 8 * (lo - 2) + 1), min(8 * (hi - 1), (1 << 63) - 1)
        if blo > bhi:
            continue
        e, so = engine(LIB)
        f = Fn(j, e, so, 'e_bits_outl', [('u', 'n', 64)], 'length of BIT STRING of %d..%d bits' % (blo, bhi), lambda V: [tm.ule(64, blo, V['n']), tm.ule(64, V['n'], bhi)])
        f.check({'ret': (64, tm.add(64, tm.lshr(64, tm.add(64, f.V['n'], 7), 3), 1 + hl))})
        j.absorb(e)
        maxf(j, 'm_bits', blo, bhi, hl, lambda n: tm.add(64, tm.lshr(64, tm.add(64, n, 7), 3), 1))
    for fn in ('e_bool_outl', 'm_bool'):
        e, so = engine(LIB)
        Fn(j, e, so, fn, [], fn).check({'ret': (64, 3)})
    j.bound('announced lengths: every value length below 2^63')


def maxf(j, fn, lo, hi, hl, val=lambda n: n):
    """the announced maximum is never below the exact length"""
    e, so = engine(LIB)
    st = X.State(e)
    n = tm.var('n', 64)
    st.assume(tm.ule(64, lo, n))
    st.assume(tm.ule(64, n, hi))
    need = tm.add(64, val(n), hl)

    def confirm(env):
        r = native(so, [(fn, [env['n']])])['ret'][0]
        w = tm.evaluate([need], env)[0]
        return None if r >= w else dict(function=fn, input=env['n'], observed=r, expected='at least %d' % w)
    for p in e.call(st, fn, [n]):
        j.never(p.st.conds() + ([tm.ult(64, p.st.ret, need)] if p.kind == 'ret' else []), '%s for %d..%d below the exact length' % (fn, lo, hi), confirm)
    j.absorb(e)


def enc(j, kind, ns):
    for n in ns:
        d = [tm.var('d_%d' % i, 8) for i in range(n)]
        cases = []      # (name, preconditions, value octets)
        if kind == 'int':
            for z in (range(n) if n <= 40 else (0, 1, 2, n - 1) if n < 1000 else (0, 1)) if n else ():
                lead = [tm.eq(8, x, 0) for x in d[:z]]
                if z < n - 1:
                    lead.append(tm.ne(8, d[z], 0))
                top = tm.ule(8, 0x80, d[z])
                cases.append(('%d leading zero octets, top bit set' % z, lead + [top], [0] + d[z:]))
                cases.append(('%d leading zero octets, top bit clear' % z, lead + [tm.not_(top)], d[z:]))
            tag = 2
        elif kind == 'oct':
            cases.append(('', [], d))
            tag = 4
        else:
            for un in range(8) if n else (0,):
                cases.append(('%d unused bits' % un, [], [un] + d))
            tag = 3
        for name, pre, val in cases:
            if any(c.__class__ is int and not c for c in pre):
                continue
            out = hdr(tag, len(val)) + val
            what = 'encode %s of %d octets%s' % (kind, n, ', ' + name if name else '')
            params = [('out', 'o', len(out)), ('out', 'l', 8), ('data', 'd', d), ('k', n)]
            if kind == 'bits':
                params.append(('k', 8 * n - val[0]))
            f = Enc(j, e_of(j), 'e_' + kind, params, what, pre)
            f.check({'o': tm.concat([(x, 8) for x in reversed(out)]), 'l': len(out)})
            if kind == 'int':
                f = Enc(j, e_of(j), 'e_int_outl', [('data', 'd', d), ('k', n)], 'announced length: ' + what, pre)
                f.check({'ret': (64, len(out))})
            # the decoder gives the value back
            if n <= 300 and len(val):
                def judge(ret, o, out=out, val=val):
                    want = {0: len(out) - len(val), 1: len(val), 2: len(out)}
                    if kind == 'int' and len(val) > 1 and val[0].__class__ is int and val[0] == 0:
                        want[0] += 1
                        want[1] -= 1
                    if kind == 'bits':
                        want = {0: len(out) - n, 1: n, 2: len(out), 3: 8 * n - val[0]}
                    return [tm.eq(32, ret, 0)] + [tm.eq(64, o[k], v) for k, v in want.items()]
                e, so = e_of(j)
                Dec(j, e, so, 'a_' + kind, len(out), 6, judge, 'round trip: ' + what, out).run(pre)
                j.absorb(e)
        if kind == 'oct':
            e, so = e_of(j)
            Fn(j, e, so, 'e_oct_outl', [('k', n)], 'announced length of OCTET STRING of %d octets' % n).check({'ret': (64, len(hdr(4, n)) + n)})
    j.bound('%s of %s octets: every value' % ({'int': 'INTEGER', 'oct': 'OCTET STRING', 'bits': 'BIT STRING'}[kind], ', '.join(map(str, ns)) if len(ns) < 12 else '%d..%d' % (ns[0], ns[-1])))


def e_of(j):
    return engine(LIB, 70000)


class Enc(Fn):
    """Fn with buffers holding given byte terms"""

    def __init__(self, j, es, fn, params, what, pre):
        self.cells = {}
        super().__init__(j, es[0], es[1], fn, params, what, None)
        for c in pre:
            self.st.assume(c)
        self.V = {x.a[0]: x for x in tm.vars_of([x for p in params if p[0] == 'data' for x in p[2]])}

    def native(self, env):
        save = self.params
        self.params = [(p[0], p[1], tm.evaluate(list(p[2]), env)) if p[0] == 'data' else p for p in save]
        try:
            return super().native(env)
        finally:
            self.params = save

    def check(self, spec):
        r = super().check(spec)
        self.j.absorb(self.e)
        return r


def boolean(j):
    e, so = e_of(j)
    f = Fn(j, e, so, 'e_bool', [('out', 'o', 3), ('out', 'l', 8), ('u', 'v', 32)], 'encode BOOLEAN')
    v = tm.extract(f.V['v'], 0, 1)
    f.check({'o': tm.concat([(tm.ite(8, v, 255, 0), 8), (1, 8), (1, 8)]), 'l': 3})
    j.absorb(e)
    for x in (0, 255):
        e, so = e_of(j)
        Dec(j, e, so, 'a_bool', 3, 6, lambda ret, o: [tm.eq(32, ret, 0), tm.eq(64, o[1], 1 if x else 0), tm.eq(64, o[2], 3)], 'round trip: BOOLEAN', [1, 1, x]).run()


if __name__ == '__main__':
    C = Check('A02', 'model_checking')
    LIB = build(C, 'a02')
    C.job('lengths', outls)
    C.job('boolean', boolean)
    q = C.quick
    for k in ('int', 'oct', 'bits'):
        small = list(range(1 if k == 'int' else 0, 41 if q else 130))
        C.job(k + ' small', enc, k, small[:28])
        C.job(k + ' small2', enc, k, small[28:])
        C.job(k + ' long', enc, k, [126, 127, 128, 129, 254, 255, 256, 257] if q else [126, 127, 128, 129, 254, 255, 256, 257, 1000, 4096])
        if k != 'bits':
            C.job(k + ' 64K', enc, k, [65535, 65536])
    C.assume('an INTEGER has at least one octet; a BIT STRING of b bits comes in ceil(b/8) octets')
    C.run()
    C.finish()
