from asn1lib import *
from A02 import hdr, Enc
import A02
NOUT = {'priv': 2, 'pub': 2, 'sig': 3, 'ct': 7}


def inside(kind, n):
    def judge(ret, o):
        z = tm.eq(32, ret, 0)

        def span(off, ln, end):
            # off + ln <= end without wrap-around
            return conj([tm.ule(64, off, end), tm.ule(64, ln, tm.sub(64, end, off))])
        rd = o[{'priv': 1, 'pub': 1, 'sig': 2, 'ct': 6}[kind]]
        c = [tm.ule(64, rd, n)]
        if kind == 'priv':
            c.append(span(o[0], 32, rd))
        elif kind == 'pub':
            c.append(span(o[0], 65, rd))
        elif kind == 'sig':
            c += [span(o[0], 32, rd), span(o[1], 32, rd)]
        else:
            c += [span(o[0], 32, rd), span(o[1], 32, rd), span(o[2], o[3], rd), span(o[4], o[5], rd)]
        return [tm.ite(1, z, conj(c), 1)]
    return judge


def few_forms(ex, st, a):
    """restricts the explored inputs: the length octets of every element are the listed forms"""
    p, n = a[2], a[3]
    if n.__class__ is int and n < 2:
        return None
    try:
        b = st.load(tm.add(64, p, 1), 1)
    except X.MemErr:
        return None
    c = tm.ule(8, b, ex.last_form)
    return c if n.__class__ is int else tm.or_(1, tm.ult(64, n, 2), c)


SMALL = 12


def dec(j, kind, ns):
    for n in ns:
        e, so = engine(LIB)
        if n > SMALL and kind in ('sig', 'ct'):
            e.last_form = 0x80 if n > 60 and C.quick else 0x82
            e.pre('asn1::asn1_decode_tlv', few_forms)
        Dec(j, e, so, 's_%s_dec' % kind, n, NOUT[kind], inside(kind, n), 'decode %s, %d arbitrary bytes' % (kind, n)).run()
        j.absorb(e)
    j.bound('%s decoder: every buffer of %s bytes%s' % (kind, ', '.join(map(str, ns)), '' if kind in ('priv', 'pub') else ' (beyond %d bytes: length octets L, 80, 81 L, 82 L L; beyond 60 bytes in quick: L, 80)' % SMALL))


def integer(j, name, n=32):
    """(bytes, cases): cases of a 32-byte integer by leading zeros: (text, preconditions, content, decodable)"""
    d = [tm.var('%s_%d' % (name, i), 8) for i in range(n)]
    out = []
    for z in range(n):
        lead = [tm.eq(8, x, 0) for x in d[:z]] + ([tm.ne(8, d[z], 0)] if z < n - 1 else [])
        top = tm.ule(8, 0x80, d[z])
        if z == n - 1:
            lead = [tm.eq(8, x, 0) for x in d[:z]]
        out.append(('%s with %d leading zero octets and the next bit set' % (name, z), lead + [top], [0] + d[z:], z == 0))
        out.append(('%s with %d leading zero octets and the next bit clear' % (name, z), lead + [tm.not_(top)], d[z:], z == 0))
    return d, out


def der(tag, val):
    return hdr(tag, len(val)) + val


def structures(j, kind):
    """(text, preconditions, field terms in call order, encoding, [expected out words] or None when a leading zero makes it undecodable)"""
    if kind == 'pub':
        d = [tm.var('d_%d' % i, 8) for i in range(65)]
        yield '', [], [d], der(3, [0] + d), {0: 3, 1: 68}
        return
    if kind == 'priv':
        d, cs = integer(j, 'd')
        for t, pre, val, ok in cs:
            enc = der(2, val)
            yield t, pre, [d], enc, {0: len(enc) - 32, 1: len(enc)} if ok else None
        return
    r, rc = integer(j, 'r')
    s, sc = integer(j, 's')
    sel = [0, 1, 2, 3, 4, 5, 20, 21, 62, 63]
    for a, (t1, p1, v1, ok1) in enumerate(rc):
        for b, (t2, p2, v2, ok2) in enumerate(sc):
            if (a not in sel or b not in sel) if C.quick else (a not in sel and b not in sel):
                continue
            if kind == 'sig':
                body = der(2, v1) + der(2, v2)
                enc = der(0x30, body)
                h = len(enc) - len(body)
                yield t1 + ', ' + t2, p1 + p2, [r, s], enc, {0: h + len(der(2, v1)) - 32, 1: len(enc) - 32, 2: len(enc)} if ok1 and ok2 else None
            elif a < 4 and b < 4 or a in (21, 62) and b in (0, 20):
                for hl, cl in ((32, 0), (32, 1), (0, 0), (0, 3), (5, 40), (32, 19), (32, 200)) if C.quick or a > 3 or b > 3 else [(x, y) for x in (0, 1, 31, 32, 33, 64) for y in (0, 1, 2, 20, 46, 47, 48, 55, 56, 127, 128, 129, 173, 174, 255, 256, 300)]:
                    h = [tm.var('h_%d' % i, 8) for i in range(hl)]
                    c = [tm.var('c_%d' % i, 8) for i in range(cl)]
                    body = der(2, v1) + der(2, v2) + der(4, h) + der(4, c)
                    enc = der(0x30, body)
                    q = len(enc) - len(body)
                    e1 = q + len(der(2, v1))
                    e2 = e1 + len(der(2, v2))
                    e3 = e2 + len(der(4, h))
                    yield '%s, %s, hash %d, data %d' % (t1, t2, hl, cl), p1 + p2, [r, s, h, c], enc, \
                        {0: e1 - 32, 1: e2 - 32, 2: e3 - hl, 3: hl, 4: len(enc) - cl, 5: cl, 6: len(enc)} if ok1 and ok2 else None


def rt(j, kind, part, parts):
    first = True
    for i, (t, pre, fields, enc, want) in enumerate(structures(j, kind)):
        if i % parts != part or any(c.__class__ is int and not c for c in pre):
            continue
        what = '%s structure%s' % (kind, ': ' + t if t else '')
        args = []
        for k, f in enumerate(fields):
            args.append(('data', 'f%d' % k, f))
            if kind == 'ct' and k >= 2:
                args.append(('k', len(f)))
        f = Enc(j, engine(LIB), 's_%s_enc' % kind, [('out', 'o', len(enc)), ('out', 'l', 8)] + args, 'encode ' + what, pre)
        f.check({'o': tm.concat([(x, 8) for x in reversed(enc)]), 'l': len(enc)})
        f = Enc(j, engine(LIB), 's_%s_outl' % kind, args, 'announced length of ' + what, pre)
        f.check({'ret': (64, len(enc))})

        def judge(ret, o):
            if want is None:
                return [tm.ne(32, ret, 0)]
            return [tm.eq(32, ret, 0)] + [tm.eq(64, o[k], v) for k, v in want.items()]
        e, so = engine(LIB)
        d = Dec(j, e, so, 's_%s_dec' % kind, len(enc), NOUT[kind], judge, 'decode ' + what, enc)
        if want is None:
            if not first:
                # the same finding once more: here only that the encoding is rejected, not read out of bounds or misread
                d.run(pre)
            else:
                # a 32-byte field pointer into the encoding cannot stand for an integer with fewer octets
                d.judge = lambda ret, o: [tm.eq(32, ret, 0)]
                d.known = 'S04-leading-zero'
                d.run(pre)
                first = False
        else:
            d.run(pre)
        j.absorb(e)
    j.bound('%s: every field value; INTEGERs by their number of leading zero octets' % kind)


def maxima(j):
    e, so = engine(LIB)
    for fn, want in (('s_priv_max', 35), ('s_pub_max', 68), ('s_sig_max', 72)):
        f = native(so, [(fn, [])])
        st = X.State(e)
        for p in e.call(st, fn, []):
            def confirm(env):
                g = native(so, [(fn, [])])['ret'][0]
                return None if g >= want else dict(function=fn, observed=g, expected='at least %d' % want)
            j.never(p.st.conds() + [tm.ult(64, p.st.ret, want)], fn + ' below the longest encoding', confirm)
    st = X.State(e)
    a, b = tm.var('a', 64), tm.var('b', 64)
    for v in (a, b):
        st.assume(tm.ult(64, v, 1 << 60))
    for p in e.call(st, 's_ct_max', [a, b]):
        # longest: two 35-byte integers, two octet strings and the sequence, with their exact length octets

        def lo(n):
            r = 9
            for k in range(7, 0, -1):
                r = tm.ite(64, tm.ult(64, n, 1 << 8 * k), 1 + k, r)
            return tm.ite(64, tm.ult(64, n, 128), 1, r)

        def el(n):
            return tm.add(64, tm.add(64, n, 1), lo(n))
        body = tm.add(64, 70, tm.add(64, el(a), el(b)))
        need = el(body)

        def confirm(env):
            g = native(so, [('s_ct_max', [env.get('a', 0), env.get('b', 0)])])['ret'][0]
            w = tm.evaluate([need], env)[0]
            return None if g >= w else dict(function='sm2_cipher_asn1_encode_max_outl', inputs=env, observed=g, expected='at least %d' % w)
        j.never(p.st.conds() + [tm.ult(64, p.st.ret, need)], 'cipher maximum below the exact length', confirm)
    j.absorb(e)


if __name__ == '__main__':
    C = Check('S04', 'model_checking')
    LIB = A02.LIB = build(C, 's04')
    q = C.quick
    C.job('priv decode', dec, 'priv', list(range(0, 8)) + list(range(32, 46)))
    C.job('pub decode', dec, 'pub', list(range(0, 8)) + list(range(64, 78)))
    for ns in ([0, 1, 2, 3, 4, 5, 6, 7, 8], [12, 16, 36, 68], [70, 71, 72, 73], [74, 76]) if q else [[n] for n in range(0, 100)]:
        C.job('sig decode %s' % ns, dec, 'sig', ns)
    for ns in ([0, 1, 2, 5], [8, 12], [36, 40], [70, 73, 74], [75], [76], [77], [78], [80]) if q else [[n] for n in range(0, 100)]:
        C.job('ct decode %s' % ns, dec, 'ct', ns)
    for k, m in (('pub', 1), ('priv', 1), ('sig', 3), ('ct', 4)):
        for i in range(m):
            C.job('%s round trip %d' % (k, i), rt, k, i, m)
    C.job('maxima', maxima)
    C.run()
    C.finish()
