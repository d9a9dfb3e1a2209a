"""LLVM / x86 intrinsics and libc / C++ runtime models."""
from . import term as tm
from .term import T


def _len(st, n):
    if n.__class__ is int:
        return n
    c = st.conc.get(n)
    if c is not None:
        return c
    from .ex import NeedConc
    raise NeedConc(n)


def _p(st, p):
    if p.__class__ is int:
        return p
    c = st.conc.get(p)
    if c is not None:
        return c
    from .ex import NeedConc
    raise NeedConc(p)


def memcpy(st, a, overlap_ok=False):
    n = _len(st, a[2])
    if n == 0:
        return
    d, s = _p(st, a[0]), _p(st, a[1])
    st.putcells(d, list(st.cells(s, n)))


def memset(st, a):
    n = _len(st, a[2])
    if n == 0:
        return
    d = _p(st, a[0])
    v = a[1]
    if v.__class__ is int:
        st.putcells(d, [v & 255] * n)
    else:
        v = tm.extract(v, 0, 8)
        st.putcells(d, [(v, 0)] * n)


def memcmp_(ex, st, a):
    n = _len(st, a[2])
    if n == 0:
        return 0
    x, y = _p(st, a[0]), _p(st, a[1])
    bx, by = st.bytes(x, n), st.bytes(y, n)
    f = lambda v: tm.fresh('undef', 8) if v is None else v
    X = tm.concat([(f(v), 8) for v in bx])
    Y = tm.concat([(f(v), 8) for v in by])
    if X.__class__ is int and Y.__class__ is int:
        return 0 if X == Y else (1 if X > Y else 0xffffffff)
    e = tm.eq(8 * n, X, Y)
    if e.__class__ is int and e:
        return 0
    return tm.ite(32, e, 0, tm.ite(32, tm.ult(8 * n, X, Y), 0xffffffff, 1))


def strlen_(ex, st, a):
    p = _p(st, a[0])
    n = 0
    while True:
        b = st.load(p + n, 1)
        if b.__class__ is not int:
            raise Exception('strlen symbolic')
        if b == 0:
            return n
        n += 1


def _lanes(x, n, e):
    return [tm.extract(x, i * e, e) for i in range(n)]


def _pack(ls, e):
    return tm.concat([(v, e) for v in reversed(ls)])


# --- AES tables, computed from first principles (FIPS-197), independent of /repo

def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def _aes_sbox():
    inv = [0] * 256
    for x in range(1, 256):
        for y in range(1, 256):
            if _gmul(x, y) == 1:
                inv[x] = y
                break
    s = []
    for x in range(256):
        b = inv[x]
        r = 0
        for i in range(8):
            bit = (b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ (b >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        s.append(r)
    return s


_aes = {}


def aes_tables():
    if not _aes:
        s = _aes_sbox()
        i = [0] * 256
        for k, v in enumerate(s):
            i[v] = k
        _aes['s'] = s
        _aes['i'] = i
        _aes['S'] = tm.table(s, 8)
        _aes['I'] = tm.table(i, 8)
        for c in (2, 3, 9, 11, 13, 14):
            _aes[c] = tm.table([_gmul(x, c) for x in range(256)], 8)
    return _aes


def x8(*a):
    r = 0
    for v in a:
        r = tm.xor(8, r, v)
    return r


def aes_subbytes(b, inv=False):
    t = aes_tables()
    tb = t['I'] if inv else t['S']
    return [tm.lookup(tb, x) for x in b]


def aes_shiftrows(b, inv=False):
    # state byte b[4*c+r]
    out = [0] * 16
    for c in range(4):
        for r in range(4):
            if inv:
                out[4 * ((c + r) % 4) + r] = b[4 * c + r]
            else:
                out[4 * c + r] = b[4 * ((c + r) % 4) + r]
    return out


def aes_mixcol(b, inv=False):
    t = aes_tables()
    m = (14, 11, 13, 9) if inv else (2, 3, 1, 1)
    out = []
    mul = lambda k, v: v if k == 1 else tm.lookup(t[k], v)
    for c in range(4):
        col = b[4 * c:4 * c + 4]
        for r in range(4):
            out.append(x8(*[mul(m[(j - r) % 4], col[j]) for j in range(4)]))
    return out


def aesenc(st, a, last=False):
    b = _lanes(a[0], 16, 8)
    b = aes_subbytes(aes_shiftrows(b))
    if not last:
        b = aes_mixcol(b)
    return tm.xor(128, _pack(b, 8), a[1])


def aesdec(st, a, last=False):
    b = _lanes(a[0], 16, 8)
    b = aes_subbytes(aes_shiftrows(b, True), True)
    if not last:
        b = aes_mixcol(b, True)
    return tm.xor(128, _pack(b, 8), a[1])


def aesimc(st, a):
    return _pack(aes_mixcol(_lanes(a[0], 16, 8), True), 8)


def aeskeygen(st, a):
    x, rc = a
    w = _lanes(x, 4, 32)

    def subw(v):
        return _pack(aes_subbytes(_lanes(v, 4, 8)), 8)

    def rotw(v):
        l = _lanes(v, 4, 8)
        return _pack(l[1:] + l[:1], 8)
    s1, s3 = subw(w[1]), subw(w[3])
    return _pack([s1, tm.xor(32, rotw(s1), rc), s3, tm.xor(32, rotw(s3), rc)], 32)


def clmul(n, a, b):
    """carry-less product of two n-bit values -> 2n bits"""
    if a.__class__ is int and b.__class__ is int:
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            b >>= 1
        return r
    return tm.mk('clmul', 2 * n, _ordered(a, b))


def _ordered(a, b):
    if a.__class__ is int:
        return (b, a)
    if b.__class__ is int or a.id <= b.id:
        return (a, b)
    return (b, a)


def pclmul(st, a):
    x, y, imm = a
    p = tm.extract(x, 64 * (imm & 1), 64)
    q = tm.extract(y, 64 * ((imm >> 4) & 1), 64)
    return clmul(64, p, q)


def pshufb(n):
    def f(st, a):
        x, m = a
        out = []
        for i in range(n):
            lane = i // 16 * 16
            c = tm.extract(m, 8 * i, 8)
            if c.__class__ is int:
                out.append(0 if c & 0x80 else tm.extract(x, 8 * (lane + (c & 15)), 8))
            else:
                ent = [tm.extract(x, 8 * (lane + j), 8) for j in range(16)]
                out.append(tm.ite(8, tm.extract(c, 7, 1), 0, tm.sel(8, ent, tm.extract(c, 0, 4))))
        return _pack(out, 8)
    return f


def gather32(n):
    # llvm.x86.avx2.gather.d.d(.256)(src, base, idx, mask, scale)
    def f(st, a):
        src, base, idx, mask, scale = a
        out = []
        for i in range(n):
            ix = tm.sext(64, tm.extract(idx, 32 * i, 32), 32)
            mk = tm.extract(mask, 32 * i + 31, 1)
            if mk.__class__ is not int:
                raise Exception('gather mask')
            if mk:
                out.append(st.load(tm.add(64, base, tm.mul(64, ix, scale)), 4))
            else:
                out.append(tm.extract(src, 32 * i, 32))
        return _pack(out, 32)
    return f


def addcarry(w):
    def f(st, a):
        c, x, y = a
        c = tm.ne(8, c, 0)
        c = tm.zext(w + 1, c, 1)
        if x.__class__ is int and y.__class__ is int and c.__class__ is int:
            s = x + y + c
            return (s >> w, s & ((1 << w) - 1))
        s = tm.add(w + 1, tm.add(w + 1, tm.zext(w + 1, x, w), tm.zext(w + 1, y, w)), c)
        return (tm.zext(8, tm.extract(s, w, 1), 1), tm.extract(s, 0, w))
    return f


def subborrow(w):
    def f(st, a):
        c, x, y = a
        c = tm.ne(8, c, 0)
        c = tm.zext(w + 1, c, 1)
        s = tm.sub(w + 1, tm.sub(w + 1, tm.zext(w + 1, x, w), tm.zext(w + 1, y, w)), c)
        return (tm.zext(8, tm.extract(s, w, 1), 1), tm.extract(s, 0, w))
    return f


def rd(w):
    def f(st, a):
        # hardware generator: arbitrary value, arbitrary success flag
        k = st.data.get('rdcount', 0)
        st.data['rdcount'] = k + 1
        ok = tm.var('hwok%d' % k, 1)
        v = tm.var('hw%d_%d' % (w, k), w)
        st.logadd(('rd', w, k, v, ok))
        return (v, tm.zext(32, ok, 1))
    return f


def _pshift(op, e, n):
    def f(st, a):
        k = a[1]
        if k.__class__ is not int:
            raise Exception('vector shift count')
        if k >= e:
            if op is tm.ashr:
                k = e - 1
            else:
                return 0
        return _pack([op(e, v, k) for v in _lanes(a[0], n, e)], e)
    return f


def _bswap(w):
    def f(st, a):
        return tm.concat([(tm.extract(a[0], 8 * i, 8), 8) for i in range(w // 8)])
    return f


def _fsh(w, left):
    def f(st, a):
        x, y, k = a
        if k.__class__ is not int:
            raise Exception('funnel shift amount')
        k %= w
        z = tm.concat([(x, w), (y, w)])
        if left:
            return tm.extract(z, w - k, w)
        return tm.extract(z, k, w)
    return f


def _ovf(op, w):
    def f(st, a):
        x, y = a
        if op == 'uadd':
            s = tm.add(w + 1, tm.zext(w + 1, x, w), tm.zext(w + 1, y, w))
            return (tm.extract(s, 0, w), tm.extract(s, w, 1))
        if op == 'usub':
            s = tm.sub(w + 1, tm.zext(w + 1, x, w), tm.zext(w + 1, y, w))
            return (tm.extract(s, 0, w), tm.extract(s, w, 1))
        if op == 'umul':
            s = tm.mul(2 * w, tm.zext(2 * w, x, w), tm.zext(2 * w, y, w))
            return (tm.extract(s, 0, w), tm.ne(w, tm.extract(s, w, w), 0))
    return f


def get(name, m, ty, args):
    """handler(st, args) or None for a no-op"""
    n = name[6:]
    if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'invariant', 'donothing', 'stackrestore')):
        return None
    if n.startswith('memcpy') or n.startswith('memmove'):
        return memcpy
    if n.startswith('memset'):
        return memset
    if n == 'eh.typeid.for' or n.startswith('eh.typeid.for'):
        return lambda st, a: a[0] >> 32 & 0xffffffff
    if n == 'trap':
        def tr(st, a):
            from .ex import Halt
            raise Halt('error', 'trap')
        return tr
    if n == 'x86.addcarry.64':
        return addcarry(64)
    if n == 'x86.addcarry.32':
        return addcarry(32)
    if n == 'x86.subborrow.64':
        return subborrow(64)
    if n == 'x86.subborrow.32':
        return subborrow(32)
    if n == 'x86.aesni.aesenc':
        return aesenc
    if n == 'x86.aesni.aesenclast':
        return lambda st, a: aesenc(st, a, True)
    if n == 'x86.aesni.aesdec':
        return aesdec
    if n == 'x86.aesni.aesdeclast':
        return lambda st, a: aesdec(st, a, True)
    if n == 'x86.aesni.aesimc':
        return aesimc
    if n == 'x86.aesni.aeskeygenassist':
        return aeskeygen
    if n == 'x86.pclmulqdq':
        return pclmul
    if n == 'x86.ssse3.pshuf.b.128':
        return pshufb(16)
    if n == 'x86.avx2.pshuf.b':
        return pshufb(32)
    if n == 'x86.avx2.gather.d.d.256':
        return gather32(8)
    if n == 'x86.avx2.gather.d.d':
        return gather32(4)
    if n.startswith('x86.rdrand.') or n.startswith('x86.rdseed.'):
        return rd(int(n.rsplit('.', 1)[1]))
    for pre, op in (('pslli', tm.shl), ('psrli', tm.lshr), ('psrai', tm.ashr)):
        for isa, tot in (('x86.sse2.', 128), ('x86.avx2.', 256)):
            for sfx, e in (('w', 16), ('d', 32), ('q', 64)):
                if n == isa + pre + '.' + sfx:
                    return _pshift(op, e, tot // e)
    if n.startswith('bswap.i'):
        return _bswap(int(n[7:]))
    if n.startswith('fshl.i'):
        return _fsh(int(n[6:]), True)
    if n.startswith('fshr.i'):
        return _fsh(int(n[6:]), False)
    if n.startswith('fshl.v') or n.startswith('fshr.v'):
        import re
        k = re.match(r'fsh[lr]\.v(\d+)i(\d+)', n)
        cnt, e = int(k.group(1)), int(k.group(2))
        f1 = _fsh(e, n[3] == 'l')
        return lambda st, a: _pack([f1(st, (p, q, r)) for p, q, r in zip(_lanes(a[0], cnt, e), _lanes(a[1], cnt, e), _lanes(a[2], cnt, e))], e)
    for op in ('uadd', 'usub', 'umul'):
        if n.startswith(op + '.with.overflow.i'):
            return _ovf(op, int(n.rsplit('i', 1)[1]))
    for op in ('umin', 'umax'):
        if n.startswith(op + '.i'):
            w = int(n[6:])
            if op == 'umin':
                return lambda st, a: tm.ite(w, tm.ult(w, a[0], a[1]), a[0], a[1])
            return lambda st, a: tm.ite(w, tm.ult(w, a[0], a[1]), a[1], a[0])

    def bad(st, a):
        from .ex import Unsupported
        raise Unsupported('intrinsic ' + name)
    return bad


# ---------------------------------------------------------------- runtime

def install(ex):
    H = ex.hooks
    from .ex import Throw, Halt

    def cmemcpy(ex, st, a):
        memcpy(st, a)
        return a[0]

    def cmemset(ex, st, a):
        memset(st, [a[0], a[1], a[2]])
        return a[0]
    H['@memcpy'] = cmemcpy
    H['@memmove'] = cmemcpy
    H['@memset'] = cmemset
    H['@memcmp'] = memcmp_
    H['@strlen'] = strlen_
    H['@__cxa_allocate_exception'] = lambda ex, st, a: st.alloc(_len(st, a[0]) + 64, 'exception')
    H['@__cxa_free_exception'] = lambda ex, st, a: None

    def thr(ex, st, a):
        st.data['exc_types'] = dict(st.data.get('exc_types') or {})
        st.data['exc_types'][a[0]] = a[1]
        raise Throw(a[0])
    H['@__cxa_throw'] = thr
    H['@__cxa_rethrow'] = lambda ex, st, a: (_ for _ in ()).throw(Throw(st.data.get('cur_exc', 0)))
    H['@__cxa_begin_catch'] = lambda ex, st, a: a[0]
    H['@__cxa_end_catch'] = lambda ex, st, a: None
    H['@__cxa_guard_acquire'] = _guard
    H['@__cxa_guard_release'] = _guardrel
    H['@__cxa_guard_abort'] = lambda ex, st, a: None
    H['@__cxa_atexit'] = lambda ex, st, a: 0
    for n in ('@_ZNSt13runtime_errorC1EPKc', '@_ZNSt13runtime_errorD1Ev', '@_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
              '@_ZNSt16invalid_argumentC1EPKc', '@_ZNSt16invalid_argumentD1Ev', '@_ZNSt12length_errorC1EPKc', '@_ZNSt12length_errorD1Ev',
              '@_ZNSt11logic_errorC1EPKc', '@_ZNSt11logic_errorD1Ev', '@_ZNSt12out_of_rangeC1EPKc', '@_ZNSt12out_of_rangeD1Ev',
              '@_ZNSt8ios_base4InitC1Ev', '@_ZNSt8ios_base4InitD1Ev'):
        H[n] = lambda ex, st, a: None

    def term(ex, st, a):
        raise Halt('error', 'std::terminate (exception left a noexcept function)')
    H['@__clang_call_terminate'] = term
    H['@_ZSt9terminatev'] = term
    H['@abort'] = term
    H['@_Znwm'] = lambda ex, st, a: st.alloc(_len(st, a[0]))
    H['@_Znam'] = lambda ex, st, a: st.alloc(_len(st, a[0]))
    H['@malloc'] = lambda ex, st, a: st.alloc(_len(st, a[0]))
    for n in ('@_ZdlPv', '@_ZdaPv', '@_ZdlPvm', '@_ZdaPvm', '@free'):
        H[n] = lambda ex, st, a: st.free(a[0]) if a[0].__class__ is int and a[0] else None
    for n, w in (('@llvm.x86.rdrand', 0),):
        pass


def _guard(ex, st, a):
    v = st.load(a[0], 1)
    return 0 if v else 1


def _guardrel(ex, st, a):
    st.store(a[0], 1, 1)
