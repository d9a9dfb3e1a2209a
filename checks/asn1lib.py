from numlib import *
SRC = ['src/asn1/asn1.cpp', 'src/asn1/asn1_dump.cpp', 'src/sm2/sm2p256v1_asn1.cpp']


def build(C, tag):
    try:
        return (compile_ir(tag, 'asn1.cpp', SRC, 'portable'), compile_so(tag, 'asn1.cpp', SRC, 'portable'))
    except BuildError as ex:
        return ex


_prog = {}


def engine(L, loops=700):
    if isinstance(L, Exception):
        raise L
    if L[0] not in _prog:
        _prog[L[0]] = X.Prog(L[0])
    e = X.Ex(_prog[L[0]], loops)
    for n in ('printf', 'puts', 'putchar'):
        e.hook(n, lambda ex, st, a: 0, required=False)
    return e, L[1]


def conj(cs):
    r = 1
    for c in cs:
        r = tm.and_(1, r, c)
    return r


def disj(cs):
    r = 0
    for c in cs:
        r = tm.or_(1, r, c)
    return r


def c64(x, w=8):
    return tm.zext(64, x, w)


def forms(b, n):
    """the definite length forms a header at the start of b (n bytes) may have: (condition, minimal, H, L)"""
    if n < 2:
        return
    yield tm.ult(8, b[1], 0x80), 1, 2, c64(b[1])
    for k in range(1, 9):
        if n >= 2 + k:
            L = tm.zext(64, tm.concat([(x, 8) for x in b[2:2 + k]]), 8 * k)
            mini = conj([tm.ne(8, b[2], 0), 1 if k > 1 else tm.ule(8, 0x80, b[2])])
            yield tm.eq(8, b[1], 0x80 + k), mini, 2 + k, L


def ref(kind, b, n):
    """yields (may, must, expected out words) alternatives for a decoder of the given kind on b[0..n)"""
    for cond, mini, H, L in forms(b, n):
        num = tm.and_(8, b[0], 31)
        base = [cond, tm.ne(8, num, 31), tm.ule(64, L, n - H)]
        prim = tm.eq(8, tm.and_(8, b[0], 32), 0)
        cons = tm.not_(prim)
        uni = tm.eq(8, tm.and_(8, b[0], 0xc0), 0)
        rn = tm.add(64, L, H)
        if kind == 'tlv':
            yield conj(base), conj(base + [mini]), {0: H, 1: L, 2: rn, 3: c64(tm.and_(8, b[0], 0xc0)), 4: c64(tm.and_(8, b[0], 32)), 5: c64(num)}
        elif kind == 'bool' and H < n:
            ok = base + [prim, tm.eq(8, num, 1), tm.eq(64, L, 1)]
            yield conj(ok), conj(ok + [mini, uni, disj([tm.eq(8, b[H], 0), tm.eq(8, b[H], 255)])]), {1: tm.zext(64, tm.ne(8, b[H], 0), 1), 2: rn}
        elif kind == 'int' and H < n:
            ok = base + [prim, tm.eq(8, num, 2), tm.ne(64, L, 0)]
            one = ok + [tm.eq(64, L, 1)]
            yield conj(one), conj(one + [mini, uni]), {0: H, 1: L, 2: rn}
            if H + 1 < n:
                more = ok + [tm.ult(64, 1, L)]
                z = tm.eq(8, b[H], 0)
                top = tm.ule(8, 0x80, b[H + 1])
                a = more + [z, top]
                yield conj(a), conj(a + [mini, uni]), {0: H + 1, 1: tm.sub(64, L, 1), 2: rn}
                a = more + [tm.not_(z), tm.not_(conj([tm.eq(8, b[H], 255), top]))]
                yield conj(a), conj(a + [mini, uni]), {0: H, 1: L, 2: rn}
        elif kind == 'bits' and H < n:
            ok = base + [tm.eq(8, num, 3), tm.ne(64, L, 0), tm.ule(8, b[H], 7), disj([tm.ne(64, L, 1), tm.eq(8, b[H], 0)])]
            yield conj(ok), conj(ok + [mini, uni, prim]), {0: H + 1, 1: tm.sub(64, L, 1), 2: rn, 3: tm.sub(64, tm.mul(64, tm.sub(64, L, 1), 8), c64(b[H]))}
        elif kind == 'oct':
            ok = base + [tm.eq(8, num, 4)]
            yield conj(ok), conj(ok + [mini, uni, prim]), {0: H, 1: L, 2: rn}
        elif kind == 'null':
            ok = base + [prim, tm.eq(8, num, 5), tm.eq(64, L, 0)]
            yield conj(ok), conj(ok + [mini, uni]), {2: rn}
        elif kind in ('seq', 'set'):
            ok = base + [cons, tm.eq(8, num, 16 if kind == 'seq' else 17)]
            yield conj(ok), conj(ok + [mini, uni]), {0: H, 1: L, 2: rn}


class Dec:
    """one decoder call on n arbitrary bytes; judge(ret, out words) -> list of 1-bit terms that must hold"""

    def __init__(self, j, e, so, fn, n, nout, judge, what, data=None):
        self.j, self.e, self.so, self.fn, self.n, self.nout, self.judge, self.what = j, e, so, fn, n, nout, judge, what
        self.known = None
        self.b = data or [tm.var('b_%d' % i, 8) for i in range(n)]

    def confirm(self, env):
        raw = bytes(tm.evaluate(list(self.b), env))
        args = [('buf', raw), self.n] + ([('buf', b'\xa5' * 8 * self.nout)] if self.nout else [])
        r = native(self.so, [(self.fn, args)])
        cx = dict(function=self.fn, what=self.what, input=raw.hex())
        if 'crash' in r:
            cx['observed'] = r['crash']
            return cx
        ret = r['ret'][0] & 0xffffffff
        o = [int.from_bytes(r['bufs'][1][8 * i:8 * i + 8], 'little') for i in range(self.nout)] if self.nout else []
        # unwritten words read as the fill pattern in the native run and as 0 symbolically
        v = tm.evaluate(self.judge(ret, [0 if x == 0xa5a5a5a5a5a5a5a5 else x for x in o]), env)
        if all(v):
            return None
        if self.known and ret:
            cx['known_id'] = self.known
        cx['observed'] = 'returned %d, out %s' % (ret - (1 << 32) if ret >> 31 else ret, [hex(x) for x in o])
        return cx

    def run(self, pre=()):
        st = X.State(self.e)
        p = st.alloc(self.n)
        if self.n:
            st.putbytes(p, list(self.b))
        q = st.alloc(8 * self.nout)
        for i in range(self.nout):
            st.store(q + 8 * i, 0, 8)
        for c in pre:
            st.assume(c)
        for r in self.e.call(st, self.fn, [p, self.n] + ([q] if self.nout else [])):
            pc = r.st.conds()
            if r.kind != 'ret':
                self.j.never(pc, '%s: %s' % (self.what, r.info or r.kind), self.confirm)
                continue
            ret = r.st.ret
            ret = ret & 0xffffffff if ret.__class__ is int else tm.extract(ret, 0, 32) if ret.w > 32 else ret
            o = [r.st.load(q + 8 * i, 8) for i in range(self.nout)]
            self.j.never(pc + [tm.not_(conj(self.judge(ret, o)))], self.what, self.confirm)
