"""Hash-consed bit-vector terms.

A value is either a Python int (constant; its width is known from context) or a
T node.  Constructors below take the width explicitly, fold constants and apply
a small set of semantics-preserving simplifications.
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'um')

    def __init__(self, op, w, a, id):
        self.op = op
        self.w = w
        self.a = a
        self.id = id
        self.um = None

    def __repr__(self):
        return show(self, 3)

    def __hash__(self):
        return self.id


_tab = {}
_n = [0]


def mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = T(op, w, a, _n[0])
        _tab[k] = t
    return t


def nterms():
    return _n[0]


def show(t, d=4):
    if t.__class__ is int:
        return hex(t)
    if t.op == 'var':
        return t.a[0]
    if d == 0:
        return '#%d' % t.id
    if t.op == 'extract':
        return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1] + t.w - 1, t.a[1])
    return '(%s.%d %s)' % (t.op, t.w, ' '.join(
        show(x, d - 1) if isinstance(x, (T, int)) else str(x) for x in t.a))


_vc = [0]


def var(name, w):
    return mk('var', w, (name,))


def fresh(name, w):
    _vc[0] += 1
    return mk('var', w, ('%s!%d' % (name, _vc[0]),))


def _ord(a, b):
    # canonical order: constants last, then by id
    if a.__class__ is int:
        return b, a
    if b.__class__ is int:
        return a, b
    return (a, b) if a.id <= b.id else (b, a)


def add(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & ((1 << w) - 1)
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'add' and a.a[1].__class__ is int:
            return add(w, a.a[0], (a.a[1] + b) & ((1 << w) - 1))
        if a.op == 'concat' and a.a[-1] == 0 and a.a[-1].__class__ is int:
            r = _merge_or(w, a, b)
            if r is not None:
                return r
        return mk('add', w, (a, b))
    # constant floats outwards
    if a.op == 'add' and a.a[1].__class__ is int:
        return add(w, add(w, a.a[0], b), a.a[1])
    if b.op == 'add' and b.a[1].__class__ is int:
        return add(w, add(w, a, b.a[0]), b.a[1])
    if a.op == 'concat' and b.op == 'concat':
        r = _merge_or(w, a, b)
        if r is not None:
            return r
    if a.op == 'sub' and a.a[1] is b:
        return a.a[0]
    if b.op == 'sub' and b.a[1] is a:
        return b.a[0]
    if a.op == 'ite' and b.op == 'ite' and 0:
        pass
    return mk('add', w, (a, b) if a.id <= b.id else (b, a))


def sub(w, a, b):
    if b.__class__ is int:
        if a.__class__ is int:
            return (a - b) & ((1 << w) - 1)
        if b == 0:
            return a
        return add(w, a, (-b) & ((1 << w) - 1))
    if a is b:
        return 0
    if a.__class__ is T:
        if a.op == 'add':
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
            if a.a[1].__class__ is int:
                if b.op == 'add' and b.a[1].__class__ is int:
                    return add(w, sub(w, a.a[0], b.a[0]), (a.a[1] - b.a[1]) & ((1 << w) - 1))
                return add(w, sub(w, a.a[0], b), a.a[1])
        if b.op == 'add' and b.a[1].__class__ is int:
            return add(w, sub(w, a, b.a[0]), (-b.a[1]) & ((1 << w) - 1))
    elif b.op == 'add' and b.a[1].__class__ is int:
        return sub(w, (a - b.a[1]) & ((1 << w) - 1), b.a[0])
    elif b.op == 'sub' and b.a[0].__class__ is int:
        return add(w, b.a[1], (a - b.a[0]) & ((1 << w) - 1))
    return mk('sub', w, (a, b))


def mul(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & ((1 << w) - 1)
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        if a.op == 'mul' and a.a[1].__class__ is int:
            return mul(w, a.a[0], (a.a[1] * b) & ((1 << w) - 1))
        return mk('mul', w, (a, b))
    return mk('mul', w, (a, b) if a.id <= b.id else (b, a))


def udiv(w, a, b):
    if b.__class__ is int:
        if a.__class__ is int:
            return a // b if b else (1 << w) - 1
        if b == 1:
            return a
        if b and b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
    return mk('udiv', w, (a, b))


def urem(w, a, b):
    if b.__class__ is int:
        if a.__class__ is int:
            return a % b if b else a
        if b == 1:
            return 0
        if b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return zext(w, extract(a, 0, k), k)
    return mk('urem', w, (a, b))


def _s(w, v):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(w, a, b):
    if a.__class__ is int and b.__class__ is int and b:
        x, y = _s(w, a), _s(w, b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    return mk('sdiv', w, (a, b))


def srem(w, a, b):
    if a.__class__ is int and b.__class__ is int and b:
        x, y = _s(w, a), _s(w, b)
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & ((1 << w) - 1)
    return mk('srem', w, (a, b))


# ---------------------------------------------------------------- slicing

def _pieces(x, w):
    """list of (value, width), least significant first"""
    if x.__class__ is T and x.op == 'concat':
        out = []
        for p in reversed(x.a):
            out.append(p)
        # widths are stored alongside
        return _cw(x)
    return [(x, w)]


def concat(parts):
    """parts: list of (value, width), MOST significant first."""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if v.__class__ is T and v.op == 'concat':
            sub_ = _cparts(v)
        else:
            sub_ = ((v, w),)
        for v, w in sub_:
            if out:
                pv, pw = out[-1]
                if v.__class__ is int:
                    if pv.__class__ is int:
                        out[-1] = ((pv << w) | v, pw + w)
                        continue
                elif pv.__class__ is T and pv.op == 'extract':
                    b, lo = pv.a
                    if v.op == 'extract':
                        if v.a[0] is b and v.a[1] + w == lo:
                            out[-1] = (extract(b, v.a[1], pw + w), pw + w)
                            continue
            out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    tw = 0
    args = []
    for v, w in out:
        tw += w
        args.append(v)
        args.append(w)
    # store widths interleaved: (v, w, v, w, ...)
    return mk('concat', tw, tuple(args))


def _cparts(x):
    a = x.a
    return [(a[i], a[i + 1]) for i in range(0, len(a), 2)]


def _cw(x):
    a = x.a
    return [(a[i], a[i + 1]) for i in range(len(a) - 2, -1, -2)]


_BITW = {'and', 'or', 'xor'}


def extract(x, lo, n):
    """bits lo .. lo+n-1 of x"""
    if x.__class__ is int:
        return (x >> lo) & ((1 << n) - 1)
    if n == x.w:
        return x
    op = x.op
    if op == 'extract':
        return extract(x.a[0], x.a[1] + lo, n)
    if op == 'concat':
        parts = _cw(x)
        pos = 0
        res = []
        for v, w in parts:
            l = lo - pos
            h = lo + n - pos
            pos += w
            if h <= 0:
                break
            if l >= w:
                continue
            l = max(l, 0)
            h = min(h, w)
            res.append((extract(v, l, h - l) if (h - l) != w else v, h - l))
        res.reverse()
        return concat(res)
    if op in _BITW:
        p, q = x.a
        if p.__class__ is int or q.__class__ is int or p.op == 'concat' or q.op == 'concat':
            f = _BW[op]
            return f(n, extract(p, lo, n), extract(q, lo, n))
    elif op == 'add' or op == 'sub':
        if lo == 0:
            p, q = x.a
            if (p.__class__ is int or p.op == 'concat') and (q.__class__ is int or q.op == 'concat'):
                return (add if op == 'add' else sub)(n, extract(p, 0, n), extract(q, 0, n))
    elif op == 'ite':
        c, p, q = x.a
        if p.__class__ is int or q.__class__ is int:
            return ite(n, c, extract(p, lo, n), extract(q, lo, n))
    elif op == 'sext':
        y = x.a[0]
        if lo + n <= y.w:
            return extract(y, lo, n)
        if lo >= y.w - 1:
            return sext(n, extract(y, y.w - 1, 1), 1)
        if lo == 0 and n > y.w:
            return sext(n, y, y.w)
    elif op == 'lookup':
        # narrow the table
        tb, idx = x.a
        return lookup(table([(v >> lo) & ((1 << n) - 1) for v in TABLES[tb]], n), idx)
    return mk('extract', n, (x, lo))


def zext(w, x, fw):
    if x.__class__ is int or w == fw:
        return x
    return concat([(0, w - fw), (x, fw)])


def sext(w, x, fw):
    if x.__class__ is int:
        return x if not (x >> (fw - 1)) else x | (((1 << w) - 1) ^ ((1 << fw) - 1))
    if w == fw:
        return x
    if x.op == 'concat' and x.a[0].__class__ is int and not (x.a[0] >> (x.a[1] - 1)):
        return zext(w, x, fw)
    if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int:
        return ite(w, x.a[0], sext(w, x.a[1], fw), sext(w, x.a[2], fw))
    return mk('sext', w, (x,))


def shl(w, x, k):
    if k.__class__ is int:
        if k == 0:
            return x
        if k >= w:
            return 0
        if x.__class__ is int:
            return (x << k) & ((1 << w) - 1)
        return concat([(extract(x, 0, w - k), w - k), (0, k)])
    return mk('shl', w, (x, k))


def lshr(w, x, k):
    if k.__class__ is int:
        if k == 0:
            return x
        if k >= w:
            return 0
        if x.__class__ is int:
            return x >> k
        return concat([(0, k), (extract(x, k, w - k), w - k)])
    return mk('lshr', w, (x, k))


def ashr(w, x, k):
    if k.__class__ is int:
        if k == 0:
            return x
        if k >= w:
            k = w - 1
        if x.__class__ is int:
            return (_s(w, x) >> k) & ((1 << w) - 1)
        return sext(w, extract(x, k, w - k), w - k)
    return mk('ashr', w, (x, k))


def _merge_or(w, a, b):
    """a|b == a^b == a+b when the non-zero segments are disjoint; None if not."""
    pa = _cw(a) if a.__class__ is T and a.op == 'concat' else [(a, w)]
    pb = _cw(b) if b.__class__ is T and b.op == 'concat' else [(b, w)]
    res = []
    ia = ib = 0
    oa = ob = 0
    while ia < len(pa):
        va, wa = pa[ia]
        vb, wb = pb[ib]
        n = min(wa - oa, wb - ob)
        if va.__class__ is int:
            # split integer runs at zero/nonzero granularity: only whole-slice test
            xa = (va >> oa) & ((1 << n) - 1)
        else:
            xa = va
        if vb.__class__ is int:
            xb = (vb >> ob) & ((1 << n) - 1)
        else:
            xb = vb
        if xa.__class__ is int and xa == 0:
            res.append((extract(vb, ob, n) if vb.__class__ is T else xb, n))
        elif xb.__class__ is int and xb == 0:
            res.append((extract(va, oa, n) if va.__class__ is T else xa, n))
        else:
            return None
        oa += n
        ob += n
        if oa == wa:
            ia += 1
            oa = 0
        if ob == wb:
            ib += 1
            ob = 0
    res.reverse()
    return concat(res)


def _runs(m, w):
    """list of (bit, len) least significant first"""
    out = []
    i = 0
    while i < w:
        b = (m >> i) & 1
        j = i
        while j < w and ((m >> j) & 1) == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out


def and_(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        m = (1 << w) - 1
        if b == m:
            return a
        r = _runs(b, w)
        if len(r) <= 3 or (a.op == 'concat' and len(r) <= 9):
            parts = []
            pos = 0
            for bit, n in r:
                parts.append((extract(a, pos, n) if bit else 0, n))
                pos += n
            parts.reverse()
            return concat(parts)
        if a.op == 'and' and a.a[1].__class__ is int:
            return and_(w, a.a[0], a.a[1] & b)
        return mk('and', w, (a, b))
    if a is b:
        return a
    if w == 1:
        if a.op == 'xor' and a.a[1] == 1 and a.a[0] is b:
            return 0
        if b.op == 'xor' and b.a[1] == 1 and b.a[0] is a:
            return 0
    elif a.op == 'concat' and b.op == 'concat':
        if (a.a[0].__class__ is int and a.a[0] == 0) or (b.a[0].__class__ is int and b.a[0] == 0):
            # strip common zero-extension
            za = a.a[1] if a.a[0].__class__ is int and a.a[0] == 0 else 0
            zb = b.a[1] if b.a[0].__class__ is int and b.a[0] == 0 else 0
            z = max(za, zb)
            return concat([(0, z), (and_(w - z, extract(a, 0, w - z), extract(b, 0, w - z)), w - z)])
    return mk('and', w, (a, b) if a.id <= b.id else (b, a))


def or_(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
        if a.op == 'concat':
            r = _merge_or(w, a, b)
            if r is not None:
                return r
        return mk('or', w, (a, b))
    if a is b:
        return a
    if a.op == 'concat' or b.op == 'concat':
        r = _merge_or(w, a, b)
        if r is not None:
            return r
        if a.op == 'concat' and b.op == 'concat':
            z = _lz(a, b)
            if z:
                return concat([(0, z), (or_(w - z, extract(a, 0, w - z), extract(b, 0, w - z)), w - z)])
    if w == 1:
        if a.op == 'xor' and a.a[1] == 1 and a.a[0] is b:
            return 1
        if b.op == 'xor' and b.a[1] == 1 and b.a[0] is a:
            return 1
    return mk('or', w, (a, b) if a.id <= b.id else (b, a))


def _lz(a, b):
    za = a.a[1] if a.a[0].__class__ is int and a.a[0] == 0 else 0
    zb = b.a[1] if b.a[0].__class__ is int and b.a[0] == 0 else 0
    return min(za, zb)


def xor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'xor' and a.a[1].__class__ is int:
            return xor(w, a.a[0], a.a[1] ^ b)
        if a.op == 'concat':
            # xor a constant into the pieces
            parts = []
            pos = 0
            for v, n in _cw(a):
                parts.append((xor(n, v, (b >> pos) & ((1 << n) - 1)), n))
                pos += n
            parts.reverse()
            return concat(parts)
        return mk('xor', w, (a, b))
    if a is b:
        return 0
    if a.op == 'xor':
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
        if a.a[1].__class__ is int:
            return xor(w, xor(w, a.a[0], b), a.a[1])
    if b.op == 'xor':
        if b.a[0] is a:
            return b.a[1]
        if b.a[1] is a:
            return b.a[0]
        if b.a[1].__class__ is int:
            return xor(w, xor(w, a, b.a[0]), b.a[1])
    if a.op == 'concat' or b.op == 'concat':
        r = _merge_or(w, a, b)
        if r is not None:
            return r
        if a.op == 'concat' and b.op == 'concat':
            z = _lz(a, b)
            if z:
                return concat([(0, z), (xor(w - z, extract(a, 0, w - z), extract(b, 0, w - z)), w - z)])
            # same cut structure: piecewise
            wa = a.a[1::2]
            if wa == b.a[1::2]:
                return concat([(xor(n, p, q), n) for p, q, n in zip(a.a[0::2], b.a[0::2], wa)])
    return mk('xor', w, (a, b) if a.id <= b.id else (b, a))


_BW = {'and': and_, 'or': or_, 'xor': xor}


def not_(b):
    """boolean not"""
    if b.__class__ is int:
        return b ^ 1
    return xor(1, b, 1)


def bnot(w, x):
    return xor(w, x, (1 << w) - 1)


def ite(w, c, a, b):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.op == 'xor' and c.a[1] == 1 and c.a[1].__class__ is int:
        return ite(w, c.a[0], b, a)
    if w == 1:
        if a.__class__ is int:
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if b.__class__ is int:
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if a.__class__ is T and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.__class__ is T and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', w, (c, a, b))


# ---------------------------------------------------------------- predicates

def umax(x):
    """cheap upper bound"""
    if x.__class__ is int:
        return x
    if x.um is not None:
        return x.um
    op = x.op
    m = (1 << x.w) - 1
    r = m
    if op == 'concat':
        r = 0
        for v, w in _cparts(x):
            r = (r << w) | umax(v)
    elif op == 'and':
        r = min(umax(x.a[0]), umax(x.a[1]))
    elif op == 'ite':
        r = max(umax(x.a[1]), umax(x.a[2]))
    elif op == 'add':
        r = umax(x.a[0]) + umax(x.a[1])
        if r > m:
            r = m
    elif op == 'mul':
        r = umax(x.a[0]) * umax(x.a[1])
        if r > m:
            r = m
    elif op == 'urem':
        if x.a[1].__class__ is int and x.a[1]:
            r = x.a[1] - 1
    elif op == 'udiv':
        if x.a[1].__class__ is int and x.a[1]:
            r = umax(x.a[0]) // x.a[1]
    elif op == 'lshr':
        r = umax(x.a[0])
    elif op == 'lookup':
        r = max(TABLES[x.a[0]])
    x.um = r
    return r


def eq(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if b.__class__ is int:
        if b > umax(a):
            return 0
        if w == 1:
            return a if b else not_(a)
        op = a.op
        if op == 'concat':
            pos = 0
            rest = 1
            n = 0
            parts = _cw(a)
            nz = [(v, ww) for v, ww in parts if v.__class__ is T]
            for v, ww in parts:
                c = (b >> pos) & ((1 << ww) - 1)
                pos += ww
                if v.__class__ is int:
                    if v != c:
                        return 0
            if len(nz) < len(parts):
                pos = 0
                r = 1
                for v, ww in parts:
                    c = (b >> pos) & ((1 << ww) - 1)
                    pos += ww
                    if v.__class__ is T:
                        r = and_(1, r, eq(ww, v, c))
                return r
        elif op == 'xor' and a.a[1].__class__ is int:
            return eq(w, a.a[0], a.a[1] ^ b)
        elif op == 'add' and a.a[1].__class__ is int:
            return eq(w, a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        elif op == 'sub' and b == 0:
            return eq(w, a.a[0], a.a[1])
        elif op == 'xor' and b == 0:
            return eq(w, a.a[0], a.a[1])
        elif op == 'ite':
            c, p, q = a.a
            if p.__class__ is int:
                if p == b:
                    return or_(1, c, eq(w, q, b))
                return and_(1, not_(c), eq(w, q, b))
            if q.__class__ is int:
                if q == b:
                    return or_(1, not_(c), eq(w, p, b))
                return and_(1, c, eq(w, p, b))
        return mk('eq', 1, (a, b))
    if w == 1:
        return not_(xor(1, a, b))
    if a.op == 'concat' and b.op == 'concat':
        z = _lz(a, b)
        if z:
            return eq(w - z, extract(a, 0, w - z), extract(b, 0, w - z))
    return mk('eq', 1, (a, b) if a.id <= b.id else (b, a))


def ne(w, a, b):
    return not_(eq(w, a, b))


def ult(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a < b else 0
        if a >= umax(b):
            return 0
        if a == 0:
            return ne(w, b, 0)
        if a == (1 << w) - 1:
            return 0
    elif b.__class__ is int:
        if b == 0:
            return 0
        if umax(a) < b:
            return 1
        if b == 1:
            return eq(w, a, 0)
    if a is b:
        return 0
    if a.__class__ is int:
        if b.op == 'concat' and b.a[0].__class__ is int and b.a[0] == 0:
            n = w - b.a[1]
            return ult(n, a, extract(b, 0, n))  # a < umax(b) so a fits
    elif b.__class__ is int:
        if a.op == 'concat' and a.a[0].__class__ is int and a.a[0] == 0:
            n = w - a.a[1]
            return ult(n, extract(a, 0, n), b)
    elif a.op == 'concat' and b.op == 'concat':
        z = _lz(a, b)
        if z:
            return ult(w - z, extract(a, 0, w - z), extract(b, 0, w - z))
    return mk('ult', 1, (a, b))


def ule(w, a, b):
    return not_(ult(w, b, a))


def slt(w, a, b):
    if a.__class__ is int and b.__class__ is int:
        return 1 if _s(w, a) < _s(w, b) else 0
    h = 1 << (w - 1)
    if umax(a) < h and umax(b) < h:
        return ult(w, a, b)
    if a is b:
        return 0
    if b.__class__ is int and b == 0:
        return extract(a, w - 1, 1)
    return mk('slt', 1, (a, b))


def sle(w, a, b):
    return not_(slt(w, b, a))


# ---------------------------------------------------------------- tables

TABLES = []
_tabk = {}
TABW = []


def table(vals, w):
    vals = tuple(vals)
    k = (vals, w)
    t = _tabk.get(k)
    if t is None:
        t = len(TABLES)
        TABLES.append(vals)
        TABW.append(w)
        _tabk[k] = t
    return t


def lookup(tb, idx):
    vals = TABLES[tb]
    if idx.__class__ is int:
        return vals[idx]
    w = TABW[tb]
    v0 = vals[0]
    if all(v == v0 for v in vals):
        return v0
    if len(vals) == (1 << idx.w) and w == idx.w and all(v == i for i, v in enumerate(vals)):
        return idx
    return mk('lookup', w, (tb, idx))


def sel(w, entries, idx):
    """entries[idx] with symbolic entries, idx < len(entries) by construction"""
    if idx.__class__ is int:
        return entries[idx]
    if all(e.__class__ is int for e in entries):
        n = 1 << idx.w
        return lookup(table(list(entries) + [0] * (n - len(entries)), w), idx)
    return mk('sel', w, (tuple(entries), idx))


def uf(name, w, args):
    """uninterpreted function; args: tuple of (value,width)"""
    flat = []
    for v, ww in args:
        flat.append(v)
        flat.append(ww)
    return mk('uf', w, (name,) + tuple(flat))


# ---------------------------------------------------------------- traversal

def kids(t):
    op = t.op
    if op == 'var':
        return ()
    if op == 'extract':
        return (t.a[0],)
    if op == 'lookup':
        return (t.a[1],)
    if op == 'concat':
        return t.a[0::2]
    if op == 'sel':
        return t.a[0] + (t.a[1],)
    if op == 'uf':
        return t.a[1::2]
    return t.a


def topo(roots, done=None, skip=()):
    """post-order list of T nodes reachable from roots (not in done, not in skip)"""
    seen = set() if done is None else done
    out = []
    st = [(r, False) for r in roots if r.__class__ is T and r not in skip]
    while st:
        t, e = st.pop()
        if e:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        st.append((t, True))
        for k in kids(t):
            if k.__class__ is T and k not in seen and k not in skip:
                st.append((k, False))
    return out


def vars_of(roots):
    return [t for t in topo(roots) if t.op == 'var']


def evaluate(roots, env, ufs=None, cache=None):
    """env: dict var-term or name -> int.  Unknown variables default to 0."""
    c = {} if cache is None else cache

    def g(x):
        return x if x.__class__ is int else c[x]
    for t in topo(roots, None, c if c else ()):
        op = t.op
        a = t.a
        w = t.w
        m = (1 << w) - 1
        if op == 'var':
            v = env.get(a[0], env.get(t, 0))
        elif op == 'add':
            v = (g(a[0]) + g(a[1])) & m
        elif op == 'sub':
            v = (g(a[0]) - g(a[1])) & m
        elif op == 'mul':
            v = (g(a[0]) * g(a[1])) & m
        elif op == 'xor':
            v = g(a[0]) ^ g(a[1])
        elif op == 'and':
            v = g(a[0]) & g(a[1])
        elif op == 'or':
            v = g(a[0]) | g(a[1])
        elif op == 'extract':
            v = (g(a[0]) >> a[1]) & m
        elif op == 'concat':
            v = 0
            for i in range(0, len(a), 2):
                v = (v << a[i + 1]) | g(a[i])
        elif op == 'ite':
            v = g(a[1]) if g(a[0]) else g(a[2])
        elif op == 'eq':
            v = 1 if g(a[0]) == g(a[1]) else 0
        elif op == 'ult':
            v = 1 if g(a[0]) < g(a[1]) else 0
        elif op == 'slt':
            ww = (a[0] if a[0].__class__ is T else a[1]).w
            v = 1 if _s(ww, g(a[0])) < _s(ww, g(a[1])) else 0
        elif op == 'sext':
            v = sext(w, g(a[0]), a[0].w)
        elif op == 'lookup':
            v = TABLES[a[0]][g(a[1])]
        elif op == 'sel':
            i = g(a[1])
            v = g(a[0][i]) if i < len(a[0]) else 0
        elif op == 'shl':
            k = g(a[1])
            v = (g(a[0]) << k) & m if k < w else 0
        elif op == 'lshr':
            k = g(a[1])
            v = g(a[0]) >> k if k < w else 0
        elif op == 'ashr':
            v = ashr(w, g(a[0]), g(a[1]))
        elif op == 'udiv':
            v = udiv(w, g(a[0]), g(a[1]))
        elif op == 'urem':
            v = urem(w, g(a[0]), g(a[1]))
        elif op == 'sdiv':
            v = sdiv(w, g(a[0]), g(a[1]))
        elif op == 'srem':
            v = srem(w, g(a[0]), g(a[1]))
        elif op == 'uf':
            args = tuple(g(x) for x in a[1::2])
            f = ufs.get(a[0]) if ufs else None
            if f is None:
                v = hash((a[0], w) + args) & m
            else:
                v = f(*args) & m
        else:
            raise Exception('eval ' + op)
        c[t] = v
    return [g(r) for r in roots]


# ---------------------------------------------------------------- z3

class Z3Conv:
    def __init__(self, ctx=None):
        import z3
        self.z3 = z3
        self.ctx = ctx
        self.c = {}
        self.cb = {}
        self.ufs = {}

    def bv(self, v, w):
        return self.z3.BitVecVal(v, w, self.ctx)

    def _g(self, x, w):
        return self.bv(x, w) if x.__class__ is int else self.c[x]

    def mux(self, entries, idx, w):
        """entries: list of z3 exprs/ints, idx z3 bv"""
        z3 = self.z3
        n = idx.size()
        cur = list(entries)
        if len(cur) < (1 << n):
            cur += [0] * min((1 << n) - len(cur), 4096)
        bit = 0
        memo = {}
        while len(cur) > 1:
            sel_ = z3.Extract(bit, bit, idx) == 1
            nxt = []
            for i in range(0, len(cur), 2):
                a, b = cur[i], cur[i + 1] if i + 1 < len(cur) else 0
                if (a is b) or (a.__class__ is int and b.__class__ is int and a == b):
                    nxt.append(a)
                    continue
                k = (bit, a if a.__class__ is int else a.get_id(), a.__class__ is int,
                     b if b.__class__ is int else b.get_id(), b.__class__ is int)
                r = memo.get(k)
                if r is None:
                    za = self.bv(a, w) if a.__class__ is int else a
                    zb = self.bv(b, w) if b.__class__ is int else b
                    r = z3.If(sel_, zb, za, self.ctx)
                    memo[k] = r
                nxt.append(r)
            cur = nxt
            bit += 1
        r = cur[0]
        return self.bv(r, w) if r.__class__ is int else r

    def __call__(self, x, w=None):
        """returns z3 bit-vector"""
        if x.__class__ is int:
            return self.bv(x, w)
        c = self.c
        if x in c:
            return c[x]
        z3 = self.z3
        g = self._g
        for t in topo([x], None, c):
            op = t.op
            a = t.a
            w = t.w
            if op == 'var':
                v = z3.BitVec(a[0], w, self.ctx)
            elif op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
                p = g(a[0], w)
                q = g(a[1], w)
                if op == 'add':
                    v = p + q
                elif op == 'sub':
                    v = p - q
                elif op == 'mul':
                    v = p * q
                elif op == 'xor':
                    v = p ^ q
                elif op == 'and':
                    v = p & q
                elif op == 'or':
                    v = p | q
                elif op == 'shl':
                    v = p << q
                elif op == 'lshr':
                    v = z3.LShR(p, q)
                elif op == 'ashr':
                    v = p >> q
                elif op == 'udiv':
                    v = z3.UDiv(p, q)
                elif op == 'urem':
                    v = z3.URem(p, q)
                elif op == 'sdiv':
                    v = p / q
                else:
                    v = z3.SRem(p, q)
            elif op == 'extract':
                v = z3.Extract(a[1] + w - 1, a[1], c[a[0]])
            elif op == 'concat':
                v = z3.Concat(*[g(a[i], a[i + 1]) for i in range(0, len(a), 2)])
            elif op == 'ite':
                v = z3.If(c[a[0]] == 1, g(a[1], w), g(a[2], w), self.ctx)
            elif op in ('eq', 'ult', 'slt'):
                ww = (a[0] if a[0].__class__ is T else a[1]).w
                p = g(a[0], ww)
                q = g(a[1], ww)
                if op == 'eq':
                    e = p == q
                elif op == 'ult':
                    e = z3.ULT(p, q)
                else:
                    e = p < q
                v = z3.If(e, self.bv(1, 1), self.bv(0, 1), self.ctx)
            elif op == 'sext':
                v = z3.SignExt(w - a[0].w, c[a[0]])
            elif op == 'lookup':
                v = self.mux(TABLES[a[0]], c[a[1]], w)
            elif op == 'sel':
                v = self.mux([e if e.__class__ is int else c[e] for e in a[0]], c[a[1]], w)
            elif op == 'uf':
                ws = a[2::2]
                k = (a[0], ws, w)
                f = self.ufs.get(k)
                if f is None:
                    f = z3.Function('%s_%d_%s' % (a[0], w, '_'.join(map(str, ws))),
                                    *([z3.BitVecSort(s, self.ctx) for s in ws] + [z3.BitVecSort(w, self.ctx)]))
                    self.ufs[k] = f
                v = f(*[g(p, s) for p, s in zip(a[1::2], ws)])
            else:
                raise Exception('z3 ' + op)
            c[t] = v
        return c[x]

    def b(self, x):
        """boolean (width 1) term to z3 Bool"""
        if x.__class__ is int:
            return self.z3.BoolVal(bool(x), self.ctx)
        r = self.cb.get(x)
        if r is None:
            r = self.cb[x] = self._b(x)
        return r

    def _b(self, x):
        if x.op == 'xor' and x.a[1].__class__ is int:
            return self.z3.Not(self.b(x.a[0]))
        if x.op == 'and':
            return self.z3.And(self.b(x.a[0]), self.b(x.a[1]))
        if x.op == 'or':
            return self.z3.Or(self.b(x.a[0]), self.b(x.a[1]))
        z = self.z3
        if x.op in ('eq', 'ult', 'slt'):
            a = x.a
            ww = (a[0] if a[0].__class__ is T else a[1]).w
            p = self(a[0], ww)
            q = self(a[1], ww)
            return p == q if x.op == 'eq' else z.ULT(p, q) if x.op == 'ult' else p < q
        return self(x) == 1


class _SeenProxy:
    """set-like view that records new members separately from a big dict"""

    def __init__(self, c):
        self.c = c
        self.s = set()

    def __contains__(self, x):
        return x in self.s or x in self.c

    def add(self, x):
        self.s.add(x)
