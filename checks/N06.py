"""byte strings of any length reduce to the right residue"""
from numlib import *
from vf.ffd import M, Lost
import u256
import random
C = Check('N06', 'model_checking')
SEED = int(os.environ.get('VERIF_SEED', '1'))
rev = u256.rev
PRE = u256.PRE


class Lin:
    """values modulo P as linear forms over the input bytes"""

    def __init__(self, j, e, L, divisor):
        self.j, self.e, self.L = j, e, L
        self.reg = {}       # result term -> (modulus, {byte: coefficient})
        self.mk = {}
        self.zvars = set()
        self.B = tm.concat([(tm.var('in%d' % i, 8), 8) for i in reversed(range(L))]) if L else 0
        e.hook(PRE + 'mod_add', self.add, required=False)
        e.hook(PRE + 'mod_sub', self.sub, required=False)
        e.hook(M + 'mul', self.mul, required=False)
        e.hook(PRE + 'cmp', self.cmp, required=False)

    def cmp(self, ex, st, a):
        x, y = st.load(a[0], 32), st.load(a[1], 32)
        for u, v, r in ((x, y, 0xffffffff), (y, x, 1)):
            if u in self.reg and v == self.reg[u][0]:       # reduced by contract
                return r
        return u256.cmp3(x, y)

    def raw(self, st, t, P):
        """(modulus, linear form) of a term made of input bytes less multiples of P; must be below P"""
        if t.__class__ is int:
            if not t < P:
                raise Lost('operand %x not reduced' % t)
            return {-1: t} if t else {}
        if t in self.reg:
            m, q = self.reg[t]
            if m != P:
                raise Lost('value reduced modulo something else')
            return q
        if self.e.check(st, tm.not_(tm.ult(256, t, P))) != 'unsat':
            raise Lost('operand is not known to be reduced')
        used = {int(v.a[0][2:]) for v in tm.vars_of([t]) if v.a[0].startswith('in')}
        if not used:
            raise Lost('operand is no chunk of the input')
        a, b = min(used), max(used) + 1
        if b - a <= 32:
            V = rev(tm.extract(self.B, 8 * a, 8 * (b - a)), b - a)
            V = tm.zext(256, V, 8 * (b - a)) if b - a < 32 else V
            for k in range(4):
                u = tm.sub(256, V, k * P % R256) if k else V
                if u is t or self.e.check(st, tm.ne(256, t, u)) == 'unsat':
                    if k and self.e.check(st, tm.ult(256, V, k * P)) != 'unsat' if k * P < R256 else k:
                        continue
                    return {i: pow(256, b - 1 - i, P) for i in range(a, b)}
        raise Lost('operand is no chunk of the input')

    def put(self, st, p, q, P):
        q = {i: c % P for i, c in q.items() if c % P}
        k = (P, tuple(sorted(q.items())))
        if k not in self.mk:
            if not q:
                self.mk[k] = 0
            elif set(q) == {-1}:
                self.mk[k] = q[-1]
            else:
                t = self.mk[k] = tm.fresh('res', 256)
                self.reg[t] = (P, q)
        t = self.mk[k]
        st.store(p, t, 32)

    def comb(self, st, args, sgn):
        r, a, b, m = args
        P = st.load(m, 32)
        if P.__class__ is not int:
            raise Lost('symbolic modulus')
        u, v = self.raw(st, st.load(a, 32), P), self.raw(st, st.load(b, 32), P)
        q = dict(u)
        for i, c in v.items():
            q[i] = q.get(i, 0) + sgn * c
        self.put(st, r, q, P)

    def add(self, ex, st, a):
        self.comb(st, a, 1)

    def sub(self, ex, st, a):
        self.comb(st, a, -1)

    def mul(self, ex, st, args):
        ctx, r, a, b = args
        P = st.load(st.load(ctx, 8), 32)
        if P.__class__ is not int:
            raise Lost('symbolic modulus')
        u, v = self.raw(st, st.load(a, 32), P), self.raw(st, st.load(b, 32), P)
        if set(u) - {-1}:
            u, v = v, u
        if set(u) - {-1}:
            raise Lost('product of two input values')
        c = u.get(-1, 0) * pow(R256, -1, P)
        self.put(st, r, {i: c * w for i, w in v.items()}, P)

    def zero(self, st, q, P):
        """the linear form vanishes on the path"""
        q = {i: c % P for i, c in q.items() if c % P}
        if not q:
            return True
        import math
        facts = []
        for c in st.conds():
            t = c.a if c.__class__ is T and c.op == 'eq' else None
            for x, y in ((t[0], t[1]), (t[1], t[0])) if t else ():
                if y.__class__ is int and y == 0 and x in self.reg and self.reg[x][0] == P:
                    f = red(self.reg[x][1], facts, P)
                    pv = [i for i in sorted(f) if math.gcd(f[i], P) == 1]
                    if pv:
                        facts.append((pv[-1], f))
        return not red(q, facts, P)


def red(q, facts, P):
    q = dict(q)
    for i, f in facts:
        k = q.get(i, 0) * pow(f[i], -1, P) % P
        if k:
            for x, w in f.items():
                q[x] = (q.get(x, 0) - k * w) % P
    return {i: c for i, c in q.items() if c}


def edges(r, P, L):
    b = r.choice([bytes(L), b'\xff' * L, r.randbytes(L), b'\x00' * (L // 2) + r.randbytes(L - L // 2)])
    k = r.randrange(6)
    if k == 0 and L:
        v = (r.randrange(1 << 8 * L) // P) * P + r.choice([0, 1, P - 1])
        b = v.to_bytes(L + 33, 'big')[-L:]
    if k == 1 and L >= 32:
        ch = [r.choice([P, P - 1, P + 1, 0, (1 << 256) - 1, r.randrange(1 << 256)]) % R256 for _ in range(L // 32)]
        b = b''.join(c.to_bytes(32, 'big') for c in ch) + b[:L % 32]
    if k == 2 and L > 32:
        b = P.to_bytes(32, 'big') + b[32:]
    if k == 3 and L > 32:
        # a prefix whose residue has few non-zero limbs
        s = L - r.choice([c for c in (32, L % 32, 1 + r.randrange(L - 1)) if 0 < c <= L])
        v = sparse(r) % P
        if s:
            b = (v + (P * r.randrange(((1 << 8 * s) - 1 - v) // P + 1) if v >> 8 * s == 0 else 0)).to_bytes(max(s, 32), 'big')[-s:] + b[s:]
    return b


def sparse(r):
    w = [r.choice([0, 0, 1, 0xffffffff, r.getrandbits(32)]) for _ in range(8)]
    i = r.randrange(9)
    w[:i] = [0] * i if r.random() < .5 else w[:i]
    return sum(x << 32 * k for k, x in enumerate(w))


def solved(j, D, conds, P, n):
    """input bytes on which the path is taken: residues of chunk prefixes are set from a model of the path condition"""
    r, env = j.query(conds, timeout=5000)
    if r != 'sat':
        return None
    b = bytearray((env.get('in%d' % i, 0)) & 255 for i in range(n))
    for t, (m, q) in D.reg.items():
        ix = sorted(i for i in q if i >= 0)
        if m != P or t.a[0] not in env or len(ix) < 33 or ix != list(range(ix[0], ix[-1] + 1)):
            continue
        # coefficients are c * 256^(last - i): choose the bytes for c * value = residue
        try:
            v = (env[t.a[0]] - q.get(-1, 0)) * pow(q[ix[-1]], -1, P) % P
        except ValueError:
            continue
        tail = sum(b[i] * pow(256, ix[-1] - i, P) for i in ix[32:])
        try:
            head = (v - tail) * pow(pow(256, ix[-1] - ix[31], P), -1, P) % P
        except ValueError:
            continue
        b[ix[0]:ix[0] + 32] = head.to_bytes(32, 'big')
        break
    return bytes(b)


def job(j, L, variant, fn, P, scale, lens):
    ll, so = lib(L, variant)
    for n in lens:
        one(j, ll, so, variant, fn, P, scale, n)


def one(j, ll, so, variant, fn, P, scale, n):
    what = '%s %s, %d bytes' % (variant, fn, n)
    memo = []
    seen_in = set()

    def hunt(more=None):
        if more and more not in seen_in and len(seen_in) < 8 and not (memo and memo[0]):
            seen_in.add(more)
            memo[:] = [m for m in memo if m]
            ins0 = [more]
        else:
            ins0 = []
        if not memo:
            memo.append(None)
            r = random.Random(SEED)
            ins = ins0 + ([edges(r, P, n) for _ in range(300)] if not seen_in or len(seen_in) == 1 else [])
            for b in ins:
                g = native(so, [(fn, [('buf', bytes(32)), ('buf', b), n])])
                w = int.from_bytes(b, 'big') * scale % P
                cx = dict(function=fn, input=b.hex(), length=n)
                if 'crash' in g:
                    memo[0] = dict(cx, observed=g['crash'])
                    break
                got = int.from_bytes(g['bufs'][0], 'little')
                if got != w:
                    memo[0] = dict(cx, observed=hex(got), expected=hex(w))
                    break
        return memo[0]

    def fail(msg, conds=None):
        cx = hunt(solved(j, D, conds, P, n) if conds is not None and len(seen_in) < 8 else None)
        if cx:
            j.violation('%s: %s' % (what, msg), cx)
        else:
            j.inconclusive('%s: %s' % (what, msg))
    e = X.Ex(X.Prog(ll), 120)
    u256.install(e)
    D = Lin(j, e, n, P)
    want = {i: pow(256, n - 1 - i, P) * scale for i in range(n)}
    try:
        st = e.run_ctors(X.State(e))
        ip, op = st.alloc(n), st.alloc(32)
        if n:
            st.store(ip, D.B, n)
        seen = 0
        for q in e.call(st, fn, [op, ip, n]):
            if q.kind != 'ret':
                fail(str(q.info or q.kind))
                continue
            seen += 1
            t = q.st.load(op, 32)
            try:
                got = D.raw(q.st, t, P)
            except Lost as ex:
                fail('result: ' + str(ex))
                continue
            d = dict(want)
            for i, c in got.items():
                d[i] = d.get(i, 0) - c
            if D.zero(q.st, d, P):
                j.ok(structural=True)
            elif j.query(q.st.conds())[0] == 'unsat':
                j.ok()
            else:
                fail('value modulo P', q.st.conds())
        if not seen:
            j.inconclusive(what + ': no path completes')
    except (X.Unsupported, Lost) as ex:
        fail(str(ex))
    j.absorb(e)


def main():
    L = build('n06', 'field.cpp', FIELD)
    full = list(range(0, 73)) if C.quick else list(range(0, 200))
    some = sorted({0, 1, 2, 7, 8, 9, 20, 31, 32, 33, 40, 47, 48, 63, 64, 65, 72, 96, 97}) if C.quick else list(range(0, 130))
    for v in ('portable', 'simd'):
        jobs = [('f_modn1_ex_n9', MOD['n9'] - 1, 1, full), ('f_fromx_real_n2', MOD['n2'], R256, full), ('f_fromx_real_n9', MOD['n9'], R256, full)]
        for m in MOD:
            jobs += [('f_mod_' + m, MOD[m], 1, some), ('f_fromx_' + m, MOD[m], R256, some)]
        for fn, P, sc, lens in jobs:
            for i in range(0, len(lens), 10):
                C.job('%s %s %d..%d' % (v, fn, lens[i], lens[min(i + 9, len(lens) - 1)]), job, L, v, fn, P, sc, lens[i:i + 10])
    C.bound('byte strings of every content; lengths 0..%d for the schemes\' entry points, %d lengths for the generic ones' % (full[-1], len(some)))
    C.assume('modular addition and Montgomery multiplication of reduced operands by contract (N03, N04), word operations by contract (N01)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
