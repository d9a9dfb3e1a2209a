"""Block ciphers from their standards, as terms (FIPS-197, GB/T 32907), and the GF(2) decision of equality."""
from numlib import *
from vf.gf2 import GF2, Unknown
from vf.intrin import aes_tables, aes_subbytes, aes_shiftrows, aes_mixcol, _gmul
import random


# ---------------------------------------------------------------- AES

def aes_expand(key):
    """key: list of byte terms -> list of round keys (16 byte terms each)"""
    nk = len(key) // 4
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = aes_subbytes(t[1:] + t[:1])
            t[0] = tm.xor(8, t[0], rc)
            rc = _gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = aes_subbytes(t)
        w.append([tm.xor(8, a, b) for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def x16(a, b):
    return [tm.xor(8, x, y) for x, y in zip(a, b)]


def aes_enc(rk, s):
    s = x16(s, rk[0])
    for r in range(1, len(rk)):
        s = aes_shiftrows(aes_subbytes(s))
        if r < len(rk) - 1:
            s = aes_mixcol(s)
        s = x16(s, rk[r])
    return s


def aes_dec(rk, s):
    s = x16(s, rk[-1])
    for r in range(len(rk) - 2, -1, -1):
        s = aes_subbytes(aes_shiftrows(s, True), True)
        s = x16(s, rk[r])
        if r:
            s = aes_mixcol(s, True)
    return s


def aes(key, blk, enc):
    return (aes_enc if enc else aes_dec)(aes_expand(key), blk)


# ---------------------------------------------------------------- SM4

def _sm4_sbox():
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 0x100:
                a ^= 0x1f5
            b >>= 1
        return r
    inv = [0] * 256
    for x in range(1, 256):
        for y in range(1, 256):
            if mul(x, y) == 1:
                inv[x] = y
                break

    def aff(x):
        r = 0
        row = 0xa7
        for i in range(8):
            # row i of the circulant matrix, most significant row first
            if bin(x & row).count('1') & 1:
                r |= 1 << i
            row = ((row << 1) | (row >> 7)) & 255
        return r ^ 0xd3
    return [aff(inv[aff(x)]) for x in range(256)]


_s4 = None


def sm4_tab():
    global _s4
    if _s4 is None:
        s = _sm4_sbox()
        assert (s[0], s[1], s[0xff]) == (0xd6, 0x90, 0x48)
        _s4 = tm.table(s, 8)
    return _s4


FK = [0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc]
CK = [sum(((4 * i + j) * 7 & 255) << (24 - 8 * j) for j in range(4)) for i in range(32)]


def x32(*a):
    r = 0
    for v in a:
        r = tm.xor(32, r, v)
    return r


def rotl(x, n):
    return tm.concat([(tm.extract(x, 0, 32 - n), 32 - n), (tm.extract(x, 32 - n, n), n)])


def sm4_tau(x):
    t = sm4_tab()
    return tm.concat([(tm.lookup(t, tm.extract(x, 24 - 8 * i, 8)), 8) for i in range(4)])


def words(b):
    return [tm.concat([(x, 8) for x in b[4 * i:4 * i + 4]]) for i in range(4)]


def sm4_expand(key):
    k = [x32(w, f) for w, f in zip(words(key), FK)]
    out = []
    for i in range(32):
        t = sm4_tau(x32(k[1], k[2], k[3], CK[i]))
        n = x32(k[0], t, rotl(t, 13), rotl(t, 23))
        out.append(n)
        k = k[1:] + [n]
    return out


def sm4(key, blk, enc):
    rk = sm4_expand(key)
    if not enc:
        rk = rk[::-1]
    x = words(blk)
    for r in rk:
        t = sm4_tau(x32(x[1], x[2], x[3], r))
        x = x[1:] + [x32(x[0], t, rotl(t, 2), rotl(t, 10), rotl(t, 18), rotl(t, 24))]
    return [tm.extract(w, 24 - 8 * i, 8) for w in x[::-1] for i in range(4)]


# ---------------------------------------------------------------- deciding

class GFn(Fn):
    """equality by canonical GF(2) forms, in chunks of 128 bits; a difference is hunted down to a concrete input"""
    chunk = 128

    def decide(self, w, g, t, pc, what, confirm):
        j = self.j
        if g is t or g.__class__ is int and t.__class__ is int and g == t:
            j.ok(structural=True)
            return True
        ok = True
        for lo in range(0, w, self.chunk):
            n = min(self.chunk, w - lo)
            a, b = tm.extract(g, lo, n), tm.extract(t, lo, n)
            if a is b:
                continue
            D = GF2()
            t0 = time.time()
            same = D.bits(a, n) == D.bits(b, n)
            j.solver_s += time.time() - t0
            j.queries += 1
            if not same:
                ok = False
                break
        if ok:
            j.ok()
            return True
        rnd = random.Random(5)
        vs = [v for v in self.V.values()]
        base = [{}]
        if pc:
            r, m = j.query(list(pc), timeout=20000)
            if r == 'unsat':
                j.ok()
                return True
            if r == 'sat':
                base = [m]
        for i in range(1500):
            env = {v.a[0]: rnd.getrandbits(v.w) for v in vs}
            if pc:
                if not all(tm.evaluate(list(pc), env)):
                    env = dict(env)
                    env.update(base[0])
                    if not all(tm.evaluate(list(pc), env)):
                        continue
            x, y = tm.evaluate([a, b], env)
            if x != y:
                cx = confirm(env)
                if cx is not None:
                    j.violation(what, cx)
                    return False
        j.inconclusive(what + ': normal forms differ, no input found that shows a difference')
        return None
