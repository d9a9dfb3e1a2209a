"""C01: AES against FIPS-197, every key and block, table and AES-NI implementations."""
from ciphers import *


def le(bs):
    return tm.concat([(x, 8) for x in reversed(bs)])


def block(j, L, v, fn, cipher, klen, n, op, inplace):
    ll, so = lib(L, v)
    e = X.Ex(prog(ll), 400)
    enc = op & 1
    what = '%s %s %s, %d blocks%s%s' % (v, fn.strip('_'), 'encryption' if enc else 'decryption', n, ', in place' if inplace else '', ', re-keyed' if op >> 1 == 2 else '')
    if inplace:
        ps = [('io', 'x', 16 * n), ('same', 0), ('in', 'k', klen), ('k', n), ('k', op)]
    else:
        ps = [('out', 'y', 16 * n), ('in', 'x', 16 * n), ('in', 'k', klen), ('k', n), ('k', op)]
    f = GFn(j, e, so, fn, ps, what)
    x = [tm.extract(f.V['x'], 8 * i, 8) for i in range(16 * n)]
    k = [tm.extract(f.V['k'], 8 * i, 8) for i in range(klen)]
    want = []
    for b in range(n):
        want += cipher(k, x[16 * b:16 * b + 16], enc)
    f.check({'x' if inplace else 'y': le(want)} if n else {})
    j.absorb(e)


_p = {}


def prog(ll):
    if ll not in _p:
        _p[ll] = X.Prog(ll)
    return _p[ll]


def job(j, L, v, fn, cipher, klen, cases):
    for n, op, inp in cases:
        block(j, L, v, fn, cipher, klen, n, op, inp)
    j.bound('%s %s: every key, every block; block counts %s' % (v, fn.strip('_'), sorted({c[0] for c in cases})))


def selftest():
    env = {}
    k = list(range(16))
    p = [0x11 * i for i in range(16)]
    assert bytes(aes(k, p, 1)).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
    assert aes(k, aes(k, p, 1), 0) == p
    k = list(range(32))
    assert bytes(aes(k, p, 1)).hex() == '8ea2b7ca516745bfeafc49904b496089'
    k = list(bytes.fromhex('0123456789abcdeffedcba9876543210'))
    assert bytes(sm4(k, k, 1)).hex() == '681edf34d206965e86b3e94f536e4246'
    assert sm4(k, sm4(k, k, 1), 0) == k


if __name__ == '__main__':
    selftest()
    C = Check('C01', 'model_checking')
    SRC = ['src/aes/aes_lut.cpp', 'src/aes/aes_aesni.cpp', 'src/sm4/sm4_common.cpp', 'src/sm4/sm4_lang18.cpp']
    L = build('c01', 'block.cpp', SRC)
    q = C.quick
    top = 3 if q else 9
    for v in ('portable', 'simd'):
        for fn, klen in (('aes128', 16), ('aes192', 24), ('aes256', 32)):
            for enc in (1, 0):
                cs = [(1, enc, 0), (1, enc, 1), (1, 4 | enc, 0)] + [(n, 2 | enc, 0) for n in range(0, top + 1)] + [(n, 2 | enc, 1) for n in range(2, top + 1)]
                C.job('%s %s %d' % (v, fn, enc), job, L, v, fn, aes, klen, cs)
    C.run()
    C.finish()
