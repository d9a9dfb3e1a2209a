"""C02: SM4 against GB/T 32907, every key and block; byte-wise, table-driven and AVX2 implementations."""
from ciphers import *
from C01 import block, job, selftest

if __name__ == '__main__':
    selftest()
    C = Check('C02', 'model_checking')
    SRC = ['src/aes/aes_lut.cpp', 'src/aes/aes_aesni.cpp', 'src/sm4/sm4_common.cpp', 'src/sm4/sm4_lang18.cpp']
    L = build('c02', 'block.cpp', SRC, ('portable', 'lang18p', 'lang18'))
    q = C.quick
    for v in ('portable', 'lang18p', 'lang18'):
        for enc in (1, 0):
            one = [(1, enc, 0), (1, enc, 1), (1, 4 | enc, 0)]
            ns = {'portable': (0, 1, 2, 3), 'lang18p': (0, 1, 3, 4, 5, 8), 'lang18': (0, 1, 4, 7, 8, 9, 12, 15)}[v] if q else range(0, 18)
            C.job('%s %d' % (v, enc), job, L, v, 'sm4_', sm4, 16, one + [(n, 2 | enc, 0) for n in ns])
            ns = {'portable': (2, 3), 'lang18p': (4, 5), 'lang18': (4, 8)}[v] if q else range(2, 18)
            C.job('%s %d in place' % (v, enc), job, L, v, 'sm4_', sm4, 16, [(n, 2 | enc, 1) for n in ns])
            if v == 'lang18':
                for n in (16, 17, 24, 29) if q else range(18, 50):
                    C.job('%s %d %d blocks' % (v, enc, n), job, L, v, 'sm4_', sm4, 16, [(n, 2 | enc, n % 3 == 0)])
    C.run()
    C.finish()
