"""R01: every pattern of hardware success and failure, every output of the source, within the request lengths listed."""
from numlib import *
C = Check('R01', 'model_checking')
PAD = 5


class Src:
    """source of random words: every step is a fresh value and, for hardware, a symbolic success flag"""

    def __init__(self, e, flaky, limit):
        self.n = 0
        self.flaky = flaky
        self.limit = limit
        for nm, w in (('rand32', 32), ('rand64', 64), ('seed32', 32), ('seed64', 64)):
            e.hook('hw_' + nm, self.step(w), required=False)
        e.hook('rand', self.word(31), required=False)
        e.hook('srand', lambda ex, st, a: None, required=False)
        e.hook('time', lambda ex, st, a: tm.var('now', 64), required=False)
        e.hook(r'std::random_device::_M_getval', self.word(32), required=False)
        e.hook(r'std::random_device::_M_init', lambda ex, st, a: None, required=False)
        e.hook(r'std::random_device::_M_fini', lambda ex, st, a: None, required=False)
        e.hook(r'std::random_device::random_device', lambda ex, st, a: None, required=False)
        e.hook(r'std::random_device::~random_device', lambda ex, st, a: None, required=False)

    def fresh(self, st, w):
        i = st.data.get('step', 0)
        st.data['step'] = i + 1
        return i, tm.var('w%d' % i, w)

    def word(self, w):
        def h(ex, st, a):
            i, v = self.fresh(st, w)
            st.data['log'] = st.data.get('log', ()) + (1,)
            return v if w == 32 else tm.zext(32, v, w)
        return h

    def step(self, w):
        def h(ex, st, a):
            i, v = self.fresh(st, w)
            log = st.data.get('log', ())
            run = 0
            for x in reversed(log):
                if x:
                    break
                run += 1
            if run > self.limit:
                raise X.Halt('error', 'more than %d attempts in a row failed and the call goes on' % run)
            s = tm.var('s%d' % i, 1)

            def ok(s2):
                s2.store(a[0], v, w // 8)
                s2.data['log'] = log + (1,)

            def bad(s2):
                # the instruction clears its destination when it fails
                s2.store(a[0], 0, w // 8)
                s2.data['log'] = log + (0,)
            return X.Split([(s, 1, ok), (tm.not_(s), 0, bad)])
        return h


def one(j, ll, so, nm, calls, retries, flaky):
    """calls: [(function, arguments after the buffer)], n bytes in total"""
    fn, args, n = calls
    e = X.Ex(P(ll), 400)
    Src(e, flaky, 3 * (retries + 2))
    st = X.State(e)
    buf = st.alloc(n + PAD)
    old = [tm.var('o%d' % i, 8) for i in range(n + PAD)]
    st.putbytes(buf, old)
    what = '%s %s' % (fn, args)

    def confirm_with(log):
        def confirm(env):
            r = native(so, [('hw_script', [('buf', bytes(log)), len(log)]), (fn, [('buf', b'\xff' * (n + PAD))] + list(args)), ('hw_calls', [])], timeout=20)
            cx = dict(function=fn, arguments=list(args), outcome_of_each_hardware_step=list(log))
            if 'crash' in r:
                cx['observed'] = r['crash']
                return cx
            b = r['bufs'][1]
            ret = r['ret'][1] & 0xffffffff
            cx['observed'] = 'returned %s, bytes %s (source bytes are 01 02 03 ..., untouched ff)' % ('normally' if not ret else 'by exception', b.hex())
            cx['hardware_steps'] = r['ret'][2]
            if b[n:] != b'\xff' * PAD:
                return cx
            if not ret:
                d = set(b[:n])
                if len(d) != n or 0 in d or 255 in d:
                    return cx
            elif ret and fails(log) < max(retries, 1):
                return cx
            return None
        return confirm

    def fails(log):
        k = 0
        for x in reversed(log):
            if x:
                break
            k += 1
        return k
    seen = {'ret': 0, 'throw': 0}
    for p in e.call(st, fn, [buf] + list(args)):
        log = p.st.data.get('log', ())
        pc = p.st.conds()
        cf = confirm_with(log)
        if p.kind != 'ret':
            j.never(pc, '%s: %s' % (what, p.info or p.kind), cf)
            continue
        ret = p.st.ret
        out = [p.st.load(buf + i, 1) for i in range(n + PAD)]
        for i in range(n, n + PAD):
            j.equal(8, out[i], old[i], pc, what + ': byte behind the buffer', cf)
        if ret.__class__ is not int:
            raise X.Unsupported('symbolic result')
        if ret & 0xffffffff:
            seen['throw'] += 1
            # throwing is for a source that keeps failing
            if fails(log) < max(retries, 1):
                j.never(pc, what + ': gives up although the source did not fail %d times in a row' % max(retries, 1), cf)
            else:
                j.ok(structural=True)
            continue
        seen['ret'] += 1
        used = set()
        for i in range(n):
            b = out[i]
            good = None
            for v in tm.vars_of([b]) if b.__class__ is not int else ():
                if v.a[0][0] == 'w':
                    k = int(v.a[0][1:])
                    for q in range((v.w + 7) // 8):
                        if (k, q) not in used and log[k] and 8 * q + 8 <= v.w and good is None:
                            c = tm.extract(v, 8 * q, 8)
                            if c is b:
                                good = (k, q, c)
                    for q in range((v.w + 7) // 8):
                        if (k, q) not in used and log[k] and 8 * q + 8 <= v.w and good is None:
                            c = tm.extract(v, 8 * q, 8)
                            if j.query(list(pc) + [tm.ne(8, b, c)])[0] == 'unsat':
                                good = (k, q, c)
            if good is None:
                j.never(pc, what + ': byte %d is not a fresh byte of a successful output' % i, cf)
            else:
                used.add(good[:2])
                j.equal(8, b, good[2], pc, what)
    j.absorb(e)
    return seen


_p = {}


def P(ll):
    if ll not in _p:
        _p[ll] = X.Prog(ll)
    return _p[ll]


def hw(j, kind, w):
    ll, so = lib(L, 'simd')
    q = C.quick
    sz = w // 8
    vac = 0
    for r in (0, 1, 2, 10):
        nm = '%s%d_%d' % (kind, w, r)
        lim = {0: 9, 1: 5, 2: 4 if q else 5, 10: 2 if q else 3}[r]
        for n in range(0, lim * sz + 1):
            if q and r in (0, 10) and n % sz not in (0, 1, sz - 1) and n > sz:
                continue
            s = one(j, ll, so, nm, ('g_' + nm, (n, 0), n), r, True)
            vac += s['throw']
        for n in (1, 4, 8, 12):
            if n <= lim * sz:
                one(j, ll, so, nm, ('g_' + nm, (n, 1), n), r, True)
        for a in range(0, sz + 2):
            for b in (0, 1, sz - 1, sz) if q else range(0, sz + 1):
                if (a + sz - 1) // sz + (b + sz - 1) // sz <= lim:
                    one(j, ll, so, nm, ('h_' + nm, (a, b), a + b), r, True)
        j.bound('%s%d with %d retries: every outcome pattern of the hardware steps, requests of 0..%d bytes' % (kind, w, r, lim * sz))
    if vac:
        j.vac.append('%s%d: %d paths end in an exception' % (kind, w, vac))


def soft(j, nm):
    ll, so = lib(L, 'simd')
    top = 40 if C.quick else 300
    for n in range(0, top + 1):
        one(j, ll, so, nm, ('g_' + nm, (n, 0), n), 0, False)
    for n in (1, 4, 8, 12):
        one(j, ll, so, nm, ('g_' + nm, (n, 1), n), 0, False)
    for a in range(0, 10):
        for b in range(0, 10):
            one(j, ll, so, nm, ('h_' + nm, (a, b), a + b), 0, False)
    j.bound('%s: every output of the source, requests of 0..%d bytes' % (nm, top))


if __name__ == '__main__':
    L = {}
    try:
        L['simd'] = (compile_ir('r01', 'rng.cpp', [], 'simd'), compile_so('r01', 'rng.cpp', [], 'simd', ['-DNATIVE', '-Wl,-Bsymbolic']))
    except BuildError as ex:
        L['simd'] = ex
    for k in ('rand', 'seed'):
        for w in (32, 64):
            C.job('%s%d' % (k, w), hw, k, w)
    for nm in ('std', 'cstd'):
        C.job(nm, soft, nm)
    C.assume('RDRAND/RDSEED deliver a fresh value when the carry flag reports success and 0 otherwise (the intrinsics are replaced by symbolic steps); std::random_device and rand() deliver a fresh value per call')
    C.run()
    C.finish()
