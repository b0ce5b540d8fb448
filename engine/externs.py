"""Models of LLVM intrinsics, the Rust runtime, and the harness interface."""
import terms as T
from terms import Term, MASKS
from llparse import demangle, Unsupported


def intrinsic(eng, name, argty, rty, mod):
    from execir import PathEnd
    n = name.split('.')
    k = n[1]
    if k in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'invariant', 'prefetch', 'sideeffect'):
        return lambda st, a: None
    if k in ('memcpy', 'memmove'):
        def f(st, a):
            d, s, c = eng.concretize(st, a[0]), eng.concretize(st, a[1]), eng.concretize(st, a[2])
            eng.memcpy(st, d, s, c)
        return f
    if k == 'memset':
        def f(st, a):
            d, c = eng.concretize(st, a[0]), eng.concretize(st, a[2])
            if c == 0:
                return
            v = a[1]
            oid, o, off = eng.getobj(st, d, c, 'memset')
            o = eng.wobj(st, oid, o)
            o.b[off:off + c] = [v if type(v) is int else (v, 0)] * c
        return f
    if k in ('umin', 'umax', 'smin', 'smax', 'ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr', 'abs') or k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        if argty[0][0] == 'vec':
            return None
        w = argty[0][1]
    if k == 'umin':
        return lambda st, a: T.ite(T.ult(w, a[0], a[1]), a[0], a[1], w)
    if k == 'umax':
        return lambda st, a: T.ite(T.ult(w, a[0], a[1]), a[1], a[0], w)
    if k == 'smin':
        return lambda st, a: T.ite(T.slt(w, a[0], a[1]), a[0], a[1], w)
    if k == 'smax':
        return lambda st, a: T.ite(T.slt(w, a[0], a[1]), a[1], a[0], w)
    if k == 'abs':
        return lambda st, a: T.ite(T.slt(w, a[0], 0), T.sub(w, 0, a[0]), a[0], w)
    if k == 'ctlz':
        return lambda st, a: T.ctlz(w, a[0])
    if k == 'cttz':
        def f(st, a):
            x = a[0]
            if type(x) is int:
                return w if x == 0 else (x & -x).bit_length() - 1
            # ctpop-free: w - ctlz(~x & (x-1))
            return T.sub(w, w, T.ctlz(w, T.bitop('and', w, T.bitop('xor', w, x, MASKS[w]), T.sub(w, x, 1))))
        return f
    if k == 'ctpop':
        return lambda st, a: T.ctpop(w, a[0])
    if k == 'bswap':
        return lambda st, a: T.bswap(w, a[0])
    if k in ('fshl', 'fshr'):
        def f(st, a):
            if type(a[2]) is not int:
                raise Unsupported('symbolic funnel shift')
            s = a[2] % w
            if k == 'fshr':
                s = (w - s) % w if s else 0
                if s == 0:
                    return a[1] if True else None
            if s == 0:
                return a[0]
            c = T.mkcat([(a[0], w), (a[1], w)])
            return T.ext(2 * w - 1 - s, w - s, c, 2 * w)
        return f
    if len(n) > 3 and n[2] == 'with':
        if k == 'uadd':
            def f(st, a):
                r = T.add(w, a[0], a[1])
                return (r, T.ult(w, r, a[0]))
            return f
        if k == 'usub':
            return lambda st, a: (T.sub(w, a[0], a[1]), T.ult(w, a[0], a[1]))
        if k == 'umul':
            def f(st, a):
                x, y = a
                if type(x) is int and type(y) is int:
                    return ((x * y) & MASKS[w], 1 if (x * y) >> w else 0)
                if w == 64:
                    p = T.pmul(x, y)
                    return (T.trunc(p, 128, 64), T.Not(T.eq(64, T.ext(127, 64, p, 128), 0)))
                if w == 128:
                    zx, zy = T._z64(x, 128), T._z64(y, 128)
                    if zx is not None and zy is not None:
                        return (T.pmul(zx, zy), 0)
                    raise Unsupported('umul.with.overflow.i128 of wide operands')
                p = T.mul(2 * w, T.zext(x, w, 2 * w), T.zext(y, w, 2 * w))
                return (T.trunc(p, 2 * w, w), T.Not(T.eq(w, T.ext(2 * w - 1, w, p, 2 * w), 0)))
            return f
        if k in ('sadd', 'ssub'):
            fn = T.add if k == 'sadd' else T.sub

            def f(st, a):
                x, y = T.sext(a[0], w, w + 8), T.sext(a[1], w, w + 8)
                r = fn(w + 8, x, y)
                t = T.trunc(r, w + 8, w)
                return (t, T.Not(T.eq(w + 8, T.sext(t, w, w + 8), r)))
            return f
        return None
    if len(n) > 2 and n[2] == 'sat':
        if k == 'uadd':
            def f(st, a):
                r = T.add(w, a[0], a[1])
                return T.ite(T.ult(w, r, a[0]), MASKS[w], r, w)
            return f
        if k == 'usub':
            return lambda st, a: T.ite(T.ult(w, a[0], a[1]), 0, T.sub(w, a[0], a[1]), w)
        return None
    if k == 'load' and n[2] == 'relative':
        def f(st, a):
            base, off = eng.concretize(st, a[0]), eng.concretize(st, a[1])
            from execir import RelOff
            v = eng.load(st, (base + off) & MASKS[64], 4)
            if type(v) is RelOff:
                return v.addr
            return (base + T.sext(v, 32, 64)) & MASKS[64]
        return f
    if k == 'expect':
        return lambda st, a: a[0]
    if k == 'is' and n[2] == 'constant':
        return lambda st, a: 0
    if k == 'trap':
        def f(st, a):
            raise PathEnd('panic', 'abort')
        return f
    if k == 'objectsize':
        return lambda st, a: MASKS[64]
    return None


def cmp_bytes(eng, st, p, q, n):
    """(equal-bool)"""
    if n == 0:
        return 1
    r = 1
    off = 0
    while off < n:
        k = min(64, n - off)
        a = eng.load(st, p + off, k)
        b = eng.load(st, q + off, k)
        r = T.And(r, T.eq(8 * k, a, b))
        off += k
    return r


def read_str(eng, st, p, n):
    try:
        _, o, off = eng.getobj(st, p, n, 'str')
        return bytes(x if type(x) is int else 63 for x in o.b[off:off + n]).decode('utf-8', 'replace')
    except Exception:
        return '?'


def loc_str(eng, st, p):
    try:
        fp = eng.load(st, p, 8)
        ln = eng.load(st, p + 8, 8)
        line = eng.load(st, p + 16, 4)
        return '%s:%d' % (read_str(eng, st, fp, ln), line)
    except Exception:
        return '?'


def install(eng):
    from execir import PathEnd
    E = eng.externs
    cz = eng.concretize

    # ------------------------------------------------ harness interface
    def fresh(st, w, hint=None):
        st.nany += 1
        v = T.var('a%d_%d' % (st.nany, w) if hint is None else 'a%dh%d_%d' % (st.nany, hint, w), w)
        st.anys.append((w, v))
        return v

    E['__v_u64'] = lambda st, a: fresh(st, 64)

    def v_pinned(st, a):
        hints = tuple(eng.load(st, a[0] + 8 * i, 8) for i in range(a[1]))
        return fresh(st, 64, T.hints(hints))
    E['__v_pinned'] = v_pinned
    E['__v_u32'] = lambda st, a: fresh(st, 32)
    E['__v_u8'] = lambda st, a: fresh(st, 8)
    E['__v_bool'] = lambda st, a: fresh(st, 1)

    def v_choose(st, a):
        n = cz(st, a[0])
        if n == 0:
            raise PathEnd('infeasible')
        i = eng.choose(st, n)
        st.anys.append((64, i))
        return i
    E['__v_choose'] = v_choose

    def v_assume(st, a):
        eng.assume(st, a[0])
    E['__v_assume'] = v_assume

    def v_check(st, a):
        c = a[0]
        st.checks.append((c, a[1], a[2], a[3]))
        if type(c) is int and not c:
            raise PathEnd('checkfail', str(a[1]))
    E['__v_check'] = v_check

    def v_cover(st, a):
        st.covers.add(cz(st, a[0]))
    E['__v_cover'] = v_cover

    def v_panic_ok(st, a):
        st.panic_ok = bool(cz(st, a[0]))
    E['__v_panic_ok'] = v_panic_ok

    E['__v_param'] = lambda st, a: eng.params[a[0]] if a[0] < len(eng.params) else 0
    E['__v_trace'] = lambda st, a: st.notes.append(a[0])

    def v_decide(st, a):
        return 1 if eng.decide(st, a[0]) else 0
    E['__v_decide'] = v_decide

    # ------------------------------------------------ allocator
    def r_alloc(st, a):
        n = cz(st, a[0])
        return eng.alloc(st, n, 'heap')
    E['__rust_alloc'] = r_alloc

    def r_alloc_z(st, a):
        n = cz(st, a[0])
        return eng.alloc(st, n, 'heap', True)
    E['__rust_alloc_zeroed'] = r_alloc_z

    def r_dealloc(st, a):
        p = cz(st, a[0])
        eng.free(st, p)
    E['__rust_dealloc'] = r_dealloc

    def r_realloc(st, a):
        p, old, n = cz(st, a[0]), cz(st, a[1]), cz(st, a[3])
        q = eng.alloc(st, n, 'heap')
        eng.memcpy(st, q, p, min(old, n))
        eng.free(st, p)
        return q
    E['__rust_realloc'] = r_realloc

    def bcmp(st, a):
        n = cz(st, a[2])
        if n == 0:
            return 0
        p, q = cz(st, a[0]), cz(st, a[1])
        return T.ite(cmp_bytes(eng, st, p, q, n), 0, 1, 32)
    E['bcmp'] = bcmp

    def memcmp(st, a):
        n = cz(st, a[2])
        if n == 0:
            return 0
        p, q = cz(st, a[0]), cz(st, a[1])
        x, y = eng.load(st, p, n), eng.load(st, q, n)
        x, y = T.bswap(8 * n, x), T.bswap(8 * n, y)
        return T.ite(T.eq(8 * n, x, y), 0, T.ite(T.ult(8 * n, x, y), MASKS[32], 1, 32), 32)
    E['memcmp'] = memcmp

    # ------------------------------------------------ panics: matched by demangled name
    def panic_str(st, a):
        raise PathEnd('panic', '%s (%s)' % (read_str(eng, st, a[0], a[1]), loc_str(eng, st, a[2]) if len(a) > 2 else '?'))

    def panic_loc_last(name):
        def f(st, a):
            raise PathEnd('panic', '%s (%s)' % (name, loc_str(eng, st, a[-1]) if a else '?'))
        return f

    PAT = []

    def pat(s, f):
        PAT.append((s, f))
    pat('core::panicking::panic', panic_str)
    pat('core::option::expect_failed', panic_str)
    pat('core::str::slice_error_fail', panic_loc_last('str slice'))

    def unwrap_failed(st, a):
        if len(a) >= 5:
            raise PathEnd('panic', '%s (%s)' % (read_str(eng, st, a[0], a[1]), loc_str(eng, st, a[-1])))
        raise PathEnd('panic', 'unwrap failed (%s)' % loc_str(eng, st, a[-1]))
    pat('core::result::unwrap_failed', unwrap_failed)
    exact_names = dict(PAT)

    def generic(name, args_n=None):
        pass

    PANIC_PREFIX = ('core::panicking::', 'core::slice::index::slice_', 'core::option::', 'core::result::', 'core::cell::panic_already',
                    'alloc::raw_vec::capacity_overflow', 'alloc::alloc::handle_alloc_error', 'bytemuck::internal::something_went_wrong',
                    'std::panicking::', 'core::array::', 'core::slice::copy_from_slice::len_mismatch_fail', 'core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail',
                    'alloc::vec::Vec<T,A>::remove::assert_failed', 'alloc::vec::Vec<T,A>::swap_remove::assert_failed', 'alloc::vec::Vec<T,A>::insert::assert_failed',
                    'core::slice::<impl [T]>::split_at', 'alloc::raw_vec::handle_error', 'rust_begin_unwind')
    STUBBED = ('solana_program::log::', 'solana_program::program_stubs::')
    UNIT = ('solana_program::log::sol_log', 'solana_program::program_stubs::sol_log')

    # ------------------------------------------------ the Solana SDK functions the program calls
    # AccountInfo { key 0, lamports 8, data 16, owner 24, rent_epoch 32, flags 40 }; RefCell payload at 24 of its Rc box
    def ai_lamports(st, a):
        rc = cz(st, eng.load(st, cz(st, a[0]) + 8, 8))
        p = cz(st, eng.load(st, rc + 24, 8))
        return eng.load(st, p, 8)

    def ai_data_len(st, a):
        rc = cz(st, eng.load(st, cz(st, a[0]) + 16, 8))
        return eng.load(st, rc + 32, 8)

    def to_bytes(st, a):
        eng.memcpy(st, cz(st, a[0]), cz(st, a[1]), 32)

    def rent_get(st, a):
        p = cz(st, a[0])
        eng.store(st, p, 8, 0)
        eng.store(st, p + 8, 8, 3480)
        eng.store(st, p + 16, 8, 0x4000000000000000)
        eng.store(st, p + 24, 8, 50)

    def is_exempt(st, a):
        # (128 + len) * 3480 lamports per byte-year * 2.0 years, exact in f64 below 2^53
        n = a[2]
        if type(n) is Term and not eng.decide(st, T.ult(64, n, 1 << 41)):
            n = cz(st, n)
        if type(n) is not Term and n >= 1 << 41:
            raise Unsupported('rent of 2^41 bytes or more')
        return T.Not(T.ult(64, a[1], T.mul(64, T.add(64, n, 128), 6960)))

    def minimum_balance(st, a):
        n = a[1]
        if type(n) is Term and not eng.decide(st, T.ult(64, n, 1 << 41)):
            n = cz(st, n)
        if type(n) is not Term and n >= 1 << 41:
            raise Unsupported('rent of 2^41 bytes or more')
        return T.mul(64, T.add(64, n, 128), 6960)

    def meta(writable):
        def f(st, a):
            p = cz(st, a[0])
            eng.memcpy(st, p, cz(st, a[1]), 32)
            eng.store(st, p + 32, 1, T.zext(a[2], 1, 8) if type(a[2]) is Term else a[2] & 1)
            eng.store(st, p + 33, 1, writable)
        return f
    def io_error(st, a):
        # a boxed custom error {payload, vtable, kind}, tagged 1 in the low bits of the pointer
        q = eng.alloc(st, 24, 'heap')
        eng.store(st, q, 8, a[1])
        eng.store(st, q + 8, 8, a[2])
        eng.store(st, q + 16, 8, T.zext(a[0], 8, 64))
        return q + 1
    SP = 'solana_program::'
    SOLANA = {
        'std::io::error::Error::_new': io_error,
        SP + 'account_info::AccountInfo::lamports': ai_lamports,
        SP + 'account_info::AccountInfo::data_len': ai_data_len,
        SP + 'pubkey::Pubkey::to_bytes': to_bytes,
        SP + 'sysvar::rent::<impl solana_program::sysvar::Sysvar for solana_program::rent::Rent>::get': rent_get,
        SP + 'rent::Rent::is_exempt': is_exempt,
        SP + 'rent::Rent::minimum_balance': minimum_balance,
        SP + 'instruction::AccountMeta::new': meta(1),
        SP + 'instruction::AccountMeta::new_readonly': meta(0),
    }

    cache = {}

    def find(name):
        if name in cache:
            return cache[name]
        r = _find(name)
        cache[name] = r
        return r

    def _find(name):
        if name in E:
            return E[name]
        d = demangle(name)
        if d in exact_names:
            return exact_names[d]
        if name in eng.ext and not d.startswith(STUBBED):
            return custom(d, name)
        for p in PANIC_PREFIX:
            if d.startswith(p):
                return panic_loc_last(d)
        if d in UNIT or d.startswith('solana_program::log::') or d.startswith('solana_program::program_stubs::sol_log'):
            return lambda st, a: None
        return custom(d, name)

    def custom(d, name=''):
        if d == 'alloc::fmt::format::format_inner' or d == 'alloc::fmt::format':
            # -> String (sret): empty string {cap 0, ptr 1, len 0}: layout independent because all-zero with dangling 1 pointer
            def f(st, a):
                p = cz(st, a[0])
                eng.store(st, p, 8, 0)
                eng.store(st, p + 8, 8, 1)
                eng.store(st, p + 16, 8, 0)
            return f
        if name.startswith('_') and (d.startswith('core::fmt::') or d.endswith(('core::fmt::Display>::fmt', 'core::fmt::Debug>::fmt'))) and name not in eng.ext:
            return lambda st, a: 0      # text is never looked at: formatting writes nothing and succeeds
        return SOLANA.get(d)

    eng.find_extern = find
