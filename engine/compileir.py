"""Compiles parsed IR instructions to Python closures h(st, fr)."""
import terms as T
from terms import Term, MASKS
from llparse import parse_instr, Unsupported, demangle
from execir import JUMP, PathEnd, RelOff, Frame


class Comp:
    __slots__ = ('params', 'code', 'entry', 'phis')


def getter(eng, v, ty, mod):
    if v[0] == 'reg':
        n = v[1]
        return lambda R: R[n]
    c = eng.const(v, ty, mod)
    return lambda R: c


def compile_fn(eng, f):
    mod = f.module
    c = Comp()
    c.params = [n for _, n in f.params]
    c.entry = f.order[0]
    c.code = {}
    c.phis = {}
    parsed = {}
    for lab in f.order:
        ins = []
        for s in f.blocks[lab]:
            try:
                ins.append(parse_instr(s))
            except Unsupported as e:
                ins.append(('unsupported', None, s + ' :: ' + str(e)))
        parsed[lab] = ins
    # phi tables: phis[label][pred] = [(dest, getter)]
    for lab in f.order:
        tab = {}
        for i in parsed[lab]:
            if i[0] == 'phi':
                for v, p in i[3]:
                    tab.setdefault(p, []).append((i[1], getter(eng, v, i[2], mod)))
        c.phis[lab] = tab
    for lab in f.order:
        code = []
        for i in parsed[lab]:
            if i[0] == 'phi':
                continue
            code.append(compile_instr(eng, f, mod, c, lab, i))
        c.code[lab] = code
    return c


def make_jump(c, cur, target):
    tab = c.phis
    code = c.code

    def jump(st, fr):
        ph = tab[target].get(cur)
        if ph:
            R = fr.R
            if len(ph) == 1:
                d, g = ph[0]
                R[d] = g(R)
            else:
                vals = [g(R) for _, g in ph]
                for (d, _), v in zip(ph, vals):
                    R[d] = v
        fr.blk = target
        fr.code = code[target]
        fr.ip = 0
        return JUMP
    return jump


def tyw(ty):
    return 64 if ty[0] == 'ptr' else ty[1]


BINF = {
    'add': T.add, 'sub': T.sub, 'mul': T.mul,
    'and': lambda w, a, b: T.bitop('and', w, a, b),
    'or': lambda w, a, b: T.bitop('or', w, a, b),
    'xor': lambda w, a, b: T.bitop('xor', w, a, b),
    'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr,
}


def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        sa = a - (1 << w) if a >> (w - 1) else a
        sb = b - (1 << w) if b >> (w - 1) else b
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & MASKS[w]
    raise Unsupported('symbolic sdiv')


def compile_instr(eng, f, mod, comp, lab, i):
    op = i[0]
    if op == 'bin':
        _, d, o, ty, a, b, flags = i
        ga, gb = getter(eng, a, ty, mod), getter(eng, b, ty, mod)
        if ty[0] == 'vec':
            w = ty[2][1]
            fn = BINF.get(o)
            if fn is None:
                raise Unsupported('vector ' + o)

            def h(st, fr):
                R = fr.R
                R[d] = tuple(fn(w, x, y) for x, y in zip(ga(R), gb(R)))
            return h
        if ty[0] != 'i':
            return unsupported('float op ' + o)
        w = ty[1]
        fn = BINF.get(o)
        if fn is not None:
            M = MASKS[w]
            if o == 'add':
                def h(st, fr):
                    R = fr.R
                    x, y = ga(R), gb(R)
                    R[d] = (x + y) & M if type(x) is int and type(y) is int else fn(w, x, y)
            elif o == 'and':
                def h(st, fr):
                    R = fr.R
                    x, y = ga(R), gb(R)
                    R[d] = x & y if type(x) is int and type(y) is int else fn(w, x, y)
            else:
                def h(st, fr):
                    R = fr.R
                    R[d] = fn(w, ga(R), gb(R))
            return h
        if o in ('udiv', 'urem'):
            fn = T.udiv if o == 'udiv' else T.urem

            def h(st, fr):
                R = fr.R
                y = gb(R)
                if type(y) is int:
                    if y == 0:
                        raise PathEnd('ub', 'division by zero')
                elif not eng.decide(st, T.Not(T.eq(w, y, 0))):
                    raise PathEnd('ub', 'division by zero')
                R[d] = fn(w, ga(R), y)
            return h
        if o == 'sdiv':
            def h(st, fr):
                R = fr.R
                R[d] = sdiv(w, ga(R), gb(R))
            return h
        return unsupported('bin ' + o)
    if op == 'icmp':
        _, d, cc, ty, a, b = i
        if ty[0] == 'vec':
            return unsupported('vector icmp')
        ga, gb = getter(eng, a, ty, mod), getter(eng, b, ty, mod)
        w = tyw(ty)
        fn = T.icmp
        if cc == 'eq':
            def h(st, fr):
                R = fr.R
                x, y = ga(R), gb(R)
                R[d] = (1 if x == y else 0) if type(x) is int and type(y) is int else T.eq(w, x, y)
        elif cc == 'ult':
            def h(st, fr):
                R = fr.R
                x, y = ga(R), gb(R)
                R[d] = (1 if x < y else 0) if type(x) is int and type(y) is int else T.ult(w, x, y)
        else:
            def h(st, fr):
                R = fr.R
                R[d] = fn(cc, w, ga(R), gb(R))
        return h
    if op == 'cast':
        _, d, o, ty, v, ty2 = i
        g = getter(eng, v, ty, mod)
        if o in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            w1, w2 = tyw(ty), tyw(ty2)

            def h(st, fr):
                x = g(fr.R)
                if w1 > w2:
                    x = T.trunc(x, w1, w2)
                elif w2 > w1:
                    x = T.zext(x, w1, w2)
                fr.R[d] = x
            return h
        if o == 'bitcast':
            return compile_bitcast(eng, d, g, ty, ty2, mod)
        if ty[0] == 'vec':
            w1, w2 = ty[2][1], ty2[2][1]
            fn = {'zext': T.zext, 'sext': T.sext, 'trunc': T.trunc}[o]

            def h(st, fr):
                fr.R[d] = tuple(fn(x, w1, w2) for x in g(fr.R))
            return h
        w1, w2 = ty[1], ty2[1]
        fn = {'zext': T.zext, 'sext': T.sext, 'trunc': T.trunc}[o]

        def h(st, fr):
            R = fr.R
            R[d] = fn(g(R), w1, w2)
        return h
    if op == 'load':
        _, d, ty, a = i
        ga = getter(eng, a, ('ptr',), mod)
        n = None
        rty = eng.resolve_ty(ty, mod)
        if rty[0] == 'i' and rty[1] % 8 == 0:
            n = rty[1] // 8
        elif rty[0] == 'ptr':
            n = 8
        if n is not None:
            def h(st, fr):
                R = fr.R
                p = ga(R)
                if type(p) is not int:
                    p = eng.concretize(st, p)
                R[d] = eng.load(st, p, n)
        else:
            def h(st, fr):
                R = fr.R
                R[d] = eng.load_ty(st, eng.concretize(st, ga(R)), rty, mod)
        return h
    if op == 'store':
        _, _, ty, v, a = i
        ga = getter(eng, a, ('ptr',), mod)
        gv = getter(eng, v, ty, mod)

        def h(st, fr):
            R = fr.R
            p = ga(R)
            if type(p) is not int:
                p = eng.concretize(st, p)
            eng.store_ty(st, p, ty, gv(R), mod)
        return h
    if op == 'gep':
        _, d, bty, base, idx = i
        gb = getter(eng, base, ('ptr',), mod)
        const = 0
        dyn = []
        cur = bty
        for k, (t, x) in enumerate(idx):
            if k == 0:
                sz = eng.layout(cur, mod)[0]
            else:
                cur = eng.resolve_ty(cur, mod)
                if cur[0] == 'st':
                    n = eng.const(x, t, mod)
                    const += eng.layout(cur, mod)[2][n]
                    cur = cur[1][n]
                    continue
                cur = cur[2]
                sz = eng.layout(cur, mod)[0]
            if x[0] == 'reg':
                dyn.append((x[1], t[1], sz))
            else:
                n = eng.const(x, t, mod)
                if n >> (t[1] - 1):
                    n -= 1 << t[1]
                const += n * sz
        M = MASKS[64]
        const &= M

        def h(st, fr):
            R = fr.R
            p = gb(R)
            p = (p + const) & M if type(p) is int else T.add(64, p, const)
            for n, w, sz in dyn:
                x = R[n]
                if w != 64:
                    x = T.sext(x, w, 64)
                if type(x) is int and type(p) is int:
                    p = (p + x * sz) & M
                else:
                    p = T.add(64, p, T.mul(64, x, sz))
            R[d] = p
        return h
    if op == 'alloca':
        _, d, ty, n = i
        sz = eng.layout(ty, mod)[0]
        cnt = eng.const(n, ('i', 64), mod)
        nm = 'stack:%s:%s' % (demangle(f.name)[-40:], d)

        def h(st, fr):
            a = eng.alloc(st, sz * cnt, nm)
            fr.allocas.append(a >> 32)
            fr.R[d] = a
        return h
    if op == 'br':
        return make_jump(comp, lab, i[2])
    if op == 'cbr':
        _, _, c, a, b = i
        gc = getter(eng, c, ('i', 1), mod)
        ja, jb = make_jump(comp, lab, a), make_jump(comp, lab, b)

        def h(st, fr):
            c = gc(fr.R)
            if type(c) is not int:
                c = eng.decide(st, c)
            return ja(st, fr) if c else jb(st, fr)
        return h
    if op == 'switch':
        _, _, ty, v, dflt, cases = i
        gv = getter(eng, v, ty, mod)
        w = ty[1]
        tab = {}
        for k, l in cases:
            tab[k & MASKS[w]] = make_jump(comp, lab, l)
        jd = make_jump(comp, lab, dflt)

        def h(st, fr):
            x = gv(fr.R)
            if type(x) is int:
                return tab.get(x, jd)(st, fr)
            for k, j in tab.items():
                if eng.decide(st, T.eq(w, x, k)):
                    return j(st, fr)
            return jd(st, fr)
        return h
    if op == 'ret':
        ty, v = i[2], i[3]
        gv = getter(eng, v, ty, mod) if ty is not None else None

        def h(st, fr):
            r = gv(fr.R) if gv else None
            for a in fr.allocas:
                st.mem.pop(a, None)
            st.frames.pop()
            if not st.frames:
                raise PathEnd('done')
            if fr.ret is not None:
                st.frames[-1].R[fr.ret] = r
            return JUMP
        return h
    if op == 'unreachable':
        def h(st, fr):
            raise PathEnd('ub', 'unreachable executed in ' + demangle(f.name))
        return h
    if op == 'select':
        _, d, c, ty, a, b = i
        gc, ga, gb = getter(eng, c, ('i', 1), mod), getter(eng, a, ty, mod), getter(eng, b, ty, mod)
        rty = eng.resolve_ty(ty, mod)
        if rty[0] in ('i', 'ptr'):
            w = tyw(rty)

            def h(st, fr):
                R = fr.R
                c = gc(R)
                if type(c) is int:
                    R[d] = ga(R) if c else gb(R)
                    return
                k = st.known(c)
                if k is not None:
                    R[d] = ga(R) if k else gb(R)
                    return
                R[d] = T.ite(c, ga(R), gb(R), w)
        else:
            def h(st, fr):
                R = fr.R
                R[d] = ga(R) if eng.decide(st, gc(R)) else gb(R)
        return h
    if op == 'extractvalue':
        _, d, ty, v, idx = i
        gv = getter(eng, v, ty, mod)

        def h(st, fr):
            x = gv(fr.R)
            for k in idx:
                x = x[k]
            fr.R[d] = x
        return h
    if op == 'insertvalue':
        _, d, ty, v, t2, e, idx = i
        gv, ge = getter(eng, v, ty, mod), getter(eng, e, t2, mod)

        def ins(x, idx, e):
            l = list(x)
            l[idx[0]] = e if len(idx) == 1 else ins(l[idx[0]], idx[1:], e)
            return tuple(l)

        def h(st, fr):
            fr.R[d] = ins(gv(fr.R), idx, ge(fr.R))
        return h
    if op == 'freeze':
        _, d, ty, v = i
        g = getter(eng, v, ty, mod)

        def h(st, fr):
            fr.R[d] = g(fr.R)
        return h
    if op == 'call':
        return compile_call(eng, f, mod, comp, lab, i)
    if op == 'nop':
        return lambda st, fr: None
    if op == 'unsupported':
        s = i[2]
        r = compile_vec(eng, f, mod, s)
        if r is not None:
            return r
        return unsupported(s)
    return unsupported(str(i))


def unsupported(msg):
    def h(st, fr):
        raise Unsupported(msg)
    return h


def tobits(eng, v, ty, mod):
    """first-class value -> list of (val,w) high first"""
    if ty[0] == 'vec':
        out = []
        for x in v:
            out = tobits(eng, x, ty[2], mod) + out
        return out
    return [(v, tyw(ty))]


def compile_bitcast(eng, d, g, ty, ty2, mod):
    def h(st, fr):
        v = g(fr.R)
        whole = T.mkcat(tobits(eng, v, ty, mod))
        if ty2[0] == 'vec':
            w = tyw(ty2[2])
            tot = w * ty2[1]
            fr.R[d] = tuple(T.ext((k + 1) * w - 1, k * w, whole, tot) for k in range(ty2[1]))
        else:
            fr.R[d] = whole
    return h


def compile_vec(eng, f, mod, s):
    from llparse import P, tokenize
    try:
        p = P(tokenize(s))
        d = p.next()[1:]
        p.next()
        o = p.next()
        if o == 'insertelement':
            ty, v = p.tv(); p.expect(','); t2, e = p.tv(); p.expect(','); t3, k = p.tv()
            gv, ge, gk = getter(eng, v, ty, mod), getter(eng, e, t2, mod), getter(eng, k, t3, mod)

            def h(st, fr):
                l = list(gv(fr.R))
                l[gk(fr.R)] = ge(fr.R)
                fr.R[d] = tuple(l)
            return h
        if o == 'extractelement':
            ty, v = p.tv(); p.expect(','); t3, k = p.tv()
            gv, gk = getter(eng, v, ty, mod), getter(eng, k, t3, mod)

            def h(st, fr):
                fr.R[d] = gv(fr.R)[gk(fr.R)]
            return h
        if o == 'shufflevector':
            ty, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); t3, m = p.tv()
            gv, gv2, gm = getter(eng, v, ty, mod), getter(eng, v2, t2, mod), getter(eng, m, t3, mod)

            def h(st, fr):
                l = list(gv(fr.R)) + list(gv2(fr.R))
                fr.R[d] = tuple(l[k] for k in gm(fr.R))
            return h
    except Unsupported:
        pass
    return None


def compile_call(eng, f, mod, comp, lab, i):
    _, d, ty, callee, args, normal = i
    gs = [getter(eng, v, t, mod) if t[0] != 'metadata' else (lambda R: 0) for t, v in args]
    argty = [t for t, _ in args]
    after = make_jump(comp, lab, normal) if normal else None
    if callee[0] == 'glob':
        name = callee[1]
        if name.startswith('llvm.'):
            import externs
            fn = externs.intrinsic(eng, name, argty, ty, mod)
            if fn is None:
                return unsupported('intrinsic ' + name)

            def h(st, fr):
                R = fr.R
                r = fn(st, [g(R) for g in gs])
                if d is not None:
                    R[d] = r
            return h
        target = None
        if name in mod.fns and name in mod.internal:
            target = mod.fns[name]
        elif name in eng.ext:
            target = eng.ext[name]
        stub = eng.find_extern(name)
        if stub is not None:
            def h(st, fr):
                eng.extern_used.add(name)
                r = stub(st, [g(fr.R) for g in gs])
                if r is JUMP_IN:
                    return JUMP
                if d is not None:
                    fr.R[d] = r
                if after:
                    return after(st, fr)
            return h
        if target is None:
            target = eng.lookup(name)
        if target is None:
            return unsupported('call to unmodelled function ' + demangle(name))

        def h(st, fr):
            R = fr.R
            a = [g(R) for g in gs]
            if after:
                after_ip(fr, after, st)
            else:
                fr.ip += 1
            eng.enter(st, target, a, d)
            return JUMP
        return h
    gc = getter(eng, callee, ('ptr',), mod)

    def h(st, fr):
        p = eng.concretize(st, gc(fr.R))
        t = eng.addrfn.get(p)
        if t is None:
            raise PathEnd('ub', 'indirect call to %#x' % p)
        a = [g(fr.R) for g in gs]
        name = t if isinstance(t, str) else t.name
        stub = eng.find_extern(name)
        if stub is not None:
            r = stub(st, a)
            if d is not None:
                fr.R[d] = r
            if after:
                return after(st, fr)
            return None
        if isinstance(t, str):
            t = eng.lookup(t) or t
        if isinstance(t, str):
            raise Unsupported('indirect call to unmodelled ' + demangle(t))
        if after:
            after_ip(fr, after, st)
        else:
            fr.ip += 1
        eng.enter(st, t, a, d)
        return JUMP
    return h


class _J:
    pass


JUMP_IN = _J()


def after_ip(fr, after, st):
    # an invoke whose callee never unwinds: continue at the normal destination (phis there never use the result)
    after(st, fr)
