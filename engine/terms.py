"""Hash-consed bit-vector terms with light simplification.

A value is a Python int (a constant of known width) or a Term. Width 1 terms are
booleans. Symbolic*symbolic multiplication and division by a symbolic divisor are
kept as the uninterpreted-with-lemmas operators 'pmul' and 'pdiv' (see smt.py)."""
import itertools

MASKS = [(1 << i) - 1 for i in range(0, 1025)]
_tab = {}
_ids = itertools.count(1)


class Term:
    __slots__ = ('op', 'w', 'args', 'id', 'z', 'abs', '_vars')

    def __repr__(self):
        return pp(self, 4)


def mk(op, w, *args):
    key = (op, w) + tuple((a.id, None) if isinstance(a, Term) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.w, t.args, t.id, t.z, t.abs, t._vars = op, w, args, next(_ids), None, None, None
        _tab[key] = t
    return t


def pp(t, d):
    if not isinstance(t, Term):
        return hex(t) if isinstance(t, int) and t > 9 else str(t)
    if t.op == 'var':
        return t.args[0]
    if d == 0:
        return '..'
    if t.op == 'cat':
        return 'cat(%s)' % ','.join('%s:%d' % (pp(v, d - 1), w) for v, w in catparts(t))
    return '%s%d(%s)' % (t.op, t.w, ','.join(pp(a, d - 1) for a in t.args))


def var(name, w):
    return mk('var', w, name)


# variables that occur as factors carry a list of values the solver may try first when it looks for a witness
_hints = {}
_hintlist = []


def hints(values):
    i = _hints.get(values)
    if i is None:
        i = _hints[values] = len(_hintlist)
        _hintlist.append(values)
    return i


def pinned(v, k):
    """value number k to try for variable v, None when v is free"""
    n = v.args[0]
    i = n.find('h')
    if i < 0:
        return None
    h = _hintlist[int(n[i + 1:n.index('_')])]
    return h[k % len(h)]


isT = lambda x: type(x) is Term


# ---------------------------------------------------------------- booleans
def Not(a):
    if type(a) is not Term:
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    return mk('not', 1, a)


def And(a, b):
    if type(a) is not Term:
        return b if a else 0
    if type(b) is not Term:
        return a if b else 0
    if a is b:
        return a
    if Not(a) is b:
        return 0
    if b.op == 'eq':
        r = joineq(a, b)
        if r is not None:
            return r
    if a.op == 'eq':
        r = joineq(b, a)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('band', 1, a, b)


def pieces(t):
    """an equality of neighbouring bits of two terms"""
    p, q = t.args
    if p.op != 'ext' or type(q) is int or q.op != 'ext':
        return None
    return (p, q) if p.args[0].id < q.args[0].id else (q, p)


def joineq(a, b):
    """a and b, b an equality of some bits: joined with the equality of the bits next to them, if a has it"""
    pb = pieces(b)
    if pb is None:
        return None
    p, q = pb
    for i in range(2 if a.op == 'band' else 1):
        e = a.args[i] if a.op == 'band' else a
        if e.op != 'eq':
            continue
        pe = pieces(e)
        if pe is None or pe[0].args[0] is not p.args[0] or pe[1].args[0] is not q.args[0]:
            continue
        for (p1, q1), (p2, q2) in ((pe, pb), (pb, pe)):
            if p1.args[1] + 1 == p2.args[2] and q1.args[1] + 1 == q2.args[2]:
                x, y = p.args[0], q.args[0]
                r = eq(p1.w + p2.w, ext(p2.args[1], p1.args[2], x, x.w), ext(q2.args[1], q1.args[2], y, y.w))
                return r if a is e else And(a.args[1 - i], r)
    return None


def Or(a, b):
    if type(a) is not Term:
        return 1 if a else b
    if type(b) is not Term:
        return 1 if b else a
    return Not(And(Not(a), Not(b)))


def Xor1(a, b):
    if type(a) is not Term:
        return Not(b) if a else b
    if type(b) is not Term:
        return Not(a) if b else a
    if a is b:
        return 0
    if Not(a) is b:
        return 1
    neg = 0
    if a.op == 'not':
        a = a.args[0]; neg ^= 1
    if b.op == 'not':
        b = b.args[0]; neg ^= 1
    if a.id > b.id:
        a, b = b, a
    r = mk('beq', 1, a, b)
    return r if neg else Not(r)


def And_all(xs):
    r = 1
    for x in xs:
        r = And(r, x)
    return r


# ---------------------------------------------------------------- concat / extract
def catparts(t):
    """t.args is flat (v0,w0,v1,w1,...) high first"""
    a = t.args
    return [(a[i], a[i + 1]) for i in range(0, len(a), 2)]


def mkcat(parts):
    """parts: [(val,width)] high first"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if type(v) is Term and v.op == 'cat':
            sub = catparts(v)
        else:
            sub = ((v, w),)
        for v, w in sub:
            if out:
                pv, pw = out[-1]
                if type(pv) is int and type(v) is int:
                    out[-1] = ((pv << w) | v, pw + w)
                    continue
                if type(pv) is Term and type(v) is Term and pv.op == 'ext' and v.op == 'ext' and pv.args[0] is v.args[0] \
                        and pv.args[2] == v.args[1] + 1:
                    out[-1] = (ext(pv.args[1], v.args[2], v.args[0], v.args[0].w), pw + w)
                    continue
                if type(pv) is Term and type(v) is Term and v.op == 'ext' and pv.op == 'var' and False:
                    pass
            out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    tot = sum(w for _, w in out)
    flat = []
    for v, w in out:
        flat.append(v); flat.append(w)
    # bring a constant/ite(const) pair together:  cat(0, ite(c,k1,k2)) -> ite(c, k1, k2)
    if len(out) == 2:
        (v0, w0), (v1, w1) = out
        if type(v0) is int and type(v1) is Term and v1.op == 'ite' and type(v1.args[1]) is int and type(v1.args[2]) is int:
            return ite(v1.args[0], (v0 << w1) | v1.args[1], (v0 << w1) | v1.args[2], tot)
        if type(v1) is int and type(v0) is Term and v0.op == 'ite' and type(v0.args[1]) is int and type(v0.args[2]) is int:
            return ite(v0.args[0], (v0.args[1] << w1) | v1, (v0.args[2] << w1) | v1, tot)
    return mk('cat', tot, *flat)


def ext(hi, lo, x, w):
    """bits hi..lo of x (width w)"""
    n = hi - lo + 1
    if type(x) is int:
        return (x >> lo) & MASKS[n]
    if n == w:
        return x
    if n == 1 and False:
        pass
    op = x.op
    if op == 'ext':
        l0 = x.args[2]
        return ext(hi + l0, lo + l0, x.args[0], x.args[0].w)
    if op == 'cat':
        parts = []
        pos = w
        for v, vw in catparts(x):
            pos -= vw
            # this part covers bits pos+vw-1..pos
            h, l = min(hi, pos + vw - 1), max(lo, pos)
            if h >= l:
                parts.append((ext(h - pos, l - pos, v, vw), h - l + 1))
        return mkcat(parts)
    if op == 'ite':
        a, b = x.args[1], x.args[2]
        if type(a) is int or type(b) is int or a.op in ('cat', 'ite') or b.op in ('cat', 'ite'):
            return ite(x.args[0], ext(hi, lo, a, w), ext(hi, lo, b, w), n)
    if op in ('and', 'or', 'xor') and (type(x.args[1]) is int or lo > 0 or True):
        a, b = x.args
        return bitop(op, n, ext(hi, lo, a, w), ext(hi, lo, b, w))
    if op in ('add', 'sub') and lo == 0:
        a, b = x.args
        f = add if op == 'add' else sub
        return f(n, ext(hi, 0, a, w), ext(hi, 0, b, w))
    if op == 'sext' and hi < x.args[0].w:
        return ext(hi, lo, x.args[0], x.args[0].w)
    return mk('ext', n, x, hi, lo)


def bit(x, i, w):
    """bit i of x as boolean"""
    b = ext(i, i, x, w) if w > 1 else x
    return tobool(b)


def tobool(b):
    """1-bit vector value (from ext) -> boolean. 1-bit 'ext' results are represented as op 'ext' with w==1 which
    we treat as boolean directly."""
    return b


def zext(x, w, nw):
    if type(x) is int:
        return x
    if w == 1:
        return ite(x, 1, 0, nw)
    if w == nw:
        return x
    return mkcat([(0, nw - w), (x, w)])


def sext(x, w, nw):
    if type(x) is int:
        return x | (MASKS[nw] ^ MASKS[w]) if x >> (w - 1) else x
    if w == 1:
        return ite(x, MASKS[nw], 0, nw)
    if w == nw:
        return x
    if x.op == 'cat' and type(x.args[0]) is int and not (x.args[0] >> (x.args[1] - 1)):
        return zext(x, w, nw)
    if x.op == 'ite' and type(x.args[1]) is int and type(x.args[2]) is int:
        return ite(x.args[0], sext(x.args[1], w, nw), sext(x.args[2], w, nw), nw)
    return mk('sext', nw, x)


def trunc(x, w, nw):
    if type(x) is int:
        return x & MASKS[nw]
    return ext(nw - 1, 0, x, w)


# ---------------------------------------------------------------- ite
def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if w == 1:
        if type(a) is int:
            return Or(c, b) if a else And(Not(c), b)
        if type(b) is int:
            return Or(Not(c), a) if b else And(c, a)
    if type(a) is Term and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if type(b) is Term and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    return mk('ite', w, c, a, b)


def _itec(x):
    return x.op == 'ite' and type(x.args[1]) is int and type(x.args[2]) is int


# ---------------------------------------------------------------- arithmetic
def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & MASKS[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return Not(a)
        if a.op == 'add' and type(a.args[1]) is int:
            return add(w, a.args[0], (a.args[1] + b) & MASKS[w])
        if _itec(a):
            return ite(a.args[0], (a.args[1] + b) & MASKS[w], (a.args[2] + b) & MASKS[w], w)
        d = _disjoint_or(w, a, b)
        if d is not None:
            return d
        return mk('add', w, a, b)
    if w == 1:
        return Xor1(a, b)
    d = _disjoint_or(w, a, b)
    if d is not None:
        return d
    if a.op == 'sub' and a.args[1] is b:
        return a.args[0]
    if b.op == 'sub' and b.args[1] is a:
        return b.args[0]
    # keep constants outermost
    ka = kb = 0
    if a.op == 'add' and type(a.args[1]) is int:
        ka = a.args[1]; a = a.args[0]
    if b.op == 'add' and type(b.args[1]) is int:
        kb = b.args[1]; b = b.args[0]
    if ka or kb:
        return add(w, add(w, a, b), (ka + kb) & MASKS[w])
    if a.id > b.id:
        a, b = b, a
    return mk('add', w, a, b)


def sub(w, a, b):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & MASKS[w]
        return add(w, a, (-b) & MASKS[w])
    if w == 1:
        return Xor1(a, b)
    if a is b:
        return 0
    if type(a) is Term and a.op == 'add':
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if type(a.args[1]) is int:
            return add(w, sub(w, a.args[0], b), a.args[1])
    if _itec(b) and type(a) is int:
        return ite(b.args[0], (a - b.args[1]) & MASKS[w], (a - b.args[2]) & MASKS[w], w)
    return mk('sub', w, a, b)


def _split(x, w, cuts):
    """split x at bit positions cuts (descending list of boundaries incl. w and 0)"""
    return [ext(cuts[i] - 1, cuts[i + 1], x, w) for i in range(len(cuts) - 1)]


def _bounds(x, w):
    """cut positions of a cat, else {w,0}"""
    if type(x) is Term and x.op == 'cat':
        s = set()
        pos = w
        for v, vw in catparts(x):
            s.add(pos)
            pos -= vw
        s.add(0)
        return s
    return {w, 0}


def _disjoint_or(w, a, b):
    """a|b when each segment has a constant zero on one side; else None"""
    ia, ib = type(a) is Term and a.op == 'cat', type(b) is Term and b.op == 'cat'
    if not (ia or ib):
        return None
    if ia and ib or True:
        s = set()
        if ia:
            s |= _bounds(a, w)
        if ib:
            s |= _bounds(b, w)
        s |= {w, 0}
        cuts = sorted(s, reverse=True)
        if type(a) is int or type(b) is int:
            k = a if type(a) is int else b
            o = b if type(a) is int else a
            parts = []
            pos = w
            for v, vw in catparts(o):
                pos -= vw
                kk = (k >> pos) & MASKS[vw]
                if type(v) is int:
                    if kk & v:
                        return None
                    parts.append((kk | v, vw))
                elif kk == 0:
                    parts.append((v, vw))
                else:
                    return None
            return mkcat(parts)
        xs, ys = _split(a, w, cuts), _split(b, w, cuts)
        parts = []
        for i in range(len(xs)):
            n = cuts[i] - cuts[i + 1]
            x, y = xs[i], ys[i]
            if type(x) is int and x == 0:
                parts.append((y, n))
            elif type(y) is int and y == 0:
                parts.append((x, n))
            elif type(x) is int and type(y) is int and not (x & y):
                parts.append((x | y, n))
            else:
                return None
        return mkcat(parts)


def bitop(op, w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        a, b = b, a
    if w == 1:
        return And(a, b) if op == 'and' else Or(a, b) if op == 'or' else Xor1(a, b)
    if type(b) is int:
        full = MASKS[w]
        if op == 'and':
            if b == 0:
                return 0
            if b == full:
                return a
        elif op == 'or':
            if b == 0:
                return a
            if b == full:
                return full
        else:
            if b == 0:
                return a
        if _itec(a):
            f = (lambda x: x & b) if op == 'and' else (lambda x: x | b) if op == 'or' else (lambda x: x ^ b)
            return ite(a.args[0], f(a.args[1]), f(a.args[2]), w)
        # runs
        if op in ('and', 'or'):
            runs = []
            i = 0
            while i < w:
                v = (b >> i) & 1
                j = i
                while j < w and ((b >> j) & 1) == v:
                    j += 1
                runs.append((i, j, v))
                i = j
                if len(runs) > 4:
                    break
            if len(runs) <= 4:
                parts = []
                for (i, j, v) in reversed(runs):
                    n = j - i
                    if op == 'and':
                        parts.append((ext(j - 1, i, a, w) if v else 0, n))
                    else:
                        parts.append((MASKS[n] if v else ext(j - 1, i, a, w), n))
                return mkcat(parts)
        if op == 'xor' and a.op == 'xor' and type(a.args[1]) is int:
            return bitop('xor', w, a.args[0], a.args[1] ^ b)
        if a.op == 'cat':
            parts = []
            pos = w
            for v, vw in catparts(a):
                pos -= vw
                parts.append((bitop(op, vw, v, (b >> pos) & MASKS[vw]), vw))
            return mkcat(parts)
        return mk(op, w, a, b)
    if a is b:
        return 0 if op == 'xor' else a
    if a.op == 'cat' or b.op == 'cat':
        ba, bb = _bounds(a, w), _bounds(b, w)
        if op != 'and' or True:
            s = ba | bb
            cuts = sorted(s, reverse=True)
            xs, ys = _split(a, w, cuts), _split(b, w, cuts)
            if ba == bb or any(type(x) is int for x in xs) or any(type(y) is int for y in ys):
                return mkcat([(bitop(op, cuts[i] - cuts[i + 1], xs[i], ys[i]), cuts[i] - cuts[i + 1]) for i in range(len(xs))])
    if a.id > b.id:
        a, b = b, a
    return mk(op, w, a, b)


def shl(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & MASKS[w]
        if b == 0:
            return a
        return mkcat([(ext(w - b - 1, 0, a, w), w - b), (0, b)])
    if _itec(b):
        return ite(b.args[0], shl(w, a, b.args[1]), shl(w, a, b.args[2]), w)
    if type(a) is int and a == 0:
        return 0
    return mk('shl', w, a, b)


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return mkcat([(0, b), (ext(w - 1, b, a, w), w - b)])
    if _itec(b):
        return ite(b.args[0], lshr(w, a, b.args[1]), lshr(w, a, b.args[2]), w)
    if type(a) is int and a == 0:
        return 0
    return mk('lshr', w, a, b)


def ashr(w, a, b):
    if type(b) is int:
        b = min(b, w - 1)
        if type(a) is int:
            return (sext(a, w, 2 * w) >> b) & MASKS[w]
        if b == 0:
            return a
        return sext(ext(w - 1, b, a, w), w - b, w)
    return mk('ashr', w, a, b)


def _z64(x, w):
    """if x (width w) is the zero extension of <=64 bits return that 64-bit value"""
    if type(x) is int:
        return x if x < (1 << 64) else None
    if w == 64:
        return x
    if w < 64:
        return zext(x, w, 64)
    if x.op == 'cat' and type(x.args[0]) is int and x.args[0] == 0 and w - x.args[1] <= 64:
        return ext(63, 0, x, w)
    if _itec(x) and x.args[1] < (1 << 64) and x.args[2] < (1 << 64):
        return mk('ite', 64, *x.args)
    return None


def pmul(a, b):
    """full 128-bit product of two 64-bit values"""
    if type(a) is int and type(b) is int:
        return a * b
    if type(b) is int:
        a, b = b, a
    if type(a) is int:
        if a == 0:
            return 0
        if a & (a - 1) == 0:
            return shl(128, zext(b, 64, 128), a.bit_length() - 1)
        if b.op == 'ite':
            return ite(b.args[0], pmul(a, b.args[1]), pmul(a, b.args[2]), 128)
        return mk('mulc', 128, a, zext(b, 64, 128))
    if a.id > b.id:
        a, b = b, a
    return mk('pmul', 128, a, b)


def mul(w, a, b):
    if type(a) is int and type(b) is int:
        return (a * b) & MASKS[w]
    if w == 1:
        return And(a, b)
    if type(b) is int:
        a, b = b, a
    if type(a) is int:
        if a == 0:
            return 0
        if a & (a - 1) == 0:
            return shl(w, b, a.bit_length() - 1)
        if _itec(b):
            return ite(b.args[0], (a * b.args[1]) & MASKS[w], (a * b.args[2]) & MASKS[w], w)
    za, zb = _z64(a, w), _z64(b, w)
    if za is not None and zb is not None and w in (64, 128):
        p = pmul(za, zb)
        return trunc(p, 128, w)
    if type(a) is int:
        return mk('mulc', w, a, b)
    return mk('mul', w, a, b)


def pdiv(n, p):
    """128-bit n divided by 64-bit p (p != 0), 128-bit quotient"""
    if type(n) is int and type(p) is int:
        return n // p if p else MASKS[128]
    if type(p) is int:
        if p == 0:
            return MASKS[128]
        if p & (p - 1) == 0:
            return lshr(128, n, p.bit_length() - 1)
    if type(n) is int and n == 0:
        return 0
    if type(n) is Term and n.op == 'ite':
        return ite(n.args[0], pdiv(n.args[1], p), pdiv(n.args[2], p), 128)
    if type(p) is Term and p.op == 'ite':
        return ite(p.args[0], pdiv(n, p.args[1]), pdiv(n, p.args[2]), 128)
    return mk('pdiv', 128, n, p)


def udiv(w, a, b):
    if type(b) is int and b:
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if w <= 32:
            return mk('udiv', w, a, b)
    if w <= 32 and not (type(a) is int and type(b) is int):
        return mk('udiv', w, a, b)
    zb = _z64(b, w)
    if w <= 128 and zb is not None:
        return trunc(pdiv(zext(a, w, 128), zb), 128, w)
    return mk('udiv', w, a, b)


def urem(w, a, b):
    if type(b) is int and b:
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return bitop('and', w, a, b - 1)
        if w <= 32:
            return mk('urem', w, a, b)
    if w <= 32:
        return mk('urem', w, a, b)
    if w == 64:
        q = udiv(64, a, b)
        return sub(64, a, trunc(pmul(q, b), 128, 64))
    return mk('urem', w, a, b)


def ctlz(w, a):
    if type(a) is int:
        return w - a.bit_length()
    return mk('ctlz', w, a)


def ctpop(w, a):
    if type(a) is int:
        return bin(a).count('1')
    r = 0
    for i in range(w):
        r = add(w, r, zext(ext(i, i, a, w), 1, w))
    return r


def bswap(w, a):
    n = w // 8
    return mkcat([(ext(8 * i + 7, 8 * i, a, w), 8) for i in range(n)])


# ---------------------------------------------------------------- comparisons
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if w == 1:
        return Not(Xor1(a, b))
    op = a.op
    if type(b) is int:
        if op == 'ite':
            x, y = a.args[1], a.args[2]
            if type(x) is int or type(y) is int:
                return ite(a.args[0], eq(w, x, b), eq(w, y, b), 1)
        if op == 'add' and type(a.args[1]) is int:
            return eq(w, a.args[0], (b - a.args[1]) & MASKS[w])
        if op == 'sub' and type(a.args[0]) is int:
            return eq(w, a.args[1], (a.args[0] - b) & MASKS[w])
        if op == 'xor' and type(a.args[1]) is int:
            return eq(w, a.args[0], b ^ a.args[1])
        if op == 'xor' and b == 0:
            return eq(w, a.args[0], a.args[1])
        if op == 'sub' and b == 0:
            return eq(w, a.args[0], a.args[1])
        if op == 'or' and b == 0:
            return And(eq(w, a.args[0], 0), eq(w, a.args[1], 0))
        if op == 'cat':
            r = 1
            pos = w
            # constants first: cheap mismatch
            ps = []
            for v, vw in catparts(a):
                pos -= vw
                k = (b >> pos) & MASKS[vw]
                if type(v) is int:
                    if v != k:
                        return 0
                else:
                    ps.append((vw, v, k))
            for vw, v, k in ps:
                r = And(r, eq(vw, v, k))
            return r
        if op == 'sext':
            x = a.args[0]
            k = b & MASKS[x.w]
            return eq(x.w, x, k) if sext(k, x.w, w) == b else 0
        return mk('eq', 1, a, b)
    if op == 'cat' or b.op == 'cat':
        ba, bb = _bounds(a, w), _bounds(b, w)
        cuts = sorted(ba | bb, reverse=True)
        xs, ys = _split(a, w, cuts), _split(b, w, cuts)
        if ba == bb or any(type(x) is int for x in xs) or any(type(y) is int for y in ys) or True:
            r = 1
            for i in range(len(xs)):
                r = And(r, eq(cuts[i] - cuts[i + 1], xs[i], ys[i]))
            return r
    if op == 'add' and b.op == 'add' and type(a.args[1]) is int and type(b.args[1]) is int:
        return eq(w, add(w, a.args[0], (a.args[1] - b.args[1]) & MASKS[w]), b.args[0])
    if a.id > b.id:
        a, b = b, a
    # eq(x+k... , x)
    if b.op == 'add' and b.args[0] is a and type(b.args[1]) is int:
        return 0
    if a.op == 'add' and a.args[0] is b and type(a.args[1]) is int:
        return 0
    if b.op == 'ite' and (b.args[1] is a):
        return Or(b.args[0], eq(w, b.args[2], a))
    if b.op == 'ite' and (b.args[2] is a):
        return Or(Not(b.args[0]), eq(w, b.args[1], a))
    return mk('eq', 1, a, b)


def ult(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return 1 if a < b else 0
        if a == MASKS[w]:
            return 0
        if a == 0:
            return Not(eq(w, b, 0))
    if a is b:
        return 0
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return eq(w, a, 0)
    if w == 1:
        return And(Not(a), b)
    # zero high parts
    if type(a) is Term and a.op == 'cat' and a.args[0] == 0 and type(a.args[0]) is int:
        hz = a.args[1]
        n = w - hz
        if type(b) is int:
            if b >> n:
                return 1
            return ult(n, ext(n - 1, 0, a, w), b)
        if b.op == 'cat' and type(b.args[0]) is int and b.args[0] == 0:
            n = max(n, w - b.args[1])
            return ult(n, ext(n - 1, 0, a, w), ext(n - 1, 0, b, w))
    if type(a) is int and b.op == 'cat' and type(b.args[0]) is int and b.args[0] == 0:
        n = w - b.args[1]
        if a >> n:
            return 0
        return ult(n, a, ext(n - 1, 0, b, w))
    # trailing constants: cat(x, k) < c
    if type(a) is Term and a.op == 'cat' and len(a.args) == 4 and type(a.args[2]) is int and type(b) is int:
        hw, lw = a.args[1], a.args[3]
        kb, kl = b >> lw, b & MASKS[lw]
        # hi < kb  or hi==kb and lo < kl
        if a.args[2] < kl:
            return ule(hw, a.args[0], kb)
        return ult(hw, a.args[0], kb)
    if type(b) is Term and b.op == 'cat' and len(b.args) == 4 and type(b.args[2]) is int and type(a) is int:
        hw, lw = b.args[1], b.args[3]
        ka, kl = a >> lw, a & MASKS[lw]
        if kl < b.args[2]:
            return ule(hw, ka, b.args[0])
        return ult(hw, ka, b.args[0])
    # same high part
    if type(a) is Term and type(b) is Term and a.op == 'cat' and b.op == 'cat' and a.args[1] == b.args[1] and \
            (a.args[0] is b.args[0] or (type(a.args[0]) is int and type(b.args[0]) is int)):
        n = w - a.args[1]
        if a.args[0] is b.args[0] or a.args[0] == b.args[0]:
            return ult(n, ext(n - 1, 0, a, w), ext(n - 1, 0, b, w))
        return 1 if a.args[0] < b.args[0] else 0
    if type(a) is Term and _itec(a) and type(b) is int:
        return ite(a.args[0], 1 if a.args[1] < b else 0, 1 if a.args[2] < b else 0, 1)
    if type(b) is Term and _itec(b) and type(a) is int:
        return ite(b.args[0], 1 if a < b.args[1] else 0, 1 if a < b.args[2] else 0, 1)
    if type(a) is Term and a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        return ite(a.args[0], ult(w, a.args[1], b), ult(w, a.args[2], b), 1)
    if type(b) is Term and b.op == 'ite' and (b.args[1] is a or b.args[2] is a):
        return ite(b.args[0], ult(w, a, b.args[1]), ult(w, a, b.args[2]), 1)
    return mk('ult', 1, a, b)


def ule(w, a, b):
    return Not(ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        sa = a - (1 << w) if a >> (w - 1) else a
        sb = b - (1 << w) if b >> (w - 1) else b
        return 1 if sa < sb else 0
    if a is b:
        return 0
    if type(b) is int and b == 0:
        return ext(w - 1, w - 1, a, w)
    if type(a) is int and a == MASKS[w]:
        return Not(ext(w - 1, w - 1, b, w))
    ha, hb = ext(w - 1, w - 1, a, w), ext(w - 1, w - 1, b, w)
    if type(ha) is int and type(hb) is int:
        if ha == hb:
            return ult(w, a, b)
        return 1 if ha else 0
    return mk('slt', 1, a, b)


def sle(w, a, b):
    return Not(slt(w, b, a))


def icmp(cc, w, a, b):
    if cc == 'eq':
        return eq(w, a, b)
    if cc == 'ne':
        return Not(eq(w, a, b))
    if cc == 'ult':
        return ult(w, a, b)
    if cc == 'ule':
        return Not(ult(w, b, a))
    if cc == 'ugt':
        return ult(w, b, a)
    if cc == 'uge':
        return Not(ult(w, a, b))
    if cc == 'slt':
        return slt(w, a, b)
    if cc == 'sle':
        return Not(slt(w, b, a))
    if cc == 'sgt':
        return slt(w, b, a)
    return Not(slt(w, a, b))


# ---------------------------------------------------------------- evaluation
class NeedAbs(Exception):
    pass


def ev(t, model, memo, exact=False):
    """evaluate t under model {var Term id: int}. Abstract products are looked up in the model
    too unless exact=True (then computed)."""
    if type(t) is not Term:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    a = t.args
    if op == 'var':
        r = model.get(t.id, 0)
    elif op == 'ite':
        r = ev(a[1], model, memo, exact) if ev(a[0], model, memo, exact) else ev(a[2], model, memo, exact)
    elif op == 'not':
        r = 1 - ev(a[0], model, memo, exact)
    elif op == 'band':
        r = ev(a[0], model, memo, exact) and ev(a[1], model, memo, exact)
    elif op == 'cat':
        r = 0
        for i in range(0, len(a), 2):
            r = (r << a[i + 1]) | ev(a[i], model, memo, exact)
    elif op == 'ext':
        r = (ev(a[0], model, memo, exact) >> a[2]) & MASKS[t.w]
    elif op in ('pmul', 'pdiv') and not exact and -1 not in model:
        r = model.get(t.id)
        if r is None:
            raise NeedAbs()
    else:
        v = [ev(x, model, memo, exact) for x in a]
        w = t.w
        m = MASKS[w]
        if op == 'add':
            r = (v[0] + v[1]) & m
        elif op == 'sub':
            r = (v[0] - v[1]) & m
        elif op == 'and':
            r = v[0] & v[1]
        elif op == 'or':
            r = v[0] | v[1]
        elif op == 'xor':
            r = v[0] ^ v[1]
        elif op == 'eq' or op == 'beq':
            r = 1 if v[0] == v[1] else 0
        elif op == 'ult':
            r = 1 if v[0] < v[1] else 0
        elif op == 'slt':
            aw = (a[0] if type(a[0]) is Term else a[1]).w
            r = slt(aw, v[0], v[1])
        elif op == 'shl':
            r = (v[0] << v[1]) & m if v[1] < w else 0
        elif op == 'lshr':
            r = v[0] >> v[1] if v[1] < w else 0
        elif op == 'ashr':
            r = ashr(w, v[0], v[1])
        elif op == 'sext':
            r = sext(v[0], a[0].w, w)
        elif op in ('mul', 'mulc'):
            r = (v[0] * v[1]) & m
        elif op == 'pmul':
            r = v[0] * v[1]
        elif op == 'pdiv':
            r = v[0] // v[1] if v[1] else MASKS[128]
        elif op == 'udiv':
            r = v[0] // v[1] if v[1] else m
        elif op == 'urem':
            r = v[0] % v[1] if v[1] else v[0]
        elif op == 'ctlz':
            r = w - v[0].bit_length()
        else:
            raise Exception('ev ' + op)
    memo[t.id] = r
    return r


def subst(t, f, memo):
    """t with every variable v replaced by f(v) (None keeps it)"""
    if type(t) is not Term:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == 'var':
            v = f(x)
            memo[x.id] = x if v is None else v
            stack.pop()
            continue
        pend = [a for a in x.args if type(a) is Term and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        old = x.args
        new = tuple(memo[a.id] if type(a) is Term else a for a in old)
        memo[x.id] = x if all(a is b for a, b in zip(old, new)) else _rebuild(x, new)
    return memo[t.id]


def _rebuild(x, a):
    op, w = x.op, x.w
    if op == 'not':
        return Not(a[0])
    if op == 'band':
        return And(a[0], a[1])
    if op == 'beq':
        return Not(Xor1(a[0], a[1]))
    if op == 'ite':
        return ite(a[0], a[1], a[2], w)
    if op in ('eq', 'ult', 'slt'):
        o = x.args
        aw = (o[0] if type(o[0]) is Term else o[1]).w
        return eq(aw, a[0], a[1]) if op == 'eq' else ult(aw, a[0], a[1]) if op == 'ult' else slt(aw, a[0], a[1])
    if op == 'cat':
        return mkcat([(a[i], a[i + 1]) for i in range(0, len(a), 2)])
    if op == 'ext':
        return ext(a[1], a[2], a[0], x.args[0].w)
    if op == 'sext':
        return sext(a[0], x.args[0].w, w)
    if op == 'ctlz':
        return ctlz(w, a[0])
    if op == 'pmul':
        return pmul(a[0], a[1])
    if op == 'pdiv':
        return pdiv(a[0], a[1]) if type(a[1]) is Term or a[1] else MASKS[128]
    if op in ('mul', 'mulc'):
        return mul(w, a[0], a[1])
    if op in ('and', 'or', 'xor'):
        return bitop(op, w, a[0], a[1])
    return {'add': add, 'sub': sub, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem}[op](w, a[0], a[1])


_vempty = frozenset()


def leaves(t):
    """(vars and abstract terms) occurring in t, abstract terms included together with their own leaves"""
    if type(t) is not Term:
        return _vempty
    if t._vars is not None:
        return t._vars
    s = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if type(x) is not Term or x.id in seen:
            continue
        seen.add(x.id)
        if x._vars is not None and x is not t:
            s |= x._vars
            continue
        if x.op == 'var':
            s.add(x)
            continue
        if x.op in ('pmul', 'pdiv'):
            s.add(x)
        stack.extend(x.args)
    t._vars = frozenset(s)
    return t._vars
