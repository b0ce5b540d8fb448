"""Term -> z3, lemma instantiation for products/quotients, incremental solver stack,
and the exact re-query used to turn an abstract counterexample into a concrete one."""
import os
import re
import subprocess
import time
import z3
z3.set_param("smt.arith.solver", 2)
from terms import *

C = z3.main_ctx()
_R = C.ref()


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.exact_queries = 0
        self.max_query = 0.0

    def asdict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            if k == 'max_query':
                self.max_query = max(self.max_query, v)
            else:
                setattr(self, k, getattr(self, k) + v)


def bvval(v, w):
    return z3.BitVecVal(v, w)


def b2v(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def conv(t, w, cache, subst=None):
    """z3 expression. width-1 -> Bool. cache: dict term id -> z3 expr. subst(term) may supply
    an expression for pmul/pdiv"""
    if type(t) is not Term:
        return z3.BoolVal(bool(t)) if w == 1 else z3.BitVecVal(t, w)
    r = cache.get(t.id)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        pend = [a for a in x.args if type(a) is Term and a.id not in cache] if x.op != 'pmul' and x.op != 'pdiv' else []
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        cache[x.id] = _conv1(x, cache, subst)
    return cache[t.id]


def _conv1(t, cache, subst):
    op, a, w = t.op, t.args, t.w

    def g(x, xw):
        if type(x) is Term:
            return cache[x.id]
        return z3.BoolVal(bool(x)) if xw == 1 else z3.BitVecVal(x, xw)

    if op == 'var':
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op in ('pmul', 'pdiv'):
        if subst is not None:
            return subst(t)
        return z3.BitVec('%s!%d' % (op, t.id), 128)
    if op == 'not':
        return z3.Not(g(a[0], 1))
    if op == 'band':
        return z3.And(g(a[0], 1), g(a[1], 1))
    if op == 'beq':
        return g(a[0], 1) == g(a[1], 1)
    if op == 'ite':
        return z3.If(g(a[0], 1), g(a[1], w), g(a[2], w))
    if op in ('eq', 'ult', 'slt'):
        aw = (a[0] if type(a[0]) is Term else a[1]).w
        x, y = g(a[0], aw), g(a[1], aw)
        return x == y if op == 'eq' else z3.ULT(x, y) if op == 'ult' else x < y
    if op == 'cat':
        ps = []
        for i in range(0, len(a), 2):
            v, vw = a[i], a[i + 1]
            if type(v) is Term:
                e = cache[v.id]
                if v.w == 1:
                    e = b2v(e)
            else:
                e = z3.BitVecVal(v, vw)
            ps.append(e)
        return z3.Concat(*ps)
    if op == 'ext':
        e = z3.Extract(a[1], a[2], cache[a[0].id])
        return e == z3.BitVecVal(1, 1) if w == 1 else e
    if op == 'sext':
        return z3.SignExt(w - a[0].w, cache[a[0].id])
    if op == 'ctlz':
        x = cache[a[0].id]
        n = w
        r = z3.BitVecVal(0, w)
        cur = x
        # binary search
        step = 1
        while step * 2 < w:
            step *= 2
        z = z3.BitVecVal(0, w)
        tot = z
        s = step
        while s >= 1:
            top_zero = z3.Extract(w - 1, w - s, cur) == z3.BitVecVal(0, s)
            tot = z3.If(top_zero, tot + z3.BitVecVal(s, w), tot)
            cur = z3.If(top_zero, cur << s, cur)
            s //= 2
        return z3.If(x == z, z3.BitVecVal(w, w), tot)
    x, y = g(a[0], w), g(a[1], w)
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'shl':
        return x << y
    if op == 'lshr':
        return z3.LShR(x, y)
    if op == 'ashr':
        return x >> y
    if op in ('mul', 'mulc'):
        return x * y
    if op == 'udiv':
        return z3.UDiv(x, y)
    if op == 'urem':
        return z3.URem(x, y)
    raise Exception('conv ' + op)


# ---------------------------------------------------------------- lemmas
_lemma1 = {}
_lemma2 = {}


def lemmas_single(t):
    r = _lemma1.get(t.id)
    if r is None:
        r = []
        a, b = t.args
        if t.op == 'pmul':
            za, zb = zext(a, 64, 128), zext(b, 64, 128)
            for x, y in ((a, b), (b, a)):
                zy = zext(y, 64, 128)
                r.append(Or(Not(eq(64, x, 0)), eq(128, t, 0)))
                r.append(Or(Not(eq(64, x, 1)), eq(128, t, zy)))
                r.append(Or(eq(64, x, 0), Not(ult(128, t, zy))))
                r.append(ule(128, add(128, t, zy), shl(128, zy, 64)))
                r.append(Or(Or(Not(eq(128, t, 0)), eq(64, x, 0)), eq(64, y, 0)))
        else:
            n, p = a, b
            r.append(Or(eq(64, p, 0), ule(128, t, n)))
            r.append(Or(Not(eq(64, p, 1)), eq(128, t, n)))
            # remainder bounds through the product of the (64-bit) quotient and p
            q = trunc(t, 128, 64)
            fits = eq(64, ext(127, 64, t, 128), 0)
            m = pmul(q, p)
            zp = zext(p, 64, 128)
            r.append(Or(Or(Not(fits), eq(64, p, 0)), And(ule(128, m, n), ult(128, n, add(128, m, zp)))))
            # quotient overflowing 64 bits means n >= p * 2^64
            r.append(Or(Or(fits, eq(64, p, 0)), ule(128, shl(128, zp, 64), n)))
            r.append(Or(Or(Not(fits), eq(64, p, 0)), ult(128, n, shl(128, zp, 64))))
        r = [x for x in r if x != 1]
        _lemma1[t.id] = r
    return r


def lemmas_pair(s, t):
    if s.id > t.id:
        s, t = t, s
    k = (s.id, t.id)
    r = _lemma2.get(k)
    if r is not None:
        return r
    r = []
    if s.op == 'pmul' and t.op == 'pmul':
        for f, x in ((s.args[0], s.args[1]), (s.args[1], s.args[0])):
            for h, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                if f is h or (type(f) is int and f == h):
                    zf = zext(f, 64, 128)
                    if x is y:
                        continue
                    r.append(Or(Not(ult(64, x, y)), ule(128, add(128, s, zf), t)))
                    r.append(Or(Not(ult(64, y, x)), ule(128, add(128, t, zf), s)))
                    r.append(Or(Not(eq(64, x, y)), eq(128, s, t)))
                    # neighbours, where one operand is computed from the other
                    if _within(x, y, 3):
                        r.append(Or(Or(Not(eq(64, add(64, x, 1), y)), eq(64, y, 0)), eq(128, add(128, s, zf), t)))
                    if _within(y, x, 3):
                        r.append(Or(Or(Not(eq(64, add(64, y, 1), x)), eq(64, x, 0)), eq(128, add(128, t, zf), s)))
    elif s.op == 'pdiv' and t.op == 'pdiv':
        n1, p1 = s.args
        n2, p2 = t.args
        if p1 is p2 or (type(p1) is int and p1 == p2):
            r.append(Or(Not(ule(128, n1, n2)), ule(128, s, t)))
            r.append(Or(Not(ule(128, n2, n1)), ule(128, t, s)))
    else:
        d, m = (s, t) if s.op == 'pdiv' else (t, s)
        n, p = d.args
        for f, x in ((m.args[0], m.args[1]), (m.args[1], m.args[0])):
            if f is p or (type(f) is int and f == p):
                zx = zext(x, 64, 128)
                a = ule(128, zx, d)
                b = ule(128, m, n)
                nz = eq(64, p, 0)
                r.append(Or(nz, Not(Xor1(a, b))))
    r = [x for x in r if x != 1]
    _lemma2[k] = r
    return r


def _within(x, y, d):
    """x occurs in y within depth d"""
    if x is y:
        return True
    if d == 0 or type(y) is not Term:
        return False
    return any(_within(x, a, d - 1) for a in y.args if type(a) is Term)


def absterms(t):
    return [x for x in leaves(t) if x.op in ('pmul', 'pdiv')]


class PC:
    """persistent path-condition list node; dead: pin profiles known to contradict it"""
    __slots__ = ('cond', 'prev', 'depth', 'dead', 'kids')

    def __init__(self, cond, prev):
        self.cond, self.prev = cond, prev
        self.depth = prev.depth + 1 if prev else 1
        self.dead = prev.dead if prev else 0
        self.kids = None
        if prev is not None and prev.kids is not None:
            self.dead |= prev.kids.get(cond.id, 0)

    def tolist(self):
        out = []
        n = self
        while n is not None:
            out.append(n.cond)
            n = n.prev
        out.reverse()
        return out


# ---------------------------------------------------------------- integer encoding
POW = [1 << i for i in range(0, 260)]
_bitleaf = {}


def bitterms(t):
    """sub-terms the integer encoding has to leave uninterpreted"""
    if type(t) is not Term:
        return _vempty2
    r = _bitleaf.get(t.id)
    if r is None:
        s = set()
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if type(x) is not Term or x.id in seen:
                continue
            seen.add(x.id)
            if uninterp(x):
                s.add(x)
            else:
                stack.extend(x.args)
        r = frozenset(s)
        _bitleaf[t.id] = r
    return r


_vempty2 = frozenset()
UNINT = {'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sext', 'ctlz', 'mul', 'udiv', 'urem'}


def uninterp(x):
    if x.w == 1 or x.op not in UNINT:
        return False
    if x.op == 'xor' and any(type(y) is int and y == (1 << x.w) - 1 for y in x.args):
        return False
    return True


_ub = {}


def ub(t, w):
    """static upper bound of a term's value"""
    if type(t) is not Term:
        return t
    r = _ub.get(t.id)
    if r is not None:
        return r
    top = POW[t.w] - 1
    op, a = t.op, t.args
    r = top
    if op == 'pmul':
        r = ub(a[0], 64) * ub(a[1], 64)
    elif op == 'pdiv':
        r = ub(a[0], 128)
    elif op == 'cat':
        r = 0
        pos = t.w
        for i in range(0, len(a), 2):
            pos -= a[i + 1]
            r += ub(a[i], a[i + 1]) << pos
    elif op == 'ext':
        if a[2] == 0:
            r = min(top, ub(a[0], a[0].w))
        elif a[1] == a[0].w - 1:
            r = min(top, ub(a[0], a[0].w) >> a[2])
        else:
            r = min(top, ub(a[0], a[0].w) >> a[2])
    elif op == 'add':
        x = ub(a[0], t.w) + ub(a[1], t.w)
        r = x if x <= top else top
    elif op == 'mulc':
        x = a[0] * ub(a[1], t.w)
        r = x if x <= top else top
    elif op == 'ite':
        r = max(ub(a[1], t.w), ub(a[2], t.w))
    _ub[t.id] = r
    return r


def iname(t):
    if t.op == 'var':
        return t.args[0]
    if t.op in ('pmul', 'pdiv'):
        return '%s!%d' % (t.op, t.id)
    return 'u!%d!%d' % (t.id, t.w)


def iconv(t, w, cache, newvars):
    """z3 Int expression (Bool for width 1); newvars collects the terms represented by fresh Int constants"""
    if type(t) is not Term:
        return z3.BoolVal(bool(t)) if w == 1 else z3.IntVal(t)
    r = cache.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        leaf = x.op in ('var', 'pmul', 'pdiv') or uninterp(x)
        pend = [] if leaf else [a for a in x.args if type(a) is Term and a.id not in cache]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if leaf:
            if x.w == 1:
                cache[x.id] = z3.Bool(iname(x))
            elif x.op in ('pmul', 'pdiv'):
                # 32-bit limbs: the code only ever cuts products and quotients at multiples of 32
                n = iname(x)
                cache[x.id] = sum((z3.Int('%s!%d' % (n, k)) * z3.IntVal(POW[32 * k]) for k in range(1, 4)), z3.Int(n + '!0'))
            else:
                cache[x.id] = z3.Int(iname(x))
                newvars.append(x)
        else:
            cache[x.id] = _iconv1(x, cache)
    return cache[t.id]


def _iconv1(t, cache):
    op, a, w = t.op, t.args, t.w

    def g(x, xw):
        if type(x) is Term:
            return cache[x.id]
        return z3.BoolVal(bool(x)) if xw == 1 else z3.IntVal(x)
    if op == 'not':
        return z3.Not(g(a[0], 1))
    if op == 'band':
        return z3.And(g(a[0], 1), g(a[1], 1))
    if op == 'beq':
        return g(a[0], 1) == g(a[1], 1)
    if op == 'ite':
        return z3.If(g(a[0], 1), g(a[1], w), g(a[2], w))
    if op in ('eq', 'ult', 'slt'):
        aw = (a[0] if type(a[0]) is Term else a[1]).w
        x, y = g(a[0], aw), g(a[1], aw)
        if op == 'eq':
            return x == y
        if op == 'ult':
            return x < y
        h = z3.IntVal(POW[aw - 1])
        m = z3.IntVal(POW[aw])
        return z3.If(x >= h, x - m, x) < z3.If(y >= h, y - m, y)
    if op == 'cat':
        e = None
        pos = w
        for i in range(0, len(a), 2):
            v, vw = a[i], a[i + 1]
            pos -= vw
            if type(v) is not Term:
                if v == 0:
                    continue
                x = z3.IntVal(v << pos)
            else:
                x = cache[v.id]
                if v.w == 1:
                    x = z3.If(x, z3.IntVal(POW[pos]), z3.IntVal(0))
                elif pos:
                    x = x * z3.IntVal(POW[pos])
            e = x if e is None else e + x
        return e if e is not None else z3.IntVal(0)
    if op == 'ext':
        x = cache[a[0].id]
        hi, lo = a[1], a[2]
        xw = a[0].w
        if a[0].op in ('pmul', 'pdiv') and lo % 32 == 0 and hi % 32 == 31:
            n = iname(a[0])
            l, h = lo // 32, hi // 32
            return sum((z3.Int('%s!%d' % (n, k)) * z3.IntVal(POW[32 * (k - l)]) for k in range(l + 1, h + 1)), z3.Int('%s!%d' % (n, l)))
        if a[0].op == 'add' and xw == 128 and lo == 32 and type(a[0].args[1]) is int and a[0].args[1] < POW[32] and type(a[0].args[0]) is Term \
                and a[0].args[0].op == 'pmul' and hi % 32 == 31 and ub(a[0].args[0], xw) + a[0].args[1] < POW[xw]:
            # (product + c) >> 32: a carry out of the low limb
            n = iname(a[0].args[0])
            y = sum((z3.Int('%s!%d' % (n, k)) * z3.IntVal(POW[32 * (k - 1)]) for k in range(2, 4)), z3.Int('%s!1' % n))
            y = z3.If(z3.Int(n + '!0') >= z3.IntVal(POW[32] - a[0].args[1]), y + 1, y)
            if hi == 127:
                return y
            if hi == 95:
                return z3.If(y >= z3.IntVal(POW[64]), y % z3.IntVal(POW[64]), y)
        if ub(a[0], xw) < POW[hi + 1] and w > 1:
            return x / z3.IntVal(POW[lo]) if lo else x
        if hi == xw - 1:
            if w == 1:
                return x >= z3.IntVal(POW[lo])
            return x / z3.IntVal(POW[lo])
        if lo:
            x = x / z3.IntVal(POW[lo])
        x = x % z3.IntVal(POW[w])
        return x == z3.IntVal(1) if w == 1 else x
    x, y = g(a[0], w), g(a[1], w)
    m = z3.IntVal(POW[w])
    if op == 'add':
        if type(a[1]) is int and a[1] >> (w - 1):
            k = z3.IntVal(POW[w] - a[1])
            return z3.If(x >= k, x - k, x - k + m)
        s = x + y
        if ub(a[0], w) + ub(a[1], w) < POW[w]:
            return s
        return z3.If(s >= m, s - m, s)
    if op == 'sub':
        return z3.If(x >= y, x - y, x - y + m)
    if op == 'xor':
        return z3.IntVal(POW[w] - 1) - (y if type(a[0]) is int else x)
    if op == 'mulc':
        k = a[0]
        if type(a[1]) is Term and a[1].op == 'pdiv' and a[1].args[1] == k:
            return y * z3.IntVal(k)
        if k * ub(a[1], w) < POW[w]:
            return y * z3.IntVal(k)
        if k >> (w - 1):
            kk = POW[w] - k
            r = y * z3.IntVal(kk)
            if type(a[1]) is Term and a[1].op == 'cat' and a[1].args[0] == 0 and (kk << (w - a[1].args[1])) <= POW[w]:
                return z3.If(r == 0, r, m - r)
            return (m - r % m) % m
        r = y * z3.IntVal(k)
        if type(a[1]) is Term and a[1].op == 'cat' and type(a[1].args[0]) is int and a[1].args[0] == 0 and (k << (w - a[1].args[1])) <= POW[w]:
            return r
        return r % m
    raise Exception('iconv ' + op)


PORTFOLIO = [('cvc5', ['cvc5', '--lang=smt2', '--produce-models', '--tlimit=4000', '-'], 4),
             ('z3-smt', ['z3', '-in', '-T:4', 'tactic.default_tactic=smt'], 4),
             ('z3-new', ['z3-new', '-in', '-T:6'], 6)]


def parse_model(out):
    m = {}
    for n, sort, v in re.findall(r'\(define-fun\s+\|?([^\s|]+)\|?\s+\(\)\s+(Int|Bool)\s+(\(-\s*\d+\)|[^\s()]+)\s*\)', out):
        if n.startswith('u!'):
            continue
        if sort == 'Bool':
            m[var(n, 1).id] = 1 if v == 'true' else 0
        elif v[0] != '(':
            k = n.split('!')
            if k[0] in ('pmul', 'pdiv'):
                m[int(k[1])] = m.get(int(k[1]), 0) + (int(v) << (32 * int(k[2])))
            else:
                w = int(n.rsplit('_', 1)[1]) if not n.startswith('cz!') else int(n[3:].split('_')[0])
                m[var(n, w).id] = int(v)
    return m


class Tier:
    """one incremental solver kept in step with a path condition. mode: 'int' (integer encoding, products as fresh
    values with lemmas, bit operations uninterpreted), 'bv0' (bit-vectors, conditions with products dropped),
    'bv' (bit-vectors with lemmas)"""

    def __init__(self, mode, timeout):
        self.mode, self.timeout = mode, timeout
        self.ext = {}
        self.reset()

    def reset(self):
        self.cache = {}
        self.intro = {}
        self.s = z3.SolverFor('QF_LIA' if self.mode == 'int' else 'QF_BV')
        self.s.set('timeout', self.timeout)
        self.stack = []
        self.abs = []
        self.vars = []

    def add(self, cond):
        if self.mode == 'int':
            nv = []
            e = iconv(cond, 1, self.cache, nv)
            known = self.known
            for x in self.tovars(cond):
                if x.id not in known:
                    known.add(x.id)
                    self.vars[-1].append(x.id)
                    if x.op in ('pmul', 'pdiv'):
                        for k in range(4):
                            z = z3.Int('%s!%d' % (iname(x), k))
                            self.s.add(z >= 0, z < z3.IntVal(POW[32]))
                    else:
                        z = self.cache[x.id]
                        self.s.add(z >= 0, z < z3.IntVal(POW[x.w]))
            self.s.add(e)
        else:
            self.s.add(conv(cond, 1, self.cache))

    def tovars(self, t):
        r = self.intro.get(t.id) if type(t) is Term else ()
        if r is None:
            out = []
            seen = set()
            st = [t]
            while st:
                x = st.pop()
                if type(x) is not Term or x.id in seen:
                    continue
                seen.add(x.id)
                if x.op in ('var', 'pmul', 'pdiv') or uninterp(x):
                    if x.w > 1:
                        out.append(x)
                else:
                    st.extend(x.args)
            r = self.intro[t.id] = out
        return r

    def enter(self, cond):
        self.s.push()
        self.abs.append([])
        self.vars.append([])
        if self.mode == 'bv0':
            if not absterms(cond):
                self.add(cond)
            return
        known = {x.id for l in self.abs for x in l}
        allabs = [x for l in self.abs for x in l]
        new = self.abs[-1]
        self.add(cond)
        todo = [x for x in absterms(cond) if x.id not in known]
        while todo:
            t = todo.pop()
            if t.id in known:
                continue
            known.add(t.id)
            ls = list(lemmas_single(t))
            for u in allabs:
                ls += lemmas_pair(u, t)
            allabs.append(t)
            new.append(t)
            for l in ls:
                self.add(l)
                for x in absterms(l):
                    if x.id not in known:
                        todo.append(x)

    known = None

    def leave(self, k=1):
        self.s.pop(k)
        for _ in range(k):
            self.abs.pop()
            for i in self.vars.pop():
                self.known.discard(i)

    def sync(self, pc):
        if self.known is None or not self.stack:
            if self.known is None:
                self.known = set()
        if len(self.cache) > 300000:
            self.reset()
            self.known = set()
        path = []
        n = pc
        while n is not None and not (n.depth <= len(self.stack) and self.stack[n.depth - 1] is n):
            path.append(n)
            n = n.prev
        keep = n.depth if n is not None else 0
        k = len(self.stack) - keep
        if k:
            self.leave(k)
            del self.stack[keep:]
        for n in reversed(path):
            self.enter(n.cond)
            self.stack.append(n)

    def check(self, pc, extra, portfolio=None):
        self.sync(pc)
        if extra is not None:
            self.enter(extra)
        r, m = 'unknown', None
        if portfolio is not True:
            r = self.s.check()
            if r == z3.sat:
                m = self.model()
            r = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        else:
            r, m = self.portfolio()
        if extra is not None:
            self.leave()
        return r, m

    def portfolio(self):
        """the incremental solver gave up: fresh runs of other solvers"""
        txt = '(set-logic QF_LIA)\n' + re.sub(r'\(set-info[^)]*\)|\(set-logic[^)]*\)', '', self.s.to_smt2())
        txt = txt.replace('(check-sat)', '') + '(check-sat)\n(get-model)\n'
        for tool, cmd, lim in PORTFOLIO:
            self.ext[tool] = self.ext.get(tool, 0) + 1
            try:
                p = subprocess.run(cmd, input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=lim + 2)
            except (subprocess.TimeoutExpired, OSError):
                continue
            out = p.stdout
            if out.startswith('unsat'):
                return 'unsat', None
            if out.startswith('sat'):
                return 'sat', parse_model(out)
        return 'unknown', None

    def model(self):
        m = self.s.model()
        out = {}
        for d in m.decls():
            v = m[d]
            n = d.name()
            if '!' in n:
                k = n.split('!')
                i = k[1]
                if k[0] in ('pmul', 'pdiv'):
                    out[int(i)] = out.get(int(i), 0) + (v.as_long() << (32 * int(k[2]) if len(k) > 2 else 0))
                    continue
                k = k[0]
                if k == 'u' or k not in ('cz',):
                    continue
            if z3.is_int_value(v):
                # width is encoded at the end of the name
                w = int(n.rsplit('_', 1)[1]) if not n.startswith('cz!') else int(n[3:].split('_')[0])
                out[var(n, w).id] = v.as_long()
            elif z3.is_bv_value(v):
                out[var(n, v.size()).id] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[var(n, 1).id] = 1 if z3.is_true(v) else 0
        return out


NPIN = 10


class Pin(Tier):
    """searches for a witness with the factors of every product pinned to fixed values: all arithmetic is then linear and
    exact. Only its 'sat' answers are used."""

    def __init__(self, k, timeout):
        self.k = k
        self.sub = {}
        Tier.__init__(self, 'int', timeout)

    def enter(self, cond):
        self.s.push()
        self.abs.append([])
        self.vars.append([])
        c = subst(cond, lambda v: pinned(v, self.k), self.sub)
        if type(c) is int:
            if not c:
                self.s.add(z3.BoolVal(False))
            return
        self.add(c)
        known = {i for l in self.abs for i in l}
        for t in absterms(c):
            if t.op == 'pdiv' and type(t.args[1]) is int and t.id not in known:
                self.abs[-1].append(t.id)
                n, p = t.args
                for l in (ule(128, mulk(p, t), n), ult(128, sub(128, n, mulk(p, t)), p)):
                    if type(l) is Term:
                        self.add(l)


def mulk(k, t):
    """k * t for a quotient t = n / k (no overflow)"""
    return mk('mulc', 128, k, t)


def related(conds):
    """the conditions connected with the last one by shared variables"""
    ls = [leaves(c) for c in conds]
    seen = set(ls[-1])
    take = [False] * (len(conds) - 1) + [True]
    more = True
    while more:
        more = False
        for i, l in enumerate(ls):
            if not take[i] and not seen.isdisjoint(l):
                take[i] = more = True
                seen |= l
    return [c for i, c in enumerate(conds) if take[i]]


class SolverStack:
    def __init__(self, timeout_ms=20000):
        self.stats = Stats()
        self.timeout = timeout_ms
        self.tiers = {'int': Tier('int', 400), 'int2': Tier('int', 400), 'bv': Tier('bv', timeout_ms)}
        self.slowlog = None
        self.pin = {}
        self.pinbad = 0
        self.how = {}
        self.bvcache = {}
        self.recent = []
        self.slices = {}

    def conds(self, pc, extra):
        l = pc.tolist() if pc is not None else []
        if extra is not None:
            l = l + [extra]
        return l

    def holds(self, conds, m):
        memo = {}
        try:
            for c in conds:
                if not ev(c, m, memo):
                    return False
        except NeedAbs:
            return False
        return True

    def check(self, pc, extra=None):
        """('sat', model) / ('unsat', None) / ('unknown', None)"""
        t0 = time.time()
        how = 'pin'
        cs = self.conds(pc, extra)
        pure = any(bitterms(c) for c in cs) and not any(absterms(c) for c in cs)
        if pure:
            # bit-level conditions and no products
            how = 'bv1'
            r = None
            part = related(cs) if extra is not None else cs
            if len(part) < len(cs):
                # only what shares variables with the question; a contradiction there settles it
                r, m = self.slice(part)
                if r == 'sat':
                    for m0 in self.recent:
                        m1 = dict(m0)
                        m1.update(m)
                        if self.holds(cs, m1):
                            m = m1
                            break
                    else:
                        r = None
                elif r == 'unknown':
                    r = None
            if r is None:
                r, m = self.fresh_bv(cs)
            if r == 'sat':
                self.recent = [m] + self.recent[:7]
        else:
            r = None
            if extra is not None:
                part = related(cs)
                if len(part) < len(cs) and not any(absterms(c) for c in part):
                    # no product has to do with the question
                    how = 'part'
                    r, m = self.slice(part)
                    if r == 'sat':
                        for m0 in self.recent:
                            m1 = dict(m0)
                            m1.update(m)
                            if self.holds(cs, m1):
                                m = m1
                                break
                        else:
                            r = None
                    elif r == 'unknown':
                        r = None
            if r is None:
                how = 'pin'
                r, m = self.pins(pc, extra)
        if not pure and r not in ('sat', 'unsat'):
            how = 'int'
            r, m = self.tiers['int'].check(pc, extra, False)
            if r == 'unknown':
                r, m = self.tiers['int'].check(pc, extra, True)
                how = 'int+'
        if how not in ('pin', 'bv1', 'part') and r != 'unsat':
            conds = self.conds(pc, extra)
            bits = any(bitterms(c) for c in conds)
            if r == 'sat' and (not bits or self.holds(conds, m)):
                pass
            elif bits:
                r, m = self.bits(pc, extra, conds, r, m)
                how = self.last
            else:
                how = 'bv'
                r, m = self.tiers['bv'].check(pc, extra)
        if r == 'sat' and m is not None and not pure:
            self.recent = [m] + self.recent[:7]
        dt = time.time() - t0
        st = self.stats
        h = self.how.setdefault(how + ' ' + r, [0, 0.0, 0.0])
        h[0] += 1
        h[1] += dt
        h[2] = max(h[2], dt)
        if dt > 2 and self.slowlog is not None:
            self.slowlog.append((dt, how, r, self.conds(pc, extra)))
        st.queries += 1
        st.time += dt
        if dt > st.max_query:
            st.max_query = dt
        if r == 'sat':
            st.sat += 1
        elif r == 'unsat':
            st.unsat += 1
        else:
            st.unknown += 1
        return r, m

    def slice(self, part):
        k = frozenset(c.id if type(c) is Term else c for c in part)
        if k in self.slices:
            return self.slices[k]
        r = 'unknown', None
        if not any(bitterms(c) for c in part):
            pc = None
            for c in part[:-1]:
                pc = PC(c, pc)
            r = self.tiers['int2'].check(pc, part[-1], False)
        if r[0] == 'unknown':
            r = self.fresh_bv(part)
        if len(self.slices) > 50000:
            self.slices = {}
        self.slices[k] = r
        return r

    def pins(self, pc, extra):
        """a witness among the pinned values"""
        dead = pc.dead if pc is not None else 0
        if pc is not None and pc.kids is not None and type(extra) is Term:
            dead |= pc.kids.get(extra.id, 0)
        conds = None
        try:
            for k in range(NPIN):
                if dead >> k & 1:
                    continue
                if k not in self.pin:
                    self.pin[k] = Pin(k, 200)
                if conds is None:
                    conds = self.conds(pc, extra)
                    if not any(type(pinned(v, 0)) is int for c in conds for v in leaves(c) if v.op == 'var'):
                        if k or any(absterms(c) for c in conds):
                            return 'unknown', None
                r, m = self.pin[k].check(pc, extra)
                if r == 'sat':
                    for c in conds:
                        for v in leaves(c):
                            if v.op == 'var':
                                p = pinned(v, k)
                                if p is not None:
                                    m[v.id] = p
                    m[-1] = 1
                    if self.holds(conds, m):
                        return 'sat', m
                    if m is not None:
                        m = self.extend(conds, m)
                        if m is not None:
                            return 'sat', m
                    self.pinbad += 1
                elif r == 'unsat':
                    dead |= 1 << k
        finally:
            if pc is not None:
                if type(extra) is Term:
                    if pc.kids is None:
                        pc.kids = {}
                    pc.kids[extra.id] = dead
                elif extra is None:
                    pc.dead = dead
        return 'unknown', None

    def extend(self, conds, m):
        """keep the arithmetic part of an integer model, solve the bit-level part again"""
        fixed = {}
        for c in conds:
            if absterms(c):
                for x in leaves(c):
                    if x.op == 'var':
                        fixed[x] = m.get(x.id, 0)
        if -1 in m:
            for c in conds:
                for x in leaves(c):
                    if x.op == 'var' and 'h' in x.args[0]:
                        fixed[x] = m[x.id]
        val = lambda v: fixed.get(v)
        memo = {}
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.timeout)
        cache = {}
        for c in conds:
            if not absterms(c):
                c = subst(c, val, memo)
                if type(c) is Term:
                    s.add(conv(c, 1, cache))
                elif not c:
                    return None
        if s.check() != z3.sat:
            return None
        m2 = dict(m)
        m2.update(_model(s))
        for x, v in fixed.items():
            m2[x.id] = v
        return m2 if self.holds(conds, m2) else None

    def fresh_bv(self, conds):
        """conditions without products, in one non-incremental query (far faster on 128-bit masks)"""
        if len(self.bvcache) > 200000:
            self.bvcache = {}
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.timeout)
        for c in conds:
            if not absterms(c):
                s.add(conv(c, 1, self.bvcache))
        r = s.check()
        if r == z3.sat:
            return 'sat', _model(s)
        return ('unsat' if r == z3.unsat else 'unknown'), None

    def bits(self, pc, extra, conds, r, m):
        self.last = 'bv0'
        r0, m0 = self.fresh_bv(conds)
        if r0 == 'unsat':
            return r0, None
        if r0 == 'sat' and not any(absterms(c) for c in conds):
            return r0, m0
        if r == 'sat':
            self.last = 'ext'
            m2 = self.extend(conds, m)
            if m2 is not None:
                return 'sat', m2
        self.last = 'bv'
        return self.tiers['bv'].check(pc, extra)


PINS = sorted({1 << 32, 3 << 31, 1 << 31, 1 << 33, 1, 2, 3, 5, (1 << 32) + 1, (1 << 32) - 1, (1 << 63), (1 << 64) - 1,
               (1 << 48), 3 << 40, 7 << 30, 10, 100, 1 << 40, (1 << 33) + 1, 1000, 11})


def exact_check(conds, timeout_s=60, stats=None, log=None, short=False):
    """Decide conds with exact product semantics. Returns ('sat', model) / ('unsat',None) only for the
    unrestricted query / ('unknown', None)."""
    abst = set()
    work = list(conds)
    for c in work:
        abst.update(absterms(c))
    # close under nested
    t0 = time.time()
    if not abst:
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(timeout_s * 1000))
        cache = {}
        for c in conds:
            s.add(conv(c, 1, cache))
        r = s.check()
        if stats:
            stats.exact_queries += 1
            stats.time += time.time() - t0
        if r == z3.sat:
            return 'sat', _model(s)
        return ('unsat' if r == z3.unsat else 'unknown'), None
    # choose operands to pin: greedy cover
    pinned = []
    rest = set(abst)
    pinset = set()
    for t in list(rest):
        if t.op == 'pdiv':
            if type(t.args[1]) is Term:
                pinset.add(t.args[1])
    rest = {t for t in rest if t.op == 'pmul' and not (t.args[0] in pinset or t.args[1] in pinset)}
    while rest:
        cnt = {}
        for t in rest:
            for x in t.args:
                if type(x) is Term:
                    cnt[x] = cnt.get(x, 0) + 1
        best = max(cnt, key=lambda x: (cnt[x], -x.id))
        pinset.add(best)
        rest = {t for t in rest if best not in t.args}
    strategies = [('pins', PINS), ('pins', [1 << 32, 1 << 31, 1 << 33, 3 << 31, 1]), ('full', None)]
    if short:
        strategies = strategies[1:2]
    for strat, pins in strategies:
        left = timeout_s - (time.time() - t0)
        if left <= 1:
            break
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(min(left, timeout_s / 2 if strat == 'pins' else left) * 1000))
        cache = {}
        side = []
        fresh = [0]

        def sub(t, cache=cache, side=side, fresh=fresh, pins=pins, strat=strat):
            x, y = t.args
            if t.op == 'pmul':
                if strat == 'full':
                    return z3.ZeroExt(64, conv(x, 64, cache, sub)) * z3.ZeroExt(64, conv(y, 64, cache, sub))
                if y in pinset and x not in pinset:
                    x, y = y, x
                if x in pinset:
                    p = conv(x, 64, cache, sub)
                    o = z3.ZeroExt(64, conv(y, 64, cache, sub))
                    e = z3.BitVecVal(0, 128)
                    for k in pins:
                        e = z3.If(p == k, o * z3.BitVecVal(k, 128), e)
                    return e
                return z3.ZeroExt(64, conv(x, 64, cache, sub)) * z3.ZeroExt(64, conv(y, 64, cache, sub))
            n, p = x, y
            zn = conv(n, 128, cache, sub)
            zp = conv(p, 64, cache, sub)
            fresh[0] += 1
            d = z3.BitVec('q!!%d' % fresh[0], 128)
            if strat == 'full' or p not in pinset:
                return z3.UDiv(zn, z3.ZeroExt(64, zp))
            prod = z3.BitVecVal(0, 128)
            for k in pins:
                prod = z3.If(zp == k, d * z3.BitVecVal(k, 128), prod)
                side.append(z3.Implies(zp == k, z3.ULE(d, z3.BitVecVal(((1 << 128) - 1) // k, 128))))
            side.append(z3.ULE(prod, zn))
            side.append(z3.ULT(zn - prod, z3.ZeroExt(64, zp)))
            return d

        for c in conds:
            s.add(conv(c, 1, cache, sub))
        if strat == 'pins':
            for x in pinset:
                p = conv(x, 64, cache, sub)
                s.add(z3.Or(*[p == k for k in pins]))
        for c in side:
            s.add(c)
        r = s.check()
        if stats:
            stats.exact_queries += 1
        if log:
            log('exact %s pins=%d -> %s %.1fs' % (strat, len(pinset), r, time.time() - t0))
        if r == z3.sat:
            m = _model(s)
            memo = {}
            if all(ev(c, m, memo, True) for c in conds):
                if stats:
                    stats.time += time.time() - t0
                return 'sat', m
            if log:
                log('exact model does not evaluate')
        if r == z3.unsat and strat == 'full':
            if stats:
                stats.time += time.time() - t0
            return 'unsat', None
    if stats:
        stats.time += time.time() - t0
    return 'unknown', None


def _model(s):
    m = s.model()
    out = {}
    for d in m.decls():
        v = m[d]
        n = d.name()
        if z3.is_bv_value(v):
            out[var(n, v.size()).id] = v.as_long()
        else:
            out[var(n, 1).id] = 1 if z3.is_true(v) else 0
    return out
