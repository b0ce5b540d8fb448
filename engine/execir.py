"""Symbolic executor for rustc's LLVM IR."""
import re
import time
import terms as T
from terms import Term, MASKS
from llparse import Module, parse_fn, parse_instr, demangle, Unsupported
from smt import PC, SolverStack

JUMP = 1
FN_BASE = 0x7f00 << 32


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind, self.msg = kind, msg


class RelOff:
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr


class Obj:
    __slots__ = ('size', 'b', 'name', 'ro')

    def __init__(self, size, b, name, ro=False):
        self.size, self.b, self.name, self.ro = size, b, name, ro


class Frame:
    __slots__ = ('fn', 'R', 'code', 'ip', 'blk', 'ret', 'allocas')

    def copy(self):
        f = Frame()
        f.fn, f.R, f.code, f.ip, f.blk, f.ret, f.allocas = self.fn, dict(self.R), self.code, self.ip, self.blk, self.ret, list(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'model', 'memo', 'facts', 'anys', 'log', 'script', 'forced', 'checks', 'covers',
                 'panic_ok', 'nobj', 'steps', 'nany', 'depth', 'notes')

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc, s.model, s.memo = self.pc, self.model, self.memo
        s.facts = dict(self.facts)
        s.anys = list(self.anys)
        s.log = list(self.log)
        s.script = list(self.script)
        s.forced = None
        s.checks = list(self.checks)
        s.covers = set(self.covers)
        s.panic_ok = self.panic_ok
        s.nobj, s.steps, s.nany, s.depth = self.nobj, self.steps, self.nany, self.depth
        s.notes = list(self.notes)
        return s

    # ---- facts
    def add_fact(self, c, v=True):
        if type(c) is not Term:
            return
        while c.op == 'not':
            c = c.args[0]
            v = not v
        f = self.facts
        f[c.id] = v
        op = c.op
        if op == 'band':
            if v:
                self.add_fact(c.args[0], True)
                self.add_fact(c.args[1], True)
            else:
                # unit propagation when one side is known true
                a, b = c.args
                ka, kb = self.known(a), self.known(b)
                if ka is True:
                    self.add_fact(b, False)
                elif kb is True:
                    self.add_fact(a, False)
        elif op == 'ult':
            a, b = c.args
            w = (a if type(a) is Term else b).w
            if v:
                x = T.ult(w, b, a)
                if type(x) is Term:
                    f[x.id] = False
                x = T.eq(w, a, b)
                if type(x) is Term:
                    f[x.id] = False
        elif op == 'eq' and v:
            a, b = c.args
            w = (a if type(a) is Term else b).w
            for x in (T.ult(w, a, b), T.ult(w, b, a)):
                if type(x) is Term and x.op == 'ult':
                    f[x.id] = False

    def known(self, c):
        if type(c) is not Term:
            return bool(c)
        f = self.facts
        r = f.get(c.id)
        if r is not None:
            return r
        op = c.op
        if op == 'not':
            r = self.known(c.args[0])
            return None if r is None else not r
        if op == 'band':
            a = self.known(c.args[0])
            if a is False:
                return False
            b = self.known(c.args[1])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if op == 'ite' and c.w == 1:
            k = self.known(c.args[0])
            if k is not None:
                return self.known(c.args[1] if k else c.args[2])
            a, b = self.known(c.args[1]), self.known(c.args[2])
            if a is not None and a == b:
                return a
        return None

    def assume(self, c, model=None):
        """add to the path condition (no feasibility check)"""
        if type(c) is not Term:
            return
        self.pc = PC(c, self.pc)
        self.add_fact(c)
        if model is not None:
            self.model, self.memo = model, {}
        elif self.model is not None:
            try:
                if not T.ev(c, self.model, self.memo):
                    self.model = None
            except T.NeedAbs:
                self.model = None


class Engine:
    def __init__(self, lls, solver=None, step_limit=400000, lazy=()):
        self.mods = []
        self.ext = {}
        self.lazy = list(lazy)      # modules read only when something in them is needed
        self.load_mods(lls)
        self.solver = solver or SolverStack()
        self.gobj = {}        # (modidx,name) -> objid
        self.base = {}        # objid -> Obj (globals)
        self.nglob = 0
        self.fnaddr = {}
        self.addrfn = {}
        self.step_limit = step_limit
        self.sizes = {}
        self.used = {}        # demangled fn name -> instr count executed (set on first call)
        self.instr_count = 0
        self.forks = 0
        self.stack = []
        self.externs = {}
        self.extern_used = set()
        self.params = [0]
        import externs
        externs.install(self)

    def load_mods(self, paths):
        new = [Module(p) for p in paths]
        self.mods += new
        for m in new:
            for n, f in m.fns.items():
                if n not in m.internal:
                    self.ext.setdefault(n, f)
        # function aliases (identical functions merged by the compiler)
        for m in new:
            for n, t in list(m._gtext.items()):
                if ' alias ' in ' ' + t:
                    tgt = m.alias_target(n)
                    f = m.fns.get(tgt) if tgt else None
                    if f is None:
                        continue
                    if t.startswith(('internal ', 'private ')):
                        m.fns[n] = f
                        m.internal.add(n)
                    else:
                        m.fns.setdefault(n, f)
                        self.ext.setdefault(n, f)

    def lookup(self, name):
        """the function defined under this external name, reading the lazily loaded modules if need be"""
        f = self.ext.get(name)
        if f is None and self.lazy and name.startswith('_'):
            lz, self.lazy = self.lazy, []
            self.load_mods(lz)
            f = self.ext.get(name)
        return f

    # ------------------------------------------------------------ layout
    def layout(self, ty, mod):
        k = (ty, mod if ty[0] == 'named' or True else None)
        r = self.sizes.get(k)
        if r is None:
            r = self._layout(ty, mod)
            self.sizes[k] = r
        return r

    def _layout(self, ty, mod):
        """(size, align, offsets|None)"""
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            al = 1
            while al < n and al < 8:
                al *= 2
            sz = (n + al - 1) // al * al
            return sz, al, None
        if k == 'ptr':
            return 8, 8, None
        if k == 'f':
            return (8, 8, None) if ty[1] == 'double' else (4, 4, None)
        if k == 'named':
            t = mod.types.get(ty[1])
            if t is None:
                raise Unsupported('opaque type ' + ty[1])
            return self.layout(t, mod)
        if k == 'arr':
            s, a, _ = self.layout(ty[2], mod)
            return s * ty[1], a, None
        if k == 'vec':
            s, a, _ = self.layout(ty[2], mod)
            return s * ty[1], s * ty[1], None
        if k == 'st':
            off = 0
            al = 1
            offs = []
            for e in ty[1]:
                s, a, _ = self.layout(e, mod)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        raise Unsupported('layout %r' % (ty,))

    def resolve_ty(self, ty, mod):
        while ty[0] == 'named':
            ty = mod.types[ty[1]]
        return ty

    # ------------------------------------------------------------ globals / constants
    def global_addr(self, name, mod):
        f = mod.fns.get(name)
        if f is None or name not in mod.internal:
            f = self.ext.get(name) or f
        if f is not None:
            return self.fn_addr(f)
        if mod.has_global(name):
            g = mod.global_def(name)
            if g[0] == 'alias':
                return self.const(g[1], ('ptr',), mod)
            if g[2] is None:
                # external global: look for a definition elsewhere
                if 'solana' in name:
                    self.lookup(name)
                for m in self.mods:
                    if m is not mod and m.has_global(name) and m.global_def(name)[0] == 'var' and m.global_def(name)[2] is not None:
                        return self.global_addr(name, m)
                # unknown external data (for example a vtable in std): one opaque object per name
                return self._mkglobal(('ext', name), None, None, name, mod)
            return self._mkglobal((id(mod), name), g[1], g[2], name, mod)
        # declared function: extern stub
        return self.fn_addr(name)

    def fn_addr(self, f):
        key = f if isinstance(f, str) else f
        a = self.fnaddr.get(key)
        if a is None:
            a = FN_BASE + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[key] = a
            self.addrfn[a] = f
        return a

    def _mkglobal(self, key, ty, init, name, mod):
        oid = self.gobj.get(key)
        if oid is None:
            self.nglob += 1
            oid = self.nglob
            self.gobj[key] = oid
            if ty is None:
                self.base[oid] = Obj(256, [0] * 256, name, True)
            else:
                sz = self.layout(ty, mod)[0]
                o = Obj(sz, [0] * sz, name, False)
                self.base[oid] = o
                self._init(o, 0, ty, init, mod)
                o.ro = False
        return oid << 32

    def _init(self, o, off, ty, v, mod):
        ty = self.resolve_ty(ty, mod)
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'str':
            o.b[off:off + len(v[1])] = list(v[1])
            return
        if k == 'agg':
            if ty[0] == 'arr':
                s = self.layout(ty[2], mod)[0]
                for i, (t, x) in enumerate(v[1]):
                    self._init(o, off + i * s, t, x, mod)
            else:
                offs = self.layout(ty, mod)[2]
                for i, (t, x) in enumerate(v[1]):
                    self._init(o, off + offs[i], t, x, mod)
            return
        c = self.const(v, ty, mod)
        n = self.layout(ty, mod)[0]
        if isinstance(c, RelOff):
            for i in range(n):
                o.b[off + i] = (c, i)
        else:
            o.b[off:off + n] = list(c.to_bytes(n, 'little'))

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'int':
            if ty[0] == 'ptr':
                return v[1]
            return v[1] & MASKS[ty[1]]
        if k == 'glob':
            return self.global_addr(v[1], mod)
        if k in ('undef', 'zero'):
            ty = self.resolve_ty(ty, mod)
            if ty[0] in ('i', 'ptr', 'f'):
                return 0
            if ty[0] == 'vec' or ty[0] == 'arr':
                return tuple(self.const(v, ty[2], mod) for _ in range(ty[1]))
            return tuple(self.const(v, e, mod) for e in ty[1])
        if k == 'agg':
            return tuple(self.const(x, t, mod) for t, x in v[1])
        if k == 'str':
            return tuple(v[1])
        if k == 'flt':
            return v
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(v[3][0][1], v[3][0][0], mod)
                off = 0
                cur = v[2]
                for i, (t, x) in enumerate(v[3][1:]):
                    n = self.const(x, t, mod)
                    if n >> (t[1] - 1):
                        n -= 1 << t[1]
                    if i == 0:
                        off += n * self.layout(cur, mod)[0]
                    else:
                        cur = self.resolve_ty(cur, mod)
                        if cur[0] == 'st':
                            off += self.layout(cur, mod)[2][n]
                            cur = cur[1][n]
                        else:
                            cur = cur[2]
                            off += n * self.layout(cur, mod)[0]
                return (base + off) & MASKS[64]
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'zext'):
                return self.const(v[3], v[2], mod)
            if op == 'trunc':
                x = self.const(v[3], v[2], mod)
                if isinstance(x, RelOff):
                    return x
                return x & MASKS[v[4][1]]
            if op in ('sub', 'add', 'xor', 'and', 'or', 'mul'):
                a = self.const(v[2][0][1], v[2][0][0], mod)
                b = self.const(v[2][1][1], v[2][1][0], mod)
                w = v[2][0][0][1]
                if op == 'sub':
                    if a >> 32 and b >> 32 and (a >> 32) != (b >> 32):
                        return RelOff(a)
                    return (a - b) & MASKS[w]
                return {'add': a + b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'mul': a * b}[op] & MASKS[w]
        raise Unsupported('const %r' % (v,))

    # ------------------------------------------------------------ memory
    def getobj(self, st, addr, n, what):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            o = self.base.get(oid)
            if o is None:
                raise PathEnd('ub', '%s through invalid pointer %#x' % (what, addr))
        off = addr & 0xffffffff
        if off + n > o.size:
            raise PathEnd('ub', '%s out of bounds: %s size %d offset %d len %d' % (what, o.name, o.size, off, n))
        return oid, o, off

    def wobj(self, st, oid, o):
        if oid in st.owned:
            return o
        if o.ro:
            raise PathEnd('ub', 'write to read-only ' + o.name)
        o = Obj(o.size, list(o.b), o.name)
        st.mem[oid] = o
        st.owned.add(oid)
        return o

    def load(self, st, addr, n):
        """n bytes at concrete addr as an 8n-bit value"""
        if n == 0:
            return 0
        oid, o, off = self.getobj(st, addr, n, 'load')
        bs = o.b[off:off + n]
        x = bs[0]
        if type(x) is int:
            for y in bs:
                if type(y) is not int:
                    break
            else:
                return int.from_bytes(bytes(bs), 'little')
        elif x is not None and x[1] == 0:
            t = x[0]
            if type(t) is RelOff:
                return t
            if t.w == 8 * n:
                for i in range(1, n):
                    y = bs[i]
                    if type(y) is not tuple or y[0] is not t or y[1] != i:
                        break
                else:
                    return t
        # general assembly
        parts = []
        i = n - 1
        while i >= 0:
            y = bs[i]
            if type(y) is tuple:
                t, hi = y
                lo = hi
                i -= 1
                while i >= 0 and type(bs[i]) is tuple and bs[i][0] is t and bs[i][1] == lo - 1:
                    lo -= 1
                    i -= 1
                parts.append((T.ext(8 * hi + 7, 8 * lo, t, t.w), 8 * (hi - lo + 1)))
            else:
                parts.append((y or 0, 8))
                i -= 1
        return T.mkcat(parts)

    def store(self, st, addr, n, v):
        if n == 0:
            return
        oid, o, off = self.getobj(st, addr, n, 'store')
        o = self.wobj(st, oid, o)
        if type(v) is int:
            o.b[off:off + n] = v.to_bytes(n, 'little')
        elif type(v) is Term:
            if v.w == 8 * n and v.op != 'cat':
                o.b[off:off + n] = [(v, i) for i in range(n)]
            elif v.w == 8 * n:
                # split a cat on byte-aligned parts
                pos = 8 * n
                ok = all(v.args[i + 1] % 8 == 0 for i in range(0, len(v.args), 2))
                if not ok:
                    o.b[off:off + n] = [(v, i) for i in range(n)]
                else:
                    for i in range(0, len(v.args), 2):
                        p, pw = v.args[i], v.args[i + 1]
                        pos -= pw
                        k = pw // 8
                        q = off + pos // 8
                        if type(p) is int:
                            o.b[q:q + k] = p.to_bytes(k, 'little')
                        else:
                            o.b[q:q + k] = [(p, j) for j in range(k)]
            else:
                v = T.zext(v, v.w, 8 * n)
                if type(v) is int:
                    o.b[off:off + n] = v.to_bytes(n, 'little')
                else:
                    o.b[off:off + n] = [(v, i) for i in range(n)]
        elif type(v) is RelOff:
            o.b[off:off + n] = [(v, i) for i in range(n)]
        else:
            raise Unsupported('store %r' % (v,))

    def load_ty(self, st, addr, ty, mod):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            n = (w + 7) // 8
            v = self.load(st, addr, n)
            if w != 8 * n:
                v = T.trunc(v, 8 * n, w)
            return v
        if k == 'ptr':
            return self.load(st, addr, 8)
        if k == 'vec' or k == 'arr':
            s = self.layout(ty[2], mod)[0]
            return tuple(self.load_ty(st, addr + i * s, ty[2], mod) for i in range(ty[1]))
        if k == 'named':
            return self.load_ty(st, addr, mod.types[ty[1]], mod)
        if k == 'st':
            offs = self.layout(ty, mod)[2]
            return tuple(self.load_ty(st, addr + offs[i], e, mod) for i, e in enumerate(ty[1]))
        if k == 'f':
            return self.load(st, addr, self.layout(ty, mod)[0])
        raise Unsupported('load %r' % (ty,))

    def store_ty(self, st, addr, ty, v, mod):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            self.store(st, addr, n, v)
        elif k == 'ptr':
            self.store(st, addr, 8, v)
        elif k == 'vec' or k == 'arr':
            s = self.layout(ty[2], mod)[0]
            for i in range(ty[1]):
                self.store_ty(st, addr + i * s, ty[2], v[i], mod)
        elif k == 'named':
            self.store_ty(st, addr, mod.types[ty[1]], v, mod)
        elif k == 'st':
            offs = self.layout(ty, mod)[2]
            for i, e in enumerate(ty[1]):
                self.store_ty(st, addr + offs[i], e, v[i], mod)
        elif k == 'f':
            self.store(st, addr, self.layout(ty, mod)[0], v)
        else:
            raise Unsupported('store %r' % (ty,))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        _, so, soff = self.getobj(st, s, n, 'memcpy read')
        data = so.b[soff:soff + n]
        oid, o, off = self.getobj(st, d, n, 'memcpy write')
        o = self.wobj(st, oid, o)
        o.b[off:off + n] = data

    def alloc(self, st, size, name, zero=False):
        st.nobj += 1
        oid = 0x10000 + st.nobj
        st.mem[oid] = Obj(size, [0 if zero else None] * size, name)
        st.owned.add(oid)
        return oid << 32

    def free(self, st, addr):
        oid = addr >> 32
        if oid not in st.mem or addr & 0xffffffff:
            raise PathEnd('ub', 'bad free')
        del st.mem[oid]

    # ------------------------------------------------------------ decisions
    def feasible(self, st, c):
        r, m = self.solver.check(st.pc, c)
        return r, m

    def ensure_model(self, st):
        if st.model is None:
            r, m = self.solver.check(st.pc)
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r == 'sat':
                st.model, st.memo = m, {}
        return st.model

    def evm(self, st, t):
        """value of t in the current model or None"""
        if st.model is None:
            self.ensure_model(st)
            if st.model is None:
                return None
        try:
            return T.ev(t, st.model, st.memo)
        except T.NeedAbs:
            return None

    def push(self, st):
        self.forks += 1
        self.stack.append(st)

    def decide(self, st, c):
        """concrete truth value of c on this path; forks when both are possible"""
        if type(c) is not Term:
            return bool(c)
        k = st.known(c)
        if k is not None:
            return k
        if st.script:
            e = st.script.pop(0)
            assert e[0] == 'b', e
            st.log.append(e)
            v = e[1]
            if e[2]:
                st.add_fact(c, v)
            else:
                st.assume(c if v else T.Not(c))
            return v
        v = self.evm(st, c)
        if v is None:
            # no model value: query both sides
            r1, m1 = self.feasible(st, c)
            if r1 == 'unsat':
                v = False
                st.log.append(('b', False, True))
                st.add_fact(c, False)
                return False
            v = True
            if m1 is not None:
                st.model, st.memo = m1, {}
        v = bool(v)
        oc = T.Not(c) if v else c
        r, m = self.feasible(st, oc)
        if r == 'unsat':
            st.log.append(('b', v, True))
            st.add_fact(c, v)
            return v
        cl = st.clone()
        cl.log.append(('b', not v, False))
        cl.assume(oc, m)
        if m is None:
            cl.model = None
        self.push(cl)
        st.log.append(('b', v, False))
        st.assume(c if v else T.Not(c))
        return v

    def concretize(self, st, t, w=64):
        if type(t) is not Term:
            return t
        while True:
            if st.script:
                e = st.script.pop(0)
                st.log.append(e)
                if e[0] == 'x':
                    st.assume(T.Not(T.eq(w, t, e[1])))
                    continue
                assert e[0] == 'v', e
                c = T.eq(w, t, e[1])
                if not e[2]:
                    st.assume(c)
                elif st.known(c) is not True:
                    st.add_fact(c, True)
                return e[1]
            v = self.evm(st, t)
            if v is None:
                r, m = self.solver.check(st.pc, T.eq(w, t, T.var('cz!%d_%d' % (w, t.id), w)))
                if r != 'sat':
                    raise Unsupported('cannot concretize (%s)' % r)
                st.model, st.memo = m, {}
                v = m.get(T.var('cz!%d_%d' % (w, t.id), w).id, 0)
            c = T.eq(w, t, v)
            k = st.known(c)
            if k:
                st.log.append(('v', v, True))
                return v
            r, m = self.feasible(st, T.Not(c))
            if r == 'unsat':
                st.log.append(('v', v, True))
                st.add_fact(c, True)
                return v
            nx = sum(1 for e in st.log if e[0] == 'x')
            if nx > 200:
                raise Unsupported('too many values for a concretized term in %s' % ' < '.join(f.fn.name[:70] for f in st.frames[:-4:-1]))
            cl = st.clone()
            cl.log.append(('x', v))
            cl.assume(T.Not(c), m)
            if m is None:
                cl.model = None
            self.push(cl)
            st.log.append(('v', v, False))
            st.assume(c)
            return v

    def choose(self, st, n):
        if st.forced is not None:
            i = st.forced
            st.forced = None
            return i
        if st.script:
            e = st.script.pop(0)
            assert e[0] == 'c', e
            st.log.append(e)
            return e[1]
        for i in range(n - 1, 0, -1):
            cl = st.clone()
            cl.log.append(('c', i))
            cl.forced = i
            self.push(cl)
        st.log.append(('c', 0))
        return 0

    def assume(self, st, c):
        if type(c) is not Term:
            if not c:
                raise PathEnd('infeasible')
            return
        k = st.known(c)
        if k is True:
            return
        if k is False:
            raise PathEnd('infeasible')
        st.assume(c)

    # ------------------------------------------------------------ compilation
    def compile(self, f):
        if f.compiled is None:
            if f.blocks is None:
                parse_fn(f)
            import compileir
            f.compiled = compileir.compile_fn(self, f)
        return f.compiled

    def enter(self, st, f, args, ret):
        comp = self.compile(f)
        fr = Frame()
        fr.fn = f
        fr.R = dict(zip(comp.params, args))
        fr.blk = comp.entry
        fr.code = comp.code[comp.entry]
        fr.ip = 0
        fr.ret = ret
        fr.allocas = []
        if len(st.frames) > 300:
            raise Unsupported('call depth')
        st.frames.append(fr)
        u = self.used
        if f.name not in u:
            u[f.name] = 0
        u[f.name] += 1

    def initial(self, fname):
        f = self.ext.get(fname)
        if f is None:
            for m in self.mods:
                if m.has_global(fname):
                    f = self.addrfn[self.global_addr(fname, m)]
                    break
        st = State()
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.pc = None
        st.model, st.memo = {}, {}
        st.facts = {}
        st.anys = []
        st.log = []
        st.script = []
        st.forced = None
        st.checks = []
        st.covers = set()
        st.panic_ok = False
        st.nobj = st.steps = st.nany = st.depth = 0
        st.notes = []
        self.enter(st, f, [], None)
        return st

    def run(self, st):
        """run until the path ends; raises PathEnd. Other paths are left on self.stack"""
        n0 = st.steps
        limit = self.step_limit
        try:
            while True:
                fr = st.frames[-1]
                code = fr.code
                while True:
                    ip = fr.ip
                    st.steps += 1
                    r = code[ip](st, fr)
                    if r is None:
                        fr.ip = ip + 1
                    else:
                        break
                if st.steps > limit:
                    raise PathEnd('limit', 'more than %d instructions on one path' % limit)
        finally:
            self.instr_count += st.steps - n0
