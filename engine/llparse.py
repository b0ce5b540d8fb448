"""Parser for the textual LLVM IR that rustc emits (LLVM 17, opaque pointers).

Only what the engine needs is understood; anything else raises Unsupported when
(and only when) the function containing it is actually executed."""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"])*"|[-a-zA-Z$._0-9\\]*))
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"])*")
 | (?P<flt>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<int>-?[0-9]+)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m_ = TOK.match
    while i < n:
        if s[i] == ';':
            break
        m = m_(s, i)
        if not m:
            raise Unsupported("tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    out.append(('eof', ''))
    return out


PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range',
                     'elementtype', 'captures', 'memory', 'allocsize', 'initializes', 'inalloca', 'byref'}
PARAM_ATTRS = {'noundef', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'zeroext', 'signext',
               'inreg', 'returned', 'immarg', 'allocptr', 'allocalign', 'nofree', 'swiftself', 'noext', 'nest', 'writable', 'dead_on_unwind'}


class P:
    """token stream with type / value parsing"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def eat(self, s):
        if self.t[self.i][1] == s and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported("expected %r got %r" % (s, self.t[self.i:self.i + 5]))

    def type(self):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'id':
            if t == 'ptr':
                ty = ('ptr',)
                if self.peek() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif t[0] == 'i' and t[1:].isdigit():
                ty = ('i', int(t[1:]))
            elif t in ('void', 'label', 'metadata', 'token'):
                ty = (t,)
            elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                ty = ('f', t)
            else:
                raise Unsupported("type " + t)
        elif k == 'loc':
            ty = ('named', t[1:])
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            ty = ('arr', n, e)
        elif t == '{':
            ty = ('st', self._elems('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                e = self._elems('}')
                self.expect('>')
                ty = ('st', e, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                ty = ('vec', n, e)
        else:
            raise Unsupported("type tok %r" % (t,))
        # function type
        while self.peek() == '(' and self.kind() == 'p':
            # function type:  ret (args)
            self.next()
            while not self.eat(')'):
                if self.peek() == '...':
                    self.next()
                else:
                    self.type()
                self.eat(',')
            ty = ('fn', ty)
        return ty

    def _elems(self, close):
        e = []
        while not self.eat(close):
            e.append(self.type())
            self.eat(',')
        return tuple(e)

    def skip_attrs(self):
        info = {}
        while True:
            k, t = self.t[self.i]
            if k == 'id' and t in PARAM_ATTRS:
                self.i += 1
            elif k == 'id' and t in PARAM_ATTRS_PAREN:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif t == 'align':
                    self.next()
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.next()
            else:
                return info

    def value(self, ty):
        """value of a known type: ('reg',n) ('int',v) ('glob',n) ('undef',) ('zero',) ('agg',[(ty,val)..]) ('str',bytes)
        ('ce', op, ...)"""
        k, t = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('reg', t[1:])
        if k == 'int':
            return ('int', int(t))
        if k == 'glob':
            return ('glob', t[1:])
        if k == 'flt':
            return ('flt', t)
        if k == 'cstr':
            return ('str', unescape(t[2:-1]))
        if k == 'id':
            if t in ('true', 'false'):
                return ('int', 1 if t == 'true' else 0)
            if t == 'null':
                return ('int', 0)
            if t in ('undef', 'poison'):
                return ('undef',)
            if t == 'zeroinitializer':
                return ('zero',)
            if t == 'getelementptr':
                self.eat('inbounds')
                while self.kind() == 'id' and self.peek() in ('nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                bty = self.type(); self.expect(',')
                args = self.tvlist(')')
                return ('ce', 'gep', bty, args)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
                self.expect('(')
                ty1 = self.type(); v = self.value(ty1); self.expect('to'); ty2 = self.type(); self.expect(')')
                return ('ce', t, ty1, v, ty2)
            if t in ('sub', 'add', 'xor', 'and', 'or', 'mul', 'shl', 'lshr'):
                while self.kind() == 'id':
                    self.next()
                self.expect('(')
                args = self.tvlist(')')
                return ('ce', t, args)
            raise Unsupported("value " + t)
        if t in ('{', '['):
            close = '}' if t == '{' else ']'
            return ('agg', self.tvlist(close))
        if t == '<':
            if self.eat('{'):
                a = self.tvlist('}'); self.expect('>')
                return ('agg', a)
            return ('agg', self.tvlist('>'))
        raise Unsupported("value tok %r" % (t,))

    def tvlist(self, close):
        out = []
        while not self.eat(close):
            self.eat('inrange')
            ty = self.type()
            out.append((ty, self.value(ty)))
            self.eat(',')
        return out

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += c.encode('utf-8'); i += 1
    return bytes(out)


class Fn:
    __slots__ = ('name', 'module', 'params', 'ret', 'blocks', 'order', 'text', 'line', 'sret', 'compiled')

    def __init__(self, name, module, text):
        self.name, self.module, self.text = name, module, text
        self.compiled = None
        self.blocks = None


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}      # name -> (type, init, is_declaration)
        self.fns = {}
        self.aliases = {}
        self.internal = set()
        self._gtext = {}
        self._parse(open(path).read())

    def _parse(self, s):
        lines = s.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = m.group(1).strip('"')
                f = Fn(nm, self, lines[i:j])
                self.fns[nm] = f
                if re.match(r'define\s+(internal|private)\b', l):
                    self.internal.add(nm)
                i = j
            elif l.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m and m.group(2) != 'opaque':
                    self.types[m.group(1).strip('"')] = P(tokenize(m.group(2))).type()
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                self._gtext[m.group(1).strip('"')] = m.group(2)
            i += 1

    def has_global(self, name):
        return name in self._gtext

    def alias_target(self, name):
        seen = set()
        while name in self._gtext and name not in seen:
            seen.add(name)
            m = re.search(r'\balias\b.*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', self._gtext[name])
            if not m:
                return None
            name = m.group(1).strip('"')
        return name

    def global_def(self, name):
        g = self.globals.get(name)
        if g is None:
            txt = self._gtext[name]
            p = P(tokenize(txt))
            ext = False
            while p.kind() == 'id' and p.peek() not in ('global', 'constant', 'alias'):
                w = p.next()
                if w == 'external':
                    ext = True
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
            kind = p.next()
            if kind == 'alias':
                p.type(); p.expect(',')
                ty = p.type()
                g = ('alias', p.value(ty))
            else:
                ty = p.type()
                init = None
                if not ext and p.kind() != 'eof' and p.peek() != ',':
                    init = p.value(ty)
                g = ('var', ty, init)
            self.globals[name] = g
        return g


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'samesign', 'fast', 'nusw'}


def parse_fn(f):
    """fills f.params [(type,name)], f.blocks {label: [instr]}, f.order"""
    hdr = f.text[0]
    p = P(tokenize(hdr))
    while not (p.kind() == 'glob'):
        # find return type: token stream before the name
        p.i += 1
    namepos = p.i
    # parse return type by scanning backwards is awkward: reparse from start skipping linkage words
    q = P(p.t)
    q.next()  # define
    LINK = {'internal', 'private', 'dso_local', 'hidden', 'fastcc', 'unnamed_addr', 'local_unnamed_addr', 'weak',
            'weak_odr', 'linkonce_odr', 'available_externally', 'external', 'protected', 'coldcc', 'ccc', 'linkonce', 'noundef'}
    while True:
        if q.kind() == 'id' and q.peek() in LINK:
            q.next()
            continue
        i0 = q.i
        q.skip_attrs()
        if q.i == i0:
            break
    f.ret = q.type()
    p.next()
    p.expect('(')
    params = []
    cnt = 0
    while not p.eat(')'):
        if p.peek() == '...':
            p.next(); continue
        ty = p.type()
        p.skip_attrs()
        if p.kind() == 'loc':
            params.append((ty, p.next()[1:]))
        else:
            params.append((ty, str(cnt)))
        cnt += 1
        p.eat(',')
    f.params = params
    blocks = {}
    order = []
    cur = None
    lines = f.text[1:]
    i = 0
    lab = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
    first = True
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l.strip() or l.lstrip().startswith(';'):
            continue
        if l[0] not in ' \t':
            m = lab.match(l)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
        if cur is None:
            # unnamed entry block: number after params
            cur = str(cnt)
            blocks[cur] = []
            order.append(cur)
        st = l.strip()
        # switch may span lines
        if re.match(r'(%\S+ = )?switch\b', st) and '[' in st and not st.rstrip().endswith(']') and ']' not in st.split('[', 1)[1]:
            while True:
                st += ' ' + lines[i].strip()
                i += 1
                if lines[i - 1].strip().startswith(']'):
                    break
        if (' invoke ' in ' ' + st or st.startswith('invoke')) and ' unwind ' not in st:
            while True:
                st += ' ' + lines[i].strip()
                i += 1
                if 'unwind label' in st:
                    break
        blocks[cur].append(st)
    f.blocks = blocks
    f.order = order


def parse_instr(st):
    p = P(tokenize(st))
    dest = None
    if p.kind() == 'loc' and p.t[p.i + 1][1] == '=':
        dest = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags = set()
        while p.kind() == 'id' and p.peek() in FLAGS:
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty); p.expect(',')
        b = p.value(ty)
        return ('bin', dest, op, ty, a, b, flags)
    if op == 'icmp':
        p.eat('samesign')
        cc = p.next()
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return ('icmp', dest, cc, ty, a, b)
    if op in CASTS:
        p.eat('nneg')
        while p.kind() == 'id' and p.peek() in FLAGS:
            p.next()
        ty = p.type(); v = p.value(ty); p.expect('to'); ty2 = p.type()
        return ('cast', dest, op, ty, v, ty2)
    if op == 'load':
        p.eat('volatile'); p.eat('atomic')
        ty = p.type(); p.expect(','); p.type(); a = p.value(('ptr',))
        return ('load', dest, ty, a)
    if op == 'store':
        p.eat('volatile'); p.eat('atomic')
        ty = p.type(); v = p.value(ty); p.expect(','); p.type(); a = p.value(('ptr',))
        return ('store', None, ty, v, a)
    if op == 'getelementptr':
        while p.kind() == 'id' and p.peek() in FLAGS:
            p.next()
        bty = p.type(); p.expect(',')
        p.type(); base = p.value(('ptr',))
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            ty = p.type()
            idx.append((ty, p.value(ty)))
        return ('gep', dest, bty, base, idx)
    if op == 'alloca':
        ty = p.type()
        n = ('int', 1)
        if p.eat(','):
            if p.peek() != 'align':
                t2 = p.type(); n = p.value(t2)
        return ('alloca', dest, ty, n)
    if op == 'br':
        if p.eat('label'):
            return ('br', None, p.next()[1:])
        ty = p.type(); c = p.value(ty); p.expect(','); p.expect('label'); a = p.next()[1:]; p.expect(','); p.expect('label')
        b = p.next()[1:]
        return ('cbr', None, c, a, b)
    if op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1:]; p.expect('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type(); k = p.value(t2); p.expect(','); p.expect('label')
            cases.append((k[1], p.next()[1:]))
        return ('switch', None, ty, v, d, cases)
    if op == 'ret':
        if p.peek() == 'void':
            return ('ret', None, None, None)
        ty = p.type()
        return ('ret', None, ty, p.value(ty))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty); p.expect(','); l = p.next()[1:]; p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        return ('phi', dest, ty, inc)
    if op == 'select':
        ty = p.type(); c = p.value(ty); p.expect(',')
        t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        return ('select', dest, c, t1, a, b)
    if op == 'extractvalue':
        ty = p.type(); v = p.value(ty)
        idx = []
        while p.eat(','):
            if p.kind() != 'int':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dest, ty, v, idx)
    if op == 'insertvalue':
        ty = p.type(); v = p.value(ty); p.expect(',')
        t2 = p.type(); e = p.value(t2)
        idx = []
        while p.eat(','):
            if p.kind() != 'int':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dest, ty, v, t2, e, idx)
    if op == 'freeze':
        ty = p.type()
        return ('freeze', dest, ty, p.value(ty))
    if op in ('call', 'invoke'):
        while True:
            if p.kind() == 'id' and p.peek() in ('fastcc', 'coldcc', 'ccc', 'noundef', 'cc'):
                p.next(); continue
            i0 = p.i
            p.skip_attrs()
            if p.i == i0:
                break
        ty = p.type()
        if ty[0] == 'fn':
            ty = ty[1]
        if p.kind() == 'id' and p.peek() == 'asm':
            return ('asm', dest, st)
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.eat(')'):
            aty = p.type()
            p.skip_attrs()
            if aty[0] == 'metadata':
                d = 0
                # skip metadata operand
                while not ((p.peek() in (',', ')')) and d == 0):
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                args.append((aty, ('undef',)))
            else:
                args.append((aty, p.value(aty)))
            p.eat(',')
        normal = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next(); p.expect('label'); normal = p.next()[1:]
        return ('call', dest, ty, callee, args, normal)
    if op == 'landingpad' or op == 'resume' or op == 'cleanuppad':
        return ('unwind', dest)
    if op == 'fence':
        return ('nop', None)
    return ('unsupported', dest, st)


def demangle(n):
    """legacy rust mangling -> a::b::c (without hash)"""
    if not n.startswith('_ZN'):
        return n
    i = 3
    parts = []
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        ln = int(n[i:j])
        q = n[j:j + ln]
        parts.append(q[1:] if q.startswith('_$') else q)
        i = j + ln
    if parts and re.match(r'h[0-9a-f]{16}$', parts[-1]):
        parts.pop()
    s = '::'.join(parts)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('$u7b$', '{'), ('$u7d$', '}'),
                 ('$u5b$', '['), ('$u5d$', ']'), ('$u27$', "'"), ('$LP$', '('), ('$RP$', ')'), ('$BP$', '*'), ('..', '::'), ('$u3d$', '='), ('$u3b$', ';')):
        s = s.replace(a, b)
    return s
