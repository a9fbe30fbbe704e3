"""LLVM-18 textual IR front end (opaque pointers) for the lsx symbolic executor.

Functions are split textually when the module is loaded and parsed on first call.
"""
import re, struct

TOK = re.compile(r'''
  c"(?:[^"\\]|\\.)*"            # string constant
 |[%@$]"(?:[^"\\]|\\.)*"        # quoted name
 |[%@$][\w.$-]+                 # name
 |\#\d+|![\w.]*                 # attribute group, metadata
 |"(?:[^"\\]|\\.)*"
 |0x[HKLMR]?[0-9A-Fa-f]+
 |-?\d+\.\d+(?:e[+-]?\d+)?
 |-?\d+
 |\.\.\.
 |[A-Za-z_][\w.]*
 |[()\[\]{}<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'elt', 'n', 'fields', 'name', '_size', '_align', '_offs', 'packed')

    def __init__(self, k, bits=0, elt=None, n=0, fields=None, name=None, packed=False):
        self.k = k; self.bits = bits; self.elt = elt; self.n = n; self.fields = fields
        self.name = name; self._size = None; self._align = None; self._offs = None; self.packed = packed

    def __repr__(self):
        return f'<{self.k}{self.bits or ""}{self.name or ""}>'


VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float'); LABEL = Ty('label')
X80 = Ty('x86_fp80'); META = Ty('metadata')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty('int', bits=n)
    return _ints[n]


class Ins:
    __slots__ = ('op', 'dst', 'a', 'b', 'c', 'ty', 'x', 'fn', 'blk', 'idx', 'line')

    def __init__(self, op):
        self.op = op; self.dst = -1; self.a = self.b = self.c = self.ty = self.x = None
        self.line = None


class Fn:
    def __init__(self, name, header, body):
        self.name = name; self.header = header; self.body = body
        self.parsed = False
        self.params = None; self.ret = None; self.blocks = None; self.nregs = 0; self.order = None


# operand encodings:  (0, regidx) | (1, const python value) | (2, Ty, aggregate list...)
class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, init tokens or None, isconst)
        self.fns = {}
        self.decls = {}
        self.aliases = {}
        self.typetext = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', l)
                name = m.group(1).strip('"')
                self.fns[name] = Fn(name, l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, _, rest = l.partition(' = type ')
                self.typetext[nm[1:].strip('"')] = rest
            elif l.startswith('@'):
                nm, _, rest = l.partition(' = ')
                nm = nm[1:].strip('"')
                if re.search(r'\balias\b', rest.split('"')[0]):
                    m = re.findall(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)', rest)
                    self.aliases[nm] = m[-1].strip('"')
                else:
                    self.globals[nm] = rest
            i += 1

    # ---------------------------------------------------- type parsing
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self.typetext.get(name, 'opaque')
            t = Ty('struct', name=name, fields=None)
            self.types[name] = t
            if txt.strip() != 'opaque':
                p = P(self, TOK.findall(txt))
                u = p.type()
                t.fields = u.fields; t.packed = u.packed; t.k = u.k; t.elt = u.elt; t.n = u.n
        return t

    def size(self, t):
        if t._size is None:
            self._layout(t)
        return t._size

    def align(self, t):
        if t._align is None:
            self._layout(t)
        return t._align

    def offs(self, t):
        if t._offs is None:
            self._layout(t)
        return t._offs

    def _layout(self, t):
        k = t.k
        if k == 'int':
            t._size = 1 if t.bits <= 8 else 2 if t.bits <= 16 else 4 if t.bits <= 32 else 8 if t.bits <= 64 else 16
            t._align = t._size
        elif k in ('ptr', 'double'):
            t._size = t._align = 8
        elif k == 'float':
            t._size = t._align = 4
        elif k == 'x86_fp80':
            t._size = t._align = 16
        elif k in ('array', 'vector'):
            t._size = self.size(t.elt) * t.n; t._align = self.align(t.elt)
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for f in (t.fields or []):
                a = 1 if t.packed else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            t._offs = offs; t._align = al
            t._size = (off + al - 1) // al * al
        else:
            t._size = 0; t._align = 1

    # ---------------------------------------------------- function parsing
    def get(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is None:
            return None
        if not f.parsed:
            FnParser(self, f).run()
        return f


ATTR_PAREN = {'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'dereferenceable', 'dereferenceable_or_null',
              'align', 'elementtype', 'allocsize', 'memory', 'nofpclass', 'captures', 'initializes', 'range'}
ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned',
        'immarg', 'nest', 'inreg', 'swiftself', 'noalias', 'noreturn', 'allocptr', 'allocalign', 'nofree', 'dead_on_unwind',
        'writable', 'inrange'}
FNPRE = {'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'external', 'available_externally',
         'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'comdat',
         'linkonce', 'common', 'extern_weak', 'appending', 'dso_preemptable', 'dllimport', 'thread_local'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    """token stream"""
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise IRError(f'expected {s} got {x} in {" ".join(self.t)}')

    def type(self):
        x = self.next()
        t = None
        if x == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
        elif x == 'double':
            t = DOUBLE
        elif x == 'void':
            t = VOID
        elif x == 'float':
            t = FLOAT
        elif x == 'x86_fp80':
            t = X80
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x[0] == 'i' and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x[0] == '%':
            t = self.m.named(x[1:].strip('"'))
        elif x == '[' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type()); self.accept(',')
                self.expect('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next()); self.expect('x')
                e = self.type()
                self.expect(']' if x == '[' else '>')
                t = Ty('array' if x == '[' else 'vector', elt=e, n=n)
        elif x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type()); self.accept(',')
            t = Ty('struct', fields=fs)
        else:
            raise IRError(f'type? {x} in {" ".join(self.t)}')
        # function type suffix
        if self.peek() == '(':
            # function type: skip
            d = 0
            while True:
                y = self.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
            self.accept('*')
        return t

    def skip_attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x in ATTR:
                self.next()
            elif x in ATTR_PAREN:
                self.next()
                if self.accept('('):
                    if x in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                        out[x] = self.type()
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                elif x == 'align':
                    self.next()
            elif x is not None and x[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            elif x is not None and x[0] == '#':
                self.next()
            else:
                return out


def fpconst(tok):
    if tok.startswith('0x'):
        if tok[2] in 'KHLMR':
            # x86_fp80
            if tok[2] == 'K':
                h = int(tok[3:], 16)
                se = h >> 64; man = h & ((1 << 64) - 1)
                s = -1.0 if se >> 15 else 1.0
                e = se & 0x7fff
                if e == 0x7fff:
                    return s * float('inf')
                return s * float(man) * 2.0 ** (e - 16383 - 63)
            raise IRError('fp ' + tok)
        return struct.unpack('>d', int(tok[2:], 16).to_bytes(8, 'big'))[0]
    return float(tok)


class Const:
    """symbolic (link-time) constants"""
    __slots__ = ('k', 'v', 'x')

    def __init__(self, k, v=None, x=None):
        self.k = k; self.v = v; self.x = x

    def __repr__(self):
        return f'C({self.k},{self.v})'


def parse_const(p, ty):
    """returns python value or Const for link-time constants"""
    x = p.next()
    if x[0] == '@':
        return Const('g', x[1:].strip('"'))
    if x == 'null':
        return 0
    if x in ('undef', 'poison'):
        return Const('undef', ty)
    if x == 'zeroinitializer':
        return Const('zero', ty)
    if x == 'true':
        return 1
    if x == 'false':
        return 0
    if x.startswith('c"'):
        return Const('str', unescape(x[2:-1]))
    if x == '[' or x == '{' or x == '<':
        close = {'[': ']', '{': '}', '<': '>'}[x]
        if x == '<' and p.peek() == '{':
            p.next(); close = '}>'
        vals = []
        while True:
            if close == '}>':
                if p.peek() == '}':
                    p.next(); p.expect('>'); break
            elif p.accept(close):
                break
            t = p.type()
            vals.append((t, parse_const(p, t)))
            p.accept(',')
        return Const('agg', vals)
    if x == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        if p.peek() == 'inrange':
            p.next()
            if p.accept('('):
                while p.next() != ')':
                    pass
        p.expect('(')
        t = p.type(); p.expect(',')
        bt = p.type(); base = parse_const(p, bt)
        idx = []
        while p.accept(','):
            p.accept('inrange')
            it = p.type(); idx.append(parse_const(p, it))
        p.expect(')')
        return Const('gep', (t, base, idx))
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
        p.expect('('); t = p.type(); v = parse_const(p, t); p.expect('to'); t2 = p.type(); p.expect(')')
        return Const('cast', v, (x, t2))
    if x in ('sub', 'add'):
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.expect('('); t = p.type(); a = parse_const(p, t); p.expect(','); t = p.type(); b = parse_const(p, t); p.expect(')')
        return Const('bin', (x, a, b, ty))
    if x == 'dso_local_equivalent' or x == 'no_cfi':
        return parse_const(p, ty)
    if ty.k in ('double', 'float', 'x86_fp80'):
        return fpconst(x)
    if ty.k == 'int':
        return int(x) & ((1 << ty.bits) - 1)
    if ty.k == 'ptr' and x == 'none':
        return 0
    raise IRError(f'const {x} of {ty}')


def unescape(s):
    out = bytearray(); i = 0
    b = s.encode('latin1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c); i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


class FnParser:
    def __init__(self, mod, fn):
        self.m = mod; self.f = fn
        self.regs = {}

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = len(self.regs); self.regs[name] = r
        return r

    def operand(self, p, ty):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return (0, self.reg(x[1:].strip('"')))
        if ty.k == 'metadata':
            # skip metadata operand
            p.next()
            return (1, 0)
        return (1, parse_const(p, ty))

    def run(self):
        f = self.f; m = self.m
        p = P(m, TOK.findall(f.header))
        p.expect('define')
        while p.peek() in FNPRE or p.peek() in ATTR or p.peek() in ATTR_PAREN:
            if p.peek() in ATTR_PAREN or p.peek() in ATTR:
                p.skip_attrs()
            else:
                x = p.next()
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
        f.ret = p.type()
        nm = p.next()
        p.expect('(')
        params = []
        k = 0
        f.vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                f.vararg = True
                continue
            t = p.type(); at = p.skip_attrs()
            if p.peek() and p.peek()[0] == '%':
                name = p.next()[1:].strip('"')
            else:
                name = str(k)
            params.append((self.reg(name), t, at.get('byval')))
            k += 1
            p.accept(',')
        f.params = params
        # blocks
        blocks = {}; order = []
        cur = None
        body = []
        # join continuation lines (switch, landingpad clauses, invoke)
        pend = None
        for line in f.body:
            s = line.strip()
            if not s or s[0] == ';':
                continue
            if not line.startswith(' '):
                lm = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', line)
                if lm:
                    if pend:
                        body.append(pend); pend = None
                    body.append(('L', lm.group(1).strip('"')))
                    continue
            if pend is not None:
                if pend.startswith('switch'):
                    if s == ']':
                        body.append(pend + ' ]'); pend = None
                    else:
                        pend += ' ' + s
                    continue
                if re.match(r'(to label|catch |cleanup|filter )', s):
                    pend += ' ' + s
                    continue
                body.append(pend); pend = None
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                pend = s
            elif ' landingpad ' in s or 'invoke ' in s:
                pend = s
            else:
                body.append(s)
        if pend:
            body.append(pend)
        for b in body:
            if isinstance(b, tuple):
                cur = []; blocks[b[1]] = cur; order.append(b[1])
                continue
            if cur is None:
                cur = []
                name = str(len(params)) if True else ''
                blocks[name] = cur; order.append(name)
            ins = self.instr(b)
            if ins is not None:
                cur.append(ins)
        f.blocks = blocks; f.order = order; f.entry = order[0]
        # split phis
        f.phis = {}
        for bn, bl in blocks.items():
            n = 0
            while n < len(bl) and bl[n].op == 'phi':
                n += 1
            f.phis[bn] = bl[:n]
            for i, x in enumerate(bl):
                x.fn = f; x.blk = bn; x.idx = i
        f.nregs = len(self.regs)
        f.parsed = True

    def instr(self, s):
        m = self.m
        # strip trailing metadata
        toks = TOK.findall(s.split(', !')[0] if ', !' in s and '"' not in s else s)
        p = P(m, toks)
        dst = None
        if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
            dst = toks[0][1:].strip('"'); p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = Ins(op)
        if dst is not None:
            I.dst = self.reg(dst)
        I.line = s
        if op == 'alloca':
            p.accept('inalloca')
            I.ty = p.type(); I.a = (1, 1)
            if p.accept(',') and p.peek() != 'align':
                t = p.type(); I.a = self.operand(p, t)
        elif op == 'load':
            p.accept('atomic'); p.accept('volatile')
            I.ty = p.type(); p.expect(','); p.type(); I.a = self.operand(p, PTR)
        elif op == 'store':
            p.accept('atomic'); p.accept('volatile')
            I.ty = p.type(); I.a = self.operand(p, I.ty); p.expect(','); p.type(); I.b = self.operand(p, PTR)
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type(); p.expect(','); p.type(); I.a = self.operand(p, PTR)
            const = 0; terms = []
            first = True
            cty = t
            while p.accept(','):
                it = p.type(); o = self.operand(p, it)
                if first:
                    sz = m.size(t); first = False
                else:
                    if cty.k == 'struct':
                        k = o[1]
                        const += m.offs(cty)[k]; cty = cty.fields[k]
                        continue
                    cty = cty.elt; sz = m.size(cty)
                if o[0] == 1 and isinstance(o[1], int):
                    v = o[1]
                    if v >> (it.bits - 1):
                        v -= 1 << it.bits
                    const += v * sz
                else:
                    terms.append((o, sz, it.bits))
            I.b = const; I.c = terms
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FMF or p.peek() == 'samesign':
                p.next()
            I.x = p.next(); I.ty = p.type(); I.a = self.operand(p, I.ty); p.expect(','); I.b = self.operand(p, I.ty)
        elif op == 'br':
            if p.accept('label'):
                I.x = p.next()[1:].strip('"')
            else:
                p.type(); I.a = self.operand(p, INT(1)); p.expect(','); p.expect('label')
                t = p.next()[1:].strip('"'); p.expect(','); p.expect('label')
                I.x = (t, p.next()[1:].strip('"'))
                I.op = 'condbr'
        elif op == 'switch':
            I.ty = p.type(); I.a = self.operand(p, I.ty); p.expect(','); p.expect('label')
            I.x = p.next()[1:].strip('"'); p.expect('[')
            cases = {}
            while not p.accept(']'):
                t = p.type(); v = parse_const(p, t); p.expect(','); p.expect('label')
                cases[v] = p.next()[1:].strip('"')
            I.c = cases
        elif op == 'ret':
            I.ty = p.type()
            if I.ty.k != 'void':
                I.a = self.operand(p, I.ty)
        elif op in ('call', 'invoke'):
            while p.peek() in FMF or p.peek() in FNPRE or p.peek() in ATTR or p.peek() in ATTR_PAREN:
                if p.peek() in ATTR or p.peek() in ATTR_PAREN:
                    p.skip_attrs()
                else:
                    p.next()
            I.ty = p.type()
            x = p.peek()
            if x == 'asm':
                I.op = 'asm'
                return I
            if x[0] == '@':
                p.next(); I.a = x[1:].strip('"')
            else:
                I.a = self.operand(p, PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type(); at = p.skip_attrs()
                if t.k == 'metadata':
                    # skip until , or ) at depth 0
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'):
                            break
                        if y in '([{':
                            d += 1
                        elif y in ')]}':
                            d -= 1
                        p.next()
                    p.accept(',')
                    continue
                args.append((self.operand(p, t), t, at.get('byval')))
                p.accept(',')
            I.b = args
            if isinstance(I.a, str) and I.a.startswith('llvm.dbg'):
                return None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to'); p.expect('label'); nl = p.next()[1:].strip('"')
                p.expect('unwind'); p.expect('label'); ul = p.next()[1:].strip('"')
                I.x = (nl, ul)
            I.op = 'call'
        elif op == 'phi':
            while p.peek() in FMF:
                p.next()
            I.ty = p.type()
            inc = {}
            while p.accept('['):
                v = self.operand(p, I.ty); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']')
                inc[l] = v
                p.accept(',')
            I.x = inc
        elif op == 'select':
            while p.peek() in FMF:
                p.next()
            p.type(); I.a = self.operand(p, INT(1)); p.expect(',')
            I.ty = p.type(); I.b = self.operand(p, I.ty); p.expect(','); p.type(); I.c = self.operand(p, I.ty)
        elif op in BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            I.ty = p.type(); I.a = self.operand(p, I.ty); p.expect(','); I.b = self.operand(p, I.ty)
            I.x = op; I.op = 'bin'
        elif op in FBIN:
            while p.peek() in FMF:
                p.next()
            I.ty = p.type(); I.a = self.operand(p, I.ty); p.expect(','); I.b = self.operand(p, I.ty)
            I.x = op; I.op = 'fbin'
        elif op == 'fneg':
            while p.peek() in FMF:
                p.next()
            I.ty = p.type(); I.a = self.operand(p, I.ty)
        elif op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type(); I.a = self.operand(p, t); p.expect('to'); I.ty = p.type()
            I.c = t; I.x = op; I.op = 'cast'
        elif op == 'extractvalue':
            t = p.type(); I.ty = t; I.a = self.operand(p, t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            I.x = idx
        elif op == 'insertvalue':
            t = p.type(); I.ty = t; I.a = self.operand(p, t); p.expect(',')
            t2 = p.type(); I.b = self.operand(p, t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            I.x = idx
        elif op == 'landingpad':
            I.ty = p.type()
            cl = []
            while p.peek():
                x = p.next()
                if x == 'cleanup':
                    cl.append(('cleanup', None))
                elif x == 'catch':
                    t = p.type(); cl.append(('catch', parse_const(p, t)))
                elif x == 'filter':
                    t = p.type(); cl.append(('filter', parse_const(p, t)))
            I.x = cl
        elif op == 'resume':
            I.ty = p.type(); I.a = self.operand(p, I.ty)
        elif op == 'freeze':
            I.ty = p.type(); I.a = self.operand(p, I.ty)
        elif op in ('unreachable', 'fence'):
            pass
        elif op in ('atomicrmw', 'cmpxchg'):
            I.x = toks
        else:
            raise IRError('instr ' + s)
        return I
