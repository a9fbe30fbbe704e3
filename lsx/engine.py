"""lsx: symbolic executor for the LLVM IR of LGAR-C.

ints/pointers are concrete; doubles are Python floats or real-arithmetic terms (terms.N);
i1 values may be boolean terms.  Forking is by re-execution of the current instruction
in a copied state, so handlers take every decision before they have a side effect.
"""
import math, random, re, struct, sys, time
from . import ir, terms as T
from .terms import N
from .solver import nonlinear as solver_nl
from .ir import Const

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
SLOT = 20
BASE = 0x8000


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg


class Unsupported(Exception):
    pass


class Throw(Exception):
    """C++ exception being raised by a model"""
    def __init__(self, ptr, ti):
        self.ptr = ptr; self.ti = ti


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'kind', 'alive', 'name', 'owner')

    def __init__(self, size, kind, name, owner, fill=None):
        self.size = size; self.cells = {}; self.fill = fill; self.kind = kind; self.alive = True
        self.name = name; self.owner = owner

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name, owner, self.fill)
        o.cells = dict(self.cells); o.alive = self.alive
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'code', 'idx', 'prev', 'regs', 'allocas', 'callins', 'lc')

    def __init__(self, fn):
        self.fn = fn; self.blk = fn.entry; self.code = fn.blocks[fn.entry]; self.idx = 0; self.prev = None
        self.regs = [None] * fn.nregs; self.allocas = []; self.callins = None; self.lc = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.code = self.code; f.idx = self.idx; f.prev = self.prev
        f.regs = self.regs[:]; f.allocas = self.allocas[:]; f.callins = self.callins
        f.lc = dict(self.lc) if self.lc else None
        return f


class State:
    _uid = 0

    def __init__(self):
        self.frames = []; self.mem = {}; self.next = 1; self.pc = []; self.defs = []
        self.env = {}; self.memo_env = {}; self.env_ok = True
        self.decided = {}; self.memo = {}; self.inputs = {}; self.choices = {}
        self.streams = {}; self.vfs = {}; self.out = []; self.x = {}
        self.exc = None; self.steps = 0; self.nfresh = 0; self.occ = {}
        self.heap_live = 0; self.depth = 0; self.notes = ()
        State._uid += 1; self.uid = State._uid

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.next = self.next; s.pc = self.pc[:]; s.defs = self.defs[:]
        s.env = dict(self.env); s.memo_env = {}; s.env_ok = self.env_ok
        s.decided = dict(self.decided); s.memo = dict(self.memo); s.inputs = dict(self.inputs)
        s.choices = dict(self.choices); s.streams = dict(self.streams); s.vfs = dict(self.vfs)
        s.out = self.out[:]; s.x = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.x.items()}
        s.exc = self.exc; s.steps = self.steps; s.nfresh = self.nfresh; s.occ = dict(self.occ)
        s.heap_live = self.heap_live; s.depth = self.depth + 1; s.notes = self.notes
        State._uid += 2
        self.uid = State._uid - 1; s.uid = State._uid
        return s


def f2bits(v):
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def bits2f(v):
    return struct.unpack('<d', struct.pack('<Q', v & M64))[0]


def sx(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


class Violation:
    def __init__(self, kind, msg, env, inputs, choices, where, margin=None, notes=()):
        self.kind = kind; self.msg = msg; self.env = env; self.inputs = inputs; self.choices = choices
        self.where = where; self.margin = margin; self.notes = notes


class Engine:
    def __init__(self, mod, solver, opts=None):
        self.m = mod; self.s = solver
        self.o = dict(max_steps=4_000_000, loop_bound=8, max_paths=4000, deadline=None, max_viol_per_msg=3,
                      uf_curves=False, undef_zero=False, branch_effort=0.3, search=48)
        self.o.update(opts or {})
        self.models = {}
        self.patmodels = []
        self.work = []; self.deferred = []; self.rng = random.Random(1)
        self.viol = []
        self.vcount = {}
        self.paths = 0; self.ended = {}; self.asserts_checked = 0; self.asserts_proved = 0
        self.asserts_unknown = 0
        self.reach = {}
        self.funcs = {}
        self.forks = 0
        self.gaddr = {}; self.gobj = {}; self.gname = {}
        self.faddr = {}; self.fname = {}
        self._gnext = 1
        self.tokens = {}
        self.total_steps = 0
        self.instr_seen = set()
        self.samples = []
        self.pathenvs = []; self.stubbed = {}
        self.redirect = {}           # contract stubs written in the harness: stub_X(params) stands for X(params)
        for fn in mod.fns:
            r = re.match(r'_Z(\d+)stub_(.*)$', fn)
            if r:
                n = int(r.group(1)) - 5
                tgt = f'_Z{n}{r.group(2)}'
                if tgt in mod.fns:
                    self.redirect[tgt] = fn
        self._assign_globals()
        self.H = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('i_')}

    # ------------------------------------------------------------ globals
    def _assign_globals(self):
        for g in self.m.globals:
            self._gnext += 1
            self.gaddr[g] = (self._gnext << SLOT) + BASE
            self.gname[self._gnext] = g
        for f in list(self.m.fns) + list(self.m.decls) + list(self.m.aliases):
            if f in self.faddr:
                continue
            self._gnext += 1
            a = (self._gnext << SLOT) + BASE
            self.faddr[f] = a; self.fname[a] = f

    def new_state(self):
        st = State(); st.next = self._gnext + 16
        return st

    def global_obj(self, st, oid):
        name = self.gname.get(oid)
        if name is None:
            return None
        rest = self.m.globals[name]
        toks = ir.TOK.findall(rest)
        p = ir.P(self.m, toks)
        ext = False
        while p.peek() not in ('global', 'constant'):
            x = p.next()
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
        p.next()
        ty = p.type()
        o = Obj(max(self.m.size(ty), 1), 'global', name, st.uid, 0)
        if ext:
            o.size = max(o.size, 1024)
        elif p.peek() is not None and p.peek() != ',':
            c = ir.parse_const(p, ty)
            self.put_const(o, 0, ty, c)
        st.mem[oid] = o
        return o

    def put_const(self, o, off, ty, c):
        if isinstance(c, Const):
            if c.k == 'zero' or c.k == 'undef':
                return
            if c.k == 'str':
                for i, b in enumerate(c.v):
                    o.cells[off + i] = (1, b)
                return
            if c.k == 'agg':
                if ty.k == 'struct':
                    offs = self.m.offs(ty)
                    for i, (t, v) in enumerate(c.v):
                        self.put_const(o, off + offs[i], t, v)
                else:
                    es = self.m.size(ty.elt)
                    for i, (t, v) in enumerate(c.v):
                        self.put_const(o, off + i * es, t, v)
                return
            v = self.cval(c)
            o.cells[off] = (self.m.size(ty), v)
        else:
            o.cells[off] = (self.m.size(ty), c)

    def cval(self, c):
        if not isinstance(c, Const):
            return c
        k = c.k
        if k == 'g':
            n = c.v
            a = self.gaddr.get(n)
            if a is None:
                a = self.faddr.get(n)
            if a is None:
                al = self.m.aliases.get(n)
                if al:
                    return self.cval(Const('g', al))
                raise Unsupported('global ' + n)
            return a
        if k == 'zero':
            t = c.v
            if t.k in ('double', 'float'):
                return 0.0
            if t.k in ('struct', 'array', 'vector'):
                fs = t.fields if t.k == 'struct' else [t.elt] * t.n
                return [self.cval(Const('zero', f)) for f in fs]
            return 0
        if k == 'undef':
            t = c.v
            if t.k in ('double', 'float'):
                return 0.0
            if t.k in ('struct', 'array', 'vector'):
                fs = t.fields if t.k == 'struct' else [t.elt] * t.n
                return [self.cval(Const('undef', f)) for f in fs]
            return 0
        if k == 'gep':
            t, b, idx = c.v
            v = self.cval(b)
            cty = t
            for n, i in enumerate(idx):
                i = self.cval(i)
                if n == 0:
                    v += sx(i & M64, 64) * self.m.size(t) if i >> 63 == 0 and i < (1 << 63) else sx(i, 64) * self.m.size(t)
                elif cty.k == 'struct':
                    v += self.m.offs(cty)[i]; cty = cty.fields[i]
                else:
                    cty = cty.elt; v += sx(i, 64) * self.m.size(cty)
            return v & M64
        if k == 'cast':
            return self.cval(c.v)
        if k == 'bin':
            op, a, b, ty = c.v
            a = self.cval(a); b = self.cval(b)
            return ((a + b) if op == 'add' else (a - b)) & ((1 << ty.bits) - 1)
        if k == 'agg':
            return [self.cval(v) for t, v in c.v]
        raise Unsupported('const ' + k)

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name='', fill=None):
        oid = st.next; st.next += 1
        st.mem[oid] = Obj(size, kind, name, st.uid, fill)
        return (oid << SLOT) + BASE

    def obj(self, st, addr, size, write, what):
        oid = addr >> SLOT
        o = st.mem.get(oid)
        if o is None:
            o = self.global_obj(st, oid)
            if o is None:
                self.memerr(st, f'{what} of {"null" if oid == 0 else "invalid/out-of-scope"} pointer {addr:#x}')
        off = (addr & ((1 << SLOT) - 1)) - BASE
        if not o.alive:
            self.memerr(st, f'{what} after free of {o.kind} {o.name}')
        if off < 0 or off + size > o.size:
            self.memerr(st, f'out-of-bounds {what} of {size} bytes at offset {off} in {o.kind} object {o.name} of {o.size} bytes')
        if write and o.owner != st.uid:
            o = o.clone(st.uid); st.mem[oid] = o
        return o, off

    def memerr(self, st, msg):
        self.report(st, 'memory', msg)
        raise PathEnd('memory', msg)

    def load(self, st, addr, ty):
        k = ty.k
        if k == 'struct':
            return [self.load(st, addr + o, f) for o, f in zip(self.m.offs(ty), ty.fields)]
        if k in ('array', 'vector'):
            es = self.m.size(ty.elt)
            return [self.load(st, addr + i * es, ty.elt) for i in range(ty.n)]
        size = ty._size or self.m.size(ty)
        o, off = self.obj(st, addr, size, False, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            v = self.load_slow(st, o, off, size, ty)
        if k == 'double':
            if type(v) is int:
                v = bits2f(v)
        elif k == 'int':
            if type(v) is float:
                v = f2bits(v)
            elif type(v) is int and ty.bits < 8 * size:
                v &= (1 << ty.bits) - 1
        elif k == 'ptr':
            if type(v) is float:
                v = f2bits(v)
        elif k == 'float':
            if type(v) is int:
                v = struct.unpack('<f', struct.pack('<I', v))[0]
        elif k == 'x86_fp80':
            if type(v) is int:
                v = 0.0
        return v

    def load_slow(self, st, o, off, size, ty):
        anyinit = False
        out = []
        sym = False
        for i in range(off, off + size):
            hit = None
            for back in range(0, 16):
                c = o.cells.get(i - back)
                if c is not None:
                    if c[0] > back:
                        hit = (c, back)
                    break
            if hit is None:
                out.append(o.fill)
            else:
                c, back = hit
                v = c[1]
                if isinstance(v, N):
                    sym = True; out.append(0)
                    continue
                if isinstance(v, float):
                    v = f2bits(v) if c[0] == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
                out.append((v >> (8 * back)) & 255)
                anyinit = True
        if sym:
            raise Unsupported('partial read of a symbolic double')
        if any(b is None for b in out):
            if not anyinit:
                st.notes = st.notes + (f'uninitialised read in {st.frames[-1].fn.name if st.frames else "?"}',)
                if ty.k == 'double':
                    v = self.fresh(st, 'uninit')
                    if o.owner != st.uid:
                        pass
                    else:
                        o.cells[off] = (8, v)
                    return v
                # memory from the allocator holds what replays have ASan's allocator leave in it (0x40)
                return int.from_bytes(b'\x40' * size, 'little') if o.kind in ('new', 'new[]', 'malloc') and ty.k in ('int', 'ptr') else 0
            out = [b or 0 for b in out]
        r = 0
        for i, b in enumerate(out):
            r |= b << (8 * i)
        if ty.k == 'float':
            return struct.unpack('<f', struct.pack('<I', r))[0]
        return r

    def store(self, st, addr, ty, val):
        k = ty.k
        if k == 'struct':
            for o, f, v in zip(self.m.offs(ty), ty.fields, val):
                self.store(st, addr + o, f, v)
            return
        if k in ('array', 'vector'):
            es = self.m.size(ty.elt)
            for i in range(ty.n):
                self.store(st, addr + i * es, ty.elt, val[i])
            return
        size = ty._size or self.m.size(ty)
        o, off = self.obj(st, addr, size, True, 'write')
        self.put(o, off, size, val)

    def put(self, o, off, size, val):
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        o.cells[off] = (size, val)

    def clear(self, o, off, size):
        cells = o.cells
        for back in range(1, 16):
            c = cells.get(off - back)
            if c is not None:
                if c[0] > back:
                    self.split(o, off - back)
                    for i in range(off, min(off - back + c[0], off + size)):
                        cells.pop(i, None)
                break
        if size > 64 and len(cells) < size:
            ks = [k for k in cells if off <= k < off + size]
        else:
            ks = [k for k in range(off, off + size) if k in cells]
        for k in ks:
            c = cells[k]
            if k + c[0] > off + size:
                self.split(o, k)
            cells.pop(k, None)
            if c[0] > 1:
                for j in range(k, min(k + c[0], off + size)):
                    if j in cells and cells[j][0] == 1 and k + c[0] > off + size:
                        cells.pop(j)

    def split(self, o, off):
        size, v = o.cells[off]
        if isinstance(v, N):
            # partially overwritten symbolic value: becomes uninitialised
            o.cells.pop(off)
            return
        if isinstance(v, float):
            v = f2bits(v) if size == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        for i in range(size):
            o.cells[off + i] = (1, (v >> (8 * i)) & 255)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so, soff = self.obj(st, src, n, False, 'read (memcpy)')
        items = []
        end = soff + n
        if len(so.cells) < n:
            ks = [k for k in so.cells if soff - 16 < k < end]
        else:
            ks = [k for k in range(max(soff - 15, 0), end) if k in so.cells]
        for k in sorted(ks):
            sz, v = so.cells[k]
            if k + sz <= soff:
                continue
            if k >= soff and k + sz <= end:
                items.append((k - soff, sz, v))
            else:
                if isinstance(v, N):
                    raise Unsupported('memcpy splits symbolic value')
                if isinstance(v, float):
                    v = f2bits(v)
                for i in range(sz):
                    if soff <= k + i < end:
                        items.append((k + i - soff, 1, (v >> (8 * i)) & 255))
        fill = so.fill
        do, doff = self.obj(st, dst, n, True, 'write (memcpy)')
        self.clear(do, doff, n)
        if fill is not None and do.fill != fill:
            covered = set()
            for off, sz, v in items:
                covered.update(range(off, off + sz))
            i = 0
            while i < n:
                if i not in covered:
                    do.cells[doff + i] = (1, fill)
                i += 1
        for off, sz, v in items:
            do.cells[doff + off] = (sz, v)

    def memset(self, st, dst, b, n):
        if n == 0:
            return
        o, off = self.obj(st, dst, n, True, 'write (memset)')
        if off == 0 and n == o.size:
            o.cells = {}; o.fill = b
            return
        self.clear(o, off, n)
        i = off
        w = b * 0x0101010101010101
        while i < off + n:
            if i % 8 == 0 and i + 8 <= off + n:
                o.cells[i] = (8, w); i += 8
            else:
                o.cells[i] = (1, b); i += 1

    def free(self, st, addr, kinds):
        if addr == 0:
            return
        oid = addr >> SLOT
        o = st.mem.get(oid)
        if o is None or (addr & ((1 << SLOT) - 1)) != BASE:
            self.memerr(st, f'free of invalid pointer {addr:#x}')
        if not o.alive:
            self.memerr(st, f'double free of {o.kind} {o.name}')
        if o.kind not in kinds:
            self.memerr(st, f'mismatched deallocation: {o.kind} object {o.name} released as {kinds[0]}')
        o = o.clone(st.uid); o.alive = False; o.cells = {}
        st.mem[oid] = o
        st.heap_live -= 1

    def cstr(self, st, addr):
        out = bytearray()
        while True:
            c = self.load(st, addr, ir.INT(8))
            if c == 0:
                return bytes(out)
            out.append(c); addr += 1

    def put_bytes(self, st, addr, bs):
        if not bs:
            return
        o, off = self.obj(st, addr, len(bs), True, 'write')
        self.clear(o, off, len(bs))
        for i, b in enumerate(bs):
            o.cells[off + i] = (1, b)

    def get_bytes(self, st, addr, n):
        I8 = ir.INT(8)
        return bytes(self.load(st, addr + i, I8) for i in range(n))

    # ------------------------------------------------------------ terms
    def fresh(self, st, pre, d=None):
        st.nfresh += 1
        nm = f'{pre}!{st.uid}.{st.nfresh}'
        if d is not None:
            T.DEFS[nm] = d
        return T.var(nm)

    def valid_env(self, st):
        return st.env_ok

    def ev(self, st, n):
        try:
            return T.evalf(n, st.env, st.memo_env)
        except T.EvalError:
            return None

    def base(self, st):
        return (st.pc, st.defs)

    def add_pc(self, st, c):
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise PathEnd('infeasible')
        st.pc.append(c)
        st.decided[c.id] = True
        st.decided[T.not_(c).id] = False
        if st.env_ok:
            v = self.ev(st, c)
            if v is None or not v:
                st.env_ok = False

    def set_env(self, st, env):
        if env is None:
            st.env_ok = False
            return
        for k, v in env.items():
            if k in st.inputs:
                st.env[k] = v
        st.memo_env = {}
        ok = True
        for c in st.pc:
            v = self.ev(st, c)
            if not v:
                ok = False
                break
        st.env_ok = ok

    def decide(self, st, c):
        if not isinstance(c, N):
            return bool(c)
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        d = st.decided.get(c.id)
        if d is not None:
            return d
        nc = T.not_(c)
        b = self.base(st)
        hint = self.ev(st, c) if st.env_ok else None
        if hint is not None and hint == hint:
            self.s.st.hints += 1
            side = bool(hint)
            oc = nc if side else c
            env = self.search(st, oc)
            res = 'sat'
            if env is None:
                res, env = self.s.check(b, [oc], effort=self.o['branch_effort'])
                if res == 'unsat':
                    self._take(st, c, side, None)
                    return side
            other = st.clone()
            self._take(other, c, not side, env, unk=(res == 'unknown'))
            self._take(st, c, side, None)
            if res == 'unknown':
                self.forks += 1
                self.deferred.append(other)      # feasibility not decided: explored last
            else:
                self.push(other)
            return side
        rt, et = self.s.check(b, [c])
        rf, ef = self.s.check(b, [nc])
        if rt == 'unsat' and rf == 'unsat':
            raise PathEnd('infeasible')
        if rt == 'unsat':
            self._take(st, c, False, ef)
            return False
        if rf == 'unsat':
            self._take(st, c, True, et)
            return True
        other = st.clone()
        self._take(other, c, False, ef, unk=(rf == 'unknown'))
        self._take(st, c, True, et, unk=(rt == 'unknown'))
        self.push(other)
        return True

    def search(self, st, c):
        """a model of path and c found by evaluation: spares a satisfiability query (never an unsatisfiability one)"""
        vs = [v for v in T.deep_vars(c) if v in st.inputs]
        if not vs or not solver_nl(c):
            return None
        rng = self.rng
        for i in range(self.o['search']):
            env = dict(st.env)
            for v in vs:
                lo, hi = st.inputs[v][1], st.inputs[v][2]
                r = rng.random()
                if i % 4 == 3 and lo <= 0 < hi:
                    x = hi * 10 ** (-8 * r)
                elif i % 4 == 2:
                    x = st.env[v] + (hi - lo) * rng.choice((1e-6, 1e-4, 1e-2, 0.1)) * (2 * r - 1)
                elif i % 8 == 1:
                    x = rng.choice((lo, hi))
                else:
                    x = lo + (hi - lo) * r
                env[v] = min(max(x, lo), hi)
            memo = {}
            try:
                if not T.evalf(c, env, memo):
                    continue
                if all(T.evalf(k, env, memo) for k in st.pc):
                    self.s.st.hints += 1
                    return env
            except T.EvalError:
                continue
        return None

    def hunt(self, st, bad, ladder):
        vs = list(st.inputs)
        if not vs:
            return None
        rng = self.rng
        ladder = list(ladder or [])
        best = None
        t0 = time.time()
        for i in range(4000):
            if time.time() - t0 > 4.0:
                break
            env = dict(st.env)
            for v in vs:
                lo, hi = st.inputs[v][1], st.inputs[v][2]
                if i % 3 == 0 and rng.random() < 0.5:
                    continue
                r = rng.random()
                if lo > 0 and hi > 100 * lo and rng.random() < 0.5:
                    x = lo * (hi / lo) ** r
                elif rng.random() < 0.1:
                    x = rng.choice((lo, hi))
                else:
                    x = lo + (hi - lo) * r
                if isinstance(st.env.get(v), int):
                    x = int(x)
                env[v] = min(max(x, lo), hi)
            memo = {}
            try:
                if not all(T.evalf(k, env, memo) for k in st.pc) or not T.evalf(bad, env, memo):
                    continue
                if any(T.evalf(l, env, memo) for l in ladder[:1]):
                    return env
                best = best or env
                if not ladder:
                    return env
            except T.EvalError:
                continue
        return best

    def _take(self, st, c, side, env, unk=False):
        cc = c if side else T.not_(c)
        st.pc.append(cc)
        st.decided[c.id] = side; st.decided[T.not_(c).id] = not side
        if env is not None:
            self.set_env(st, env)
        elif unk:
            st.env_ok = False
        elif st.env_ok:
            v = self.ev(st, cc)
            if not v:
                st.env_ok = False

    def push(self, st):
        self.forks += 1
        self.work.append(st)

    def assume(self, st, c):
        """add c to the path; end the path when it is infeasible"""
        if not isinstance(c, N):
            if not c:
                raise PathEnd('assume')
            return
        if c is T.TRUE or st.decided.get(c.id) is True:
            return
        if c is T.FALSE or st.decided.get(c.id) is False:
            raise PathEnd('assume')
        if st.env_ok and self.ev(st, c):
            self.add_pc(st, c)
            return
        res, env = self.s.check(self.base(st), [c])
        if res == 'unsat':
            raise PathEnd('assume')
        st.pc.append(c); st.decided[c.id] = True; st.decided[T.not_(c).id] = False
        if env is not None:
            self.set_env(st, env)
        else:
            st.env_ok = False

    # ------------------------------------------------------------ reporting
    def where(self, st):
        return [f.fn.name for f in st.frames]

    def report(self, st, kind, msg, env=None, margin=None):
        k = (kind, msg)
        n = self.vcount.get(k, 0)
        self.vcount[k] = n + 1
        if n >= self.o['max_viol_per_msg']:
            return
        if env is None:
            if not st.env_ok:
                res, e = self.s.check(self.base(st), [T.TRUE] if not st.pc else [st.pc[-1]], full=True, effort=3.0)
                if res == 'unsat':
                    self.vcount[k] = n
                    raise PathEnd('infeasible')
                full = dict(st.env)
                if e:
                    full.update(e)
                env = full
            else:
                env = dict(st.env)
        else:
            full = dict(st.env); full.update(env); env = full
        self.viol.append(Violation(kind, msg, {k: env.get(k, 0.0) for k in st.inputs}, dict(st.inputs), dict(st.choices),
                                   self.where(st)[-6:], margin, st.notes))

    def check_assert(self, st, good, msg, ladder=None):
        """good: boolean term/py bool; ladder: list of stronger 'bad' terms to get robust counterexamples"""
        self.asserts_checked += 1
        if not isinstance(good, N) or good is T.TRUE or good is T.FALSE:
            g = bool(good) if not isinstance(good, N) else good is T.TRUE
            if g:
                self.asserts_proved += 1
                return
            if not st.env_ok:
                res, env = self.s.check(self.base(st), [st.pc[-1]], full=True, effort=3.0) if st.pc else ('sat', None)
                if res == 'unsat':
                    self.asserts_proved += 1
                    raise PathEnd('infeasible')
                self.report(st, 'assert', msg, env or {})
            else:
                self.report(st, 'assert', msg)
            return
        bad = T.not_(good)
        if st.env_ok and self.ev(st, bad):
            res, env = 'sat', dict(st.env)
            # confirmed only as a hint: fall through to a real query for the verdict
            res, env2 = self.s.check(self.base(st), [bad], effort=2.0)
            if res == 'unknown':
                self.report(st, 'assert', msg, dict(st.env))
                self.asserts_unknown += 1
            elif res == 'sat':
                self.report(st, 'assert', msg, dict(st.env))
                env = env2
            else:
                self.asserts_proved += 1
                return
        else:
            res, env = self.s.check(self.base(st), [bad], effort=2.0)
            if res == 'unsat':
                self.asserts_proved += 1
                return
            if res == 'unknown':
                self.asserts_unknown += 1
                st.notes = st.notes + ('undecided: ' + msg,)
                self.undecided = getattr(self, 'undecided', {})
                self.undecided[msg] = self.undecided.get(msg, 0) + 1
                # the query is open: look for a candidate by evaluation (only a native replay confirms it)
                cx = self.hunt(st, bad, ladder)
                if cx is not None:
                    self.report(st, 'assert', msg, cx)
                    return
                # keep the path's own model as a replay candidate
                self.cand = getattr(self, 'cand', [])
                if len(self.cand) < 6 and st.env_ok:
                    self.cand.append(Violation('undecided', msg, {k: st.env.get(k, 0.0) for k in st.inputs},
                                               dict(st.inputs), dict(st.choices), self.where(st)[-6:]))
                return
        if res == 'sat':
            done = False
            for l in (ladder or []):
                r2, e2 = self.s.check(self.base(st), [l])
                if r2 == 'sat' and e2 is not None:
                    self.report(st, 'assert', msg, e2)
                    done = True
                    break
            if not done:
                self.report(st, 'assert', msg, env or {})
            # continue as if it held
            try:
                self.assume(st, good)
            except PathEnd:
                raise PathEnd('violated')

    # ------------------------------------------------------------ run
    def start(self, fname, args=()):
        st = self.new_state()
        self.run_ctors(st)
        self.call_fn(st, self.m.get(fname), list(args), None)
        self.work.append(st)

    def run_ctors(self, st):
        g = self.m.globals.get('llvm.global_ctors')
        if not g:
            return
        import re
        names = re.findall(r'ptr @([\w.$-]+), ptr', g)
        for n in names:
            f = self.m.get(n)
            self.call_fn(st, f, [], None)
            while st.frames:
                fr = st.frames[-1]
                ins = fr.code[fr.idx]
                self.H[ins.op](st, fr, ins)

    def explore(self):
        t0 = time.time()
        dl = self.o['deadline']
        while self.work or self.deferred:
            if not self.work:
                self.work.append(self.deferred.pop(0))
            if self.paths >= self.o['max_paths'] or (dl and time.time() > dl):
                self.ended['budget'] = self.ended.get('budget', 0) + len(self.work) + len(self.deferred)
                for st in self.work[-40:]:
                    self.keepenv(st, 'budget')
                break
            st = self.work.pop()
            self.run_path(st)
        self.wall = time.time() - t0

    def keepenv(self, st, kind):
        """the path's own model: replayed natively (also the continuation of a path cut at a bound)"""
        if st.env_ok and len(self.pathenvs) < 600:
            self.pathenvs.append(dict(env={k: float(st.env.get(k, 0.0)) for k in st.inputs}, choices=dict(st.choices), kind=kind))

    def run_path(self, st):
        H = self.H
        n0 = st.steps
        try:
            lim = self.o['max_steps']
            frames = st.frames
            while frames:
                fr = frames[-1]
                ins = fr.code[fr.idx]
                st.steps += 1
                if st.steps & 4095 == 0:
                    if st.steps > lim:
                        raise PathEnd('steps')
                    if self.o['deadline'] and time.time() > self.o['deadline']:
                        raise PathEnd('deadline')
                try:
                    H[ins.op](st, fr, ins)
                except Throw as t:
                    self.unwind(st, t.ptr, t.ti)
            kind = 'done'
        except PathEnd as e:
            kind = e.kind
            if kind in ('abort', 'exit', 'uncaught'):
                kind = e.kind
        except Unsupported as e:
            kind = 'unsupported: ' + str(e)
        self.paths += 1
        self.total_steps += st.steps - n0
        self.ended[kind] = self.ended.get(kind, 0) + 1
        if self.o.get('traces'):
            self.traces = getattr(self, 'traces', [])
            self.traces.append(st.x.get('trace', ()))
        if kind not in ('assume', 'infeasible', 'violated'):
            self.keepenv(st, kind)
        if kind == 'done' and len(self.samples) < 4:
            self.samples.append({'choices': {k: v for k, v in st.choices.items()},
                                 'example_inputs': {k: st.env.get(k) for k in list(st.inputs)[:12]},
                                 'path_conditions': len(st.pc)})

    # ------------------------------------------------------------ operands
    def val(self, fr, o):
        if o[0] == 0:
            return fr.regs[o[1]]
        v = o[1]
        if isinstance(v, Const):
            return self.cval(v)
        return v

    def adv(self, fr):
        fr.idx += 1

    def goto(self, st, fr, lab):
        prev = fr.blk
        fr.blk = lab; fr.code = fr.fn.blocks[lab]; fr.prev = prev
        ph = fr.fn.phis[lab]
        if ph:
            vals = [self.val(fr, p.x[prev]) for p in ph]
            for p, v in zip(ph, vals):
                fr.regs[p.dst] = v
            fr.idx = len(ph)
        else:
            fr.idx = 0

    def i_br(self, st, fr, ins):
        self.goto(st, fr, ins.x)

    def i_condbr(self, st, fr, ins):
        c = self.val(fr, ins.a)
        if isinstance(c, N):
            if c.id not in st.decided:
                if fr.lc is None:
                    fr.lc = {}
                k = id(ins)
                n = fr.lc.get(k, 0)
                if n > self.o['loop_bound']:
                    raise PathEnd('loop-bound')
            b = self.decide(st, c)
            if fr.lc is None:
                fr.lc = {}
            k = id(ins)
            fr.lc[k] = fr.lc.get(k, 0) + 1
            c = b
        self.goto(st, fr, ins.x[0] if c else ins.x[1])

    def i_switch(self, st, fr, ins):
        v = self.val(fr, ins.a)
        self.goto(st, fr, ins.c.get(v, ins.x))

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi')

    def i_alloca(self, st, fr, ins):
        n = self.val(fr, ins.a)
        a = self.alloc(st, self.m.size(ins.ty) * n, 'stack', fr.fn.name)
        fr.allocas.append(a >> SLOT)
        fr.regs[ins.dst] = a; fr.idx += 1

    def i_load(self, st, fr, ins):
        fr.regs[ins.dst] = self.load(st, self.val(fr, ins.a), ins.ty); fr.idx += 1

    def i_store(self, st, fr, ins):
        v = self.val(fr, ins.a)
        if isinstance(v, N) and ins.ty.k == 'int' and ins.ty.bits <= 8:
            v = 1 if self.decide(st, v) else 0
        self.store(st, self.val(fr, ins.b), ins.ty, v); fr.idx += 1

    def i_getelementptr(self, st, fr, ins):
        a = self.val(fr, ins.a) + ins.b
        for o, sz, bits in ins.c:
            v = self.val(fr, o)
            a += sx(v, bits) * sz
        fr.regs[ins.dst] = a & M64; fr.idx += 1

    def i_icmp(self, st, fr, ins):
        a = self.val(fr, ins.a); b = self.val(fr, ins.b)
        p = ins.x
        if isinstance(a, N) or isinstance(b, N):
            # i1 comparison
            if ins.ty.k == 'int' and ins.ty.bits == 1:
                a = self.decide(st, a) if isinstance(a, N) else a
                b = self.decide(st, b) if isinstance(b, N) else b
                a = int(a); b = int(b)
            else:
                raise Unsupported('icmp on symbolic')
        if p == 'eq':
            r = a == b
        elif p == 'ne':
            r = a != b
        elif p[0] == 'u':
            r = a < b if p == 'ult' else a <= b if p == 'ule' else a > b if p == 'ugt' else a >= b
        else:
            bits = ins.ty.bits or 64
            a = sx(a, bits); b = sx(b, bits)
            r = a < b if p == 'slt' else a <= b if p == 'sle' else a > b if p == 'sgt' else a >= b
        fr.regs[ins.dst] = 1 if r else 0; fr.idx += 1

    def fcmp(self, st, p, a, b):
        fa = type(a) is float; fb = type(b) is float
        if fa and fb:
            un = a != a or b != b
            if p == 'ord':
                return not un
            if p == 'uno':
                return un
            if un:
                return p[0] == 'u'
            q = p[1:]
            return a == b if q == 'eq' else a != b if q == 'ne' else a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b
        if p == 'ord' or p == 'uno':
            un = (fa and a != a) or (fb and b != b)
            return un if p == 'uno' else not un
        q = p[1:]
        for v, oth, sw in ((a, b, False), (b, a, True)):
            if type(v) is float and (v != v or v in (math.inf, -math.inf)):
                if v != v:
                    return p[0] == 'u'
                big = v > 0
                # v is +-inf compared with finite
                x = 1.0 if big else -1.0
                l, r = (x, 0.0) if not sw else (0.0, x)
                return l == r if q == 'eq' else l != r if q == 'ne' else l < r if q == 'lt' else l <= r if q == 'le' else l > r if q == 'gt' else l >= r
        if q == 'eq':
            return T.eq(a, b)
        if q == 'ne':
            return T.not_(T.eq(a, b))
        if q == 'lt':
            return T.lt(a, b)
        if q == 'le':
            return T.le(a, b)
        if q == 'gt':
            return T.lt(b, a)
        return T.le(b, a)

    def i_fcmp(self, st, fr, ins):
        p = ins.x
        if p == 'true' or p == 'false':
            r = p == 'true'
        else:
            r = self.fcmp(st, p, self.val(fr, ins.a), self.val(fr, ins.b))
        if isinstance(r, N):
            r = 1 if r is T.TRUE else 0 if r is T.FALSE else r
        else:
            r = 1 if r else 0
        fr.regs[ins.dst] = r; fr.idx += 1

    def i_bin(self, st, fr, ins):
        a = self.val(fr, ins.a); b = self.val(fr, ins.b); op = ins.x
        bits = ins.ty.bits; mask = (1 << bits) - 1
        if isinstance(a, N) or isinstance(b, N):
            if bits == 1:
                A = a if isinstance(a, N) else (T.TRUE if a else T.FALSE)
                B = b if isinstance(b, N) else (T.TRUE if b else T.FALSE)
                if op == 'and':
                    r = T.and_(A, B)
                elif op == 'or':
                    r = T.or_(A, B)
                elif op == 'xor':
                    if B is T.TRUE:
                        r = T.not_(A)
                    elif B is T.FALSE:
                        r = A
                    elif A is T.TRUE:
                        r = T.not_(B)
                    else:
                        r = T.or_(T.and_(A, T.not_(B)), T.and_(T.not_(A), B))
                else:
                    raise Unsupported(op)
                r = 1 if r is T.TRUE else 0 if r is T.FALSE else r
                fr.regs[ins.dst] = r; fr.idx += 1
                return
            a = int(self.decide(st, a)) if isinstance(a, N) else a
            b = int(self.decide(st, b)) if isinstance(b, N) else b
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = sx(a, bits) >> b
        elif op in ('udiv', 'urem'):
            if b == 0:
                self.memerr(st, 'integer division by zero')
            r = a // b if op == 'udiv' else a % b
        else:
            if b == 0:
                self.memerr(st, 'integer division by zero')
            x = sx(a, bits); y = sx(b, bits)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = q if op == 'sdiv' else x - q * y
        fr.regs[ins.dst] = r & mask; fr.idx += 1

    # -------- floating point
    def finite(self, v):
        return type(v) is not float or (v == v and v not in (math.inf, -math.inf))

    def fop(self, st, op, a, b):
        fa = type(a) is float; fb = type(b) is float
        if fa and fb:
            try:
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fmul':
                    return a * b
                if op == 'fdiv':
                    if b == 0:
                        if a == 0 or a != a:
                            return math.nan
                        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
                    return a / b
                return math.fmod(a, b)
            except OverflowError:
                return math.inf
        nf = None
        if fa and not self.finite(a):
            nf = 0
        if fb and not self.finite(b):
            nf = 1
        if nf is not None:
            v = (a, b)[nf]; w = (a, b)[1 - nf]
            if v != v:
                return math.nan
            if op == 'fadd':
                return v
            if op == 'fsub':
                return v if nf == 0 else -v
            if op == 'fdiv' and nf == 1:
                return 0.0
            # sign matters
            if self.decide(st, T.lt(0.0, w)):
                return v
            if self.decide(st, T.lt(w, 0.0)):
                return -v
            return math.nan if op == 'fmul' else v
        if op == 'fadd':
            r = T.add(a, b)
        elif op == 'fsub':
            r = T.sub(a, b)
        elif op == 'fmul':
            r = T.mul(a, b)
        elif op == 'fdiv':
            return self.fdiv(st, a, b)
        else:
            raise Unsupported(op)
        return self.norm(r)

    def norm(self, r):
        if r.op == 'c':
            return float(r.a[0])
        return r

    def fdiv(self, st, a, b):
        if type(b) is float:
            if b == 0:
                if self.decide(st, T.lt(0.0, a)):
                    return math.inf
                if self.decide(st, T.lt(a, 0.0)):
                    return -math.inf
                return math.nan
            return self.norm(T.mul(T.const(1 / T.const(b).a[0]), a))
        A = T.const(a); B = b
        k = ('div', A.id, B.id)
        m = st.memo.get(k)
        if m is not None:
            return m
        if self.decide(st, T.eq(B, 0.0)):
            if self.decide(st, T.lt(0.0, A)):
                return math.inf
            if self.decide(st, T.lt(A, 0.0)):
                return -math.inf
            return math.nan
        r = T.exact_div(A, B)
        if r is not None:
            return self.norm(r)
        if A is T.ZERO:
            return 0.0
        q = self.fresh(st, 'q', ('div', A, B))
        st.defs.append(T.eq(T.mul(q, B), A))
        st.memo[k] = q
        return q

    def i_fbin(self, st, fr, ins):
        a = self.val(fr, ins.a); b = self.val(fr, ins.b)
        fr.regs[ins.dst] = self.fop(st, ins.x, a, b); fr.idx += 1

    def i_fneg(self, st, fr, ins):
        a = self.val(fr, ins.a)
        fr.regs[ins.dst] = -a if type(a) is float else T.neg(a); fr.idx += 1

    def i_cast(self, st, fr, ins):
        v = self.val(fr, ins.a); op = ins.x; t = ins.ty; src = ins.c
        if isinstance(v, N) and op in ('zext', 'sext', 'uitofp', 'sitofp', 'trunc'):
            if src.k == 'int' and src.bits == 1:
                v = 1 if self.decide(st, v) else 0
        if op == 'zext':
            r = v
        elif op == 'sext':
            r = sx(v, src.bits) & ((1 << t.bits) - 1)
        elif op == 'trunc':
            r = v & ((1 << t.bits) - 1)
        elif op == 'sitofp':
            r = float(sx(v, src.bits))
        elif op == 'uitofp':
            r = float(v)
        elif op in ('fptosi', 'fptoui'):
            r = self.toint(st, v) & ((1 << t.bits) - 1)
        elif op == 'fpext':
            r = v
        elif op == 'fptrunc':
            r = v if isinstance(v, N) else (struct.unpack('<f', struct.pack('<f', v))[0] if t.k == 'float' else v)
        elif op == 'bitcast':
            if src.k == 'double' and t.k == 'int' and type(v) is float:
                r = f2bits(v)
            elif src.k == 'int' and t.k == 'double' and type(v) is int:
                r = bits2f(v)
            else:
                r = v
        else:
            r = v
        fr.regs[ins.dst] = r; fr.idx += 1

    def toint(self, st, v):
        if type(v) is float:
            if v != v or abs(v) >= 2 ** 63:
                return 1 << 63
            return int(v)
        # enumerate by forks
        for _ in range(24):
            h = self.ev(st, v) if st.env_ok else None
            if h is None or h != h:
                res, env = self.s.check(self.base(st), [T.eq(v, v) if False else T.le(v, 1e9)])
                if env:
                    self.set_env(st, env)
                h = self.ev(st, v)
                if h is None or h != h:
                    raise Unsupported('int conversion')
            k = int(h)
            for kk in (k,):
                if kk > 0:
                    c = T.and_(T.le(float(kk), v), T.lt(v, float(kk + 1)))
                elif kk < 0:
                    c = T.and_(T.lt(float(kk - 1), v), T.le(v, float(kk)))
                else:
                    c = T.and_(T.lt(-1.0, v), T.lt(v, 1.0))
                if self.decide(st, c):
                    return kk
        raise PathEnd('int-enum')

    def i_select(self, st, fr, ins):
        c = self.val(fr, ins.a)
        if isinstance(c, N):
            c = self.decide(st, c)
        fr.regs[ins.dst] = self.val(fr, ins.b) if c else self.val(fr, ins.c); fr.idx += 1

    def i_freeze(self, st, fr, ins):
        fr.regs[ins.dst] = self.val(fr, ins.a); fr.idx += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(fr, ins.a)
        for i in ins.x:
            v = v[i]
        fr.regs[ins.dst] = v; fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(fr, ins.a); e = self.val(fr, ins.b)
        v = list(v) if v is not None else []
        if len(ins.x) != 1:
            raise Unsupported('insertvalue')
        v[ins.x[0]] = e
        fr.regs[ins.dst] = v; fr.idx += 1

    def i_unreachable(self, st, fr, ins):
        raise PathEnd('unreachable')

    def i_fence(self, st, fr, ins):
        fr.idx += 1

    def i_asm(self, st, fr, ins):
        raise Unsupported('asm')

    def i_atomicrmw(self, st, fr, ins):
        raise Unsupported('atomicrmw')

    def i_cmpxchg(self, st, fr, ins):
        raise Unsupported('cmpxchg')

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fn, args, callins):
        self.funcs[fn.name] = self.funcs.get(fn.name, 0) + 1
        nf = Frame(fn)
        nf.callins = callins
        for (r, t, byval), a in zip(fn.params, args):
            nf.regs[r] = a
        if len(st.frames) > 300:
            raise PathEnd('recursion')
        st.frames.append(nf)
        return nf

    def i_call(self, st, fr, ins):
        tgt = ins.a
        if not isinstance(tgt, str):
            a = self.val(fr, tgt)
            tgt = self.fname.get(a)
            if tgt is None:
                self.memerr(st, f'call through invalid function pointer {a:#x}')
        args = [self.val(fr, o) for o, t, bv in ins.b]
        if tgt in self.redirect:
            self.stubbed[tgt] = self.stubbed.get(tgt, 0) + 1
            tgt = self.redirect[tgt]
        mdl = self.models.get(tgt)
        if mdl is None and tgt not in self.m.fns:
            t2 = self.m.aliases.get(tgt)
            if t2:
                tgt = t2; mdl = self.models.get(tgt)
        if mdl is None:
            for pat, f in self.patmodels:
                if pat.search(tgt):
                    mdl = f
                    self.models[tgt] = f
                    break
            else:
                if tgt not in self.m.fns:
                    raise Unsupported('external ' + tgt)
        if mdl is not None:
            r = mdl(self, st, args, ins, tgt)
            if r is NotImplemented:
                mdl = None
            else:
                if r is not PUSHED:
                    if ins.dst >= 0:
                        fr.regs[ins.dst] = r
                    if ins.x is not None:
                        self.goto(st, fr, ins.x[0])
                    else:
                        fr.idx += 1
                return
        fn = self.m.get(tgt)
        if fn is None:
            raise Unsupported('external ' + tgt)
        bvs = []
        for i, (o, t, bv) in enumerate(ins.b):
            if bv is not None:
                sz = self.m.size(bv)
                c = self.alloc(st, sz, 'stack', 'byval')
                self.memcpy(st, c, args[i], sz)
                args[i] = c; bvs.append(c >> SLOT)
        nf = self.call_fn(st, fn, args, ins)
        nf.allocas.extend(bvs)

    def pop(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        return fr

    def i_ret(self, st, fr, ins):
        v = self.val(fr, ins.a) if ins.a is not None else None
        if isinstance(v, N) and ins.ty.k == 'int' and ins.ty.bits > 1:
            raise Unsupported('symbolic int return')
        self.pop(st)
        if st.frames and fr.callins is not None:
            c = st.frames[-1]; ci = fr.callins
            if ci == 'try':
                return
            if ci.dst >= 0:
                c.regs[ci.dst] = v
            if ci.x is not None:
                self.goto(st, c, ci.x[0])
            else:
                c.idx += 1

    # ------------------------------------------------------------ exceptions
    def unwind(self, st, ptr, ti):
        st.exc = (ptr, ti)
        # current frame: the call instruction being executed may itself be an invoke
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.idx]
            if ins.op == 'call' and ins.x is not None:
                self.goto(st, fr, ins.x[1])
                return
            self.pop(st)
        self.report(st, 'crash', 'uncaught C++ exception')
        raise PathEnd('uncaught')

    def ti_match(self, ti, want):
        if want == 0 or ti == want:
            return True
        n = self.gname.get(ti >> SLOT, ''); w = self.gname.get(want >> SLOT, '')
        std = {'_ZTISt9exception'}
        if w in std and n.startswith('_ZTI'):
            return True
        if w == '_ZTISt11logic_error' and n in ('_ZTISt16invalid_argument', '_ZTISt12out_of_range', '_ZTISt12length_error',
                                                '_ZTIN8bmi_lgar14NotImplementedE'):
            return True
        return False

    def i_landingpad(self, st, fr, ins):
        ptr, ti = st.exc
        sel = 0; cleanup = False; match = None
        for i, (k, v) in enumerate(ins.x):
            if k == 'cleanup':
                cleanup = True
            elif k == 'catch':
                w = self.cval(v)
                if self.ti_match(ti, w):
                    match = 1 + (w >> SLOT) % 100000 if w else 1
                    if w:
                        match = self.typeid(w)
                    break
        if match is None and not cleanup:
            # no clause applies: continue unwinding from the caller
            self.pop(st)
            self.unwind(st, ptr, ti)
            return
        fr.regs[ins.dst] = [ptr, match or 0]; fr.idx += 1

    def typeid(self, addr):
        return (addr >> SLOT) & 0x7fffffff

    def i_resume(self, st, fr, ins):
        v = self.val(fr, ins.a)
        ptr, ti = st.exc
        self.pop(st)
        self.unwind(st, ptr, ti)


class _P:
    pass


PUSHED = _P()
