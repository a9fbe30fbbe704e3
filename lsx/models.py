"""Models of the environment of LGAR-C (libm, libc, iostreams, allocation) and the harness intrinsics."""
import math, re, struct
from . import ir, terms as T
from .terms import N
from .engine import PathEnd, Unsupported, Throw, PUSHED, SLOT, BASE, sx, f2bits

I8 = ir.INT(8); I32 = ir.INT(32); I64 = ir.INT(64)
MODELS = {}
PATS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATS.append((re.compile(rx), f))
        return f
    return d


def install(e):
    e.models.update(MODELS)
    e.patmodels.extend(PATS)


# ------------------------------------------------------------------ maths
def expmul(e, st, a, b):
    """product of two exponents with the cancellations the retention curves rely on"""
    if type(a) is float and type(b) is float:
        r = a * b
        k = round(r)
        return float(k) if abs(r - k) < 1e-12 else r
    for p, q in ((a, b), (b, a)):
        if isinstance(q, N) and q.op == 'v':
            d = T.DEFS.get(q.a[0])
            if d and d[0] == 'div' and isinstance(p, N) and d[2] is p and d[1].op == 'c':
                return float(d[1].a[0])
        if isinstance(q, N) and q.op == 'p' and len(q.a) == 3 and q.a[0] == 0 and q.a[1].op == 'v':
            d = T.DEFS.get(q.a[1].a[0])
            if d and d[0] == 'div' and isinstance(p, N) and d[2] is p and d[1].op == 'c':
                return float(d[1].a[0] * q.a[2])
    return e.fop(st, 'fmul', a, b)


def neg(e, st, a):
    return -a if type(a) is float else T.neg(a)


def m_sqrt(e, st, x):
    if type(x) is float:
        return math.sqrt(x) if x >= 0 else math.nan
    if e.decide(st, T.lt(x, 0.0)):
        return math.nan
    for a, b in T.PROD.get(x.id, ()):
        if a is b:
            return T.neg(a) if e.decide(st, T.lt(a, 0.0)) else a
    k = ('sqrt', x.id)
    r = st.memo.get(k)
    if r is not None:
        return r
    u, ex = base_of(x)
    if ex is not None and type(ex) is float and ex == 2.0:
        return u
    s = e.fresh(st, 'sqrt', ('sqrt', x))
    st.defs.append(T.eq(T.mul(s, s), x)); st.defs.append(T.le(0.0, s))
    st.memo[k] = s
    return s


def base_of(x):
    """x = u^ex for a defined variable x, else (x, None)"""
    if isinstance(x, N) and x.op == 'v':
        d = T.DEFS.get(x.a[0])
        if d:
            if d[0] == 'pow':
                return d[1], (float(d[2].a[0]) if isinstance(d[2], N) and d[2].op == 'c' else d[2])
            if d[0] == 'sqrt':
                return d[1], 0.5
            if d[0] == 'div' and d[1] is T.ONE:
                u, ex = base_of(d[2])
                if ex is None:
                    return d[2], -1.0
                return u, (-ex if type(ex) is float else T.neg(ex))
    return x, None


POWOF = {}          # term id -> (u, n): the term is u^n, written as a product


def m_pow(e, st, x, y):
    if type(x) is float and type(y) is float:
        return T._pow(x, y)
    if type(y) is float:
        if y != y or y in (math.inf, -math.inf):
            raise Unsupported('pow exponent')
        if y == 0.0:
            return 1.0
        if y == 1.0:
            return x
    if type(x) is float and (x != x or x in (math.inf, -math.inf)):
        raise Unsupported('pow base')
    if type(x) is float and x == 1.0:
        return 1.0
    k = ('pow', T.const(x).id, T.const(y).id)
    r = st.memo.get(k)
    if r is not None:
        return r
    intexp = type(y) is float and y == int(y) and abs(y) <= 6
    if isinstance(x, N):
        if intexp:
            n = abs(int(y))
            if y < 0 and e.decide(st, T.eq(x, 0.0)):
                return math.inf
        else:
            if e.decide(st, T.lt(x, 0.0)):
                return math.nan
            if e.decide(st, T.eq(x, 0.0)):
                pos = y > 0 if type(y) is float else e.decide(st, T.lt(0.0, y))
                return 0.0 if pos else math.inf
    elif x <= 0:
        if x == 0:
            pos = y > 0 if type(y) is float else e.decide(st, T.lt(0.0, y))
            return 0.0 if pos else math.inf
        return math.nan
    # x > 0 from here (or integer exponent)
    u, ex = base_of(x)
    if ex is not None:
        # the value of a pow/sqrt/reciprocal: combine exponents (u > 0)
        ny = expmul(e, st, ex, y)
        if not (ex == -1.0 and intexp):
            r = m_pow(e, st, u, ny)
            st.memo[k] = r
            return r
    if isinstance(x, N):
        q = POWOF.get(x.id)
        if q is not None and q[0] is not x and not e.decide(st, T.lt(q[0], 0.0)):
            ny = expmul(e, st, q[1], y)
            r = m_pow(e, st, q[0], ny)
            st.memo[k] = r
            return r
    if intexp:
        r = x
        for _ in range(n - 1):
            r = e.norm(T.mul(r, x)) if isinstance(r, N) else r * x
        if isinstance(r, N) and n > 1:
            POWOF.setdefault(r.id, (x, float(n)))
        if y < 0:
            r = e.fop(st, 'fdiv', 1.0, r)
        st.memo[k] = r
        return r
    if type(y) is float and abs(y) == 0.5:
        r = m_sqrt(e, st, x)
        if y < 0:
            r = e.fop(st, 'fdiv', 1.0, r)
        st.memo[k] = r
        return r
    if type(y) is float and abs(y * 2) == int(abs(y * 2)) and abs(y) <= 4:
        r = m_sqrt(e, st, x)
        r = m_pow_int(e, r, int(abs(y * 2)))
        if isinstance(r, N):
            POWOF.setdefault(r.id, (x, abs(y)))
        if y < 0:
            r = e.fop(st, 'fdiv', 1.0, r)
        st.memo[k] = r
        return r
    # square of something to a power: (z^2)^y = z^(2y)
    if isinstance(x, N):
        for a, b in T.PROD.get(x.id, ()):
            if a is b and type(y) is float:
                z = a if not e.decide(st, T.lt(a, 0.0)) else T.neg(a)
                r = m_pow(e, st, z, 2 * y)
                st.memo[k] = r
                return r
    if type(y) is float:          # x^-y is already there: take the reciprocal
        o = st.memo.get(('pow', T.const(x).id, T.const(-y).id))
        if o is not None and isinstance(o, N):
            r = e.fop(st, 'fdiv', 1.0, o)
            st.memo[k] = r
            return r
    X = T.const(x); Y = T.const(y)
    ypos = y > 0 if type(y) is float else None
    if ypos is None:
        if e.decide(st, T.eq(Y, 0.0)):
            return 1.0
        ypos = e.decide(st, T.lt(0.0, Y))
    p = e.fresh(st, 'pow', ('pow', X, Y))
    ax = [T.lt(0.0, p)]
    lt1 = T.lt(X, 1.0); gt1 = T.lt(1.0, X); eq1 = T.eq(X, 1.0)
    plt = T.lt(p, 1.0); pgt = T.lt(1.0, p); peq = T.eq(p, 1.0)
    if not ypos:
        plt, pgt = pgt, plt
    ax += [T.or_(T.not_(lt1), plt), T.or_(T.not_(gt1), pgt), T.or_(T.not_(eq1), peq)]
    if type(y) is float:
        lin = T.add(1.0, T.mul(y, T.sub(X, 1.0)))
        ax.append(T.le(p, lin) if 0 < y < 1 else T.le(lin, p))
    tab = st.x.setdefault('powtab', {}).get(Y.id, ())
    if e.o.get('pow_mono', True):
        for (x2, p2) in tab[-int(e.o.get('pow_mono_n', 6)):]:
            if ypos:
                ax.append(T.or_(T.not_(T.lt(X, x2)), T.lt(p, p2)))
                ax.append(T.or_(T.not_(T.lt(x2, X)), T.lt(p2, p)))
            else:
                ax.append(T.or_(T.not_(T.lt(X, x2)), T.lt(p2, p)))
                ax.append(T.or_(T.not_(T.lt(x2, X)), T.lt(p, p2)))
            ax.append(T.or_(T.not_(T.eq(x2, X)), T.eq(p2, p)))
    pt = dict(st.x['powtab']); pt[Y.id] = tab + ((X, p),); st.x['powtab'] = pt
    st.defs.extend(ax)
    st.memo[k] = p
    return p


def m_pow_int(e, r, n):
    o = r
    for _ in range(n - 1):
        o = e.norm(T.mul(o, r)) if isinstance(o, N) else o * r
    return o


@model('pow')
def _pow(e, st, a, ins, name):
    return m_pow(e, st, a[0], a[1])


@model('sqrt', 'llvm.sqrt.f64')
def _sqrt(e, st, a, ins, name):
    return m_sqrt(e, st, a[0])


@model('exp')
def _exp(e, st, a, ins, name):
    x = a[0]
    if type(x) is float:
        return math.exp(x) if x < 709 else math.inf
    c, d = T.parts(x)              # e^(y log u) is u^y
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        fs = list(m.a) if m.op == 'm' else [m]
        for i, v in enumerate(fs):
            df = T.DEFS.get(v.a[0]) if v.op == 'v' else None
            if df and df[0] == 'log':
                y = T.const(k)
                for w in fs[:i] + fs[i + 1:]:
                    y = T.mul(y, w)
                return m_pow(e, st, df[1], float(y.a[0]) if y.op == 'c' else y)
    k = ('exp', x.id)
    r = st.memo.get(k)
    if r is not None:
        return r
    p = e.fresh(st, 'exp', ('exp', x))
    ax = [T.lt(0.0, p), T.le(T.add(1.0, x), p),
          T.or_(T.not_(T.lt(x, 0.0)), T.lt(p, 1.0)), T.or_(T.not_(T.lt(0.0, x)), T.lt(1.0, p)),
          T.or_(T.not_(T.eq(x, 0.0)), T.eq(p, 1.0)),
          # e^-2.99 > 0.05 > e^-3 and e^(-x) enclosures used by the 0.05 clamp
          T.or_(T.not_(T.le(x, -3.0)), T.lt(p, 0.05)), T.or_(T.not_(T.le(-2.99, x)), T.lt(0.05, p))]
    tab = st.x.get('exptab', ())
    for (x2, p2) in tab:
        ax.append(T.or_(T.not_(T.lt(x, x2)), T.lt(p, p2)))
        ax.append(T.or_(T.not_(T.lt(x2, x)), T.lt(p2, p)))
        ax.append(T.or_(T.not_(T.eq(x2, x)), T.eq(p2, p)))
    st.x['exptab'] = tab + ((x, p),)
    st.defs.extend(ax)
    st.memo[k] = p
    return p


@model('fabs', 'llvm.fabs.f64')
def _fabs(e, st, a, ins, name):
    x = a[0]
    if type(x) is float:
        return abs(x)
    return T.neg(x) if e.decide(st, T.lt(x, 0.0)) else x


@model('fmin', 'llvm.minnum.f64')
def _fmin(e, st, a, ins, name):
    x, y = a
    if type(x) is float and x != x:
        return y
    if type(y) is float and y != y:
        return x
    c = e.fcmp(st, 'ole', x, y)
    return x if e.decide(st, c) else y


@model('fmax', 'llvm.maxnum.f64')
def _fmax(e, st, a, ins, name):
    x, y = a
    if type(x) is float and x != x:
        return y
    if type(y) is float and y != y:
        return x
    c = e.fcmp(st, 'oge', x, y)
    return x if e.decide(st, c) else y


@pat(r'^_ZSt5isinf[dl]|^isinf$|^__isinf')
def _isinf(e, st, a, ins, name):
    return 1 if type(a[0]) is float and abs(a[0]) == math.inf else 0


@pat(r'^_ZSt5isnan[dl]|^isnan$|^__isnan')
def _isnan(e, st, a, ins, name):
    return 1 if type(a[0]) is float and a[0] != a[0] else 0


@model('llvm.is.fpclass.f64')
def _fpclass(e, st, a, ins, name):
    x, m = a
    if isinstance(x, N):
        if m & 0x1f8 == 0x1f8:
            return 1
        if m & 0x1f8 == 0:
            return 0
        if e.decide(st, T.eq(x, 0.0)):
            return 1 if m & 0x60 else 0
        return 1 if m & (8 if e.decide(st, T.lt(x, 0.0)) else 0x100) else 0
    if x != x:
        return 1 if m & 3 else 0
    if x == math.inf:
        return 1 if m & 0x200 else 0
    if x == -math.inf:
        return 1 if m & 4 else 0
    if x == 0:
        return 1 if m & 0x60 else 0
    return 1 if m & (0x100 if x > 0 else 8) else 0


@model('floor', 'llvm.floor.f64')
def _floor(e, st, a, ins, name):
    if type(a[0]) is float:
        return float(math.floor(a[0]))
    k = e.toint(st, a[0])
    if e.decide(st, T.lt(a[0], float(k))):
        k -= 1
    return float(k)


@model('ceil', 'llvm.ceil.f64')
def _ceil(e, st, a, ins, name):
    if type(a[0]) is float:
        return float(math.ceil(a[0]))
    k = e.toint(st, a[0])
    if e.decide(st, T.lt(float(k), a[0])):
        k += 1
    return float(k)


@model('round', 'llvm.round.f64', 'rint', 'nearbyint', 'llvm.rint.f64', 'llvm.nearbyint.f64')
def _round(e, st, a, ins, name):
    if type(a[0]) is float:
        return float(math.floor(abs(a[0]) + 0.5)) * (1 if a[0] >= 0 else -1)
    v = e.fop(st, 'fadd', a[0], 0.5)
    k = e.toint(st, v)
    if e.decide(st, T.lt(v, float(k))):
        k -= 1
    return float(k)


@model('trunc', 'llvm.trunc.f64')
def _trunc(e, st, a, ins, name):
    if type(a[0]) is float:
        return float(math.trunc(a[0]))
    return float(e.toint(st, a[0]))


@model('cbrt')
def _cbrt(e, st, a, ins, name):
    return m_pow(e, st, a[0], 1.0 / 3.0)


@model('copysign', 'llvm.copysign.f64')
def _copysign(e, st, a, ins, name):
    neg = (math.copysign(1.0, a[1]) < 0) if type(a[1]) is float else e.decide(st, T.lt(a[1], 0.0))
    if type(a[0]) is float:
        return math.copysign(a[0], -1.0 if neg else 1.0)
    v = T.neg(a[0]) if e.decide(st, T.lt(a[0], 0.0)) else a[0]
    return T.neg(v) if neg else v


@model('lround')
def _lround(e, st, a, ins, name):
    return int(_round(e, st, a, ins, name)) & (2 ** 64 - 1)


# ------------------------------------------------------------------ llvm intrinsics
@pat(r'^llvm\.(dbg|lifetime|assume|experimental\.noalias|invariant|donothing)')
def _nop(e, st, a, ins, name):
    return 0


@pat(r'^llvm\.mem(cpy|move)\.')
def _memcpy(e, st, a, ins, name):
    e.memcpy(st, a[0], a[1], a[2])
    return 0


@pat(r'^llvm\.memset\.')
def _memset(e, st, a, ins, name):
    e.memset(st, a[0], a[1] & 255, a[2])
    return 0


@model('memcpy', 'memmove')
def _memcpy2(e, st, a, ins, name):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model('memset')
def _memset2(e, st, a, ins, name):
    e.memset(st, a[0], a[1] & 255, a[2])
    return a[0]


@pat(r'^llvm\.eh\.typeid\.for')
def _typeid(e, st, a, ins, name):
    return e.typeid(a[0])


@pat(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)')
def _ovf(e, st, a, ins, name):
    m = re.match(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
    sg, op, bits = m.group(1), m.group(2), int(m.group(3))
    x, y = a
    if sg == 's':
        x = sx(x, bits); y = sx(y, bits)
    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
    w = r & ((1 << bits) - 1)
    ov = (w if sg == 'u' else sx(w, bits)) != r
    return [w, 1 if ov else 0]


@pat(r'^llvm\.(umax|umin|smax|smin)\.i(\d+)')
def _mm(e, st, a, ins, name):
    m = re.match(r'^llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
    b = int(m.group(2)); k = m.group(1)
    f = (lambda v: sx(v, b)) if k[0] == 's' else (lambda v: v)
    return (max if k.endswith('max') else min)(a, key=f)


@model('llvm.trap')
def _trap(e, st, a, ins, name):
    e.report(st, 'crash', 'trap')
    raise PathEnd('abort')


@pat(r'^llvm\.(stacksave|stackrestore)')
def _ss(e, st, a, ins, name):
    return 0


@pat(r'^llvm\.expect')
def _expect(e, st, a, ins, name):
    return a[0]


@pat(r'^llvm\.fmuladd\.f64|^llvm\.fma\.f64|^fma$')
def _fma(e, st, a, ins, name):
    return e.fop(st, 'fadd', e.fop(st, 'fmul', a[0], a[1]), a[2])


@pat(r'^llvm\.abs\.i(\d+)')
def _iabs(e, st, a, ins, name):
    b = int(name.rsplit('.i', 1)[1])
    return abs(sx(a[0], b)) & ((1 << b) - 1)


# ------------------------------------------------------------------ allocation
def newobj(e, st, size, kind):
    if size > (1 << SLOT) - 2 * BASE:
        raise Unsupported('large allocation %d' % size)
    st.heap_live += 1
    st.x['heap_bytes'] = st.x.get('heap_bytes', 0) + size
    return e.alloc(st, size, kind, st.frames[-1].fn.name if st.frames else '')


def relobj(e, st, addr, kinds):
    if addr:
        o = st.mem.get(addr >> SLOT)
        e.free(st, addr, kinds)
        st.x['heap_bytes'] = st.x.get('heap_bytes', 0) - o.size


@model('malloc')
def _malloc(e, st, a, ins, name):
    return newobj(e, st, a[0], 'malloc')


@model('calloc')
def _calloc(e, st, a, ins, name):
    p = newobj(e, st, a[0] * a[1], 'malloc')
    e.memset(st, p, 0, a[0] * a[1])
    return p


@model('realloc')
def _realloc(e, st, a, ins, name):
    p = newobj(e, st, a[1], 'malloc')
    if a[0]:
        o = st.mem.get(a[0] >> SLOT)
        e.memcpy(st, p, a[0], min(a[1], o.size))
        relobj(e, st, a[0], ('malloc',))
    return p


@model('free')
def _free(e, st, a, ins, name):
    relobj(e, st, a[0], ('malloc',))


@pat(r'^_Znwm')
def _new(e, st, a, ins, name):
    return newobj(e, st, a[0], 'new')


@pat(r'^_Znam')
def _newa(e, st, a, ins, name):
    return newobj(e, st, a[0], 'new[]')


@pat(r'^_ZdlPv')
def _del(e, st, a, ins, name):
    relobj(e, st, a[0], ('new',))


@pat(r'^_ZdaPv')
def _dela(e, st, a, ins, name):
    relobj(e, st, a[0], ('new[]',))


# ------------------------------------------------------------------ C strings
@model('strlen')
def _strlen(e, st, a, ins, name):
    return len(e.cstr(st, a[0]))


@model('tolower', 'toupper', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isblank', 'isupper', 'islower', 'ispunct')
def _ctype(e, st, a, ins, name):
    c = a[0] & 0xffffffff
    if c > 127:
        return c if name in ('tolower', 'toupper') else 0
    ch = chr(c)
    if name == 'tolower':
        return ord(ch.lower())
    if name == 'toupper':
        return ord(ch.upper())
    if name == 'isblank':
        return int(ch in ' \t')
    if name == 'ispunct':
        return int(33 <= c < 127 and not ch.isalnum())
    if name == 'isspace':
        return int(ch in ' \t\n\v\f\r')
    return int(getattr(ch, name)())


@model('strcmp')
def _strcmp(e, st, a, ins, name):
    x = e.cstr(st, a[0]); y = e.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model('strncmp')
def _strncmp(e, st, a, ins, name):
    x = e.cstr(st, a[0])[:a[2]]; y = e.cstr(st, a[1])[:a[2]]
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model('memcmp', 'bcmp')
def _memcmp(e, st, a, ins, name):
    x = e.get_bytes(st, a[0], a[2]); y = e.get_bytes(st, a[1], a[2])
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model('memchr')
def _memchr(e, st, a, ins, name):
    x = e.get_bytes(st, a[0], a[2])
    i = x.find(bytes([a[1] & 255]))
    return 0 if i < 0 else a[0] + i


@model('strchr')
def _strchr(e, st, a, ins, name):
    x = e.cstr(st, a[0]) + b'\0'
    i = x.find(bytes([a[1] & 255]))
    return 0 if i < 0 else a[0] + i


@model('strcpy')
def _strcpy(e, st, a, ins, name):
    e.put_bytes(st, a[0], e.cstr(st, a[1]) + b'\0')
    return a[0]


@model('strncpy')
def _strncpy(e, st, a, ins, name):
    b = e.cstr(st, a[1])[:a[2]]
    e.put_bytes(st, a[0], b + b'\0' * (a[2] - len(b)))
    return a[0]


@model('strcat')
def _strcat(e, st, a, ins, name):
    n = len(e.cstr(st, a[0]))
    e.put_bytes(st, a[0] + n, e.cstr(st, a[1]) + b'\0')
    return a[0]


# ------------------------------------------------------------------ numbers in text
NUM = re.compile(rb'\s*(@\d+@|[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf|nan))')


def parsenum(e, st, b):
    """-> (value, consumed) or None"""
    m = NUM.match(b)
    if not m:
        return None
    t = m.group(1)
    if t[:1] == b'@':
        return st.x['tokens'][int(t[1:-1])], m.end()
    return float(t), m.end()


@model('strtod')
def _strtod(e, st, a, ins, name):
    b = e.cstr(st, a[0])
    r = parsenum(e, st, b)
    if r is None:
        if a[1]:
            e.store(st, a[1], I64, a[0])
        return 0.0
    if a[1]:
        e.store(st, a[1], I64, a[0] + r[1])
    return r[0]


@model('strtol', '__isoc23_strtol')
def _strtol(e, st, a, ins, name):
    b = e.cstr(st, a[0])
    m = re.match(rb'\s*(@\d+@|[+-]?\d+)', b)
    if not m:
        if a[1]:
            e.store(st, a[1], I64, a[0])
        return 0
    if m.group(1)[:1] == b'@':
        v = st.x['tokens'][int(m.group(1)[1:-1])]
        v = e.toint(st, v)
    else:
        v = int(m.group(1))
    if a[1]:
        e.store(st, a[1], I64, a[0] + m.end())
    return v & (2 ** 64 - 1)


@model('atof')
def _atof(e, st, a, ins, name):
    r = parsenum(e, st, e.cstr(st, a[0]))
    return 0.0 if r is None else r[0]


@model('atoi')
def _atoi(e, st, a, ins, name):
    r = parsenum(e, st, e.cstr(st, a[0]))
    return 0 if r is None else e.toint(st, r[0]) & 0xffffffff


@model('__errno_location')
def _errno(e, st, a, ins, name):
    p = st.x.get('errno')
    if p is None:
        p = e.alloc(st, 4, 'global', 'errno', 0)
        st.x['errno'] = p
    return p


@pat(r'^(__isoc99_|__isoc23_)?sscanf$')
def _sscanf(e, st, a, ins, name):
    b = e.cstr(st, a[0]); f = e.cstr(st, a[1]); k = 2; n = 0; i = 0
    for m in re.finditer(rb'%(\d*)(lf|s|d|f|c)|(\s+)|(.)', f):
        d = m.group(2)
        if m.group(3):
            while i < len(b) and b[i:i + 1].isspace():
                i += 1
            continue
        if m.group(4):
            if b[i:i + 1] != m.group(4):
                return n
            i += 1
            continue
        if d == b's':
            mm = re.match(rb'\s*(\S+)', b[i:])
            if not mm:
                return n if n else 0xffffffff
            w = mm.group(1)
            if m.group(1):
                w = w[:int(m.group(1))]
            e.put_bytes(st, a[k], w + b'\0')
            i += mm.start(1) + len(w)
        elif d == b'd':
            mm = re.match(rb'\s*([+-]?\d+)', b[i:])
            if not mm:
                return n
            e.store(st, a[k], I32, int(mm.group(1)) & 0xffffffff); i += mm.end()
        else:
            r = parsenum(e, st, b[i:])
            if r is None:
                return n
            o, off = e.obj(st, a[k], 8, True, 'write')
            e.put(o, off, 8, r[0])
            i += r[1]
        k += 1; n += 1
    return n


# ------------------------------------------------------------------ stdio
@model('fopen', 'fopen64')
def _fopen(e, st, a, ins, name):
    fn = e.cstr(st, a[0]).decode('latin1'); mode = e.cstr(st, a[1]).decode('latin1')
    if 'r' in mode and fn not in st.vfs:
        return 0
    p = e.alloc(st, 16, 'FILE', fn, 0)
    st.streams[p] = (fn, 0, mode)
    if 'w' in mode:
        st.vfs[fn] = b''
        st.out = [x for x in st.out if x[0] != fn]
    return p


@model('fclose')
def _fclose(e, st, a, ins, name):
    if a[0] not in st.streams:
        e.memerr(st, 'fclose of an invalid stream')
    del st.streams[a[0]]
    return 0


@model('fgets')
def _fgets(e, st, a, ins, name):
    fn, pos, mode = st.streams[a[2]]
    data = st.vfs[fn]
    n = a[1]
    if pos >= len(data):
        return 0
    j = data.find(b'\n', pos)
    j = len(data) if j < 0 else j + 1
    j = min(j, pos + n - 1)
    # a token must not be cut
    e.put_bytes(st, a[0], data[pos:j] + b'\0')
    st.streams[a[2]] = (fn, j, mode)
    return a[0]


DIRECTIVE = re.compile(rb'%([-+ #0]*)(\d*|\*)(\.(?:\d+|\*))?(?:hh|h|ll|l|z|L)?([a-zA-Z%])')


def token(st, v):
    """text that stands for a number until it is read back"""
    tk = dict(st.x.get('tokens', {}))
    k = len(tk)
    tk[k] = v
    st.x['tokens'] = tk
    return b'@%d@' % k


def render(e, st, f, args):
    """what a printf call writes; numbers become tokens (their formatting is compared by the native replay)"""
    out = b''; p = 0; k = 0
    for m in DIRECTIVE.finditer(f):
        out += f[p:m.start()]; p = m.end()
        c = m.group(4)
        if c == b'%':
            out += b'%'; continue
        k += (m.group(2) == b'*') + (m.group(3) == b'.*')
        if k >= len(args):
            break
        v = args[k]; k += 1
        if c == b's':
            t = e.cstr(st, v)
            if m.group(3) and m.group(3) != b'.*':
                t = t[:int(m.group(3)[1:])]
            out += t
        elif c in b'dixuXo':
            out += b'%d' % (sx(v & 0xffffffff, 32) if v < 1 << 32 else sx(v, 64)) if type(v) is int else token(st, v)
        elif c == b'c':
            out += bytes([v & 255]) if type(v) is int else b'?'
        elif c in b'feEgGF':
            out += token(st, v)
        else:
            out += b'?'
    return out + f[p:]


def emit(e, st, f, text):
    if f in st.streams:
        f = st.streams[f][0]
    elif f != 1:
        f = 1                        # stdout and stderr go to the same place, as in the native replay
    st.out.append((f, text))


@model('printf')
def _printf(e, st, a, ins, name):
    emit(e, st, 1, render(e, st, e.cstr(st, a[0]), a[1:]))
    return 0


@model('fprintf')
def _fprintf(e, st, a, ins, name):
    emit(e, st, a[0], render(e, st, e.cstr(st, a[1]), a[2:]))
    return 0


@model('puts')
def _puts(e, st, a, ins, name):
    emit(e, st, 1, e.cstr(st, a[0]) + b'\n')
    return 0


@model('fputs')
def _fputs(e, st, a, ins, name):
    emit(e, st, a[1], e.cstr(st, a[0]))
    return 0


@model('fputc', 'putc', 'putchar')
def _fputc(e, st, a, ins, name):
    emit(e, st, a[1] if len(a) > 1 else 1, bytes([a[0] & 255]))
    return a[0]


@model('fwrite')
def _fwrite(e, st, a, ins, name):
    emit(e, st, a[3], e.get_bytes(st, a[0], a[1] * a[2]))
    return a[2]


@model('fflush', 'setvbuf', 'perror')
def _quiet(e, st, a, ins, name):
    return 0


@model('snprintf', 'sprintf')
def _snprintf(e, st, a, ins, name):
    t = render(e, st, e.cstr(st, a[2 if name == 'snprintf' else 1]), a[3 if name == 'snprintf' else 2:])
    n = len(t)
    if name == 'snprintf':
        if a[1] == 0:
            return n
        t = t[:a[1] - 1] if b'@' not in t else t     # tokens are not cut; their length is not that of the number
        if len(t) > a[1] - 1:
            raise Unsupported('snprintf of a number into a short buffer')
    e.put_bytes(st, a[0], t + b'\0')
    return n


@model('clock', 'time')
def _clock(e, st, a, ins, name):
    return 0


# ------------------------------------------------------------------ iostreams
def oemit(e, st, p, text):
    if p in st.streams or p - 16 in st.streams:
        q = p if p in st.streams else p - 16
        fn, pos, f = st.streams[q]
        if fn is not None and fn.startswith('<ss'):
            st.vfs[fn] = st.vfs.get(fn, b'') + text
        elif fn is not None:
            st.out.append((fn, text))
        return
    st.out.append((1, text))


@pat(r'^_ZStlsI|^_ZNSolsE|^_ZNSo[0-9]|^_ZSt4endlI|^_ZSt5flushI|^_ZSt16__ostream_insert')
def _ostream(e, st, a, ins, name):
    if name.startswith('_ZNSolsE'):
        t = name[8:]
        if t in ('d', 'f', 'e'):
            oemit(e, st, a[0], token(st, a[1]))
        elif t in ('i', 'l', 'j', 'm', 'x', 'y', 's', 't'):
            v = a[1]
            oemit(e, st, a[0], b'%d' % sx(v & ((1 << (32 if t in 'ijst' else 64)) - 1), 32 if t in 'ijst' else 64) if type(v) is int else token(st, v))
        elif t == 'b':
            oemit(e, st, a[0], (b'%d' % (a[1] & 1)) if type(a[1]) is int else token(st, a[1]))
        elif t == 'PFRSoS_E':
            oemit(e, st, a[0], b'\n')
    elif name.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'):
        oemit(e, st, a[0], e.cstr(st, a[1]))
    elif name.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'):
        oemit(e, st, a[0], bytes([a[1] & 255]))
    elif 'RKNSt7__cxx1112basic_string' in name:
        oemit(e, st, a[0], cxxstr(e, st, a[1]))
    elif name.startswith('_ZSt4endlI'):
        oemit(e, st, a[0], b'\n')
    return a[0]


@pat(r'^_ZStlsI.*(St5_SetW|St13_SetPrec|St8_Setfill|St12_Setiosflags)')
def _om(e, st, a, ins, name):
    return a[0]


@pat(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC[12]E')
def _ofs_ctor(e, st, a, ins, name):
    stream_ctor(e, st, a[0])
    st.streams[a[0]] = (None, 0, 'c')
    if not re.search(r'EEC[12]Ev$', name):
        return _ofs_open(e, st, a, ins, name)
    return 0


@pat(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4open')
def _ofs_open(e, st, a, ins, name):
    fn = (e.cstr(st, a[1]) if 'EPKc' in name else cxxstr(e, st, a[1])).decode('latin1')
    st.streams[a[0]] = (fn, 0, 'g'); st.vfs[fn] = b''
    st.out = [x for x in st.out if x[0] != fn]
    return 0


@pat(r'^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE(5close)?(D[012])?Ev|^_ZNKSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv|^_ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv')
def _ofs_dtor(e, st, a, ins, name):
    return 1


@pat(r'^_ZNSt8ios_base4InitC|^_ZNSt8ios_base4InitD|^__cxa_atexit$')
def _iosinit(e, st, a, ins, name):
    return 0


def stream_ctor(e, st, p):
    t = e.alloc(st, 128, 'global', 'stream-vtable', 0)
    o, off = e.obj(st, t, 128, True, 'write')
    o.cells[64 - 24] = (8, 256)
    e.store(st, p, I64, t + 64)


@pat(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC[12]Ev')
def _ifs_ctor(e, st, a, ins, name):
    stream_ctor(e, st, a[0])
    st.streams[a[0]] = (None, 0, 'c')
    return 0


@pat(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC[12]E(PKc|RKNSt7__cxx1112basic_string)')
def _ifs_ctor2(e, st, a, ins, name):
    stream_ctor(e, st, a[0])
    st.streams[a[0]] = (None, 0, 'c')
    return _ifs_open(e, st, a, ins, name.replace('C1', '4open').replace('C2', '4open'))


@pat(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4open')
def _ifs_open(e, st, a, ins, name):
    fn = (e.cstr(st, a[1]) if 'EPKc' in name else cxxstr(e, st, a[1])).decode('latin1')
    if fn in st.vfs:
        st.streams[a[0]] = (fn, 0, 'g')
    else:
        st.streams[a[0]] = (None, 0, 'f')
    return 0


@pat(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE(5close)?(D[012])?Ev')
def _ifs_dtor(e, st, a, ins, name):
    return 0


@pat(r'^_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv|^_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv')
def _ifs_isopen(e, st, a, ins, name):
    return 1 if st.streams[a[0]][0] is not None else 0


def sstate(st, p):
    return st.streams.get(p - 256) or st.streams.get(p) or (None, 0, 'g')


@pat(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv|^_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv')
def _ios_bool(e, st, a, ins, name):
    s = sstate(st, a[0])
    return 0 if 'f' in s[2] or ('goodEv' in name and 'e' in s[2]) else 1


@pat(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv|^_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv')
def _ios_not(e, st, a, ins, name):
    return 1 if 'f' in sstate(st, a[0])[2] else 0


@pat(r'^_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv')
def _ios_eof(e, st, a, ins, name):
    return 1 if 'e' in sstate(st, a[0])[2] else 0


@pat(r'^_ZNSt9basic_iosIcSt11char_traitsIcEE5clearE')
def _ios_clear(e, st, a, ins, name):
    k = a[0] - 256 if a[0] - 256 in st.streams else a[0]
    fn, pos, _ = st.streams[k]
    st.streams[k] = (fn, pos, 'g' if fn is not None else 'f')
    return 0


@pat(r'^_ZNSi5seekgE')
def _seekg(e, st, a, ins, name):
    fn, pos, f = st.streams[a[0]]
    if len(a) > 2 and a[2] != 0:
        raise Unsupported('seekg direction')
    st.streams[a[0]] = (fn, a[1], f.replace('e', ''))
    return a[0]


def cxxstr(e, st, p):
    q = e.load(st, p, I64); n = e.load(st, p + 8, I64)
    return e.get_bytes(st, q, n)


def cxxassign(e, st, p, b):
    """assign bytes to an existing std::string"""
    q = e.load(st, p, I64)
    cap = 15 if q == p + 16 else e.load(st, p + 16, I64)
    if len(b) > cap:
        if q != p + 16:
            relobj(e, st, q, ('new',))
        n = newobj(e, st, len(b) + 1, 'new')
        e.store(st, p, I64, n); e.store(st, p + 16, I64, len(b))
        q = n
    e.put_bytes(st, q, b + b'\0')
    e.store(st, p + 8, I64, len(b))


def cxxinit(e, st, p, b):
    e.store(st, p, I64, p + 16)
    e.store(st, p + 8, I64, 0)
    e.put_bytes(st, p + 16, b'\0')
    if b:
        cxxassign(e, st, p, b)


@pat(r'^_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamI')
def _getline(e, st, a, ins, name):
    k = a[0]
    if k not in st.streams and k - 256 in st.streams:
        k -= 256
    fn, pos, f = st.streams[k]
    d = bytes([a[2] & 255]) if len(a) > 2 else b'\n'
    if 'f' in f or 'e' in f or fn is None:
        st.streams[k] = (fn, pos, f + 'f')
        return a[0]
    data = st.vfs[fn]
    if pos >= len(data):
        cxxassign(e, st, a[1], b'')
        st.streams[k] = (fn, pos, 'ef')
        return a[0]
    j = data.find(d, pos)
    if j < 0:
        cxxassign(e, st, a[1], data[pos:])
        st.streams[k] = (fn, len(data), 'e')
    else:
        cxxassign(e, st, a[1], data[pos:j])
        st.streams[k] = (fn, j + 1, 'g')
    return a[0]


def _skey(st, k):
    return k if k in st.streams or k - 256 not in st.streams else k - 256


def _extract(e, st, p, rx):
    """skip blanks, then match rx in a stream: the match or None (the stream fails)"""
    k = _skey(st, p)
    fn, pos, f = st.streams[k]
    if fn is None or 'f' in f or 'e' in f:
        st.streams[k] = (fn, pos, f + 'f')
        return None
    data = st.vfs[fn]
    while pos < len(data) and data[pos:pos + 1].isspace():
        pos += 1
    m = rx.match(data, pos)
    if not m or m.end() == pos:
        st.streams[k] = (fn, pos, 'ef' if pos >= len(data) else 'f')
        return None
    st.streams[k] = (fn, m.end(), 'e' if m.end() >= len(data) else 'g')
    return m.group(0)


@pat(r'^_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istream')
def _in_string(e, st, a, ins, name):
    w = _extract(e, st, a[0], re.compile(rb'\S+'))
    if w is not None or 'e' not in st.streams[_skey(st, a[0])][2]:
        cxxassign(e, st, a[1], w or b'')
    return a[0]


@pat(r'^_ZNSirsERd|^_ZNSi10_M_extractId')
def _in_double(e, st, a, ins, name):
    w = _extract(e, st, a[0], NUM)
    o, off = e.obj(st, a[1], 8, True, 'write')
    if w is not None:
        e.put(o, off, 8, parsenum(e, st, w)[0])
    elif 'e' not in st.streams[_skey(st, a[0])][2]:
        e.put(o, off, 8, 0.0)
    return a[0]


@pat(r'^_ZNSirsERi|^_ZNSi10_M_extractI[ijlm]')
def _in_int(e, st, a, ins, name):
    w = _extract(e, st, a[0], re.compile(rb'@\d+@|[+-]?\d+'))
    t = I64 if name[-1:] in 'lm' or 'extractIl' in name or 'extractIm' in name else I32
    if w is not None:
        v = e.toint(st, parsenum(e, st, w)[0]) if w[:1] == b'@' else int(w)
        e.store(st, a[1], t, v & (2 ** 64 - 1 if t is I64 else 2 ** 32 - 1))
    elif 'e' not in st.streams[_skey(st, a[0])][2]:
        e.store(st, a[1], t, 0)
    return a[0]


@pat(r'^_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_')
def _in_char(e, st, a, ins, name):
    w = _extract(e, st, a[0], re.compile(rb'.', re.S))
    if w is not None:
        e.put_bytes(st, a[1], w)
    return a[0]


@model('strstr')
def _strstr(e, st, a, ins, name):
    i = e.cstr(st, a[0]).find(e.cstr(st, a[1]))
    return 0 if i < 0 else a[0] + i


@model('strrchr')
def _strrchr(e, st, a, ins, name):
    i = (e.cstr(st, a[0]) + b'\0').rfind(bytes([a[1] & 255]))
    return 0 if i < 0 else a[0] + i


@model('strcspn', 'strspn')
def _strspn(e, st, a, ins, name):
    b = e.cstr(st, a[0]); s = e.cstr(st, a[1]); n = 0
    while n < len(b) and (b[n] in s) == (name == 'strspn'):
        n += 1
    return n


@model('strpbrk')
def _strpbrk(e, st, a, ins, name):
    b = e.cstr(st, a[0]); s = e.cstr(st, a[1])
    n = next((i for i, c in enumerate(b) if c in s), None)
    return 0 if n is None else a[0] + n


@model('strcasecmp')
def _strcasecmp(e, st, a, ins, name):
    x = e.cstr(st, a[0]).lower(); y = e.cstr(st, a[1]).lower()
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model('strtok', 'strtok_r')
def _strtok(e, st, a, ins, name):
    p = a[0]
    if not p:
        p = e.load(st, a[2], I64) if name == 'strtok_r' else st.x.get('strtok', 0)
    if not p:
        return 0
    b = e.cstr(st, p); d = e.cstr(st, a[1]); i = 0
    while i < len(b) and b[i] in d:
        i += 1
    j = i
    while j < len(b) and b[j] not in d:
        j += 1
    nxt = p + j + 1 if j < len(b) else p + j
    if j < len(b):
        e.put_bytes(st, p + j, b'\0')
    if name == 'strtok_r':
        e.store(st, a[2], I64, nxt)
    else:
        st.x['strtok'] = nxt
    return p + i if j > i else 0


@model('rewind')
def _rewind(e, st, a, ins, name):
    fn, pos, mode = st.streams[a[0]]
    st.streams[a[0]] = (fn, 0, mode.replace('E', ''))
    return 0


@model('abs', 'labs')
def _iabs(e, st, a, ins, name):
    if type(a[0]) is not int:
        raise Unsupported(name)
    b = 32 if name == 'abs' else 64
    return abs(sx(a[0], b)) & ((1 << b) - 1)


@model('atol', 'atoll')
def _atol(e, st, a, ins, name):
    r = parsenum(e, st, e.cstr(st, a[0]))
    return 0 if r is None else e.toint(st, r[0]) & (2 ** 64 - 1)


@model('difftime')
def _difftime(e, st, a, ins, name):
    return 0.0


@model('fdim')
def _fdim(e, st, a, ins, name):
    x, y = a
    if type(x) is float and type(y) is float:
        return max(x - y, 0.0)
    return e.fop(st, 'fsub', x, y) if e.decide(st, T.lt(T.const(y), T.const(x))) else 0.0


@model('hypot')
def _hypot(e, st, a, ins, name):
    return m_sqrt(e, st, e.fop(st, 'fadd', e.fop(st, 'fmul', a[0], a[0]), e.fop(st, 'fmul', a[1], a[1])))


@model('log')
def _log(e, st, a, ins, name):
    return m_log(e, st, a[0])


@model('log10', 'log2', 'log1p', 'exp2', 'expm1', 'exp10')
def _log10(e, st, a, ins, name):
    x = a[0]
    if name == 'log1p':
        return m_log(e, st, e.fop(st, 'fadd', 1.0, x))
    if name in ('exp2', 'exp10'):
        return m_pow(e, st, float(name[3:]), x)
    if name == 'expm1':
        return e.fop(st, 'fsub', _exp(e, st, a, ins, 'exp'), 1.0)
    return e.fop(st, 'fdiv', m_log(e, st, x), math.log(float(name[3:])))


def m_log(e, st, x):
    if type(x) is float:
        return math.nan if x < 0 or x != x else -math.inf if x == 0 else math.log(x) if x < math.inf else x
    if e.decide(st, T.lt(x, 0.0)):
        return math.nan
    if e.decide(st, T.eq(x, 0.0)):
        return -math.inf
    k = ('log', x.id)
    r = st.memo.get(k)
    if r is not None:
        return r
    d = T.DEFS.get(x.a[0]) if x.op == 'v' else None
    if d and d[0] == 'exp':
        return d[1]
    p = e.fresh(st, 'log', ('log', x))
    ax = [T.le(p, T.sub(x, 1.0)),
          T.or_(T.not_(T.lt(x, 1.0)), T.lt(p, 0.0)), T.or_(T.not_(T.lt(1.0, x)), T.lt(0.0, p)), T.or_(T.not_(T.eq(x, 1.0)), T.eq(p, 0.0))]
    tab = st.x.get('logtab', ())
    for (x2, p2) in tab:
        ax += [T.or_(T.not_(T.lt(x, x2)), T.lt(p, p2)), T.or_(T.not_(T.lt(x2, x)), T.lt(p2, p)), T.or_(T.not_(T.eq(x2, x)), T.eq(p2, p))]
    st.x['logtab'] = tab + ((x, p),)
    st.defs.extend(ax)
    st.memo[k] = p
    return p


@pat(r'^_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC[12]E(v|RKNS)')
def _ss_ctor(e, st, a, ins, name):
    stream_ctor(e, st, a[0])
    # libstdc++: basic_stringstream has its ostream part at offset 16
    fn = '<ss%x.%d>' % (a[0], st.steps)
    b = b''
    if not name.endswith('Ev'):
        b = cxxstr(e, st, a[1])
    st.vfs[fn] = b
    st.streams[a[0]] = (fn, 0, 'g')
    return 0


@pat(r'^_ZNSt7__cxx11(18basic_stringstream|19basic_[io]stringstream|19basic_ostringstream)IcSt11char_traitsIcESaIcEED')
def _ss_dtor(e, st, a, ins, name):
    return 0


@pat(r'^_ZNSt7__cxx1119basic_[io]stringstreamIcSt11char_traitsIcESaIcEEC[12]E')
def _ss_ctor2(e, st, a, ins, name):
    return _ss_ctor(e, st, a, ins, 'xEv' if name.endswith('Ev') else name)


@pat(r'^_ZNKSt7__cxx11(18basic_stringstream|19basic_ostringstream|19basic_istringstream)IcSt11char_traitsIcESaIcEE3strEv')
def _ss_str(e, st, a, ins, name):
    q = st.streams.get(a[1])
    cxxinit(e, st, a[0], st.vfs.get(q[0], b'') if q else b'')
    return 0


@pat(r'^_ZNSt(13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|9exception)[CD][012]E')
def _exc_ctor(e, st, a, ins, name):
    return 0


# ------------------------------------------------------------------ C++ runtime
@model('__cxa_allocate_exception')
def _cae(e, st, a, ins, name):
    return e.alloc(st, max(a[0], 8), 'exception', 'exc', 0)


@model('__cxa_free_exception')
def _cfe(e, st, a, ins, name):
    return 0


@model('__cxa_throw')
def _throw(e, st, a, ins, name):
    raise Throw(a[0], a[1])


@model('__cxa_begin_catch', '__cxa_get_exception_ptr')
def _bc(e, st, a, ins, name):
    st.x['caught'] = st.exc
    return a[0]


@model('__cxa_end_catch')
def _ec(e, st, a, ins, name):
    return 0


@model('__cxa_rethrow')
def _rethrow(e, st, a, ins, name):
    p, t = st.x['caught']
    raise Throw(p, t)


@pat(r'^_ZSt(\d+)__throw_')
def _stdthrow(e, st, a, ins, name):
    ti = 0
    for n in ('_ZTISt12out_of_range', '_ZTISt16invalid_argument', '_ZTISt11logic_error', '_ZTISt9exception'):
        pass
    m = re.match(r'^_ZSt\d+__throw_(\w+?)(PKc|v|PKcz|i)', name)
    kind = m.group(1) if m else ''
    raise Throw(0xdead, std_ti(e, kind))


def std_ti(e, kind):
    nm = '_ZTISt%d%s' % (len(kind.replace('_fmt', '')), kind.replace('_fmt', ''))
    a = e.gaddr.get(nm)
    if a is None:
        e._gnext += 0
        a = 0x7fff000000000000 + (abs(hash(nm)) % 10 ** 6 << SLOT)
    return a


@model('__clang_call_terminate', '_ZSt9terminatev', '__cxa_pure_virtual')
def _terminate(e, st, a, ins, name):
    return stop(e, st, 'std::terminate')


def stop(e, st, what):
    if st.x.get('expect_stop'):
        e.reach[('expected-stop')] = e.reach.get('expected-stop', 0) + 1
        raise PathEnd('expected-stop')
    e.report(st, 'crash', what)
    raise PathEnd('abort')


@model('abort')
def _abort(e, st, a, ins, name):
    return stop(e, st, 'abort() in ' + st.frames[-1].fn.name)


@model('exit', '_exit')
def _exit(e, st, a, ins, name):
    return stop(e, st, 'exit() in ' + st.frames[-1].fn.name)


@model('__assert_fail')
def _af(e, st, a, ins, name):
    return stop(e, st, 'assertion failed: ' + e.cstr(st, a[0]).decode('latin1'))


@pat(r'^__cxa_guard_acquire')
def _ga(e, st, a, ins, name):
    v = e.load(st, a[0], I8)
    return 0 if v else 1


@pat(r'^__cxa_guard_release')
def _gr(e, st, a, ins, name):
    e.store(st, a[0], I8, 1)
    return 0


# hot std::string operations
@pat(r'^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEPKc$')
def _scmp(e, st, a, ins, name):
    x = cxxstr(e, st, a[0]); y = e.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)


@pat(r'^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$')
def _seq(e, st, a, ins, name):
    return 1 if cxxstr(e, st, a[0]) == e.cstr(st, a[1]) else 0


@pat(r'^_ZSteqIc.*RKNSt7__cxx1112basic_string.*(SA_|S8_|S7_)$')
def _seq2(e, st, a, ins, name):
    return 1 if cxxstr(e, st, a[0]) == cxxstr(e, st, a[1]) else 0


# ------------------------------------------------------------------ harness intrinsics
@model('vf_double')
def _vfd(e, st, a, ins, name):
    nm = e.cstr(st, a[0]).decode()
    lo, hi = a[1], a[2]
    if nm in st.inputs:
        return st.inputs[nm][0]
    fix = e.o.get('fix', {})
    if lo == hi or nm in fix:
        v = lo if lo == hi else fix[nm]
        return v
    v = T.var(nm)
    st.inputs[nm] = (v, lo, hi)
    pick = e.o.get('pick', {}).get(nm)
    st.env[nm] = pick if pick is not None else lo + (hi - lo) * (0.5 + 0.37 * math.sin(1 + len(st.inputs) * 2.3))
    for c in (T.le(lo, v), T.le(v, hi)):
        st.pc.append(c); st.decided[c.id] = True; st.decided[T.not_(c).id] = False
    return v


@model('vf_fresh')
def _vff(e, st, a, ins, name):
    """a value chosen by a contract stub: any real in [lo, hi], a new one at every call"""
    k = st.x.get('fresh', 0); st.x['fresh'] = k + 1
    nm = e.cstr(st, a[0]).decode() + f'#{k}'
    lo, hi = a[1], a[2]
    v = T.var(nm)
    st.inputs[nm] = (v, lo, hi)
    st.env[nm] = lo + (hi - lo) * (0.5 + 0.37 * math.sin(1 + len(st.inputs) * 2.3))
    for c in (T.le(lo, v), T.le(v, hi)):
        st.pc.append(c); st.decided[c.id] = True; st.decided[T.not_(c).id] = False
    return v


@model('vf_choice')
def _vfc(e, st, a, ins, name):
    nm = e.cstr(st, a[0]).decode()
    lo, hi = sx(a[1], 32), sx(a[2], 32)
    if nm in st.choices:
        return st.choices[nm] & 0xffffffff
    fix = e.o.get('fix', {})
    if nm in fix:
        st.choices[nm] = int(fix[nm])
        return st.choices[nm] & 0xffffffff
    for v in range(hi, lo, -1):
        o = st.clone()
        o.choices[nm] = v
        e.push(o)
    st.choices[nm] = lo
    return lo & 0xffffffff


@model('vf_case')
def _vfcase(e, st, a, ins, name):
    return e.o.get('case', 0) & 0xffffffff


@model('vf_native')
def _vfn(e, st, a, ins, name):
    return 0


def tobool(v):
    if isinstance(v, N):
        return v
    return T.TRUE if v else T.FALSE


@model('vf_assume')
def _vfa(e, st, a, ins, name):
    c = a[0]
    if not isinstance(c, N):
        if not c:
            raise PathEnd('assume')
        return 0
    e.assume(st, c)
    return 0


@model('vf_assert')
def _vfas(e, st, a, ins, name):
    msg = e.cstr(st, a[1]).decode()
    e.check_assert(st, tobool(a[0]), msg)
    return 0


def finite(v):
    return not (type(v) is float and (v != v or abs(v) == math.inf))


@model('vf_close')
def _vfclose(e, st, a, ins, name):
    x, y, tol = a[0], a[1], a[2]
    msg = e.cstr(st, a[3]).decode()
    if not (finite(x) and finite(y)):
        e.check_assert(st, type(x) is float and type(y) is float and x == y, msg + ' (non-finite value)')
        return 0
    d = T.sub(x, y)
    if d.op == 'c':
        if isinstance(x, N) or isinstance(y, N):
            e.s.raw(x, y, tol)
        e.check_assert(st, abs(float(d.a[0])) <= tol, msg)
        return 0
    lad = []
    for k in (1.0, 0.01, 1e-4):
        if k > tol * 3:
            lad.append(T.or_(T.lt(k, d), T.lt(d, -k)))
    # two one-sided queries are easier for the solver than a disjunction
    e.check_assert(st, T.le(d, tol), msg, [T.lt(k, d) for k in (1.0, 0.01, 1e-4) if k > tol * 3])
    e.check_assert(st, T.le(-tol, d), msg, [T.lt(d, -k) for k in (1.0, 0.01, 1e-4) if k > tol * 3])
    return 0


@model('vf_le')
def _vfle(e, st, a, ins, name):
    x, y, tol = a[0], a[1], a[2]
    msg = e.cstr(st, a[3]).decode()
    if not (finite(x) and finite(y)):
        r = e.fcmp(st, 'ole', x, y)
        e.check_assert(st, tobool(r), msg + ' (non-finite value)')
        return 0
    d = T.sub(x, y)
    if d.op == 'c':
        if isinstance(x, N) or isinstance(y, N):
            e.s.raw(x, y, tol, False)
        e.check_assert(st, float(d.a[0]) <= tol, msg)
        return 0
    e.check_assert(st, T.le(d, tol), msg, [T.lt(k, d) for k in (1.0, 0.01, 1e-4) if k > tol * 3])
    return 0


@model('vf_reach')
def _vfr(e, st, a, ins, name):
    t = e.cstr(st, a[0]).decode()
    e.reach[t] = e.reach.get(t, 0) + 1
    return 0


@model('vf_trace')
def _vftr(e, st, a, ins, name):
    st.x['trace'] = st.x.get('trace', ()) + ((e.cstr(st, a[0]).decode(), a[1]),)
    return 0


@model('vf_file_begin')
def _vffb(e, st, a, ins, name):
    st.x['fname'] = e.cstr(st, a[0]).decode('latin1')
    st.vfs[st.x['fname']] = b''
    return 0


@model('vf_puts')
def _vfputs(e, st, a, ins, name):
    st.vfs[st.x['fname']] += e.cstr(st, a[0])
    return 0


@model('vf_putd')
def _vfputd(e, st, a, ins, name):
    v = a[0]
    if type(v) is float:
        st.vfs[st.x['fname']] += repr(v).encode()
    else:
        tk = dict(st.x.get('tokens', {}))
        k = len(tk)
        tk[k] = v
        st.x['tokens'] = tk
        st.vfs[st.x['fname']] += b'@%d@' % k
    return 0


@model('vf_puti')
def _vfputi(e, st, a, ins, name):
    st.vfs[st.x['fname']] += b'%d' % sx(a[0], 32)
    return 0


@model('vf_file_end')
def _vffe(e, st, a, ins, name):
    return 0


@model('vf_heap')
def _vfheap(e, st, a, ins, name):
    return st.x.get('heap_bytes', 0) & (2 ** 64 - 1)


@model('vf_expect_stop')
def _vfes(e, st, a, ins, name):
    st.x['expect_stop'] = a[0]
    return 0


NUMB = re.compile(rb'@\d+@|[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)')


def textof(st, f):
    return b''.join(t for k, t in st.out if k == f)


@model('vf_printed')
def _vfprinted(e, st, a, ins, name):
    key = e.cstr(st, a[0]); t = textof(st, 1)
    i = t.rfind(key)
    if i < 0:
        return math.nan
    m = NUMB.search(t, i + len(key))
    return parsenum(e, st, m.group(0))[0] if m else math.nan


def tlines(e, st, a):
    t = textof(st, e.cstr(st, a[0]).decode('latin1'))
    l = t.split(b'\n')
    return l[:-1] if l[-1] == b'' else l


@model('vf_filecount')
def _vffc(e, st, a, ins, name):
    return len(tlines(e, st, a))


@model('vf_filenum')
def _vffn(e, st, a, ins, name):
    l = tlines(e, st, a)
    if a[1] >= len(l):
        return math.nan
    f = l[a[1]].split(b',')
    r = parsenum(e, st, f[a[2]]) if a[2] < len(f) else None
    return r[0] if r else math.nan


@model('vf_linenum')
def _vfln(e, st, a, ins, name):
    l = tlines(e, st, a)
    if a[1] >= len(l):
        return math.nan
    f = NUMB.findall(l[a[1]])
    return parsenum(e, st, f[a[2]])[0] if a[2] < len(f) else math.nan


@model('vf_linehas')
def _vflh(e, st, a, ins, name):
    l = tlines(e, st, a)
    return 1 if a[1] < len(l) and e.cstr(st, a[2]) in l[a[1]] else 0


@model('vf_out_reset')
def _vfor(e, st, a, ins, name):
    st.out = []
    return 0


@model('vf_curves')
def _vfcv(e, st, a, ins, name):
    return 0


@model('vf_iso_begin')
def _vfib(e, st, a, ins, name):
    st.x['iso'] = (dict(st.mem), st.x.get('heap_bytes', 0), a[0])
    type(st)._uid += 1
    st.uid = type(st)._uid               # objects of the snapshot are copied before they are written
    return 1


@model('vf_iso_end')
def _vfie(e, st, a, ins, name):
    mem, hb, p = st.x.pop('iso')
    keep = {p >> SLOT, st.x.get('shared', 0) >> SLOT}
    for k in [k for k in st.mem if k <= e._gnext and k not in mem and k not in keep]:
        del st.mem[k]                    # globals first used in the block: back to their initial values
    for k, o in mem.items():
        if k not in keep:
            st.mem[k] = o
    st.x['heap_bytes'] = hb
    return 0


@model('vf_shared')
def _vfsh(e, st, a, ins, name):
    if 'shared' not in st.x:
        st.x['shared'] = e.alloc(st, 1 << 14, 'malloc', 'shared')
        e.memset(st, st.x['shared'], 0, 1 << 14)
    return st.x['shared']


@model('vf_curve')
def _vfcurve(e, st, a, ins, name):
    """a soil curve by its contract (C12): any monotone function with the right range; kind 0 water content of a suction, 1 suction of a saturation,
    2 conductivity of a saturation"""
    kind, x, p = a[0], a[1], a[2:]
    if any(type(v) is not float for v in p):
        raise Unsupported('curve parameters')
    if kind == 0:
        al, m, n, te, tr = p
        f = lambda h: tr + (te - tr) * T._pow(1 + T._pow(al * max(h, 0.0), n), -m); lo, hi, dec = tr, te, True
    elif kind == 1:
        al, m, n = p[:3]
        f = lambda s: T._pow(max(T._pow(s, -1 / m) - 1, 0.0), 1 / n) / al if s > 0 else 1e30; lo, hi, dec = 0.0, None, True
    else:
        ks, m = p[:2]
        f = lambda s: ks * math.sqrt(max(s, 0)) * (1 - (1 - T._pow(min(s, 1.0), 1 / m)) ** m) ** 2 if s <= 1 else ks; lo, hi, dec = 0.0, ks, False
    if type(x) is float:
        v = f(x)
        if kind < 2 and 0 < x:
            tk = ('h',) + tuple(p[:3]); ent = (x, (v - tr) / (te - tr)) if kind == 0 else (v, x)
            tab = st.x.get('curvetab', {}); row = tab.get(tk, ())
            if ent not in row:
                for x2, w2 in row[-24:]:
                    if type(x2) is not float:
                        st.defs.extend([T.or_(T.not_(T.lt(ent[0], x2)), T.lt(w2, ent[1])), T.or_(T.not_(T.lt(x2, ent[0])), T.lt(ent[1], w2))])
                tab = dict(tab); tab[tk] = row + (ent,); st.x['curvetab'] = tab
        return v
    k = ('curve', kind, tuple(p), x.id)
    r = st.memo.get(k)
    if r is not None:
        return r
    v = e.fresh(st, 'curve', ('fn', f, x))
    ax = [T.le(lo, v)]
    if hi is not None:
        ax.append(T.le(v, hi))
    if kind == 0:
        ax += [T.lt(lo, v), T.or_(T.lt(0.0, x), T.eq(v, hi)), T.or_(T.not_(T.lt(0.0, x)), T.lt(v, hi))]
    elif kind == 1:
        ax += [T.or_(T.not_(T.eq(x, 1.0)), T.eq(v, 0.0)), T.or_(T.not_(T.lt(x, 1.0)), T.lt(0.0, v))]
    else:
        ax += [T.or_(T.not_(T.eq(x, 1.0)), T.eq(v, hi))]
    # water content and suction are inverse to each other: one table of (suction, saturation) per soil
    if kind == 0:
        tk, x, w = ('h',) + tuple(p[:3]), x, T.mul(T.sub(v, tr), 1.0 / (te - tr))
    elif kind == 1:
        tk, x, w = ('h',) + tuple(p[:3]), v, x
    else:
        tk, w = ('K',) + tuple(p[:2]), v
    tab = st.x.get('curvetab', {}); row = tab.get(tk, ())
    for x2, w2 in row[-24:]:
        lt = T.lt if kind == 2 else (lambda u, y: T.lt(y, u))
        ax += [T.or_(T.not_(T.lt(x, x2)), lt(w, w2)), T.or_(T.not_(T.lt(x2, x)), lt(w2, w)), T.or_(T.not_(T.eq(x, x2)), T.eq(w, w2))]
    tab = dict(tab); tab[tk] = row + ((x, w),); st.x['curvetab'] = tab
    st.defs.extend(ax)
    st.memo[k] = v
    return v
