"""Hash-consed term DAG.  Real terms are kept as polynomials over variables (exact rationals),
booleans as a small formula language.  Float evaluator and translation to z3."""
import math
from fractions import Fraction
import z3

_tab = {}
MAXTERMS = 60


class N:
    __slots__ = ('op', 'a', 'id', 'z', 'vs', 'fv')

    def __init__(self, op, a, i):
        self.op = op; self.a = a; self.id = i; self.z = None; self.vs = None; self.fv = None

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic truth value')


def mk(op, *a):
    k = (op,) + tuple((x.id if type(x) is N else ('#', x)) for x in a)
    n = _tab.get(k)
    if n is None:
        n = N(op, a, len(_tab)); _tab[k] = n
    return n


_snapc = {}


def snap(r):
    """exact rational of a double's shortest decimal, replaced by a nearby simple fraction
    when the two agree to 1e-15 relative (1/3600, 1/3, ...)."""
    if r.denominator < 10 ** 9:
        return r
    s = _snapc.get(r)
    if s is None:
        s = r.limit_denominator(10 ** 6)
        if s == 0 or abs(r - s) > abs(r) * Fraction(1, 10 ** 15):
            s = r
            if r.denominator > 10 ** 40:
                try:
                    s = Fraction(repr(float(r)))
                    if s == 0:
                        s = r
                except OverflowError:
                    s = r
        _snapc[r] = s
    return s


def const(v):
    if type(v) is N:
        return v
    if isinstance(v, float):
        v = snap(Fraction(repr(v)))
    elif isinstance(v, int):
        v = Fraction(v)
    return mk('c', v)


TRUE = mk('true'); FALSE = mk('false')
ZERO = const(0); ONE = const(1)


def var(name, sort='R'):
    return mk('v', name, sort)


def isc(n):
    return n.op == 'c'


# ---- polynomials: 'c' | atom | ('p', c0, m1, k1, m2, k2, ...) ; atom = 'v' | 'ite' | ('m', v, v, ...) | ('x', p, q)
def parts(n):
    o = n.op
    if o == 'c':
        return n.a[0], {}
    if o == 'p':
        a = n.a
        return a[0], {a[i]: a[i + 1] for i in range(1, len(a), 2)}
    return Fraction(0), {n: Fraction(1)}


def build(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1:
            return m
    ms = sorted(d.items(), key=lambda t: t[0].id)
    a = [c]
    for m, k in ms:
        a.append(m); a.append(k)
    return mk('p', *a)


def add(a, b):
    a = const(a); b = const(b)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    c1, d1 = parts(a); c2, d2 = parts(b)
    d = dict(d1)
    for m, k in d2.items():
        k0 = d.get(m)
        if k0 is None:
            d[m] = k
        else:
            s = k0 + k
            # cancellation of coefficients equal to rounding
            if s != 0 and abs(s) < abs(k) * Fraction(1, 10 ** 14):
                s = Fraction(0)
            d[m] = s
    c = c1 + c2
    if c != 0 and c1 != 0 and c2 != 0 and abs(c) < abs(c1) * Fraction(1, 10 ** 15):
        c = Fraction(0)
    return build(c, d)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    c, d = parts(a)
    return build(snap(c * k), {m: snap(v * k) for m, v in d.items()})


def neg(a):
    a = const(a)
    c, d = parts(a)
    return build(-c, {m: -v for m, v in d.items()})


def sub(a, b):
    a = const(a); b = const(b)
    if a is b:
        return ZERO
    return add(a, neg(b))


def monomul(m1, m2):
    l = (list(m1.a) if m1.op == 'm' else [m1]) + (list(m2.a) if m2.op == 'm' else [m2])
    l.sort(key=lambda t: t.id)
    return mk('m', *l)


PROD = {}


def mul(a, b):
    a = const(a); b = const(b)
    if isc(a) and isc(b):
        return const(snap(a.a[0] * b.a[0]))
    if isc(a):
        return scale(b, a.a[0])
    if isc(b):
        return scale(a, b.a[0])
    c1, d1 = parts(a); c2, d2 = parts(b)
    n1 = len(d1) + (c1 != 0); n2 = len(d2) + (c2 != 0)
    if n1 * n2 > MAXTERMS:
        if a.id > b.id:
            a, b = b, a
        r = mk('x', a, b)
    else:
        d = {}
        for m, k in d1.items():
            if c2 != 0:
                d[m] = d.get(m, 0) + k * c2
            for m2, k2 in d2.items():
                mm = monomul(m, m2)
                d[mm] = d.get(mm, 0) + k * k2
        if c1 != 0:
            for m2, k2 in d2.items():
                d[m2] = d.get(m2, 0) + k2 * c1
        r = build(snap(c1 * c2), {m: snap(k) for m, k in d.items()})
    PROD.setdefault(r.id, []).append((a, b))
    return r


def exact_div(a, b):
    """a/b as a term when that is syntactically exact (b known nonzero), else None"""
    if isc(b):
        return scale(a, snap(1 / b.a[0]))
    if a is b:
        return ONE
    for x, y in PROD.get(a.id, ()):
        if x is b:
            return y
        if y is b:
            return x
    c1, d1 = parts(a); c2, d2 = parts(b)
    # proportional
    if len(d1) == len(d2) and set(d1) == set(d2):
        m = next(iter(d1)); r = d1[m] / d2[m]
        if all(d1[x] == d2[x] * r for x in d1) and c1 == c2 * r:
            return const(snap(r))
    if c2 == 0 and len(d2) == 1:
        (m, k), = d2.items()
        if m.op in ('v', 'm') and c1 == 0:
            vs = list(m.a) if m.op == 'm' else [m]
            out = {}
            for x, kk in d1.items():
                l = list(x.a) if x.op == 'm' else [x]
                for v in vs:
                    if v in l:
                        l.remove(v)
                    else:
                        return None
                if not l:
                    out[None] = snap(kk / k)
                else:
                    out[mk('m', *l) if len(l) > 1 else l[0]] = snap(kk / k)
            c = out.pop(None, Fraction(0))
            return build(c, out)
    return None


def _cmpnorm(a, b):
    d = sub(a, b)
    if isc(d):
        return d
    c, m = parts(d)
    k = abs(next(iter(m.values())))
    if k != 1:
        d = build(c / k, {x: v / k for x, v in m.items()})
    return d


def lt(a, b):
    d = _cmpnorm(const(a), const(b))
    if isc(d):
        return TRUE if d.a[0] < 0 else FALSE
    return mk('<', d)


def le(a, b):
    d = _cmpnorm(const(a), const(b))
    if isc(d):
        return TRUE if d.a[0] <= 0 else FALSE
    return mk('<=', d)


def eq(a, b):
    d = _cmpnorm(const(a), const(b))
    if isc(d):
        return TRUE if d.a[0] == 0 else FALSE
    c, m = parts(d)
    if next(iter(m.values())) < 0:
        d = neg(d)
    return mk('=', d)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == '<':
        return mk('<=', neg(a.a[0]))
    if a.op == '<=':
        return mk('<', neg(a.a[0]))
    return mk('not', a)


def and_(*xs):
    o = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in o:
            continue
        if x.op == 'and':
            for y in x.a:
                if y not in o:
                    o.append(y)
        else:
            o.append(x)
    if not o:
        return TRUE
    if len(o) == 1:
        return o[0]
    return mk('and', *o)


def or_(*xs):
    o = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in o:
            continue
        o.append(x)
    if not o:
        return FALSE
    if len(o) == 1:
        return o[0]
    return mk('or', *o)


def implies(a, b):
    return or_(not_(a), b)


def show(n, d=0):
    if n.op == 'c':
        f = n.a[0]
        return str(f) if f.denominator < 10 ** 7 else repr(float(f))
    if n.op == 'v':
        return n.a[0]
    if d > 6:
        return '...'
    if n.op == 'p':
        s = [] if n.a[0] == 0 else [show(const(n.a[0]))]
        for i in range(1, len(n.a), 2):
            s.append(f'{float(n.a[i + 1]):.6g}*{show(n.a[i], d + 1)}')
        return '(' + ' + '.join(s) + ')'
    return '(' + n.op + ' ' + ' '.join(show(x, d + 1) if isinstance(x, N) else str(x) for x in n.a) + ')'


def vars_of(n):
    if n.vs is None:
        stack = [n]
        while stack:
            x = stack[-1]
            if x.vs is not None:
                stack.pop(); continue
            if x.op == 'v':
                x.vs = frozenset((x.a[0],)); stack.pop(); continue
            pend = [y for y in x.a if type(y) is N and y.vs is None]
            if pend:
                stack.extend(pend)
            else:
                s = set()
                for y in x.a:
                    if type(y) is N:
                        s |= y.vs
                x.vs = frozenset(s)
                stack.pop()
    return n.vs


_own = {}


def owner(c):
    """the introduced variable a defining constraint belongs to: the latest one it mentions"""
    r = _own.get(c.id)
    if r is None:
        best = None; bn = -1
        for v in vars_of(c):
            if '!' in v:
                n = int(v.rsplit('.', 1)[1])
                if n > bn:
                    best, bn = v, n
        r = _own[c.id] = (best,)
    return r[0]


def deep_vars(n):
    """variables n depends on, through the definitions of introduced variables"""
    r = set(); todo = list(vars_of(n))
    while todo:
        v = todo.pop()
        if v in r:
            continue
        r.add(v)
        d = DEFS.get(v)
        if d:
            for y in d[1:]:
                if type(y) is N:
                    todo.extend(vars_of(y))
    return sorted(r)


def toz3(n):
    if n.z is not None:
        return n.z
    stack = [n]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop(); continue
        pend = [y for y in x.a if type(y) is N and y.z is None]
        if pend:
            stack.extend(pend); continue
        stack.pop()
        o = x.op; A = [y.z if type(y) is N else y for y in x.a]
        if o == 'c':
            f = x.a[0]; x.z = z3.Q(f.numerator, f.denominator)
        elif o == 'v':
            x.z = z3.Bool(A[0]) if A[1] == 'B' else z3.Real(A[0])
        elif o == 'p':
            t = []
            if A[0] != 0:
                t.append(z3.Q(A[0].numerator, A[0].denominator))
            for i in range(1, len(A), 2):
                k = A[i + 1]
                t.append(A[i] if k == 1 else -A[i] if k == -1 else z3.Q(k.numerator, k.denominator) * A[i])
            x.z = z3.Sum(*t) if len(t) > 1 else t[0]
        elif o == 'm':
            x.z = z3.Product(*A)
        elif o == 'x':
            x.z = A[0] * A[1]
        elif o == '<':
            x.z = A[0] < 0
        elif o == '<=':
            x.z = A[0] <= 0
        elif o == '=':
            x.z = A[0] == 0
        elif o == 'not':
            x.z = z3.Not(A[0])
        elif o == 'and':
            x.z = z3.And(*A)
        elif o == 'or':
            x.z = z3.Or(*A)
        elif o == 'true':
            x.z = z3.BoolVal(True)
        elif o == 'false':
            x.z = z3.BoolVal(False)
        else:
            raise ValueError(o)
    return n.z


# ------------------------------------------------------- concrete evaluation
# DEFS maps a defined variable name to (kind, args...) so that an assignment of the
# inputs determines the value of every auxiliary variable.
DEFS = {}


class EvalError(Exception):
    pass


def _fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.inf if a > 0 else -math.inf
    return a / b


def _pow(a, b):
    try:
        return math.pow(a, b)
    except (OverflowError, ValueError, ZeroDivisionError):
        if a == 0 and b < 0:
            return math.inf
        if a < 0:
            return math.nan
        return math.inf


def evalf(n, env, memo):
    """float value (or bool) of n under env: input name -> float."""
    if type(n) is not N:
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        o = x.op
        if o == 'c':
            if x.fv is None:
                x.fv = float(x.a[0])
            memo[x.id] = x.fv
            stack.pop(); continue
        if o == 'v':
            nm = x.a[0]
            if nm in env:
                memo[x.id] = env[nm]; stack.pop(); continue
            d = DEFS.get(nm)
            if d is None:
                raise EvalError(nm)
            pend = [y for y in d[1:] if type(y) is N and y.id not in memo]
            if pend:
                stack.extend(pend); continue
            A = [memo[y.id] if type(y) is N else y for y in d[1:]]
            k = d[0]
            try:
                if k == 'div':
                    v = _fdiv(A[0], A[1])
                elif k == 'sqrt':
                    v = math.sqrt(A[0]) if A[0] >= 0 else math.nan
                elif k == 'pow' or k == 'root':
                    v = _pow(A[0], A[1])
                elif k == 'log':
                    v = math.log(A[0]) if A[0] > 0 else math.nan
                elif k == 'exp':
                    v = math.exp(A[0]) if A[0] < 700 else math.inf
                elif k == 'fn':
                    v = A[0](*A[1:])
                    if v is None:
                        raise EvalError(nm)
                else:
                    raise EvalError(k)
            except (ValueError, OverflowError):
                v = math.nan
            memo[x.id] = v
            stack.pop(); continue
        pend = [y for y in x.a if type(y) is N and y.id not in memo]
        if pend:
            stack.extend(pend); continue
        stack.pop()
        if o == 'p':
            a = x.a
            if x.fv is None:
                x.fv = [float(a[0])] + [float(a[i]) for i in range(2, len(a), 2)]
            fv = x.fv
            v = fv[0]; mag = abs(v)
            for i in range(1, len(fv)):
                t = fv[i] * memo[a[2 * i - 1].id]
                v += t
                if abs(t) > mag:
                    mag = abs(t)
            if abs(v) < mag * 4e-16:
                v = 0.0
        else:
            A = [memo[y.id] for y in x.a]
            if o == 'm':
                v = 1.0
                for t in A:
                    v *= t
            elif o == 'x':
                v = A[0] * A[1]
            elif o == '<':
                v = A[0] < 0
            elif o == '<=':
                v = A[0] <= 0
            elif o == '=':
                v = A[0] == 0
            elif o == 'not':
                v = not A[0]
            elif o == 'and':
                v = all(A)
            elif o == 'or':
                v = any(A)
            elif o == 'true':
                v = True
            elif o == 'false':
                v = False
            else:
                raise ValueError(o)
        memo[x.id] = v
    return memo[n.id]


def has_nan(n, env, memo):
    pass
