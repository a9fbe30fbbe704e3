"""Query discharge: slicing, caching, z3 portfolio (+cvc5)."""
import os, re, shutil, subprocess, sys, threading, time, math
from fractions import Fraction
import z3
from . import terms as T

z3.set_param('memory_max_size', 6000)


CVC5 = shutil.which('cvc5') or '/usr/local/bin/cvc5'
SLOW = os.environ.get('LSX_SLOW')


class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.time = 0.0; self.cached = 0
        self.hints = 0
        self.by = {}

    def d(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown,
                    solver_time_s=round(self.time, 3), cached=self.cached, skipped_by_model=self.hints, by_engine=dict(self.by))


def zval(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(25).as_fraction())
    if z3.is_true(v):
        return 1.0
    if z3.is_false(v):
        return 0.0
    return 0.0


_bound = {}


def bound(c):
    """(variable, is upper, value, strict) of a constraint on a single variable, else None"""
    b = _bound.get(c.id, 0)
    if b == 0:
        b = None
        if c.op in ('<', '<='):
            k, d = T.parts(c.a[0])
            if len(d) == 1:
                (m, f), = d.items()
                if m.op == 'v':
                    b = (m.id, f > 0, -k / f, c.op == '<')
        _bound[c.id] = b
    return b


def tightest(cs):
    """the same constraints without bounds on a single variable that another one implies"""
    best = {}
    for c in cs:
        b = bound(c)
        if b is not None:
            o = best.get(b[:2])
            if o is None or (b[2] < o[0] if b[1] else b[2] > o[0]) or (b[2] == o[0] and b[3]):
                best[b[:2]] = (b[2], c.id)
    if not best:
        return cs
    keep = {v[1] for v in best.values()}
    out = [c for c in cs if bound(c) is None or c.id in keep]
    return out if len(out) < len(cs) - 8 else cs          # long searches only


class Solver:
    def __init__(self, t1=400, t2=1500, t3=2500, use_cvc5=True):
        self.st = Stats(); self.cache = {}
        self.t1 = t1; self.t2 = t2; self.t3 = t3
        self.use_cvc5 = use_cvc5
        self.keep = []

    def slice(self, base, extra):
        vs = set()
        for c in extra:
            vs |= T.vars_of(c)
        # definitions of introduced variables are conservative extensions: needed only when that variable is
        rest = [(c, T.vars_of(c)) for c in base[0]]
        defs = [(c, T.vars_of(c), T.owner(c)) for c in base[1]]
        out = []
        ch = True
        while ch and (rest or defs):
            ch = False
            nr = []
            for c, v in rest:
                if not v.isdisjoint(vs):
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    nr.append((c, v))
            rest = nr
            nd = []
            for d in defs:
                if d[2] in vs or (d[2] is None and not d[1].isdisjoint(vs)):
                    out.append(d[0])
                    if not d[1] <= vs:
                        vs |= d[1]
                        ch = True
                else:
                    nd.append(d)
            defs = nd
        return out

    def check(self, base, extra, full=False, effort=1.0):
        """returns (res, env) for base /\\ extra; base assumed satisfiable on its own (slicing)."""
        extra = [e for e in extra if e is not T.TRUE]
        if any(e is T.FALSE for e in extra):
            return 'unsat', None
        if not extra:
            return 'sat', None
        cs = tightest(base[0] + base[1] if full else self.slice(base, extra)) + extra
        key = frozenset(c.id for c in cs)
        h = self.cache.get(key)
        if h is not None and not (h[0] == 'unknown' and effort > h[2]):
            self.st.cached += 1
            return h[0], h[1]
        t0 = time.time()
        res, env, eng = self._solve(cs, effort)
        dt = time.time() - t0
        s = self.st
        if SLOW and dt > float(SLOW):
            print('slow query', round(dt, 2), res, eng, len(cs), [str(x)[:300] for x in extra], file=sys.stderr)
        s.queries += 1; s.time += dt
        setattr(s, res, getattr(s, res) + 1)
        s.by[eng] = s.by.get(eng, 0) + 1
        self.cache[key] = (res, env, effort)
        return res, env

    def raw(self, x, y, tol, lower=True):
        """unsat iff x - y <= tol (and >= -tol): used where the difference folded to a constant"""
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 3000)
        d = T.toz3(T.const(x)) - T.toz3(T.const(y))
        t = z3.RealVal(repr(tol) if 'e' not in repr(tol) else str(Fraction(tol)))
        s.add(z3.Or(d > t, d < -t) if lower else d > t)
        r = s.check()
        self.st.queries += 1; self.st.time += time.time() - t0
        k = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
        setattr(self.st, k, getattr(self.st, k) + 1)
        self.st.by['z3'] = self.st.by.get('z3', 0) + 1
        return k

    def _env(self, m):
        env = {}
        for d in m.decls():
            v = m[d]
            env[d.name()] = zval(v)
        return env

    def _solve(self, cs, effort):
        zs = [T.toz3(c) for c in cs]
        lin = not any(nonlinear(c) for c in cs)
        plan = [('z3', self.t1)] if lin else [('z3', self.t1), ('nra', self.t2 * effort)]
        if lin or effort >= 1.0:
            plan.append(('z3b', self.t3 * effort))
        for eng, to in plan:
            if eng == 'nra':
                s = z3.Tactic('qfnra-nlsat').solver() if not any(has_bool(c) for c in cs) else z3.SolverFor('QF_NRA')
            else:
                s = z3.Solver()
                if eng == 'z3b':
                    s.set('smt.random_seed', 7)
            s.set('timeout', int(to))
            s.add(*zs)
            tm = None
            if eng != 'z3':                  # nlsat does not always honour its timeout
                tm = threading.Timer(to / 1000.0 * 1.5 + 0.5, s.ctx.interrupt); tm.daemon = True; tm.start()
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            finally:
                if tm:
                    tm.cancel()
            if r == z3.unsat:
                return 'unsat', None, eng
            if r == z3.sat:
                try:
                    return 'sat', self._env(s.model()), eng
                except z3.Z3Exception:
                    return 'sat', None, eng
        if self.use_cvc5 and effort >= 2.0:
            r, env = self._cvc5(zs, int(self.t3 * effort))
            if r != 'unknown':
                return r, env, 'cvc5'
        return 'unknown', None, 'none'

    def _cvc5(self, zs, to):
        s = z3.Solver(); s.add(*zs)
        txt = s.to_smt2().replace('(check-sat)', '')
        txt = '(set-logic QF_NRA)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith(('(set-logic', '(set-info', ';'))) + '\n(check-sat)\n(get-model)\n'
        try:
            r = subprocess.run([CVC5, '--produce-models', '--nl-cov', '--lang=smt2', f'--tlimit={to}', '-'], input=txt, capture_output=True, text=True,
                               timeout=to / 1000.0 + 1)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown', None
        o = r.stdout
        if o.startswith('unsat'):
            return 'unsat', None
        if o.startswith('sat'):
            env = {}
            for m in re.finditer(r'\(define-fun (\|[^|]*\||\S+) \(\) Real (\(.*\)|\S+)\)', o):
                try:
                    env[m.group(1).strip('|')] = sexp(m.group(2))
                except Exception:
                    return 'sat', None
            return 'sat', env
        return 'unknown', None


def sexp(t):
    t = t.strip()
    if not t.startswith('('):
        return float(t)
    m = re.match(r'^\(- (.*)\)$', t)
    if m:
        return -sexp(m.group(1))
    m = re.match(r'^\(/ (\S+|\(- \S+\)) (\S+)\)$', t)
    return sexp(m.group(1)) / float(m.group(2))


_nl = {}


def nonlinear(n):
    r = _nl.get(n.id)
    if r is None:
        if n.op in ('m', 'x'):
            r = True
        else:
            r = any(nonlinear(y) for y in n.a if isinstance(y, T.N))
        _nl[n.id] = r
    return r


_hb = {}


def has_bool(n):
    """mentions a boolean variable"""
    r = _hb.get(n.id)
    if r is None:
        if n.op == 'v':
            r = n.a[1] == 'B'
        else:
            r = any(isinstance(y, T.N) and has_bool(y) for y in n.a)
        _hb[n.id] = r
    return r
