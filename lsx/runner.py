"""Runs the symbolic harnesses of one property, replays counterexamples natively, writes the evidence file."""
import copy, json, math, threading, multiprocessing as mp, multiprocessing.connection as mpc, os, random, shutil, subprocess, sys, tempfile, time, traceback
from . import build

VERIF = build.VERIF
ASAN = 'exitcode=42:malloc_fill_byte=64:max_malloc_fill_size=1048576:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0'


# harnesses whose contract stubs stand for whole processes of a model step: a counterexample that the real processes do not show for these inputs is
# replayed against the real update with the processes' outcomes the solver chose
MODULAR = {'acct', 'calib', 'iso2', 'standalone', 'route', 'create', 'insert', 'dzdt', 'iso'}


class Task:
    def __init__(self, harness, case=0, name=None, driver=False, t=60, thorough_t=None, tiers=('quick', 'thorough'), opts=None,
                 stubs=(), native_samples=40, need=(), thorough=None):
        self.harness = harness; self.case = case; self.driver = driver; self.t = t
        self.name = name or f'{harness}#{case}'
        self.thorough_t = thorough_t or 4 * t
        self.tiers = tiers; self.opts = dict(opts or {}); self.stubs = tuple(stubs); self.native_samples = native_samples
        self.need = tuple(need)          # reachability witnesses that must be hit
        self.thorough = dict(thorough or {}); self.is_modular = False


def worker(args):
    path, t, tier, seed = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    t0 = time.time()
    try:
        from . import ir, engine, models, solver, stubs, terms as T
        m = ir.Module(open(path).read())
        o = dict(t.opts)
        if tier == 'thorough':
            o.update(t.thorough)
        o['case'] = t.case
        budget = t.t if tier == 'quick' else t.thorough_t
        o['deadline'] = t0 + budget
        so = o.pop('solver', {})
        if tier == 'thorough' and not so:
            so = dict(t1=800, t2=5000, t3=8000)
        e = engine.Engine(m, solver.Solver(**so), o)
        models.install(e)
        for s in t.stubs:
            stubs.install(e, s)
        e.start('harness')
        e.explore()
        r = dict(name=t.name, harness=t.harness, case=t.case, ended=e.ended, paths=e.paths, steps=e.total_steps, forks=e.forks,
                 asserts=e.asserts_checked, proved=e.asserts_proved, unknown=e.asserts_unknown, reach=e.reach,
                 funcs={k: v for k, v in e.funcs.items()}, solver=e.s.st.d(), wall=round(time.time() - t0, 2),
                 samples=e.samples, cands=[vdict(v) for v in getattr(e, 'cand', [])],
                 viol=[vdict(v) for v in e.viol], undecided=getattr(e, 'undecided', {}),
                 pathenvs=getattr(e, 'pathenvs', []), stubbed=getattr(e, 'stubbed', {}))
        return r
    except Exception as ex:
        return dict(name=t.name, harness=t.harness, case=t.case, error=repr(ex)[:300] + traceback.format_exc()[-1500:], wall=time.time() - t0)


def vdict(v):
    return dict(kind=v.kind, msg=v.msg, env={k: float(x) for k, x in v.env.items()},
                ranges={k: (b[1], b[2]) for k, b in v.inputs.items()}, choices=v.choices, where=v.where, notes=list(v.notes)[-3:])


def child(conn, args):
    conn.send(worker(args)); conn.close()


def pool_run(tasks, names, tier, seed, nproc):
    """one process per task; a task that exceeds its budget by far is ended and counted as not explored"""
    ctx = mp.get_context('fork')
    todo = list(tasks); live = []; out = []
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, (names[t.harness], t, tier, seed)))
            p.start(); w.close()
            live.append((t, p, r, time.time() + 1.5 * (t.t if tier == 'quick' else t.thorough_t) + 60))
        mpc.wait([x[2] for x in live], timeout=0.5)
        nl = []
        for t, p, r, end in live:
            res = None
            if r.poll():
                try:
                    res = r.recv()
                except (EOFError, OSError):
                    res = dict(name=t.name, harness=t.harness, case=t.case, error='the exploration ended abnormally', wall=0)
            elif time.time() > end:
                res = dict(name=t.name, harness=t.harness, case=t.case, error='out of time', wall=0)
            if res is None:
                nl.append((t, p, r, end)); continue
            if p.is_alive():
                p.join(1)
            if p.is_alive():
                p.kill(); p.join()
            r.close(); out.append(res)
        live = nl
    return out


class Native:
    def __init__(self, out):
        self.out = out; self.exe = {}; self.n = 0

    def get(self, t):
        k = t.harness
        if k not in self.exe:
            try:
                self.exe[k] = build.build_native(self.out, t.harness, t.driver)
            except build.BuildError as e:
                self.exe[k] = None
                print('note: native build failed:', str(e)[-300:], file=sys.stderr)
        return self.exe[k]

    def modular(self, t):
        k = t.harness + '!'
        if k not in self.exe:
            try:
                self.exe[k] = build.build_modular(self.out, t.harness, t.driver)
            except build.BuildError as e:
                self.exe[k] = None
                print('note: modular native build failed:', str(e)[-300:], file=sys.stderr)
        return self.exe[k]

    def run(self, t, env, choices, keep=None, modular=False):
        exe = self.modular(t) if modular else self.get(t)
        if not exe:
            return None, ''
        self.n += 1
        d = tempfile.mkdtemp(prefix='n', dir=self.out)
        f = os.path.join(d, 'inputs.txt')
        with open(f, 'w') as h:
            h.write(inputs_text(t, env, choices))
        try:
            r = subprocess.run([exe, f, d], capture_output=True, text=True, errors='replace', timeout=60, cwd=d,
                               env=dict(os.environ, ASAN_OPTIONS=ASAN))
            rc, out = r.returncode, r.stderr
            try:
                out += open(os.path.join(d, 'stdout.txt'), errors='replace').read()[-1500:] if rc not in (0, 43) else ''
            except OSError:
                pass
        except subprocess.TimeoutExpired:
            rc, out = 42, 'VF-FAIL hang: no termination within 60 s'
        shutil.rmtree(d, ignore_errors=True)
        return rc, out


def inputs_text(t, env, choices):
    s = f'case! {t.case}\n'
    for k, v in choices.items():
        s += f'{k} {v}\n'
    for k, v in env.items():
        s += f'{k} {float(v)!r}\n'
    return s


def failmsg(out):
    for l in out.splitlines():
        if 'VF-FAIL' in l:
            return l[l.index('VF-FAIL') + 8:].strip()
    for l in out.splitlines():
        if 'ERROR: AddressSanitizer' in l:
            return 'memory: ' + l[l.index('AddressSanitizer'):].split(' on address')[0].split(' (')[0].strip()
    return 'abnormal termination'


def bad(rc):
    return rc is not None and rc not in (0, 43, 44)


def perturb(rng, env, ranges, scale):
    o = {}
    for k, v in env.items():
        lo, hi = ranges.get(k, (v, v))
        if scale and rng.random() < 0.7:
            w = (hi - lo) * scale
            v = v + rng.uniform(-w, w)
            if abs(v) > 1e-300 and rng.random() < 0.5:
                v = float('%.3g' % v) if scale > 1e-4 else v
        o[k] = min(max(v, lo), hi)
    return o


def run_property(pid, tasks, level, tier, seed, assumptions, bounds, known):
    t0 = time.time()
    out = tempfile.mkdtemp(prefix=f'lsx-{pid}-')
    try:
        return _run(pid, tasks, level, tier, seed, assumptions, bounds, known, t0, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def _run(pid, tasks, level, tier, seed, assumptions, bounds, known, t0, out):
    tasks = [t for t in tasks if tier in t.tiers]
    try:
        b = build.build_ir(out)
    except build.BuildError as e:
        print('error: the tree does not compile:', str(e)[-800:]); return 2
    names = {}
    from concurrent.futures import ThreadPoolExecutor

    def bh(k):
        try:
            return k, build.build_harness(out, b, k[0], k[1]), None
        except build.BuildError as e:
            return k, None, str(e)[-600:]
    uncompiled = {}
    with ThreadPoolExecutor(8) as ex:
        for k, p, err in ex.map(bh, sorted({(t.harness, t.driver) for t in tasks})):
            if err:
                uncompiled[k[0]] = err
                print(f'note: harness {k[0]} does not compile against this tree and is not explored: {err[-300:]}')
            names[k[0]] = p
    todo = [t for t in tasks if names.get(t.harness)]
    if not todo:
        print('error: no harness compiles'); return 2
    native = Native(out)
    nproc = int(os.environ.get('LSX_PROCS', '8'))
    # the native replay binaries are built while the solver works
    with ThreadPoolExecutor(1) as ex:
        def nb():
            for h in sorted({t.harness for t in todo}):
                native.get(next(t for t in todo if t.harness == h))
        fut = ex.submit(nb)
        results = pool_run(sorted(todo, key=lambda t: -t.t), names, tier, seed, nproc)
        fut.result()
    byname = {t.name: t for t in todo}
    rng = random.Random(seed)
    confirmed = []; unconfirmed = []; validated = 0; mismatched = 0; errors = []; vac = []; assumed_out = 0
    jobs = []
    for r in results:
        if 'error' in r:
            errors.append((r['name'], r['error'])); continue
        t = byname[r['name']]
        for tag in t.need:
            if not r['reach'].get(tag):
                vac.append(f'{t.name}:{tag}')
        for v in r['viol']:
            jobs.append(('viol', t, v))
        for v in r['cands']:
            jobs.append(('cand', t, v))
        envs = r['pathenvs']
        k = t.native_samples if tier == 'quick' else 4 * t.native_samples
        for p in (envs if len(envs) <= k else [envs[i] for i in sorted(rng.sample(range(len(envs)), k))]):
            jobs.append(('path', t, p))
    seen_bad = {}
    lock = threading.Lock()

    def do(j):
        kind, t, v = j
        s = rng.randrange(1 << 30)
        rc, o = native.run(t, v['env'], v['choices'])
        if bad(rc):
            return j, 'bad', o, v['env']
        if kind == 'viol':
            r2 = random.Random(s)
            for scale in (0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.2):
                for _ in range(3 if scale else 1):
                    env = perturb(r2, v['env'], v['ranges'], scale)
                    rc2, o2 = native.run(t, env, v['choices'])
                    if bad(rc2):
                        return j, 'bad', o2, env
            if t.harness in MODULAR and not v['msg'].startswith('args:'):
                with lock:
                    native.modular(t)
                rc2, o2 = native.run(t, v['env'], v['choices'], modular=True)
                if bad(rc2):
                    return j, 'modular', o2, v['env']
            return j, 'unconfirmed', o, v['env']
        return j, {0: 'ok', 43: 'assume', 44: 'norun', None: 'norun'}.get(rc, 'bad'), o, v['env']
    with ThreadPoolExecutor(8) as ex:
        for j, res, o, env in ex.map(do, jobs):
            kind, t, v = j
            if res in ('bad', 'modular'):
                msg = failmsg(o)
                if res == 'modular':
                    t = copy.copy(t); t.is_modular = True
                confirmed.append((t, v, msg, env, o))
            elif res == 'unconfirmed':
                unconfirmed.append((t.name, v['msg'], v['env'], v['choices'], v['notes']))
            elif res == 'ok':
                validated += 1
            elif res == 'assume':
                assumed_out += 1
    # known findings
    new = []; hits = {}
    for c in confirmed:
        t, v, msg, env, o = c
        k = match_known(known, pid, t, msg, v, env)
        if k is None:
            new.append(c)
        else:
            hits.setdefault(k['id'], (k, c))
    for k in known:
        if k.get('property') == pid and k.get('status') == 'open':
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    shown = set(); nviol = 0
    rd = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
    for t, v, msg, env, o in new:
        key = (t.harness, msg.split(' (')[0])
        if key in shown:
            continue
        shown.add(key); nviol += 1
        p = os.path.join(rd, f'{pid}_{nviol}.json')
        json.dump(dict(property=pid, modular=t.is_modular, harness=t.harness, case=t.case, driver=t.driver, message=msg, inputs=env, choices=v['choices'],
                       solver_message=v.get('msg', ''), where=v.get('where', []), native_output=o[-3000:],
                       inputs_file=inputs_text(t, env, v['choices'])), open(p, 'w'), indent=1)
        print(f'  {t.name}: {msg}')
        print('  inputs: ' + ', '.join(f'{k}={x!r}' for k, x in list(v['choices'].items()) + list(env.items())[:16]))
        print(f'VIOLATION property={pid} replay={p}')
    tot = {}
    for k in ('paths', 'steps', 'forks', 'asserts', 'proved', 'unknown'):
        tot[k] = sum(r.get(k, 0) for r in results)
    sol = {}
    for r in results:
        for k, x in r.get('solver', {}).items():
            if isinstance(x, dict):
                d = sol.setdefault(k, {})
                for a, c in x.items():
                    d[a] = d.get(a, 0) + c
            else:
                sol[k] = round(sol.get(k, 0) + x, 3)
    ended = {}
    for r in results:
        for k, x in r.get('ended', {}).items():
            ended[k] = ended.get(k, 0) + x
    funcs = {}
    for r in results:
        for k in r.get('funcs', {}):
            funcs[k] = 1
    fl = sorted(f for f in demangle(list(funcs)) if not f.startswith(('std::', '__', 'harness', 'void std::', 'bool std::', 'vf_', 'write_', 'sym(', 'nm(')) and 'std::' not in f.split('(')[0])
    samples = []
    for r in results:
        for s in r.get('samples', [])[:2]:
            samples.append(dict(harness=r['name'], **s))
    complete = all(k in ('done', 'assume', 'infeasible', 'expected-stop') for k in ended)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=assumptions,
              coverage=dict(states=tot['paths'] + tot['forks'], transitions=tot['steps'], traces_validated_against_impl=validated,
                            samples=samples[:12], symbolic_paths=tot['paths'], assertions_checked=tot['asserts'],
                            assertions_proved=tot['proved'], assertions_undecided=tot['unknown'], path_endings=ended,
                            complete_within_bounds=complete, solver=sol, functions_encoded=fl, bounds=bounds,
                            native_replays=native.n, native_inputs_rejected_by_assumptions=assumed_out,
                            unconfirmed_solver_models=[dict(task=a, message=m, choices=c) for a, m, e, c, n in unconfirmed][:20],
                            vacuous_witnesses=vac, harnesses_not_compiling=list(uncompiled), engine_errors=[e[:300] for n, e in errors],
                            known_findings_reproduced=[h for h in hits],
                            tasks=[dict(name=r['name'], wall_s=round(r.get('wall', 0), 1), paths=r.get('paths', 0), endings=r.get('ended', {}),
                                        asserts=r.get('asserts', 0), proved=r.get('proved', 0), reach=r.get('reach', {}),
                                        undecided=r.get('undecided', {}), stubs=r.get('stubbed', {})) for r in results]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid}: paths={tot["paths"]} instructions={tot["steps"]} assertions={tot["asserts"]} proved={tot["proved"]} '
          f'undecided={tot["unknown"]} queries={sol.get("queries", 0)} solver={sol.get("solver_time_s", 0)}s validated={validated} '
          f'unconfirmed={len(unconfirmed)} complete={complete} wall={ev["wall_s"]}s')
    if ended and not complete:
        print('  not explored to the end:', {k: v for k, v in ended.items() if k not in ('done', 'assume', 'infeasible', 'expected-stop')})
    for u in unconfirmed[:int(os.environ.get('LSX_SHOW', '4'))]:
        print('  unconfirmed solver model:', u[0], u[1], u[3], {k: float('%.6g' % x) for k, x in list(u[2].items())[:14]}, u[4])
    for n, e in errors[:4]:
        print('  engine error in', n, e[-600:])
    if vac:
        print('  note: witnesses not reached:', vac)
    if nviol:
        return 1
    if len(errors) == len(results):
        return 2
    return 0


def match_known(known, pid, t, msg, v, env):
    for k in known:
        if k.get('status') != 'open' or k['property'] != pid:
            continue
        if k.get('harness') and k['harness'] != t.harness:
            continue
        if k.get('message') and k['message'] not in msg:
            continue
        if any(v['choices'].get(a) not in (b if isinstance(b, list) else [b]) for a, b in k.get('choices', {}).items()):
            continue
        if 'case' in k and t.case not in (k['case'] if isinstance(k['case'], list) else [k['case']]):
            continue
        return k
    return None


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return r.stdout.splitlines()
    except Exception:
        return names


def replay(path):
    d = json.load(open(path))
    t = Task(d['harness'], d['case'], driver=d.get('driver', False))
    out = tempfile.mkdtemp(prefix='lsx-replay-')
    try:
        n = Native(out)
        rc, o = n.run(t, d['inputs'], d['choices'], modular=d.get('modular', False))
        print(o[-3000:])
        print('reproduced' if bad(rc) else f'not reproduced (exit {rc})')
        return 1 if bad(rc) else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)
