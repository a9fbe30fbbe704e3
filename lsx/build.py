"""Regenerates the LLVM IR (and the native replay build) from /repo's current working tree."""
import hashlib, os, subprocess, glob

REPO = os.environ.get('LGAR_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANGXX, CLANG = '/usr/bin/clang++-18', '/usr/bin/clang-18'
LINK, OPT = '/usr/bin/llvm-link-18', '/usr/bin/opt-18'
CXXF = ['-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-S', '-emit-llvm',
        '-DBMI_ACTIVE', '-DVF_HARNESS', '-w', '-fno-access-control', '-fno-discard-value-names', '-g0']
SKIP = {'bmi_main_lgar.cxx', 'main.cxx', 'xcategorize.cxx', 'xinitialize.cxx', 'xplot.cxx', 'xshow.cxx',
        'main_unit_test_bmi.cxx'}


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])


def incs():
    return [f'-I{REPO}', f'-I{REPO}/include', f'-I{REPO}/bmi', f'-I{REPO}/giuh', f'-I{VERIF}/harness']


def sources(driver=False):
    """the library's translation units; anything new a change adds under src/ or giuh/ is picked up as well"""
    cxx = sorted(p for p in glob.glob(f'{REPO}/src/*.cxx') + glob.glob(f'{REPO}/src/*.cpp') if os.path.basename(p) not in SKIP)
    c = sorted(glob.glob(f'{REPO}/giuh/*.c')) + sorted(glob.glob(f'{REPO}/src/*.c'))
    if driver:
        cxx.append(f'{REPO}/src/bmi_main_lgar.cxx')
    return cxx, c


def build_ir(out):
    """-> {'lib': bc path, 'driver': path}; one .ll per TU"""
    os.makedirs(out, exist_ok=True)
    cxx, c = sources()
    jobs = []
    lls = []
    for s in cxx + c + [f'{VERIF}/harness/cxxrt.cpp']:
        o = os.path.join(out, os.path.basename(s) + '.ll')
        comp = [CLANG] + [f for f in CXXF if f not in ('-std=c++14', '-fno-access-control')] if s.endswith('.c') else [CLANGXX] + CXXF
        jobs.append((subprocess.Popen(comp + incs() + [s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), s))
        lls.append(o)
    d = f'{REPO}/src/bmi_main_lgar.cxx'
    do = os.path.join(out, 'driver.ll')
    dj = subprocess.Popen([CLANGXX] + CXXF + ['-Dmain=lgar_driver_main'] + incs() + [d, '-o', do], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for j, s in jobs:
        t = j.communicate()[0]
        if j.returncode:
            raise BuildError(f'{s}: {t[-3000:]}')
    t = dj.communicate()[0]
    lib = os.path.join(out, 'lib.bc')
    run([LINK] + lls + ['-o', lib])
    return {'lib': lib, 'driver': do if dj.returncode == 0 else None}


def build_harness(out, b, name, driver=False):
    """links one harness with the library; -> path of the textual IR"""
    src = f'{VERIF}/harness/{name}.cpp'
    o = os.path.join(out, name + '.ll'); l = os.path.join(out, name + '.bc'); f = os.path.join(out, name + '.final.ll')
    run([CLANGXX] + CXXF + incs() + [src, '-o', o])
    extra = [b['driver']] if driver else []
    if driver and not b['driver']:
        raise BuildError('driver does not compile')
    run([LINK, b['lib'], o] + extra + ['-o', l])
    run([OPT, '-S', '-passes=internalize,globaldce,mem2reg', '--internalize-public-api-list=harness,_Z*stub_*,_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE*', l, '-o', f])
    return f


def build_native(out, name, driver=False, asan=True):
    src = f'{VERIF}/harness/{name}.cpp'
    nd = os.path.join(out, 'native' + ('' if asan else '-plain')); os.makedirs(nd, exist_ok=True)
    fl = ['-std=c++14', '-O1', '-g', '-ffp-contract=off', '-DBMI_ACTIVE', '-w', '-fno-access-control']
    if asan:
        fl += ['-fsanitize=address', '-fno-omit-frame-pointer']
    cxx, c = sources()
    objs = []; jobs = []
    for s in cxx + c + [f'{VERIF}/native/vf_rt.cpp']:
        o = os.path.join(nd, os.path.basename(s) + '.o')
        objs.append(o)
        if os.path.exists(o):
            continue
        comp = ['gcc'] + [f for f in fl if f not in ('-std=c++14', '-fno-access-control')] if s.endswith('.c') else ['g++'] + fl
        jobs.append((subprocess.Popen(comp + incs() + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), s))
    for j, s in jobs:
        t = j.communicate()[0]
        if j.returncode:
            raise BuildError(f'{s}: {t[-2000:]}')
    ho = os.path.join(nd, name + '.o')
    run(['g++'] + fl + incs() + ['-c', src, '-o', ho])
    if driver:
        d = os.path.join(nd, 'driver.o')
        run(['g++'] + fl + ['-Dmain=lgar_driver_main'] + incs() + ['-c', f'{REPO}/src/bmi_main_lgar.cxx', '-o', d])
        ho2 = [d]
    else:
        ho2 = []
    exe = os.path.join(nd, name)
    run(['g++'] + fl + objs + [ho] + ho2 + ['-o', exe])
    return exe


def build_modular(out, name, driver=False):
    """the native build with the harness' contract stubs in place of the functions they stand for; inputs choose their outcomes"""
    import re
    nd = os.path.join(out, 'native')
    if not os.path.exists(os.path.join(nd, name)):
        build_native(out, name, driver)
    fl = ['-std=c++14', '-O1', '-g', '-ffp-contract=off', '-DBMI_ACTIVE', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']
    rt = os.path.join(nd, 'vf_rt_modular.o')
    run(['g++'] + fl + ['-DVF_MODULAR'] + incs() + ['-c', f'{VERIF}/native/vf_rt.cpp', '-o', rt])
    cxx, c = sources()
    objs = [os.path.join(nd, os.path.basename(s) + '.o') for s in cxx + c] + [os.path.join(nd, name + '.o')] + ([os.path.join(nd, 'driver.o')] if driver else [])
    syms = subprocess.run(['nm', '--defined-only', os.path.join(nd, name + '.o')], capture_output=True, text=True).stdout
    lf = []
    for m in re.finditer(r' T (_Z(\d+)stub_(\S+))', syms):
        t = f'_Z{int(m.group(2)) - 5}{m.group(3)}'
        lf += [f'-Wl,--wrap={t}', f'-Wl,--defsym=__wrap_{t}={m.group(1)}']
    exe = os.path.join(nd, name + '-modular')
    run(['g++'] + fl + objs + [rt] + lf + ['-o', exe])
    return exe


def tree_hash():
    h = hashlib.sha256()
    cxx, c = sources(True)
    for p in cxx + c + sorted(glob.glob(f'{REPO}/include/*')) + sorted(glob.glob(f'{REPO}/bmi/*')) + sorted(glob.glob(f'{REPO}/giuh/*')):
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
