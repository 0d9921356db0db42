#!/usr/bin/env python3
"""Builds the library from /repo's current tree, builds one check's harness, runs it.

  run.py check C02 [--tier quick|thorough]     run a check (exit 0 / 1)
  run.py replay FILE                           re-run one recorded violation alone
  run.py build                                 build everything (setup)
"""
import sys, os, subprocess, hashlib, json, glob, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
CC, CXX = 'gcc', 'g++'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/cpp', '-I' + V + '/lib']
RAW = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'memalign', 'valloc', 'reallocarray', 'strdup', 'strndup']
NCPU = os.cpu_count() or 8

BASE = ['-std=c11', '-g1', '-fno-omit-frame-pointer']
CONFIGS = {
    # name: (compiler, flags)
    'asan':    (CC, BASE + ['-O1', '-DNDEBUG', '-fsanitize=address']),
    'opt':     (CC, BASE + ['-O3', '-DNDEBUG']),
    # instrumented for the controlled scheduler (lib/sched.cpp is the runtime; the harness selects the scalar level)
    'sched':   (CC, BASE + ['-O1', '-DNDEBUG', '-fsanitize=thread', '-fno-builtin-memcpy', '-fno-builtin-memmove',
                            '-fno-builtin-memset', '-fno-builtin-memcmp', '-fno-tree-loop-distribute-patterns']),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

_hdr = {}
def header_hash(which):
    if which not in _hdr:
        if which == 'repo':
            fs = glob.glob(REPO + '/include/**/*.h', recursive=True)
        elif which == 'repocpp':
            fs = glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/cpp/*')
        else:
            fs = glob.glob(V + '/lib/*.hpp') + glob.glob(V + '/lib/*.h')
        _hdr[which] = filehash(fs)
    return _hdr[which]

class BuildError(Exception): pass

def compile_obj(src, comp, flags, key, redefine=False, lang=None):
    os.makedirs(B + '/o', exist_ok=True)
    k = hashlib.sha256(('\0'.join([comp] + flags + [key, filehash([src]), src, str(redefine), str(lang)])).encode()).hexdigest()[:32]
    o = '%s/o/%s.o' % (B, k)
    if os.path.exists(o): return o
    tmp = o + '.%d.tmp.o' % os.getpid()
    r = sh([comp] + flags + (['-x', lang] if lang else []) + ['-c', src, '-o', tmp])
    if r.returncode: raise BuildError('%s:\n%s' % (src, r.stdout[-4000:]))
    if redefine:
        cmd = ['objcopy']
        for s in RAW: cmd += ['--redefine-sym', s + '=libraw_' + s]
        if '-fsanitize=thread' in flags:
            for s in ['memcpy', 'memmove', 'memset', 'memcmp']: cmd += ['--redefine-sym', s + '=mcr_' + s]
        r = sh(cmd + [tmp])
        if r.returncode: raise BuildError(r.stdout)
    os.replace(tmp, o)
    return o

def lib_sources():
    return sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))

def lib_jobs(cfg):
    comp, flags = CONFIGS[cfg]
    fl = flags + ['-I' + REPO + '/include']
    key = header_hash('repo')
    srcs = sorted(lib_sources(), key=lambda p: -os.path.getsize(p))
    jobs = [(s, comp, fl, key, True) for s in srcs]
    return jobs

def build_jobs(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda j: compile_obj(*j), jobs))

CHECKS = {}
def reg(pid, src, cfg='asan', cflags=(), asan_harness=False, extra=(), link=(), custom=None, hooks='hooks.cpp'):
    CHECKS[pid] = dict(src=src, cfg=cfg, cflags=list(cflags), asan=asan_harness, extra=list(extra), link=list(link), custom=custom, hooks=hooks)

exec(open(V + '/checks/table.py').read())

def harness_jobs(pid):
    c = CHECKS[pid]
    key = header_hash('repocpp') + header_hash('verif')
    fl = ['-std=c++17', '-O1', '-g1', '-Wno-deprecated-declarations'] + INC + c['cflags']
    san = ['-fsanitize=address'] if c['asan'] else []
    jobs = [(V + '/checks/' + s, CXX, fl + san, key, False) for s in c['src']]
    jobs.append((V + '/lib/' + c['hooks'], CXX, ['-std=c++17', '-O1', '-g1'] + INC, key, False))
    for s in c['extra']: jobs.append((V + '/lib/' + s, CXX, fl, key, False))
    return jobs

def build_check(pid):
    c = CHECKS[pid]
    if c['custom']:
        return globals()[c['custom']](pid)
    hj = harness_jobs(pid)
    lj = lib_jobs(c['cfg'])
    objs = build_jobs(hj + lj)
    k = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:32]
    exe = '%s/%s_%s' % (B, pid, k)
    if not os.path.exists(exe):
        for old in glob.glob('%s/%s_*' % (B, pid)):
            try: os.unlink(old)
            except OSError: pass
        link = [CXX] + objs + ['-o', exe + '.tmp', '-Wl,--wrap=croaring_hardware_support', '-lm', '-lpthread'] + c['link']
        if c['cfg'].startswith('asan'): link += ['-fsanitize=address']
        r = sh(link)
        if r.returncode: raise BuildError(r.stdout[-4000:])
        os.replace(exe + '.tmp', exe)
    return exe

# C12: one shared object per build configuration, loaded together by one driver
def cpu_flags():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'): return set(l.split())
    except OSError: pass
    return set()

def build_c12(pid):
    pic = ['-fPIC', '-fvisibility=hidden', '-g1']
    C = ['-std=c11'] + pic
    fl = cpu_flags()
    AVX512 = ['avx512f', 'avx512bw', 'avx512dq', 'avx512_vbmi2', 'avx512_bitalg', 'avx512_vpopcntdq', 'bmi2']
    # name -> (language, flags seen by library and transcript code, instruction-set levels)
    cfgs = [('release', 'c', ['-O3', '-DNDEBUG'], [-1, 0, 1]),
            ('no-avx512', 'c', ['-O1', '-DNDEBUG', '-DCROARING_COMPILER_SUPPORTS_AVX512=0'], [-1]),
            ('no-x64', 'c', ['-O1', '-DNDEBUG', '-DROARING_DISABLE_X64=1'], [-1]),
            ('no-avx', 'c', ['-O3', '-DNDEBUG'], [-2]),
            ('asserts', 'c', ['-O1'], [-1, 0, 1]),
            ('single-threaded', 'c', ['-O1', '-DNDEBUG', '-DCROARING_ATOMIC_IMPL=1'], [-1]),
            ('amalgamated', 'amal', ['-O1', '-DNDEBUG'], [-1])]
    if {'avx2', 'bmi1', 'bmi2'} <= fl: cfgs.append(('march-avx2', 'c', ['-O1', '-DNDEBUG', '-mavx2', '-mbmi', '-mbmi2', '-mlzcnt', '-mpopcnt'], [-1, 0]))
    if set(AVX512) <= fl: cfgs.append(('march-avx512', 'c', ['-O1', '-DNDEBUG'] + ['-m' + x.replace('_', '') for x in AVX512], [-1]))
    key = header_hash('repo')
    hkey = header_hash('repocpp') + header_hash('verif')
    jobs, plan = [], []
    amal = None
    for name, lang, cf, isas in cfgs:
        js = []
        if lang == 'amal':
            k = filehash(lib_sources() + [REPO + '/amalgamation.sh']) + key
            amal = '%s/amal_%s' % (B, hashlib.sha256(k.encode()).hexdigest()[:16])
            if not os.path.exists(amal + '/roaring.c'):
                for old in glob.glob(B + '/amal_*'): shutil.rmtree(old, ignore_errors=True)
                os.makedirs(amal)
                r = sh(['bash', REPO + '/amalgamation.sh', amal], cwd=REPO)
                if r.returncode or not os.path.exists(amal + '/roaring.c'): raise BuildError('amalgamation: ' + r.stdout[-2000:])
            js.append((amal + '/roaring.c', CC, C + cf + ['-I' + amal], k, True, None))
        else:
            for s in sorted(lib_sources(), key=lambda p: -os.path.getsize(p)):
                f = list(cf)
                if isas == [-2] and s.endswith('/isadetection.c'): f.append('-DROARING_DISABLE_AVX=1')
                if lang == 'c': js.append((s, CC, C + f + ['-I' + REPO + '/include'], key, True, None))
                else: js.append((s, CXX, ['-std=c++11', '-fno-gnu-unique', '-Wno-deprecated'] + pic + f + ['-I' + REPO + '/include'], key, True, 'c++'))
        # the transcript code is the same in every configuration, at one optimisation level
        hf = [x for x in cf if not x.startswith('-O') and x != '-DNDEBUG'] + ['-O1', '-DNDEBUG']
        fl2 = ['-std=c++17', '-fno-gnu-unique', '-Wno-deprecated-declarations', '-DROARING_EXCEPTIONS=1'] + pic + hf + INC
        js.append((V + '/checks/c12_body.cpp', CXX, fl2, hkey, False, None))
        js.append((V + '/lib/hooks.cpp', CXX, fl2, hkey, False, None))
        plan.append((name, isas, js))
        jobs += js
    jobs.append((V + '/checks/c12_config.cpp', CXX, ['-std=c++17', '-O1', '-g1'] + INC, hkey, False, None))
    uniq = {}
    for j in jobs: uniq.setdefault(repr(j), j)
    order = sorted(uniq.values(), key=lambda j: (0 if 'c12_body' in j[0] or 'amal_' in j[0] else 1, -os.path.getsize(j[0])))
    objs = dict(zip([repr(j) for j in order], build_jobs(order)))
    allobjs = [objs[repr(j)] for j in jobs]
    k = hashlib.sha256('\0'.join(allobjs).encode()).hexdigest()[:32]
    exe = '%s/%s_%s' % (B, pid, k)
    if os.path.exists(exe): return exe
    for old in glob.glob('%s/%s_*' % (B, pid)):
        try: os.unlink(old)
        except OSError: pass
    def link(p):
        name, isas, js = p
        so = '%s/%s_%s.%s.so' % (B, pid, k, name)
        r = sh([CXX, '-shared', '-o', so] + [objs[repr(j)] for j in js] +
               ['-Wl,-Bsymbolic', '-Wl,--wrap=croaring_hardware_support', '-lm', '-lpthread'])
        if r.returncode: raise BuildError(name + r.stdout[-3000:])
        return so
    with ThreadPoolExecutor(NCPU) as ex: sos = list(ex.map(link, plan))
    with open(exe + '.libs', 'w') as f:
        for (name, isas, js), so in zip(plan, sos):
            for i in isas:
                f.write('%s%s %d %s\n' % (name, '' if i < 0 else ['/scalar', '/avx2'][i], max(i, -1), so))
    r = sh([CXX, objs[repr(jobs[-1])], '-o', exe + '.tmp', '-ldl', '-lpthread'])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    os.replace(exe + '.tmp', exe)
    return exe

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_abort=1:symbolize=1:malloc_context_size=8:max_malloc_fill_size=16384:allocator_release_to_os_interval_ms=-1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    return e

def prune():
    # keep the object cache bounded
    fs = sorted(glob.glob(B + '/o/*.o'), key=os.path.getmtime)
    for f in fs[:-1200]:
        try: os.unlink(f)
        except OSError: pass

def main():
    a = sys.argv[1:]
    if a[0] == 'build':
        ids = a[1:] or sorted(CHECKS)
        jobs, seen = [], set()
        for i in ids:
            if CHECKS[i]['custom']: continue  # built below, with the executables
            for j in harness_jobs(i) + lib_jobs(CHECKS[i]['cfg']):
                kk = repr(j)
                if kk not in seen: seen.add(kk); jobs.append(j)
        try:
            build_jobs(jobs)
            with ThreadPoolExecutor(NCPU) as ex: list(ex.map(build_check, ids))
        except BuildError as e:
            print('BUILD FAILED', e); return 2
        print('built', len(ids)); return 0
    if a[0] == 'replay':
        d = json.load(open(a[1]))
        pid = d['property']
        exe = build_check(pid)
        r = subprocess.run([exe, '--property', pid, '--tier', d['tier'], '--replay-family', d['family'], '--replay-key', d['key'],
                            '--known', V + '/known_findings.txt'], env=env())
        return r.returncode
    if a[0] == 'check':
        pid = a[1]
        tier = 'quick'
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        EV, RP = os.environ.get('VERIF_EVIDENCE', V + '/evidence'), os.environ.get('VERIF_REPLAYS', V + '/replays')
        os.makedirs(EV, exist_ok=True)
        os.makedirs(RP, exist_ok=True)
        t = time.time()
        try:
            exe = build_check(pid)
        except BuildError as e:
            print('BUILD FAILED', e); return 2
        print('built %s in %.1f s' % (pid, time.time() - t))
        budget = '420' if tier == 'quick' else '800'
        budget = os.environ.get('VERIF_BUDGET', budget)
        ev = EV + '/%s.json' % pid
        for f in glob.glob(RP + '/%s_*.json' % pid): os.unlink(f)
        r = subprocess.run([exe, '--property', pid, '--tier', tier, '--evidence', ev, '--replay-dir', RP,
                            '--known', V + '/known_findings.txt', '--budget', budget], env=env())
        prune()
        return r.returncode
    print(__doc__); return 2

sys.exit(main())
