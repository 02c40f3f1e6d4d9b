#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (never writes there).

Objects are cached in /verif/build/cache under a hash of compiler flags, the
source file and every header of the tree, so a change in what the code says
always recompiles what it can affect."""
import os, sys, glob, hashlib, subprocess, concurrent.futures as cf, shutil, tempfile, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
CACHE = os.path.join(OUT, 'cache')

VARIANTS = {
    # the flags the repository's own build uses: optimised, assertions on
    'dbg':  ['-O2'],
    # the project's release configuration: no assertions
    'rel':  ['-O3', '-DNDEBUG', '-fomit-frame-pointer'],
    # stream buffers of a few bytes, so that every buffer edge is met all the time
    'tiny': ['-O2', '-DBWTC_SIM_BUFFER=%s' % os.environ.get('SIM_TINY', '13')],
}
COV = ['-fsanitize-coverage=trace-pc', '-fno-gnu-unique', '-w', '-fno-pie', '-I', HERE]
WRAPS = '''read __read __libc_read __read_nocancel write __write __libc_write __write_nocancel writev __writev readv
pread pread64 pwrite pwrite64 open open64 __open __open64 __open_nocancel __open64_nocancel __libc_open __libc_open64
openat openat64 creat creat64 close __close __libc_close __close_nocancel __close_nocancel_nostatus lseek lseek64 __lseek
__lseek64 __libc_lseek64 fstat fstat64 __fstat64 __fstat64_time64 stat stat64 lstat lstat64 access fcntl fcntl64 __fcntl
__fcntl64 __libc_fcntl64 __fcntl64_nocancel ioctl __ioctl isatty __isatty dup __dup dup2 poll fsync fdatasync ftruncate
ftruncate64 unlink __unlink remove rename time clock_gettime gettimeofday getpid getrandom sleep usleep _exit _Exit
malloc free calloc realloc memalign aligned_alloc posix_memalign cfree
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_once'''.split()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def sources():
    """The production sources, found the way the CMake files find them."""
    top = sorted(glob.glob(REPO + '/*.cpp') + glob.glob(REPO + '/*.cc') + glob.glob(REPO + '/*.c'))
    mains = ['compress', 'uncompress', 'preprocess', 'postprocess']
    by = {os.path.splitext(os.path.basename(p))[0]: p for p in top}
    lib = []
    for d in ('bwtransforms', 'preprocessors', 'probmodels'):
        for e in ('cpp', 'cc', 'c'):
            if d != 'bwtransforms' and e == 'c':
                continue
            lib += glob.glob('%s/%s/*.%s' % (REPO, d, e))
    lib = sorted(lib)
    special = {'Compressor', 'Decompressor'}
    common = [p for n, p in sorted(by.items()) if n not in mains and n not in special]
    return by, lib, common


def headers_key():
    hs = []
    for pat in ('*.hpp', '*.h', '*.hxx', '*.ipp', '*.inl'):
        hs += glob.glob(REPO + '/' + pat) + glob.glob(REPO + '/*/' + pat)
    hs = sorted(h for h in hs if '/_build/' not in h and '/test/' not in h)
    # divsufsort.c and friends may include one another
    inc = sorted(glob.glob(REPO + '/bwtransforms/*.c'))
    return sha(*[x for h in hs + inc for x in (os.path.relpath(h, REPO), rd(h))])


def compile_one(src, flags, hkey):
    cxx = not src.endswith('.c')
    cmd = (['g++'] if cxx else ['gcc']) + flags
    if src.startswith(REPO):
        cmd += ['-I', REPO]
    key = sha(' '.join(cmd).replace(REPO, '@'), rd(src), hkey)
    obj = os.path.join(CACHE, key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        run(cmd + ['-c', src, '-o', tmp])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(variants, driver=True):
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    hkey = headers_key()
    simkey = sha(*[rd(p) for p in sorted(glob.glob(HERE + '/*.h') + glob.glob(HERE + '/*.inc'))])
    by, lib, common = sources()
    for need in ('compress', 'uncompress', 'preprocess', 'postprocess', 'Compressor', 'Decompressor'):
        if need not in by:
            raise SystemExit('BUILD FAILED: %s.cpp is missing in %s' % (need, REPO))
    nodes = os.path.join(HERE, 'nodes.cpp')
    out = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fut = {}
        for v in variants:
            fl = VARIANTS[v] + COV
            for p in set(lib + common + [by[n] for n in
                         ('compress', 'uncompress', 'preprocess', 'postprocess', 'Compressor', 'Decompressor')]):
                fut[v, p] = ex.submit(compile_one, p, fl, hkey)
            fut[v, nodes] = ex.submit(compile_one, nodes, fl + ['-I', REPO], hkey + simkey)
        drv = [os.path.join(HERE, f) for f in ('os.cpp', 'driver.cpp')]
        for p in drv:
            fut['sim', p] = ex.submit(compile_one, p, ['-O2', '-g', '-w', '-fno-pie', '-std=c++17', '-I', HERE], simkey)
        objs = {k: f.result() for k, f in fut.items()}
    for v in variants:
        o = lambda p: objs[v, p]
        libs = [o(p) for p in lib + common]
        groups = {
            'compress': [o(by['compress']), o(by['Compressor'])] + libs,
            'uncompress': [o(by['uncompress']), o(by['Decompressor'])] + libs,
            'preprocess': [o(by['preprocess'])] + libs,
            'postprocess': [o(by['postprocess'])] + libs,
            'node': [o(nodes), o(by['Compressor']), o(by['Decompressor'])] + libs,
        }
        allobjs = sorted(set(sum(groups.values(), []))) + [objs['sim', p] for p in drv]
        exe = os.path.join(OUT, 'sim-%s-%s' % (v, sha(*allobjs, ' '.join(WRAPS))[:16]))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(OUT, 'sim-%s-*' % v)):
                try:
                    if os.path.getmtime(old) < os.path.getmtime(CACHE) - 3600:
                        os.unlink(old)
                except OSError:
                    pass
            tmp = tempfile.mkdtemp(dir=OUT)
            try:
                gobjs = []
                for g, ol in groups.items():
                    ar = os.path.join(tmp, g + '.a')
                    go = os.path.join(tmp, g + '.o')
                    first = 1 if g in ('preprocess', 'postprocess') else 3 if g == 'node' else 2
                    # the programs and nodes are linked like the real ones: their own
                    # objects, and from the common ones only what they need
                    run(['ar', 'crs', ar] + ol[first:])
                    run(['ld', '-r', '--force-group-allocation', '-o', go] + ol[:first] + [ar])
                    if g == 'node':
                        keep = ['lib_main', 'stream_main', 'conc_main']
                    else:
                        run(['objcopy', '--redefine-sym', 'main=%s_main' % g, go])
                        keep = ['%s_main' % g]
                    run(['objcopy'] + ['--keep-global-symbol=' + k for k in keep] + [go])
                    gobjs.append(go)
                run(['g++', '-static', '-no-pie', '-o', exe + '.tmp'] + [objs['sim', p] for p in drv] + gobjs +
                    ['-lboost_program_options', '-Wl,' + ','.join('--wrap=' + w for w in WRAPS)])
                os.replace(exe + '.tmp', exe)
            finally:
                shutil.rmtree(tmp)
        out[v] = exe
    # keep the cache small
    ents = sorted(((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE)), reverse=True)
    for _, f in ents[400:]:
        os.unlink(os.path.join(CACHE, f))
    return out


if __name__ == '__main__':
    for v, p in build(sys.argv[1:] or list(VARIANTS)).items():
        print(v, p)
