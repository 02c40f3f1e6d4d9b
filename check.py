#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, explores seeded plans of the
property on all cores, gates every violation by replaying its minimised plan in
a fresh process, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself failed."""
import array, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as simbuild

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK_S = float(os.environ.get('SIM_SECONDS', '0')) or {'C14': 60, 'C09': 40, 'C11': 40}.get(PROP, 70)
SECONDS = QUICK_S if TIER == 'quick' else float(os.environ.get('SIM_SECONDS', '0')) or 1800
NW = int(os.environ.get('SIM_WORKERS', '8'))
LAYOUT = ['dbg', 'tiny', 'rel', 'dbg', 'tiny', 'rel', 'dbg', 'tiny']
RULES = {
    'nontrivial': 'a plan = workload (input bytes from seeded segments, options, delivery), transfer sizes, heap '
                  'content and fault list, all derived from (VERIF_SEED, property, worker, counter)',
}
NONTRIV = {
    'C01': 'every plan runs compress and uncompress to their end',
    'C02': 'every plan runs preprocess and postprocess to their end',
    'C03': 'at least one planned fault of the target really fired', 'C04': 'at least one planned read fault really fired',
    'C05': 'a proper prefix of a complete file was given to the decoder', 'C06': 'a kill or fault really fired',
    'C07': 'the same data were run in two deliveries or histories', 'C08': 'at least one allocation really failed',
    'C09': 'a sequence of stream operations was run and compared with the model', 'C10': 'a complete archive was walked',
    'C11': 'a run that could not start, or was faulted, was compared with a disk snapshot',
    'C12': 'at least two library operations were interleaved in one process',
    'C13': 'a run with guarded heap (faulted or not) was finished', 'C14': 'peaks of a short and a long input were compared',
    'C15': 'a fault really fired or the input was cut off, and the run was followed to its end'}
REAL = ['compress, uncompress, preprocess, postprocess main programs', 'Compressor, Decompressor, stream classes and everything below them',
        'glibc stdio and start-up code', 'libstdc++', 'boost::program_options']
STUB = ['kernel file system and pipes (in-memory disk)', 'system-call stubs of glibc (wrapped at link time)', 'heap allocator (guarded, seeded content)',
        'process death (end of the forked child at a chosen storage operation)', 'caller threads (coroutines, C12 only)']


def known():
    """Open findings: lines 'known: property=<id> class=<class> <what fails>'."""
    r = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('known: property=%s ' % PROP):
                r.append(l.split(None, 3))
    except OSError:
        pass
    return r


def main():
    t0 = time.time()
    exes = simbuild.build(sorted(set(LAYOUT[:NW])))
    tb = time.time() - t0
    for k in known():
        print('KNOWN-FINDING: property=%s %s' % (PROP, k[3].strip()))
    work = tempfile.mkdtemp(prefix='sim-%s-' % PROP)
    procs = []
    rc, viol, err = 0, None, None
    try:
        for w in range(NW):
            v = LAYOUT[w % len(LAYOUT)]
            pre = os.path.join(work, 'w%d' % w)
            log = open(pre + '.log', 'wb')
            procs.append([w, v, pre, subprocess.Popen([exes[v], 'explore', PROP, v, str(SEED), str(w), str(SECONDS), pre, '1000000000'],
                                                     stdout=log, stderr=log, start_new_session=True), None])
        limit = t0 + tb + SECONDS * 1.5 + 200
        while True:
            live = 0
            for p in procs:
                if p[4] is None:
                    p[4] = p[3].poll()
                    if p[4] is None:
                        live += 1
                    elif p[4] == 1:
                        viol = p
                    elif p[4] != 0:
                        err = p
            if viol or not live or time.time() > limit:
                break
            time.sleep(0.1)
        if not viol and live:
            err = [p for p in procs if p[4] is None][0]
        stats = []
        for p in procs:
            if p[4] is None:
                try:
                    os.killpg(p[3].pid, signal.SIGTERM)
                except OSError:
                    pass
        for p in procs:
            if p[4] is None:
                try:
                    p[3].wait(5)
                except subprocess.TimeoutExpired:
                    os.killpg(p[3].pid, signal.SIGKILL)
                    p[3].wait()
            try:
                stats.append((p[1], json.load(open(p[2] + '.json'))))
            except (OSError, ValueError):
                pass
        if viol:
            # gate: the minimised plan must fail the same way in two fresh processes
            rp = viol[2] + '.replay'
            want = [l for l in open(rp) if l.startswith('class ')][0].strip()
            ok = 0
            for _ in range(2):
                r = subprocess.run([exes[viol[1]], 'replay', rp], stdout=subprocess.PIPE, text=True)
                ok += r.returncode == 1 and want in r.stdout.splitlines()
            if ok == 2:
                d = os.path.join(VERIF, 'build', 'violations')
                os.makedirs(d, exist_ok=True)
                keep = os.path.join(d, '%s-seed%d.replay' % (PROP, SEED))
                shutil.copy(rp, keep)
                print(open(keep).read())
                print('replay with: python3 %s/replay.py %s' % (VERIF, keep))
                print('VIOLATION property=%s replay=%s' % (PROP, keep))
                rc = 1
            else:
                print('ERROR: a violation did not replay in a fresh process: %s' % want)
                rc = 3
        elif err:
            print('ERROR: worker %d (%s) ended with %r' % (err[0], err[1], err[4]))
            print(open(err[2] + '.log', errors='replace').read()[-3000:])
            rc = 3
        evidence(stats, time.time() - t0, tb, 1 if rc == 1 else 0, places(procs, exes))
    finally:
        for p in procs:
            if p[3].poll() is None:
                try:
                    os.killpg(p[3].pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)
    return rc


def functions(exe):
    """Places (call sites of the step counter) of each function of bwtc in exe."""
    cache = exe + '.places'
    try:
        return json.load(open(cache))
    except (OSError, ValueError):
        pass
    r = subprocess.run(['objdump', '-d', '-C', '--no-show-raw-insn', exe], stdout=subprocess.PIPE, text=True, errors='replace')
    base = 0x400000
    fn, hit, o = None, False, {}
    for l in r.stdout.splitlines():
        if l.endswith('>:'):
            fn, hit = l.split('<', 1)[1][:-2], False
        elif l.startswith('  ') and ':' in l:
            if hit:
                o.setdefault(fn, []).append(int(l.split(':', 1)[0], 16) - base)
            hit = '<__sanitizer_cov_trace_pc>' in l and 'call' in l
    o = {f: a for f, a in o.items() if f != '__sanitizer_cov_trace_pc' and not f.startswith(('std::', 'void std::', 'boost::', '_GLOBAL__', 'operator', '__gnu_cxx', 'main', 'lib_main', 'stream_main', 'conc_main')) and ' std::' not in f.split('(')[0] and ' boost::' not in f.split('(')[0] and ' __gnu_cxx' not in f.split('(')[0]}
    json.dump(o, open(cache + '.%d.tmp' % os.getpid(), 'w'))
    os.replace(cache + '.%d.tmp' % os.getpid(), cache)
    return o


def places(procs, exes):
    """Which places of bwtc's functions were executed, over all workers."""
    try:
        hit = {}
        for p in procs:
            if os.path.exists(p[2] + '.places'):
                a = array.array('I')
                a.frombytes(open(p[2] + '.places', 'rb').read())
                hit.setdefault(p[1], set()).update(a)
        out, reached = {}, set()
        names = set()
        for v in hit:
            f = functions(exes[v])
            allp = [(n, x) for n, l in f.items() for x in l]
            out[v] = {'places': len(allp), 'reached': sum(x in hit[v] for _, x in allp)}
            names |= set(f)
            reached |= {n for n, x in allp if x in hit[v]}
        miss = sorted(names - reached)
        return {'by_variant': out, 'functions': len(names), 'functions_entered': len(reached), 'functions_not_entered': [n[:120] for n in miss[:200]]}
    except (OSError, ValueError, KeyError):
        return {}


def evidence(stats, wall, tb, nviol, pl):
    def s(k):
        return sum(x[k] for _, x in stats)

    def sd(k):
        o = {}
        for _, x in stats:
            for a, b in x[k].items():
                o[a] = o.get(a, 0) + b
        return {a: b for a, b in sorted(o.items()) if b}

    def sl(k, names):
        return {n: sum(x[k][i] for _, x in stats) for i, n in enumerate(names)}
    if not stats:
        return
    run = max(x['wall'] for _, x in stats) or 1
    cov = {
        'evaluations': s('plans'), 'distinct_nontrivial': min(s('nontrivial'), s('distinct_plans')),
        'rule': RULES['nontrivial'] + '; distinct by the text of the plan within a worker (workers use different seeds); non-trivial: ' + NONTRIV[PROP],
        'samples': [x for _, st in stats for x in st['samples']][:6],
        'seeds': s('bases'), 'seeds_from_directed_layouts': s('directed'), 'plans_per_hour': int(s('plans') / run * 3600), 'seeds_per_hour': int(s('bases') / run * 3600),
        'simulated_processes': s('procs'), 'simulated_time_steps': s('steps'),
        'simulated_time_unit': 'basic blocks executed by the simulated processes (the code has no clock)',
        'storage_operations': s('storage_ops'), 'allocations': s('allocs'),
        'faults_fired': sd('fired'), 'errno_delivered': sd('errno'), 'short_reads': s('short_reads'), 'short_writes': s('short_writes'),
        'bytes_read': s('bytes_in'), 'bytes_written': s('bytes_out'),
        'distinct_executions': s('distinct_traces'),
        'distinct_executions_measure': 'hash over the sequence of storage operations with their results, faults and the way the process ended, per worker',
        'places_of_the_code': pl, 'edges': max(x['edges'] for _, x in stats), 'task_switches': s('task_switches'),
        'ended': {'exit 0': s('exit0'), 'exit non-zero': s('exit_nonzero'), 'signal': s('signals'), 'killed by the simulator': s('killed'), 'step budget': s('hangs')},
        'source_kinds': sl('in_kinds', ['named file', 'redirected file', 'pipe', 'named pipe', 'file at an offset', "caller's own stream"]),
        'target_kinds': sl('out_kinds', ['new file', 'existing file', 'redirected file', 'pipe', 'appended file', 'file at an offset', 'named pipe']),
        'runs_by_program': sl('by_prog', ['compress', 'uncompress', 'preprocess', 'postprocess', 'library', 'streams', 'interleaved tasks']),
        'probes': sd('probes'), 'plans_skipped': s('skipped'), 'system_calls_outside_the_seam': s('escapes'),
        'workers': [v for v, _ in stats], 'real_components': REAL, 'stubbed_components': STUB, 'build_s': round(tb, 1),
    }
    ev = {'property': PROP, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['sampling: plans not drawn are not covered', 'the simulated kernel behaves like Linux for the calls the programs make',
                          'compiled with gcc on x86-64; the tiny variant changes only the stream buffer sizes'],
          'wall_s': round(wall, 1), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % PROP)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, PROP + '.json'))


sys.exit(main())
