#!/usr/bin/env python3
"""Runner of the checks: builds bitcode of /repo's current tree, explores each harness symbolically with
zsym, replays counterexamples (and sampled paths) against the natively compiled sources, writes evidence.

usage: check.py setup | check.py run <property> [--tier quick|thorough] | check.py list | check.py replay <file>"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob, re, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ZREPO', '/repo')
CLANG = '/usr/bin/clang-18'
SKIP = ['zdb_hexdump', 'zdbd_hexdump', 'zdb_fulldump', 'zdbd_fulldump', 'zdb_timelog', 'zdbd_timelog']
DEFS = ['-DZDB_REVISION="sym"', '-DZDBD_REVISION="sym"']
INC = ['-I' + REPO + '/libzdb', '-I' + REPO + '/zdbd', '-I' + V + '/env', '-I' + V + '/harness']
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-msse4.2', '-ffp-contract=off', '-emit-llvm', '-c', '-std=gnu11', '-w']
ENVFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-ffp-contract=off', '-g', '-emit-llvm', '-c', '-std=gnu11', '-w']
NCPU = os.cpu_count() or 4
sys.path.insert(0, V)


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise Inconclusive('command failed: %s\n%s' % (' '.join(cmd)[:400], r.stdout[-3000:]))
    return r.stdout


def par(cmds):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(sh, cmds))


def zsym_path():
    src = [V + '/zsym/zsym.cpp', V + '/zsym/expr.h']
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = V + '/build/zsym-' + h
    if not os.path.exists(out):
        os.makedirs(V + '/build', exist_ok=True)
        for o in glob.glob(V + '/build/zsym-*'):
            os.unlink(o)
        cxx = sh(['llvm-config-18', '--cxxflags']).replace('-fno-exceptions', '').replace('-std=c++17', '').split()
        ld = sh(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support']).split()
        sh(['g++', '-O2', '-g0', '-std=c++17', '-fexceptions', '-w', '-o', out + '.tmp', src[0]] + cxx + ld + ['-lz3'])
        os.rename(out + '.tmp', out)
    return out


# ---------------------------------------------------------------- building
def sources(target):
    """list of (path, extra flags)"""
    lib = [(f, []) for f in sorted(glob.glob(REPO + '/libzdb/*.c'))]
    d = [(f, ['-Dmain=zdbd_main']) for f in sorted(glob.glob(REPO + '/zdbd/*.c'))]
    if target == 'daemon':
        return lib + d
    if target == 'lib':
        return lib
    if target.startswith('daemon+u:'):
        return lib + d + [(f, ['-Dmain=tool_main', '-Dusage=tool_usage', '-Dexit=tool_exit']) for f in sorted(glob.glob(REPO + '/utilities/' + target[9:] + '/*.c'))]
    if target.startswith('daemon+'):
        return lib + d + [(f, ['-Dmain=tool_main', '-Dusage=tool_usage']) for f in sorted(glob.glob(REPO + '/tools/' + target[7:] + '/*.c'))]
    if target.startswith('tool:'):
        t = target[5:]
        return lib + [(f, ['-Dmain=tool_main']) for f in sorted(glob.glob(REPO + '/tools/' + t + '/*.c'))]
    raise Inconclusive('unknown target ' + target)


def harness_files(job):
    hs = list(job.get('files', []))
    hs.append(job['harness'] + '.c')
    if job.get('target', 'daemon').startswith('daemon') and 'zharn.c' not in hs:
        hs.append('zharn.c')
    return hs


def build_target(tmp, target):
    key = target.replace(':', '_')
    out = '%s/%s.bc' % (tmp, key)
    if os.path.exists(out):
        return out
    cmds, objs = [], []
    for i, (f, fl) in enumerate(sources(target)):
        o = '%s/%s_%d.bc' % (tmp, key, i)
        objs.append(o)
        cmds.append([CLANG] + CFLAGS + DEFS + INC + fl + [f, '-o', o])
    par(cmds)
    sh(['llvm-link-18'] + objs + ['-o', out + '.l'])
    sh(['opt-18', '-passes=mem2reg', out + '.l', '-o', out])
    return out


def build_env(tmp, defs):
    key = hashlib.md5(' '.join(defs).encode()).hexdigest()[:8]
    out = '%s/env_%s.bc' % (tmp, key)
    if not os.path.exists(out):
        par([[CLANG] + ENVFLAGS + ['-I' + V + '/env'] + defs + [V + '/env/%s.c' % f, '-o', '%s/%s_%s.bc' % (tmp, f, key)] for f in ('zenv', 'zrt')])
        sh(['llvm-link-18', '%s/zenv_%s.bc' % (tmp, key), '%s/zrt_%s.bc' % (tmp, key), '-o', out])
    return out


def build_job(tmp, job):
    defs = job.get('defs', [])
    t = build_target(tmp, job.get('target', 'daemon'))
    e = build_env(tmp, defs)
    key = hashlib.md5((job['harness'] + ' '.join(defs) + job.get('target', 'daemon')).encode()).hexdigest()[:10]
    out = '%s/job_%s.bc' % (tmp, key)
    if not os.path.exists(out):
        objs = []
        for h in harness_files(job):
            o = '%s/h_%s_%s.bc' % (tmp, key, h.replace('.c', ''))
            sh([CLANG] + CFLAGS + INC + defs + [V + '/harness/' + h, '-o', o])
            objs.append(o)
        sh(['llvm-link-18'] + objs + ['-o', out + '.l'])
        sh(['opt-18', '-passes=mem2reg', out + '.l', '-o', out + '.h'])
        sh(['llvm-link-18', t, e, out + '.h', '-o', out])
    return out


def build_native(tmp, job):
    target = job.get('target', 'daemon')
    defs = job.get('defs', [])
    key = hashlib.md5((job['harness'] + ' '.join(defs) + target).encode()).hexdigest()[:10]
    out = '%s/native_%s' % (tmp, key)
    if os.path.exists(out):
        return out
    base = ['gcc', '-O0', '-g', '-fno-pie', '-fno-common', '-fsanitize=address', '-std=gnu11', '-w', '-msse4.2', '-DZNATIVE', '-c'] + INC
    tk = target.replace(':', '_')
    tobjs, cmds = [], []
    for i, (f, fl) in enumerate(sources(target)):
        o = '%s/nt_%s_%d.o' % (tmp, tk, i)
        tobjs.append(o)
        if not os.path.exists(o):
            cmds.append(['sh', '-c', '"$@" && objcopy --rename-section .data=tgt_data --rename-section .bss=tgt_bss ' + o, 'x'] + base + DEFS + fl + [f, '-o', o])
    hobjs = []
    for f in [V + '/env/zenv.c', V + '/env/znative.c'] + [V + '/harness/' + h for h in harness_files(job)]:
        o = '%s/nh_%s_%s.o' % (tmp, key, os.path.basename(f).replace('.c', ''))
        hobjs.append(o)
        cmds.append(base + defs + [f, '-o', o])
    par(cmds)
    wraps = re.findall(r'__wrap_(\w+)', sh(['nm', '%s/nh_%s_zenv.o' % (tmp, key)]))
    sh(['gcc', '-no-pie', '-fsanitize=address'] + tobjs + hobjs + ['-o', out] + ['-Wl,--wrap=' + w for w in sorted(set(wraps))])
    return out


def native_run(exe, path, timeout=60, verbose=False):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:malloc_fill_byte=190:max_malloc_fill_size=1048576:max_allocation_size_mb=64:allocator_may_return_null=1:detect_stack_use_after_return=0'
    if verbose:
        e['ZVERBOSE'] = '1'
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    out = r.stdout.decode(errors='replace')
    err = r.stderr.decode(errors='replace')
    m = re.search(r'REPLAY-VIOLATION assert (\S+)', out)
    if m:
        return 'assert:' + m.group(1), out
    if r.returncode == 99 or 'AddressSanitizer' in err:
        k = re.search(r'ERROR: AddressSanitizer: (.*)', err)
        return 'memory:' + (k.group(1) if k else '?'), err
    if r.returncode < 0:
        return 'signal:%d' % -r.returncode, err
    if 'REPLAY-COMPLETED' in out:
        return 'completed', out
    if 'REPLAY-ASSUMPTION-FALSE' in out:
        return 'assumption', out
    return 'exit:%d' % r.returncode, out + err


def write_inputs(path, job, inputs, head=''):
    with open(path, 'w') as f:
        for l in head.split('\n'):
            if l:
                f.write('# ' + l + '\n')
        f.write('job %s\n' % json.dumps(job))
        for k, v in job.get('params', {}).items():
            f.write('param %s %d\n' % (k, v))
        for n, v in inputs:
            f.write('input %s %d\n' % (n.replace(' ', '_'), v))


# ---------------------------------------------------------------- running
def run_zsym(tmp, bc, job, ignore, idx, workers, timeout):
    out = '%s/out_%d.json' % (tmp, idx)
    cmd = [zsym_path(), bc, '--workers', str(workers), '--timeout', str(timeout), '--out', out, '--max-steps', str(job.get('max_steps', 20000000)), '--query-timeout', str(job.get('query_timeout', 60000))]
    for k in ['zenv.c', 'zrt.c'] + harness_files(job):
        cmd += ['--keep', k]
    for s in SKIP + job.get('skip', []):
        cmd += ['--skip', s]
    for k, v in job.get('params', {}).items():
        cmd += ['--param', '%s=%d' % (k, v)]
    for i in ignore:
        cmd += ['--ignore', i]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        raise Inconclusive('zsym failed: ' + r.stdout[-2000:])
    res = json.load(open(out))
    res['log'] = r.stdout[-2000:]
    return res


def load_known():
    fixed, known = [], []
    p = V + '/known-findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                known.append(json.loads(l))
            elif l.startswith('fixed:'):
                fixed.append(l)
    return known, fixed


def jobs_for(prop, tier):
    import registry
    only = os.environ.get('ZONLY')    # development: some of the jobs
    js = [j for j in registry.JOBS[prop] if not only or any(o in j['name'] for o in only.split(','))]
    out = []
    for j in js:
        if tier == 'quick' and j.get('thorough_only'):
            continue
        j = dict(j)
        if tier == 'thorough' and 'thorough' in j:
            t = j.pop('thorough')
            p = dict(j.get('params', {}))
            p.update(t.get('params', {}))
            j.update(t)
            j['params'] = p
        j.pop('thorough', None)
        j.pop('thorough_only', None)
        out.append(j)
    return out


def run(prop, tier):
    import registry
    t0 = time.time()
    jobs = jobs_for(prop, tier)
    known, _ = load_known()
    known = [k for k in known if k['property'] == prop]
    tmp = tempfile.mkdtemp(prefix='zv_%s_' % prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    agg = dict(solver_queries=0, solver_seconds=0.0, queries_answered_by_cache=0, queries_answered_by_model_reuse=0, assertions_decided_symbolically=0, assertions_decided_concretely=0, instructions_executed=0)
    funcs, jobinfo, problems, viols, knownhit = {}, [], [], [], {}
    budget = float(os.environ.get('ZBUDGET', 780 if tier == 'quick' else 6 * 3600))
    try:
        zsym_path()
        idx = 0
        for job in jobs:
            bc = build_job(tmp, job)
        for job in jobs:
            bc = build_job(tmp, job)
            idx += 1
            left = budget - (time.time() - t0)
            if left < 5:
                problems.append('time budget exhausted before job %s' % job['name'])
                break
            ig = [k['key'] for k in known if k.get('job', job['name']) == job['name']]
            res = run_zsym(tmp, bc, job, ig, idx, NCPU, min(left, job.get('timeout', 400 if tier == 'quick' else 7200)))
            info = dict(job=job['name'], harness=job['harness'], params=job.get('params', {}), bounds=job.get('bounds', ''), paths=res['paths'], paths_completed=res['paths_completed'], paths_ruled_out_by_assumptions=res['paths_assumed_away'], branch_forks=res['forks'], solver_queries=res['solver_queries'], solver_seconds=res['solver_seconds'], wall_s=res['wall'], complete=res['complete'], assertions=res['asserts'], covers=res['covers'])
            jobinfo.append(info)
            cov['states'] += res['paths_completed']
            cov['transitions'] += res['forks']
            agg['solver_queries'] += res['solver_queries']
            agg['solver_seconds'] += res['solver_seconds']
            agg['queries_answered_by_cache'] += res['query_cache_hits']
            agg['queries_answered_by_model_reuse'] += res['model_reuse']
            agg['assertions_decided_symbolically'] += res['asserts_symbolic']
            agg['assertions_decided_concretely'] += res['asserts_concrete']
            agg['instructions_executed'] += res['instructions']
            for f, d in res['functions'].items():
                if d['file'].startswith(REPO):
                    o = funcs.setdefault(f, dict(file=d['file'][len(REPO) + 1:], instructions=d['instructions'], executed=0))
                    o['executed'] = max(o['executed'], d['covered'])
            bad = False
            for v in res['violations']:
                kn = [k for k in known if k['key'] == v['key'] and k.get('job', job['name']) == job['name']]
                if kn:
                    knownhit[kn[0]['key']] = kn[0]
                    continue
                bad = True
                os.makedirs(V + '/evidence/replay', exist_ok=True)
                rp = '%s/evidence/replay/%s-%s.txt' % (V, prop, re.sub(r'[^A-Za-z0-9_.-]', '_', v['key'])[:80])
                head = 'property %s\nviolation %s\nat %s\nnotes %s' % (prop, v['key'], v['stack'], v['notes'])
                write_inputs(rp, job, v['inputs'], head)
                st, detail = native_run(build_native(tmp, job), rp)
                ok = st == v['id'] or (v['key'].startswith('memory:') and (st.startswith('memory:') or st.startswith('signal:'))) or (v['key'].startswith('nontermination') and st == 'timeout') or (v['key'].startswith(('abort', 'process-exit', 'assert-fail')) and st not in ('completed', 'assumption'))
                if not ok and (v['key'].startswith('memory:')) and st not in ('assumption',):
                    # the executor's bounds are exact; a native run may land in mapped memory and only show later
                    ok = st != 'completed' or bool(re.search('out-of-bounds|write-to-constant|null-deref', v['key']))
                viols.append(dict(key=v['key'], job=job['name'], at=v['stack'], notes=v['notes'], native=st, confirmed=ok, replay=rp, inputs=[i for i in v['inputs'] if not i[0].startswith('#')][:200]))
                print('counterexample: %s job=%s native replay: %s' % (v['key'], job['name'], st))
                print('   at ' + v['stack'])
                print('   notes ' + v['notes'])
            for k in known:
                if k.get('job', job['name']) == job['name'] and k['key'] not in [v['key'] for v in res['violations']] and k.get('must_reproduce', False):
                    problems.append('known finding %s not reproduced' % k['key'])
            if bad:
                break
            if not res['complete']:
                problems.append('job %s did not finish: unsupported=%s paths=%d %s' % (job['name'], res['unsupported'][:6], res['paths'], res['log'][-300:]))
            for c in job.get('covers', []):
                if not res['covers'].get(c):
                    problems.append('job %s: reachability witness "%s" not reached (vacuous)' % (job['name'], c))
            if res['complete'] and not job.get('covers'):
                problems.append('job %s has no reachability witness' % job['name'])
            # validate the encoding: sampled symbolic paths re-run natively must complete without a violation
            nval = job.get('validate', 6)
            smp = res['samples']
            step = max(1, len(smp) // nval) if nval else 1
            chosen = smp[::step][:nval]
            if chosen:
                exe = build_native(tmp, job)
                files = []
                for i, s in enumerate(chosen):
                    ins = [(t.rsplit('=', 1)[0], int(t.rsplit('=', 1)[1])) for t in s.split('|', 1)[1].split(' ') if '=' in t]
                    p = '%s/smp_%d_%d.txt' % (tmp, idx, i)
                    write_inputs(p, job, ins)
                    files.append(p)
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    rs = list(ex.map(lambda p: native_run(exe, p), files))
                for p, (st, detail), s in zip(files, rs, chosen):
                    if st == 'completed':
                        cov['traces_validated_against_impl'] += 1
                    else:
                        shutil.copy(p, '/tmp/failed_sample.txt')
                        problems.append('job %s: native run of a sampled path differs: %s\n%s\n%s' % (job['name'], st, s[:600], detail[-1500:] if not any('native run of a sampled' in q for q in problems) else ''))
                if len(cov['samples']) < 8:
                    cov['samples'] += [dict(job=job['name'], path=s[:600]) for s in chosen[:2]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    meta = registry.META.get(prop, {})
    cov.update(agg)
    cov['solver_seconds'] = round(cov['solver_seconds'], 3)
    cov['functions_encoded'] = funcs
    cov['functions_encoded_count'] = len(funcs)
    cov['jobs'] = jobinfo
    cov['bounds'] = meta.get('bounds', '')
    cov['outside_bounds'] = meta.get('outside', '')
    cov['explanation'] = 'Bounded symbolic execution of LLVM bitcode generated from the current sources; states = completed symbolic paths, transitions = solver-decided branch forks; every assertion and memory access on every path is decided by Z3 under the path condition; sampled paths re-run natively.'
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=meta.get('assumptions', registry.ASSUMPTIONS), violations=len(viols), counterexamples=viols, known_findings=[k['what'] for k in knownhit.values()], problems=problems)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    conf = [v for v in viols if v['confirmed']]
    for v in conf:
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if conf:
        return 1
    if viols:
        problems.append('counterexample not reproduced natively: %s' % viols[0]['key'])
    for p in problems:
        print('INCONCLUSIVE: ' + p)
    print('%s %s: %d jobs, %d paths, %d queries, %.1fs solver, %.1fs' % (prop, tier, len(jobinfo), cov['states'], agg['solver_queries'], agg['solver_seconds'], time.time() - t0))
    return 2 if problems else 0


def replay(path):
    job = None
    for l in open(path):
        if l.startswith('job '):
            job = json.loads(l[4:])
    tmp = tempfile.mkdtemp(prefix='zv_replay_')
    try:
        st, d = native_run(build_native(tmp, job), path, verbose=True)
        print(d)
        print('native replay: ' + st)
        return 0 if st == 'completed' else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        print(zsym_path())
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    import registry
    if a[0] == 'list':
        for p in registry.JOBS:
            print(p, [j['name'] for j in registry.JOBS[p]])
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        return run(a[1], tier)
    except Inconclusive as e:
        print('INCONCLUSIVE: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
