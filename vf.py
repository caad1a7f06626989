#!/usr/bin/env python3
"""Runs the obligations of one property against /repo's current working tree.

usage: vf.py <property> quick|thorough     |  vf.py --setup
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal, resource, importlib.util, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'lib'))
PROC_FLAGS = ['--bounds-check', '--pointer-check', '--pointer-overflow-check', '--div-by-zero-check',
              '--signed-overflow-check', '--undefined-shift-check', '--no-malloc-may-fail']


class Ob:
    """One proof obligation: a harness verified by CBMC against the functions taken from /repo."""
    def __init__(self, name, src, kind='proved', bound=None, functions=(), defines=(), unwind=2, unwindset=(),
                 flags=None, extra=(), timeout=120, tier='quick', replay=True, native_srcs=(), prep=None,
                 instrument=(), entry='harness', ldflags=(), min_reach=1, note='', nocheck=(), more=0, native_only=()):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})


class Rac:
    """Runtime checking of the same contracts on the compiled library (bounded, never counted as proved)."""
    def __init__(self, name, src, args=(), secs=15, secs_thorough=120, variant='noasm', jobs=1, san='address,undefined',
                 defines=(), tier='quick', oneshot=False, opt='-O1', libdefs=()):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})


def limits(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, timeout, cwd=None, mem=None, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=limits(mem), env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        rc = 'timeout'
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t


INCL = ['-I' + REPO, '-I' + os.path.join(VERIF, 'lib')]


def run_ob(ob, work, tier):
    """-> dict(status = proved|failed|undecided, ...)"""
    d = os.path.join(work, re.sub(r'\W', '_', ob.name))
    os.makedirs(d)
    r = dict(name=ob.name, kind=ob.kind, functions=list(ob.functions), checks=0, ok=0, reach=[], failed=[], seconds=0.0)
    if ob.bound:
        r['bound'] = ob.bound
    t0 = time.time()
    deadline = t0 + ob.timeout

    def done(status, why=''):
        r['status'] = status
        if why:
            r['why'] = why[-1500:]
        r['seconds'] = round(time.time() - t0, 2)
        return r
    defs = ['-D' + x for x in ob.defines]
    try:
        inc = list(INCL)
        if ob.prep:
            inc = ['-I' + d] + inc
            ob.prep(d)
    except Exception as ex:
        return done('undecided', 'extraction: %r' % (ex,))
    src = os.path.join(VERIF, 'proofs', ob.src)
    gb = os.path.join(d, 'a.gb')
    rc, o, e, _ = run(['goto-cc', '-DVF_CBMC', '--function', ob.entry] + inc + defs + [src] + [os.path.join(REPO, x) for x in ob.native_srcs] + ['-o', gb], 60, cwd=d)
    if rc != 0:
        return done('undecided', 'goto-cc: ' + e)
    for step in ob.instrument:
        gb2 = gb + 'i'
        rc, o, e, _ = run(['goto-instrument'] + list(step) + [gb, gb2], 120, cwd=d)
        if rc != 0:
            return done('undecided', 'goto-instrument: ' + (e or o))
        gb = gb2
    flags = list(PROC_FLAGS if ob.flags is None else ob.flags)
    base = ['cbmc', gb, '--drop-unused-functions', '--no-standard-checks'] + flags + ['--unwind', str(ob.unwind)]
    if ob.unwindset:
        base += ['--unwindset', ','.join(ob.unwindset)]
    base += ['--unwinding-assertions'] if '--no-unwinding-assertions' not in ob.extra else []
    base += list(ob.extra)
    r['cmd'] = 'goto-cc --function %s %s; %scbmc %s' % (ob.entry, os.path.relpath(src, VERIF), ''.join('goto-instrument %s; ' % ' '.join(s) for s in ob.instrument), ' '.join(base[2:]))
    for attempt in range(3):
        rc, o, e, _ = run(base + ['--json-ui', '--verbosity', '8'], max(5, deadline - time.time()), cwd=d, mem=10 << 30)
        if rc == 'timeout':
            return done('undecided', 'solver time limit of %d s' % ob.timeout)
        try:
            js = json.loads(o)
        except ValueError:
            return done('undecided', 'cbmc: ' + o[-600:] + e[-600:])
        res = next((x['result'] for x in js if 'result' in x), None)
        for x in js:
            m = re.search(r'Runtime Solver: ([\d.e-]+)s', x.get('messageText', '') if isinstance(x, dict) else '')
            if m:
                r['solver_s'] = round(r.get('solver_s', 0) + float(m.group(1)), 3)
        if res is None:
            return done('undecided', 'cbmc: ' + ' '.join(x.get('messageText', '') for x in js if x.get('messageType') in ('ERROR', 'WARNING'))[-1200:])
        unwind_bad = []
        for x in res:
            desc, st = x.get('description', ''), x['status']
            if desc.startswith('REACH:'):
                r['reach'].append((desc[6:], st == 'FAILURE'))
                continue
            if any(n in desc for n in ob.nocheck):
                continue
            r['checks'] += 1
            if st == 'SUCCESS':
                r['ok'] += 1
            elif 'unwinding assertion' in desc or '.unwind' in x['property'] or '.recursion' in x['property']:
                unwind_bad.append(x['property'])
            elif st == 'FAILURE':
                r['failed'].append(dict(property=x['property'], description=desc, where=x.get('sourceLocation', {})))
            else:
                unwind_bad.append(x['property'] + ' ' + st)
        # a loop that needs more iterations than the hints say (its number may have changed): unwind it further
        loops = sorted(set(re.sub(r'\.unwind\.(\d+)$', r'.\1', u) for u in unwind_bad if '.unwind.' in u))
        if not ob.more or r['failed'] or not loops:
            break
        hints = [h for h in ob.unwindset if h.rsplit(':', 1)[0] not in loops] + ['%s:%d' % (l, ob.more) for l in loops]
        ob.unwindset = hints
        if '--unwindset' in base:
            base[base.index('--unwindset') + 1] = ','.join(hints)
        else:
            base += ['--unwindset', ','.join(hints)]
        r.update(checks=0, ok=0, reach=[], failed=[])
    if r['failed']:
        r['base'], r['dir'], r['gb'] = base, d, gb
        return done('failed')
    if unwind_bad:
        return done('undecided', 'not covered by the unwinding: ' + ', '.join(unwind_bad))
    if len(r['reach']) < ob.min_reach or not all(x for _, x in r['reach']):
        return done('undecided', 'vacuous: cover points not reached: %s' % [n for n, x in r['reach'] if not x])
    return done('proved')


def counterexample(ob, r, work):
    """Get the values of the failing run and replay them on the compiled code. -> (confirmed, text, values)"""
    out = []
    for f in r['failed'][:3]:
        if time.time() > r.get('cex_deadline', 1e18):
            out.append((f, []))
            continue
        rc, o, e, _ = run(r['base'] + ['--json-ui', '--trace', '--property', f['property']], 240, cwd=r['dir'], mem=10 << 30)
        vals = []
        try:
            for x in json.loads(o):
                for y in x.get('result', []):
                    if y.get('property') == f['property'] and y['status'] == 'FAILURE':
                        for s in y.get('trace', []):
                            if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_log':
                                v = s['value'].get('binary')
                                vals.append(int(v, 2) if v else int(re.sub(r'[uUlL]+$', '', s['value'].get('data', '0'))))
        except ValueError:
            pass
        # the first assignment is the static initialisation
        if vals:
            vals = vals[1:]
        out.append((f, vals))
        if not ob.replay or not vals:
            continue
        ok, text = native(ob, vals, r['dir'])
        if ok:
            return True, 'obligation %s: %s\n%s' % (f['property'], f['description'], text), vals
    return False, '\n'.join('obligation %s: %s at %s; verifier inputs %s' % (f['property'], f['description'], json.dumps(f['where']), v[:200]) for f, v in out), out[0][1] if out else []


def native(ob, vals, d):
    defs = ['-D' + x for x in ob.defines]
    exe = os.path.join(d, 'native')
    inc = (['-I' + d] if ob.prep else []) + INCL
    main = os.path.join(d, 'nmain.c')
    open(main, 'w').write('#include "%s"\nint main(void){ %s(); return 0; }\n' % (os.path.join(VERIF, 'proofs', ob.src), ob.entry))
    rc, o, e, _ = run(['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DVF_NATIVE'] + inc + defs + [main] +
                      [os.path.join(REPO, s) for s in list(ob.native_srcs) + list(ob.native_only)] + ['-o', exe, '-lpthread', '-lm'], 120, cwd=d)
    if rc != 0:
        return False, 'native build failed: ' + e[-500:]
    inp = os.path.join(d, 'inputs.txt')
    open(inp, 'w').write('\n'.join(map(str, vals)) + '\n')
    env = dict(os.environ, VF_INPUTS=inp, ASAN_OPTIONS='detect_leaks=0')
    rc, o, e, _ = run([exe], 60, cwd=d, env=env)
    if rc in (0, 76, 77):
        return False, 'replay on the compiled code: exit %s %s' % (rc, e[-300:])
    return True, 'replayed on the compiled code (exit %s): %s' % (rc, e[-2500:])


LIBSRC = ['dict_buffer.c', 'fl2_common.c', 'fl2_compress.c', 'fl2_decompress.c', 'fl2_pool.c', 'fl2_threading.c', 'lzma2_dec.c',
          'lzma2_enc.c', 'radix_bitpack.c', 'radix_mf.c', 'radix_struct.c', 'range_enc.c', 'util.c', 'xxhash.c']


def build_lib(work, variant, san, opt, pool, libdefs=()):
    key = hashlib.md5(repr((variant, san, opt, libdefs)).encode()).hexdigest()[:8]
    d = os.path.join(work, 'lib_%s_%s' % (variant, key))
    os.makedirs(d, exist_ok=True)
    fl = ['-g', opt, '-w', '-pthread'] + [x.replace('VERIF', VERIF) if x[0] == '-' or x.startswith('VERIF/') else '-D' + x for x in libdefs]
    if san:
        fl += ['-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-sanitize=alignment,shift,nonnull-attribute', '-fno-omit-frame-pointer']
    if variant == 'asm':
        fl += ['-DLZMA2_DEC_OPT']
    import glob
    cs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, '*.c')))
    jobs = []
    for c in cs:
        jobs.append((c, ['gcc', '-c'] + fl + (['-fno-sanitize=bounds'] if san and c == 'lzma2_enc.c' else []) + ['-I' + REPO, os.path.join(REPO, c), '-o', os.path.join(d, c[:-2] + '.o')]))
    if variant == 'asm':
        jobs.append(('asm', ['gcc', '-c', '-DMS_x64_CALL=0', os.path.join(REPO, 'lzma_dec_x86_64.S'), '-o', os.path.join(d, 'asm.o')]))
    rs = list(pool.map(lambda j: (j[0], run(j[1], 300)), jobs))
    for n, (rc, o, e, t) in rs:
        if rc != 0:
            raise RuntimeError('compiling %s: %s' % (n, e[-800:]))
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.o')), fl


def run_rac(rac, objs, fl, work, secs, seed, idx):
    """-> (status ok|fail|error, info)"""
    d = os.path.join(work, 'rac_' + re.sub(r'\W', '_', rac.name) + '_%d' % idx)
    os.makedirs(d, exist_ok=True)
    exe = rac.exe
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=98')
    cmd = [exe, '--secs', str(secs), '--seed', str(seed * 1000 + idx), '--status', os.path.join(d, 'status')] + list(rac.args)
    rc, o, e, t = run(cmd, secs * 3 + 120, cwd=d, env=env)
    st = {}
    try:
        st = json.loads(o.strip().splitlines()[-1])
    except Exception:
        pass
    if rc == 0 and st:
        return 'ok', dict(st, seconds=round(t, 1))
    if rc == 75:
        return 'error', dict(why='driver: ' + e[-500:])
    case = ''
    try:
        case = open(os.path.join(d, 'status')).read().strip()
    except OSError:
        pass
    return 'fail', dict(rc=rc, case=case, err=e[-6000:], out=o[-1500:], cmd=cmd[0:1] + ['--case', case] + list(rac.args))


def load(pid):
    p = os.path.join(VERIF, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    m.Ob, m.Rac, m.REPO, m.VERIF = Ob, Rac, REPO, VERIF
    spec.loader.exec_module(m)
    return m


def known(pid):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = load(pid)
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    violations, notes = [], []
    kn = known(pid)
    only = os.environ.get('VF_ONLY')
    obs = [o for o in m.OBLIGATIONS if (o.tier == 'quick' or tier == 'thorough') and (not only or re.search(only, o.name))]
    racs = [x for x in getattr(m, 'RAC', []) if (x.tier == 'quick' or tier == 'thorough') and (not only or re.search(only, x.name))]
    if tier == 'thorough':
        for o in obs:
            o.timeout *= 4
    pool = ThreadPoolExecutor(8)
    cpool = ThreadPoolExecutor(8)
    results, racres = [], []
    try:
        futs = [(o, pool.submit(run_ob, o, work, tier)) for o in sorted(obs, key=lambda o: -o.timeout)]
        # build the library variants while the verifier runs
        libs = {}
        raclist = []
        for x in racs:
            k = (x.variant, x.san, x.opt, tuple(x.libdefs))
            try:
                if k not in libs:
                    libs[k] = build_lib(work, x.variant, x.san, x.opt, cpool, tuple(x.libdefs))
                objs, fl = libs[k]
                x.exe = os.path.join(work, 'racexe_' + re.sub(r'\W', '_', x.name))
                rc, o, e, _ = run(['gcc'] + fl + ['-D' + q for q in x.defines] + ['-I' + REPO, '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'rac'), os.path.join(VERIF, 'rac', x.src)] + objs + ['-o', x.exe, '-lm', '-lpthread'], 300)
                if rc != 0:
                    raise RuntimeError(e[-1500:])
                raclist.append(x)
            except RuntimeError as ex:
                notes.append('runtime contract check %s not built: %s' % (x.name, ex))
        rf = []
        for x in raclist:
            for i in range(x.jobs):
                rf.append((x, i, pool.submit(run_rac, x, None, None, work, x.secs_thorough if tier == 'thorough' else x.secs, seed, i)))
        fails = []
        for o, f in futs:
            r = f.result()
            results.append(r)
            if r['status'] == 'failed':
                fails.append((o, r))
        rac_found = []
        for x, i, f in rf:
            st, info = f.result()
            racres.append(dict(name=x.name, job=i, status=st, **{k: v for k, v in info.items() if k in ('evaluations', 'distinct_nontrivial', 'samples', 'seconds', 'rule', 'why')}))
            if st == 'fail':
                rac_found.append((x, info))
        for n, (x, info) in enumerate(rac_found):
            kid = next((k for k, d in kn if k in (info['err'] + info['out'])), None)
            if kid:
                continue
            path = os.path.join(rdir, 'rac_%s_%d.txt' % (re.sub(r'\W', '_', x.name), n))
            open(path, 'w').write('property %s, runtime contract check %s on the compiled library\nrebuild: gcc %s %s; run: --case %s %s\nexit status %s\n%s\n%s\n' % (pid, x.name, os.path.join('rac', x.src), ' '.join('-D' + q for q in x.defines), info['case'], ' '.join(x.args), info['rc'], info['out'], info['err']))
            violations.append((path, ''))
        cex_end = time.time() + 240
        for o, r in fails:
            r['cex_deadline'] = cex_end
            ok, text, vals = counterexample(o, r, work)
            path = os.path.join(rdir, re.sub(r'\W', '_', o.name) + '.txt')
            open(path, 'w').write('property %s, obligation group %s (%s)\ncommand: %s\nfailed obligations:\n%s\n\n%s\ninputs: %s\n' % (pid, o.name, ', '.join(o.functions), r.get('cmd'), '\n'.join('%s: %s' % (f['property'], f['description']) for f in r['failed'][:40]), text, vals[:400]))
            r['confirmed'] = ok
            violations.append((path, '' if ok or rac_found else ' no-failing-input-found'))
            for k in ('base', 'dir', 'gb', 'cex_deadline'):
                r.pop(k, None)
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        cpool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    proved = [r for r in results if r['kind'] == 'proved']
    bounded = [r for r in results if r['kind'] != 'proved']
    cov = dict(
        obligations=sum(r['checks'] for r in proved), discharged=sum(r['ok'] for r in proved if r['status'] == 'proved'),
        checker_cmd='goto-cc + goto-instrument + cbmc 6.11.0 (SAT back end: MiniSat 2.2.1), one run per obligation group; commands under groups[].cmd',
        trusted_base=list(getattr(m, 'TRUSTED', [])),
        groups=[{k: v for k, v in r.items() if k in ('name', 'kind', 'bound', 'status', 'functions', 'checks', 'ok', 'seconds', 'solver_s', 'why', 'cmd', 'failed')} for r in results],
        functions_under_contract=sorted({f for r in proved if r['status'] == 'proved' for f in r['functions']}),
        functions_bounded=sorted({f for r in bounded if r['status'] == 'proved' for f in r['functions']}),
        bounded_obligations=sum(r['checks'] for r in bounded), bounded_discharged=sum(r['ok'] for r in bounded if r['status'] == 'proved'),
        solver_s=round(sum(r.get('solver_s', 0) for r in results), 2),
        undecided=[dict(name=r['name'], why=r.get('why', '')) for r in results if r['status'] == 'undecided'],
        runtime_checks=racres, notes=notes)
    ev = [x for x in racres if x['status'] == 'ok']
    cov['evaluations'] = sum(int(x.get('evaluations', 0)) for x in ev)
    cov['distinct_nontrivial'] = sum(int(x.get('distinct_nontrivial', 0)) for x in ev)
    cov['samples'] = [s for x in ev for s in x.get('samples', [])][:6]
    if ev:
        cov['rule'] = '; '.join(sorted({x.get('rule', '') for x in ev}))
    for k, d in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    level = getattr(m, 'LEVEL', 'proof')
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
                   wall_s=round(time.time() - t0, 1), violations=len(violations)), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        print('%-44s %-8s %-9s %4d/%-4d %6.1fs %s' % (r['name'], r['kind'], r['status'], r['ok'], r['checks'], r['seconds'], r.get('why', '')[:300].replace('\n', ' ')))
        for f in r['failed'][:5]:
            print('    FAILED %s: %s' % (f['property'], f['description']))
    for x in racres:
        print('%-44s runtime  %-9s %s evaluations' % (x['name'], x['status'], x.get('evaluations', '-')))
    for n in notes:
        print('note:', n)
    seen = set()
    for path, suffix in sorted(violations, key=lambda v: v[1]):
        if path not in seen:
            seen.add(path)
            print('VIOLATION property=%s replay=%s%s' % (pid, path, suffix))
    print('%s %s: %d/%d proved obligations, %.1fs' % (pid, tier, cov['discharged'], cov['obligations'], time.time() - t0))
    return 1 if violations else 0


def setup():
    for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
        if not shutil.which(t):
            print('missing tool', t)
            return 1
    print('tools present')
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--setup']:
        sys.exit(setup())
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
