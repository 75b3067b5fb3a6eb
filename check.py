#!/usr/bin/env python3
"""Solver-based checking of signed-video-framework.

  check.py PROPERTY [--tier quick|thorough]     decide one property (exit 0 held, 1 violated)
  check.py --build                              build the engine
  check.py --replay PROPERTY RUN INPUTS         replay a recorded counterexample natively

Every run recompiles /repo's current sources to LLVM bitcode, executes them symbolically together with a
harness, and asks Z3 for every branch, memory access and assertion. Counterexamples are replayed against a
native ASan/UBSan build of the same sources before they are reported.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
ENGINE = os.path.join(VERIF, 'engine/build/svsym')
NCPU = int(os.environ.get('VF_JOBS', '8'))
sys.path.insert(0, VERIF)


def build_engine():
    srcs = glob.glob(VERIF + '/engine/*.cpp') + glob.glob(VERIF + '/engine/*.h')
    if os.path.exists(ENGINE) and all(os.path.getmtime(s) <= os.path.getmtime(ENGINE) for s in srcs):
        return
    r = subprocess.run(['make', '-C', VERIF + '/engine', '-j4'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout)
        sys.exit('engine build failed')


def repo_sources(plugin, vendor):
    s = sorted(glob.glob(REPO + '/lib/src/*.c')) + sorted(glob.glob(REPO + '/lib/src/legacy/*.c'))
    if plugin:
        s += sorted(glob.glob(REPO + '/lib/plugins/%s/*.c' % plugin))
    if vendor:
        s += sorted(glob.glob(REPO + '/lib/vendors/axis-communications/*.c'))
    return s


def incs(cfg):
    i = ['-I' + VERIF + '/rt', '-I' + VERIF + '/harness']
    if cfg.get('plugin', 'unthreaded-signing') == 'threaded-signing':
        i += ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include']
    return i + ['-I%s/lib/%s' % (REPO, d) for d in ('src', 'src/includes', 'vendors', 'vendors/axis-communications', 'plugins')]


def cfg_flags(cfg):
    f = ['-DMAX_GOP_LENGTH=%d' % cfg.get('max_gop', 8)]
    if cfg.get('vendor', True):
        f.append('-DSV_VENDOR_AXIS_COMMUNICATIONS')
    return f + ['-D' + d for d in cfg.get('repo_defs', [])]


BC = ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', '-w', '-std=gnu11']
NAT = ['-O1', '-g', '-c', '-w', '-std=gnu11', '-fsanitize=address,undefined', '-fno-sanitize=alignment,pointer-overflow,nonnull-attribute',
       '-fno-omit-frame-pointer']
TSAN = ['-O1', '-g', '-c', '-w', '-std=gnu11', '-fsanitize=thread', '-fno-omit-frame-pointer']


class Builder:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.cache = {}

    def cc(self, src, out, flags):
        r = subprocess.run(['clang'] + flags + [src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('compile %s: %s' % (src, r.stdout[-3000:]))
        return out

    def objs(self, cfg, harness, defs, native):
        key = hashlib.sha1(json.dumps([cfg, native], sort_keys=True).encode()).hexdigest()[:10]
        hk = hashlib.sha1(json.dumps([cfg, harness, defs, native], sort_keys=True).encode()).hexdigest()[:10]
        base = (TSAN if native == 'tsan' else NAT if native else BC) + incs(cfg) + cfg_flags(cfg)
        ext = '.o' if native else '.bc'
        futs = []
        plugin = cfg.get('plugin', 'unthreaded-signing')
        for s in repo_sources(plugin, cfg.get('vendor', True)):
            o = '%s/%s_r_%s%s' % (self.work, key, s.replace('/', '_'), ext)
            if (o,) not in self.cache:
                self.cache[(o,)] = self.pool.submit(self.cc, s, o, base + ['-include', VERIF + '/rt/prelude.h'])
            futs.append(self.cache[(o,)])
        rts = ['rt.c', 'ossl_model.c'] + (['native_tsan.c'] if native == 'tsan' else ['native.c'] if native else ['libc.c'])
        if plugin == 'threaded-signing':
            rts.append('glib_model.c')
        for s in [VERIF + '/rt/' + r for r in rts]:
            o = '%s/%s_v_%s%s' % (self.work, key, os.path.basename(s), ext)
            if (o,) not in self.cache:
                self.cache[(o,)] = self.pool.submit(self.cc, s, o, base)
            futs.append(self.cache[(o,)])
        for s in [VERIF + '/harness/common.c', VERIF + '/harness/' + harness]:
            o = '%s/%s_h_%s%s' % (self.work, hk, os.path.basename(s), ext)
            if (o,) not in self.cache:
                self.cache[(o,)] = self.pool.submit(self.cc, s, o, base + ['-D' + d for d in defs])
            futs.append(self.cache[(o,)])
        return [f.result() for f in futs], hk

    def native(self, cfg, harness, defs, kind=True):
        objs, hk = self.objs(cfg, harness, defs, kind)
        exe = '%s/native_%s' % (self.work, hk)
        if not os.path.exists(exe):
            r = subprocess.run(['clang', '-fsanitize=thread' if kind == 'tsan' else '-fsanitize=address,undefined'] + objs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('link native: ' + r.stdout[-3000:])
        return exe


def run_engine(b, run, cube, idx, out, deadline):
    """One symbolic exploration. Returns the engine's result dict."""
    defs = list(run.get('defs', [])) + list(cube)
    objs, _ = b.objs(run.get('cfg', {}), run['src'], defs, False)
    d = '%s/run_%s_%d' % (out, re.sub(r'\W', '_', run['name']), idx)
    os.makedirs(d, exist_ok=True)
    to = max(1, min(run.get('timeout', 120), deadline - time.time()))
    cmd = [ENGINE, '-o', d + '/out.json', '--errdir', d, '--timeout', '%.0f' % to] + run.get('args', []) + objs
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        res = json.load(open(d + '/out.json'))
    except Exception:
        res = {'complete': False, 'stop_reason': 'engine failure: ' + p.stdout[-500:], 'errors': [], 'paths': 0, 'queries': 0, 'z3_calls': 0,
               'sat': 0, 'unsat': 0, 'unknown': 0, 'asserts': 0, 'instructions': 0, 'forks': 0, 'reach': {}, 'assertions': {}, 'functions': [],
               'solver_s': 0, 'wall_s': 0, 'asserts_symbolic': 0, 'mem_checks_symbolic': 0, 'pending': 0}
    for k, e in enumerate(res['errors']):
        e['values'] = e['inputs']
        e['inputs'] = '%s/err%d.inputs' % (d, k)
    res['dir'] = d
    res['run'] = run
    res['defs'] = defs
    return res


def replay_race(b, run, defs, inputs):
    """Confirms a data race with real threads under ThreadSanitizer."""
    exe = b.native(run.get('cfg', {}), run['src'], defs, 'tsan')
    acc = re.compile(r'(?:Write|Read|Previous write|Previous read)[^\n]*\n((?:    #[^\n]*\n)+)')
    for seed in range(12):
        try:
            p = subprocess.run([exe, inputs, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, errors='replace', text=True,
                               env=dict(os.environ, TSAN_OPTIONS='halt_on_error=0:exitcode=66:history_size=4'))
        except subprocess.TimeoutExpired:
            continue
        for w in p.stdout.split('WARNING: ThreadSanitizer: ')[1:]:
            if not w.startswith('data race'):
                continue
            tops = []
            for st in acc.findall(w.split('Location is')[0]):
                fr = [f for f in re.findall(r'#\d+ (\S+) (\S+)', st) if '/' in f[1]]
                tops.append(next((f for f in fr[:1] if REPO + '/lib/' in f[1]), None))
            if len(tops) >= 2 and tops[0] and tops[1]:
                return True, 'ThreadSanitizer: data race between %s and %s' % (tops[0][0], tops[1][0])
    return False, 'no race seen with ThreadSanitizer'


def replay(b, run, defs, inputs, kind=''):
    """Replays one counterexample. Returns (confirmed, description)."""
    if kind == 'race':
        return replay_race(b, run, defs, inputs)
    exe = b.native(run.get('cfg', {}), run['src'], defs)
    desc = ''
    for fill in (0, 190, 255):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:malloc_fill_byte=%d:max_malloc_fill_size=65536:allocator_may_return_null=1:detect_stack_use_after_return=0' % fill,
                   UBSAN_OPTIONS='halt_on_error=1:exitcode=67:print_stacktrace=1')
        try:
            p = subprocess.run([exe, inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=env, errors='replace', text=True)
        except subprocess.TimeoutExpired:
            return True, 'hang: no result within 30 s'
        o = p.stdout
        m = re.search(r'REPLAY-ASSERT-FAILED: (.*)', o)
        if m:
            return True, 'assertion: ' + m.group(1)
        m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', o)
        if m:
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', o)
            where = next(('%s %s' % f for f in fr if '/lib/' in f[1]), '')
            return True, 'AddressSanitizer: %s in %s' % (re.sub(r'0x[0-9a-f]+', 'X', m.group(1))[:120], where)
        m = re.search(r'(\S+): runtime error: ([^\n]*)', o)
        if m:
            return True, 'UndefinedBehaviorSanitizer: %s: %s' % (m.group(1), m.group(2))
        if p.returncode < 0 or p.returncode in (134, 139):
            m = re.search(r"([^\n]*Assertion `[^\n]*)", o)
            return True, 'crash: ' + (m.group(1) if m else 'signal %d' % -p.returncode)
        desc = 'exit %d: %s' % (p.returncode, o.strip()[-200:])
    return False, desc


def signature(e):
    return '%s|%s|%s' % (e['kind'], e.get('func', ''), e.get('msg', ''))


def known_findings():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(prop, e, known):
    for k in known:
        if k.get('status') != 'open' or k['property'] != prop:
            continue
        if k['kind'] == e['kind'] and (not k.get('func') or k['func'] == e.get('func')) and re.search(k['msg'], e.get('msg', '')):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--replay', nargs=3)
    a = ap.parse_args()
    build_engine()
    if a.build:
        return 0
    from props import PROPS
    work = tempfile.mkdtemp(prefix='vf_', dir='/tmp')
    if a.replay:
        prop, rname, inp = a.replay
        b = Builder(work)
        meta = json.load(open(inp + '.json'))
        run = next(r for r in PROPS[prop]['runs'] if r['name'] == rname)
        ok, d = replay(b, run, meta['defs'], inp, meta.get('kind'))
        print('REPRODUCED' if ok else 'NOT REPRODUCED', d)
        shutil.rmtree(work)
        return 1 if ok else 0
    try:
        return decide(a, PROPS[a.prop], work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work dir', work)


def decide(a, P, work):
    t0 = time.time()
    budget = P.get('budget', {}).get(a.tier, 240 if a.tier == 'quick' else 800)
    deadline = t0 + budget
    b = Builder(work)
    jobs = []
    for run in P['runs']:
        if run.get('tier', 'quick') == 'thorough' and a.tier == 'quick':
            continue
        if run.get('tier') == 'quick-only' and a.tier != 'quick':
            continue
        if a.only and not re.search(a.only, run['name']):
            continue
        cubes = run.get('cubes', [[]])
        if callable(cubes):
            cubes = cubes(a.tier)
        if a.tier == 'thorough' and 'cubes_thorough' in run:
            cubes = run['cubes_thorough']
        for i, c in enumerate(cubes):
            jobs.append((run, c, i))
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda j: run_engine(b, j[0], j[1], j[2], work, deadline), jobs))
    except RuntimeError as e:
        print('cannot build the checked code:', e)
        return 2
    known = known_findings()
    seen, violations, known_hits, unconfirmed = {}, [], [], []
    traces_ok = 0
    for r in results:
        for e in r['errors']:
            sig = signature(e) + ('|' + r['run']['name'] if a.verbose else '')
            if seen.get(sig, 0) >= 3:   # already replayed this failure
                continue
            if sig in [v['sig'] for v in violations]:
                continue
            k = is_known(a.prop, e, known)
            if k:
                if k['id'] not in [x['id'] for x in known_hits]:
                    known_hits.append(k)
                continue
            seen[sig] = seen.get(sig, 0) + 1
            try:
                ok, desc = replay(b, r['run'], r['defs'], e['inputs'], e['kind'])
            except RuntimeError as x:
                ok, desc = False, str(x)
            rec = {'sig': sig, 'run': r['run']['name'], 'defs': r['defs'], 'kind': e['kind'], 'msg': e['msg'], 'func': e.get('func'), 'loc': e.get('loc'),
                   'stack': e.get('stack'), 'replay': desc, 'trace': e.get('trace')}
            if ok:
                traces_ok += 1
                od = VERIF + '/out/' + a.prop
                os.makedirs(od, exist_ok=True)
                dst = '%s/cex_%d.inputs' % (od, len(violations))
                shutil.copy(e['inputs'], dst)
                json.dump(rec, open(dst + '.json', 'w'), indent=1)
                rec['path'] = dst
                violations.append(rec)
            else:
                unconfirmed.append(rec)
    # vacuity: every run that finished must have reached its witnesses
    vac = []
    byrun = {}
    for r in results:
        byrun.setdefault(r['run']['name'], []).append(r)
    for n, rs in byrun.items():
        for tag in rs[0]['run'].get('reach', ['end']):
            if not any(tag in r['reach'] for r in rs):
                vac.append('%s:%s' % (n, tag))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = {}
    for r in results:
        for f in r['functions']:
            if '/lib/' in (f.get('file') or ''):
                o = funcs.setdefault(f['name'], [f.get('insts', 0), 0])
                o[1] = max(o[1], f.get('covered', 0))
    complete = [r for r in results if r['complete']]
    incomplete = [{'run': r['run']['name'], 'defs': r['defs'], 'why': r.get('stop_reason') or str(r.get('unsupported_msgs'))[:300], 'paths': r['paths'],
                   'pending': r.get('pending')} for r in results if not r['complete'] and not r['errors']]
    samples = []
    for r in results[:40]:
        samples.append('%s %s: %d paths, %d solver queries, %d assertions, reached %s' % (
            r['run']['name'], ' '.join(r['defs']), r['paths'], r['queries'], r['asserts'], dict(list(r['reach'].items())[:6])))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('instructions'), 'traces_validated_against_impl': traces_ok, 'samples': samples or ['none'],
            'explorations': len(results), 'explorations_complete': len(complete), 'paths': tot('paths'), 'forks': tot('forks'),
            'solver_queries': tot('queries'), 'z3_calls': tot('z3_calls'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
            'assertions_checked': tot('asserts'), 'assertions_decided_by_solver': tot('asserts_symbolic'), 'memory_checks_decided_by_solver': tot('mem_checks_symbolic'),
            'solver_s': round(tot('solver_s'), 2), 'engine_s': round(tot('wall_s'), 2),
            'functions_encoded': len(funcs), 'functions': {k: '%d/%d instructions' % (v[1], v[0]) for k, v in sorted(funcs.items())},
            'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''), 'incomplete': incomplete[:20], 'vacuous': vac,
            'unconfirmed_counterexamples': unconfirmed[:10],
        },
        'assumptions': P.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, a.prop), 'w'), indent=1)
    for k in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    print('%s %s: %d explorations (%d complete), %d paths, %d queries (%d to Z3), %d assertions, %.1f s' % (
        a.prop, a.tier, len(results), len(complete), tot('paths'), tot('queries'), tot('z3_calls'), tot('asserts'), time.time() - t0))
    for i in incomplete[:8]:
        print('  incomplete:', i)
    for u in unconfirmed[:8]:
        print('  unconfirmed counterexample (not reported): %s -> %s' % (u['sig'], u['replay'][:200]))
        if a.verbose: print('     ', u['loc'], u['stack'], u['defs'], u['trace'])
    if vac:
        print('  vacuous witnesses:', vac)
    if a.verbose:
        for r in sorted(results, key=lambda r: -r['wall_s'])[:8]:
            print('  %6.1fs %s %s paths=%d q=%d' % (r['wall_s'], r['run']['name'], r['defs'], r['paths'], r['queries']))
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (a.prop, v['path']))
        print('  %s at %s (%s) in run %s %s; native replay: %s' % (v['msg'], v['func'], v['loc'], v['run'], ' '.join(v['defs']), v['replay']))
        if a.verbose: print('   stack', v['stack'], 'trace', v['trace'])
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    'Cryptography is ideal: hashing is an injective oracle, signatures are unforgeable (rt/ossl_model.c stands in for libcrypto).',
    'Executed representation: LLVM IR that clang -O0 emits for /repo\'s current sources; compiler back end trusted.',
    'Allocation succeeds unless the run injects allocation failures.',
]

if __name__ == '__main__':
    sys.exit(main())
