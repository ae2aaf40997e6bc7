#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] [--only GLOB] | --build
Decides one property by symbolic execution of the LLVM IR of /repo and SMT queries; see DESIGN.md."""
import sys, os, re, glob, time, json, subprocess, shutil, fnmatch, fcntl, multiprocessing as mp, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
REPO = '/repo'
TARGET = os.path.join(ROOT, 'harness', 'target')
DBG = os.path.join(TARGET, 'debug')


def build():
    """compile the harness crate and /repo's current tree; returns an error text or None"""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, '.vplock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    for p in glob.glob(DBG + '/.fingerprint/rasp-*') + glob.glob(DBG + '/.fingerprint/vph-*'): shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(DBG + '/deps/rasp-*') + glob.glob(DBG + '/deps/vph-*') + glob.glob(DBG + '/deps/replay-*') + [DBG + '/replay']:
        if os.path.exists(p): os.unlink(p)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true',
               RUSTFLAGS='--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp --cap-lints warn')
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(ROOT, 'harness'), env=env, capture_output=True, text=True)
    if r.returncode != 0: return r.stdout + r.stderr
    return None


def load():
    import llparse
    mod = llparse.Module()
    for n in ('vph', 'rasp', 'num_traits'):
        for p in sorted(glob.glob(DBG + '/deps/%s-*.ll' % n)): mod.load(p)
    return mod


MOD = None


def work(job):
    name, cfg, limit = job
    t0 = time.time()
    try:
        import checker
        h = checker.Harness(MOD, name, dict(cfg), checker.Replayer(DBG + '/replay'), time.time() + limit)
        r = h.run()
        r['dbg'] = list(r['dbg'])
        return r
    except Exception as e:
        return {'harness': name, 'obligations': 0, 'discharged': {}, 'violations': [], 'undecided': ['internal: %s' % traceback.format_exc(limit=6)], 'paths': 0,
                'ended': 0, 'witnesses': 0, 'validated': 0, 'mismatch': [], 'notes': [], 'samples': [], 'forks': 0, 'steps': 0, 'fns': [], 'dbg': [],
                'stats': {'queries': 0, 'time': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'by': {}}, 'time': time.time() - t0}


def first(table, name, dflt):
    for pat, v in table:
        if fnmatch.fnmatch(name, pat): return v
    return dflt


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % pid) in l:
                d = dict(x.split('=', 1) for x in l.split() if '=' in x)
                out.append((d.get('harness', '?'), l.split('check="')[1].split('"')[0] if 'check="' in l else '', l.split('--', 1)[-1].strip()))
    return out


_META = {}


def meta(path):
    if path not in _META:
        m = {}
        rx = re.compile(r'^!(\d+) = (?:distinct )?!(DILocation|DILexicalBlockFile|DILexicalBlock|DISubprogram|DIFile)\((.*)\)$')
        for l in open(path):
            if l[0] != '!': continue
            g = rx.match(l.rstrip())
            if g: m[int(g.group(1))] = (g.group(2), g.group(3))
        _META[path] = m
    return _META[path]


def repo_functions(dbg):
    """functions of /repo whose instructions were executed symbolically (by the debug locations of the IR)"""
    out, seen = set(), set()
    ref = lambda s, k: (lambda g: int(g.group(1)) if g else None)(re.search(r'\b%s: !(\d+)' % k, s))
    for path, d in dbg:
        m = meta(path)
        while d is not None and (path, d) not in seen:
            seen.add((path, d))
            kind, body = m.get(d, (None, ''))
            if kind != 'DILocation': break
            sc = ref(body, 'scope')
            while sc in m and m[sc][0] != 'DISubprogram': sc = ref(m[sc][1], 'scope')
            if sc in m:
                f = m.get(ref(m[sc][1], 'file'), ('', ''))[1]
                g = re.search(r'filename: "([^"]*)"', f)
                dr = re.search(r'directory: "([^"]*)"', f)
                if g:
                    fn = g.group(1)
                    if not fn.startswith('/') and dr: fn = dr.group(1) + '/' + fn
                    if fn.startswith(REPO + '/src'):
                        nm = re.search(r'name: "([^"]*)"', m[sc][1]).group(1)
                        ln = re.search(r'\bline: (\d+)', m[sc][1])
                        out.add('%s:%s %s' % (fn[len(REPO) + 1:], ln.group(1) if ln else '?', nm))
            d = ref(body, 'inlinedAt')
    return sorted(out)


def main():
    import props
    args = sys.argv[1:]
    if '--build' in args:
        e = build()
        if e: print(e[-3000:]); sys.exit(2)
        print('built'); return
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough'
    only = args[args.index('--only') + 1] if '--only' in args else None
    pid = [a for a in args if a in props.BOUNDS][0]
    t0 = time.time()
    total = float(os.environ.get('VP_BUDGET', 5 * 3600 if thorough else 720))
    share = float(os.environ.get('VP_SHARE', 5400 if thorough else 240))     # longest time for one harness
    err = build()
    if err:
        print('ERROR: the harness does not build against /repo\n' + err[-4000:])
        sys.exit(2)
    tb = time.time() - t0
    global MOD
    MOD = load()
    names = sorted(set(MOD.funcs) | set(MOD.aliases))
    pre = pid.lower() + '_'
    mine = [n for n in names if n.startswith(pre) and n[-4:] in ('_f32', '_f64')]
    aux = props.AUX.get(pid)
    if aux: mine += [n for n in names if fnmatch.fnmatch(n, aux) and n not in mine]
    if not thorough: mine = [n for n in mine if not any(fnmatch.fnmatch(n, p) for p in props.THOROUGH_ONLY)]
    if only: mine = [n for n in mine if fnmatch.fnmatch(n, only)]
    mine.sort(key=lambda n: -first(props.COST, n, 1))
    tier = 1 if thorough else 0
    os.environ['VP_TIER'] = str(tier)
    jobs = []
    for n in mine:
        cfg = dict(first(props.CFG, n, {}))
        cfg['tier'] = tier
        if thorough:
            cfg['paths'] = 200000
            cfg['steps'] = 40000000
            cfg.setdefault('ms', 60000)
        jobs.append((n, cfg, min(share, total)))
    results = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for p in glob.glob(os.path.join(rdir, pid + '-*')): os.unlink(p)
    kn = known(pid)
    hits, viol = [], []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1)
    timed_out = []
    it = pool.imap_unordered(work, jobs, chunksize=1)
    try:
        for _ in jobs:
            left = total - (time.time() - t0)
            try: r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                got = {x['harness'] for x in results}
                timed_out = [j[0] for j in jobs if j[0] not in got]
                break
            results.append(r)
            for v in r['violations']:
                k = [x for x in kn if fnmatch.fnmatch(r['harness'], x[0]) and (not x[1] or x[1] == v['msg'])]
                if k: hits.append(k[0]); continue
                path = os.path.join(rdir, '%s-%s.txt' % (pid, r['harness']))
                with open(path, 'w') as f:
                    f.write('# property %s, harness %s, violated: %s\n# native run: %s\n# re-run: VP_TIER=%d %s %s\n' %
                            (pid, r['harness'], v['msg'], '; '.join(v['native']), tier, os.path.join(DBG, 'replay'), path))
                    f.write('# inputs: %s\n' % v['shown'])
                    f.write(r['harness'] + '\n' + ''.join('%s %d\n' % (s, x) for s, x in v['inputs']))
                viol.append((r['harness'], v, path))
            if viol and not thorough: break
    finally:
        pool.terminate()
    # ------------------------------------------------ verdict
    und, notes, narrowed = [], [], []
    bad_aux = [r['harness'] for r in results if aux and fnmatch.fnmatch(r['harness'], aux) and (r['undecided'] or r['mismatch'])]
    for r in results:
        extra = any(fnmatch.fnmatch(r['harness'], p) for p in props.EXTRA)
        for u in r['undecided'] + ['mismatch: ' + m for m in r['mismatch']]:
            if extra and (bad_aux or u.startswith('execution')): notes.append('%s: %s' % (r['harness'], u))
            elif u.startswith('time limit') or u.startswith('execution'): narrowed.append('%s: %s' % (r['harness'], u))
            else: und.append('%s: %s' % (r['harness'], u))
        # an encoding which disagrees with the native run decides nothing
        if r['mismatch']: r['discharged'] = {}
        narrowed += ['%s: %s' % (r['harness'], n) for n in r['notes']]
    if bad_aux: notes.append('the step extrapolation is not inductive on this tree (%s): only the sizes stepped one by one are claimed' % ', '.join(bad_aux[:4]))
    narrowed += ['%s: not finished within the time limit' % n for n in timed_out]
    enc, by = {}, {}
    for r in results:
        for k, v in r['discharged'].items(): enc[k] = enc.get(k, 0) + v
        for k, v in r['stats']['by'].items():
            x = by.setdefault(k, {})
            if isinstance(v, dict):
                for a, b in v.items(): x[a] = x.get(a, 0) + b
            else: by[k] = (by[k] if by[k] else 0) + v
    ssum = lambda f: sum(f(r) for r in results)
    obl = ssum(lambda r: r['obligations'])
    dis = sum(v for k, v in enc.items() if k in ('uf', 'real', 'rnd', 'fp'))
    fns = sorted({x for r in results for x in repo_functions(r['dbg'])})
    samples = [{'harness': r['harness'], **s} for r in results for s in r['samples'][:1]][:6]
    ev = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': ssum(lambda r: r['paths']), 'transitions': ssum(lambda r: r['steps']),
            'traces_validated_against_impl': ssum(lambda r: r['validated']), 'samples': samples,
            'explanation': 'states: symbolic execution paths, each standing for all inputs that follow it; transitions: IR instructions executed symbolically; '
                           'traces validated: satisfying inputs of completed paths run natively with every checked operand compared',
            'harnesses': len(results), 'harness_list': sorted(r['harness'] for r in results),
            'functions_encoded': fns, 'bounds': props.BOUNDS[pid] + [F for F in [props.F32F64]],
            'proof_obligations': obl, 'obligations_discharged': dis, 'discharged_by_encoding': enc,
            'solver_queries': ssum(lambda r: r['stats']['queries']), 'queries_unsat': ssum(lambda r: r['stats']['unsat']),
            'queries_sat': ssum(lambda r: r['stats']['sat']), 'queries_unknown': ssum(lambda r: r['stats']['unknown']),
            'solver_s': round(ssum(lambda r: r['stats']['time']), 2), 'queries_by_encoding': by, 'build_s': round(tb, 1),
            'undecided': und, 'decided_on_a_smaller_domain': narrowed, 'notes': notes,
            'completed_paths': ssum(lambda r: r['ended']),
        },
        'assumptions': props.TRUST + [props.UF] + ([props.REAL] if enc.get('real') else []) + ([props.RND] if enc.get('rnd') else []) + ([props.FP] if enc.get('fp') else []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    print('%s: %d harnesses, %d paths, %d obligations (%s), %d solver queries %.1f s, %d traces validated, build %.0f s, wall %.0f s' %
          (pid, len(results), ev['coverage']['states'], obl, enc, ev['coverage']['solver_queries'], ev['coverage']['solver_s'],
           ev['coverage']['traces_validated_against_impl'], tb, time.time() - t0))
    for n in notes[:8]: print('NOTE ' + n[:400])
    for n in narrowed[:8]: print('SMALLER-DOMAIN ' + n[:400])
    if viol:
        for h, v, path in viol:
            print('  %s: %s   inputs %s   native: %s' % (h, v['msg'], v['shown'][:12], v['native'][:1]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    for u in und[:12]: print('UNDECIDED ' + u[:600])
    # the property held on everything explored; no answer when that is less than half of what was to be decided
    base = [j[0] for j in jobs if not (bad_aux and any(fnmatch.fnmatch(j[0], p) for p in props.EXTRA))]
    done = {r['harness'] for r in results if not (r['undecided'] or r['mismatch'])}
    nd = len([n for n in base if n in done])
    if dis == 0 or 2 * nd < len(base):
        print('ERROR: %d of %d harnesses decided' % (nd, len(base)))
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
