"""debug: run named harnesses against an existing build:  one.py NAME[,NAME] [key=value...]"""
import sys, glob, time, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llparse, checker
D = os.environ.get('VP_TARGET', '/verif/harness/target') + '/debug'
mod = llparse.Module()
t = time.time()
for n in ('vph', 'rasp', 'num_traits'):
    for p in glob.glob(D + '/deps/%s-*.ll' % n): mod.load(p)
print('parsed %.1fs' % (time.time() - t))
cfg = {}
for a in sys.argv[2:]:
    k, v = a.split('=')
    cfg[k] = int(v) if v.lstrip('-').isdigit() else v
names = []
for n in sys.argv[1].split(','):
    import fnmatch
    names += [k for k in list(mod.funcs)+list(mod.aliases) if (fnmatch.fnmatch(k, n) and k[-3:] in ('f32', 'f64'))]
rep = checker.Replayer(D + '/replay')
for n in sorted(names):
    h = checker.Harness(mod, n, dict(cfg), rep, time.time() + cfg.get('limit', 120))
    try: r = h.run()
    except Exception as e:
        import traceback; traceback.print_exc(); print(n, 'EXC', e); continue
    if os.environ.get('VPV'): print(r['stats'])
    print('%-28s %5.1fs paths %d ended %d obl %d %s val %d/%d mism %s viol %s und %s' % (n, r['time'], r['paths'], r['ended'], r['obligations'], r['discharged'], r['validated'], r['witnesses'], r['mismatch'][:2], [(v['msg'], v['shown'], v['native'][:1]) for v in r['violations']], r['undecided'][:2]))
