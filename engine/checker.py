"""Runs one harness: symbolic execution of its IR, discharge of every obligation, counterexample replay against the native build."""
import os, sys, time, math, random, subprocess, tempfile, itertools, hashlib
from fractions import Fraction as Fr
import z3
from terms import *
import terms as T
import smt, real, symex
from symex import Exec, Inconclusive, State

REPLAY_BIN = None


class Feas:
    def __init__(self, mode, timeout_ms, enc):
        self.mode, self.timeout, self.enc = mode, timeout_ms, enc
        self.cache = {}
        self.solver = None
        self.stack = []          # ids asserted, one push level each
        self.n = 0

    def sync(self, pc):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', int(self.timeout))
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] == pc[k].id: k += 1
        if k < len(self.stack):
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for t in pc[k:]:
            self.solver.push()
            self.solver.add(self.enc.enc(t))
            self.stack.append(t.id)

    def raw(self, pc, extra):
        self.sync(pc)
        t0 = time.time()
        self.solver.push()
        self.solver.add(self.enc.enc(extra))
        r = str(self.solver.check())
        m = self.solver.model() if r == 'sat' else None
        self.solver.pop()
        smt.note(self.enc.name + '-path', r, time.time() - t0)
        return r, m

    def __call__(self, st, extra):
        key = (tuple(t.id for t in st.pc), extra.id)
        if key in self.cache: return self.cache[key]
        if self.mode == 'rnd':
            # reals with bounded rounding errors: an over-approximation of what is reachable
            if extra is TRUE or extra is FALSE: return extra is TRUE
            if self.raw(st.pc, extra)[0] == 'unsat':
                self.cache[key] = False
                return False
            q = real.Query(list(st.pc) + [extra], ('bool', FALSE), self.oracle, 4000, rounding=True)
            res = {'unsat': False, 'sat': True}.get(q.run())
            self.cache[key] = res
            return res
        r, m = self.raw(st.pc, extra)
        if r == 'sat' and st.env is None:
            # adopt a witness if it is one under the native semantics too
            env = self.enc.model(m, list(st.pc) + [extra])
            try:
                if all(evaluate(st.pc, env)): st.env = env
            except Exception: pass
        res = False if r == 'unsat' else True if r == 'sat' else None
        self.cache[key] = res
        return res

    def values(self, st, t, bound):
        vals = []
        pc = list(st.pc)
        block = TRUE
        while True:
            r, m = self.raw(pc, block)
            if r == 'unsat': return vals, True
            if r != 'sat' or len(vals) >= bound: return vals, False
            v = m.eval(self.enc.enc(t), model_completion=True).as_long()
            vals.append(v)
            block = band(block, bnot(icmp('eq', t, bv(v, t.sort[1]))))


def fold(t, memo):
    for u in subterms([t]):
        if u.id in memo: continue
        if not u.args:
            memo[u.id] = u
            continue
        na = tuple(memo[x.id] for x in u.args)
        if all(x.op == 'const' for x in na) and u.op not in ('aconst', 'afill', 'acopy', 'astore', 'asel'):
            r = mk(u.op, na, u.sort, u.val)
            v = evaluate([r], {})[0]
            memo[u.id] = const(v, u.sort) if u.sort != BOOL else (TRUE if v else FALSE)
        elif all(x is y for x, y in zip(na, u.args)): memo[u.id] = u
        elif u.op in ('aconst', 'afill', 'acopy'): memo[u.id] = mk(u.op, na, u.sort, u.val)
        else: memo[u.id] = app(u.op, na, u.sort, u.val)
    return memo[t.id]


def eq_goal(a, b):
    g = icmp('eq', tobits(a), tobits(b))
    return bor(g, bor(fcmp('oeq', a, b), band(fcmp('uno', a, a), fcmp('uno', b, b))))


def fval(bits, sort): return float(bits2f(bits, sort))


def native_ok(kind, vals, sorts):
    """does the obligation hold for concrete values (same rule as the native runtime)"""
    if kind == 'assert': return bool(vals[0])
    f = [fval(v, s) for v, s in zip(vals, sorts)]
    a, b = f[0], f[1]
    if a == b or (a != a and b != b): return True
    if kind == 'eq': return False
    scale, tol = f[2], f[3]
    if not math.isfinite(scale): return True
    tiny = TINY[sorts[0]]
    bound = tol * scale + tiny
    if kind == 'close': return abs(a - b) <= bound
    if kind == 'le': return a <= b + bound
    raise KeyError(kind)


class Replayer:
    def __init__(self, binary): self.binary = binary

    def run(self, harness, values, keep=None):
        """values: list of (sort, int). returns parsed result"""
        txt = harness + '\n' + ''.join('%s %d\n' % (s if isinstance(s, str) else 'u', v) for s, v in values)
        if keep:
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            open(keep, 'w').write(txt)
            path = keep
        else:
            fd, path = tempfile.mkstemp(prefix='vpreplay')
            os.write(fd, txt.encode())
            os.close(fd)
        try:
            p = subprocess.run([self.binary, path], capture_output=True, text=True, timeout=60)
            out = p.stdout
            rc = p.returncode
        except subprocess.TimeoutExpired:
            out, rc = '', 'timeout'
        finally:
            if not keep: os.unlink(path)
        lines = out.strip().split('\n') if out.strip() else []
        bad = [l for l in lines if l.startswith('BAD') or l.startswith('PANIC')]
        if isinstance(rc, int) and rc < 0 or rc == 'timeout': bad.append('PROCESS %s' % rc)
        ended = any(l == 'END' for l in lines)
        assumed = any(l.startswith('ASSUME') for l in lines)
        return {'rc': rc, 'lines': lines, 'bad': bad, 'end': ended, 'assume': assumed}


class Harness:
    def __init__(self, mod, name, cfg, replayer, deadline):
        self.mod, self.name, self.cfg, self.rep, self.deadline = mod, name, cfg, replayer, deadline
        self.uf = smt.BVEnc(False)
        self.fp = smt.BVEnc(True)
        mode = cfg.get('feas', 'uf')
        self.feas = Feas(mode, cfg.get('feas_ms', 20000), self.fp if mode == 'fp' else self.uf)
        self.ufeas = self.feas if mode == 'uf' else Feas('uf', 10000, self.uf)
        self.feas.oracle = self.oracle
        self.done = {}            # obligation key -> result
        self.strict = {}          # obligation key -> proved bit-for-bit equality, usable further along the path
        self.res = {'harness': name, 'obligations': 0, 'discharged': {}, 'violations': [], 'undecided': [], 'paths': 0, 'ended': 0,
                    'witnesses': 0, 'validated': 0, 'mismatch': [], 'notes': [], 'samples': []}
        self.seen_msgs = {}

    def timeleft(self): return self.deadline - time.time()

    def run(self):
        t0 = time.time()
        ex = Exec(self.mod, self.feas, max_steps=self.cfg.get('steps', 8000000), max_paths=self.cfg.get('paths', 6000))
        ex.tier = self.cfg.get('tier', 0)
        ex.split_fptoui = self.cfg.get('split_fptoui', False)
        ex.deadline = self.deadline
        self.ex = ex
        for k in ('queries', 'time', 'unsat', 'sat', 'unknown'): smt.STATS[k] = 0
        smt.STATS['by'] = {}
        r = self.res
        try:
            ex.run(self.name, self.on_path)
        except Inconclusive as e:
            r['undecided'].append('execution: %s' % e)
        except symex.TimeUp as e:
            r['undecided'].append('time limit reached during execution')
        for k, v in ex.lost.items(): r['undecided'].append('execution: %s (%d paths)' % (k, v))
        for k in ex.narrowed: r['notes'].append('execution: ' + k)
        r['paths'], r['forks'], r['steps'] = ex.paths, ex.forks, ex.nsteps
        r['fns'] = sorted(ex.fns)
        r['dbg'] = sorted(ex.dbg)
        r['stats'] = {k: (dict(v) if isinstance(v, dict) else v) for k, v in smt.STATS.items()}
        r['time'] = time.time() - t0
        if r['ended'] == 0 and not r['violations'] and not r['undecided']:
            r['undecided'].append('vacuous: no path reaches the end')
        return r

    # ------------------------------------------------------------ per path
    def on_path(self, st):
        if self.timeleft() < 0: raise symex.TimeUp()
        if len(self.res['violations']) >= 1: raise symex.TimeUp()
        self.lemmas = []
        self.pairs = {}           # term id -> equal term, along this path
        for (kind, msg, npc, terms) in st.obs:
            pc = st.pc[:npc]
            key = (kind, msg, tuple(t.id for t in pc), tuple(t.id for t in terms))
            if key in self.done:
                if key in self.strict: self.learn(*self.strict[key])
                continue
            self.res['obligations'] += 1
            self.lem = None
            out = self.decide(st, kind, msg, pc, terms)
            self.done[key] = out
            if self.lem is not None:
                self.strict[key] = self.lem
                self.learn(*self.lem)
            self.res['discharged'][out] = self.res['discharged'].get(out, 0) + 1
            if len(self.res['violations']) >= 1: raise symex.TimeUp()
        if st.status == 'done': self.path_end(st)

    def learn(self, g, pairs):
        """a bit-for-bit equality shown under the path condition so far"""
        self.lemmas.append(g)
        for x, y in pairs:
            if x is not y: self.pairs[x.id] = y

    def rewritten(self, ts):
        if not self.pairs: return list(ts)
        return [symex.subst_term(t, self.pairs) for t in ts]

    def strict_eq(self, pc, lem, a, b, ms):
        """equality of the bit patterns, first of what the two are computed from; returns the equal pairs or None"""
        x, y = self.rewritten([a, b])
        if x is y:
            self.uf.same(x)
            return [(a, b)]
        if x.op == y.op and x.op in ('fsqrt', 'exp', 'log', 'log10', 'fabs', 'fneg', 'sin', 'cos') and ms > 500:
            p = self.strict_eq(pc, lem, x.args[0], y.args[0], ms / 2)
            if p is not None: return p + [(x, y), (a, b)]
        # decided facts hold for these shapes too
        g = icmp('eq', tobits(x), tobits(y))
        if lem and (x is not a or y is not b) and self.uf.check(list(pc) + [bnot(g)], ms / 2) == 'unsat': return [(x, y), (a, b)]
        if self.uf.check(list(pc) + lem + [bnot(g)], ms) == 'unsat': return [(x, y), (a, b)]
        return None

    def path_end(self, st):
        """reachability witness and translator validation"""
        r = self.res
        r['ended'] += 1
        if r['witnesses'] >= self.cfg.get('witnesses', 4): return
        env = self.witness(st)
        if env is None: return
        r['witnesses'] += 1
        if any(not isinstance(s, str) and env.get(n, 0) > 1000 for n, s, lo, hi in st.inputs):
            # a smaller one, if there is one, is quicker to run
            small = self.uf.check(list(st.pc) + [icmp('ult', var(n, s), bv(1000, s[1])) for n, s, lo, hi in st.inputs if not isinstance(s, str) and lo is not None and lo < 1000], 3000, True)
            if small[0] == 'sat' and self.accept(small[1], st.pc, None): env = small[1]
        envs = [env]
        # a second, less degenerate input of the same path
        rnd = random.Random(r['ended'] * 7919 + 13)
        for k in range(40):
            e = dict(env)
            for n, s, lo, hi in st.inputs:
                if isinstance(s, str) and (k < 20 or rnd.random() < 0.5): e[n] = f2bits(self.rfloat(rnd), s)
            if self.accept(e, st.pc, None):
                envs.insert(0, e)
                break
        for env in envs:
            if not self.validate(st, env): break

    def validate(self, st, env):
        r = self.res
        vals = [(s, env.get(n, 0)) for n, s, lo, hi in st.inputs]
        rp = self.rep.run(self.name, vals)
        if 'SKIP' in rp['lines']: return False
        if rp['assume'] or not (rp['end'] or rp['bad']):
            r['mismatch'].append('witness does not reach the end natively: %s' % rp['lines'][-2:])
            return False
        # compare every reported operand
        obs = [o for o in st.obs if o[0] in ('eq', 'close', 'le') or (o[0] == 'assert' and not o[1].startswith('in-bounds'))]
        nat = [l for l in rp['lines'] if l.split(' ', 1)[0] in ('OK', 'BAD')]
        exp = []
        for (kind, msg, npc, terms) in obs:
            try: v = evaluate(list(terms), env)
            except Exception as e: v = None
            exp.append((kind, msg, v, [t.sort for t in terms]))
        if rp['bad']:
            # a concrete failing run of the real code: a violation whatever the solver says
            k = len(nat) - 1
            r['violations'].append({'msg': 'found when replaying a witness of a completed path: ' + rp['bad'][0], 'kind': 'replay',
                                    'inputs': [(s if isinstance(s, str) else 'u', v) for s, v in vals], 'shown': [self.show(s, v) for s, v in vals], 'native': rp['bad'][:3]})
            return False
        if len(nat) != len(exp):
            r['mismatch'].append('native run reports %d checks, encoding %d' % (len(nat), len(exp)))
            return False
        for l, (kind, msg, v, so) in zip(nat, exp):
            p = l.split(' ')
            nv = [int(x) for x in p[2:2 + len(so)]]
            if v is None: continue
            for x, y, s in zip(nv, v, so):
                if x == y: continue
                if isinstance(s, str):
                    fx, fy = fval(x, s), fval(y, s)
                    if fx == fy or (fx != fx and fy != fy): continue
                r['mismatch'].append('%s: native %s, encoding %s' % (msg, x, y))
                return False
        r['validated'] += 1
        if len(r['samples']) < 3:
            r['samples'].append({'inputs': [self.show(s, v) for s, v in vals][:24], 'checks': len(nat)})
        return True

    def show(self, s, v): return fval(v, s) if isinstance(s, str) else v

    def witness(self, st):
        if st.env is not None: return st.env
        for enc, ms in ((self.uf, 5000), (self.fp, 10000)):
            try: res, env = enc.check(st.pc, ms, True)
            except Exception: continue
            if res == 'sat':
                try:
                    if all(evaluate(st.pc, env)): return env
                except Exception: pass
        q = real.Query(st.pc, ('bool', FALSE), self.oracle, 5000)
        if q.run() == 'sat':
            for env in self.concretize(st, q, st.pc, None, 60):
                return env
        return None

    # ------------------------------------------------------------ deciding
    def oracle(self, pc):
        pc = list(pc)

        def f(t):
            if t is TRUE: return True
            key = (tuple(x.id for x in pc), t.id)
            c = self.__dict__.setdefault('_orc', {})
            if key not in c: c[key] = self.ufeas.raw(pc, bnot(t))[0] == 'unsat'
            return c[key]
        return f

    def decide(self, st, kind, msg, pc, terms):
        ms = self.cfg.get('ms', 20000)
        order = self.cfg.get('order', 'uf,real,fp').split(',')
        if kind in ('panic', 'memory'): goal = FALSE
        elif kind == 'assert': goal = terms[0]
        elif kind in ('eq', 'close'): goal = eq_goal(terms[0], terms[1])
        elif kind == 'le':
            goal = bor(fcmp('ole', terms[0], terms[1]), band(fcmp('uno', terms[0], terms[0]), fcmp('uno', terms[1], terms[1])))
        if goal is TRUE:
            # both sides are one term; the solver gets the comparison all the same
            if kind in ('eq', 'close', 'le') and terms[0] is terms[1]: r = self.uf.same(terms[0])
            else: r = self.uf.check([FALSE], 1000)
            return 'uf'
        if kind in ('close', 'le') and all(t.op == 'const' for t in terms):
            # no input left in it: one bit-precise comparison
            if self.fp_close(kind, terms) is TRUE:
                self.uf.check([FALSE], 1000)
                return 'fp'
        cands = []
        why = []
        verdict = None
        for enc in order:
            if self.timeleft() < 0: break
            if enc == 'uf':
                lem = self.lemmas[-40:]
                try:
                    if kind in ('eq', 'close'):
                        p = self.strict_eq(pc, lem, terms[0], terms[1], min(ms, 8000))
                        if p is not None:
                            self.lem = (icmp('eq', tobits(terms[0]), tobits(terms[1])), p)
                            return 'uf'
                    res, env = self.uf.check(list(pc) + lem + [bnot(goal)], ms, True)
                except KeyError as e: why.append('uf %s' % e); continue
                if res == 'unsat': return 'uf'
                if res == 'sat': cands.append(('env', env))
                why.append('uf ' + res)
            elif enc == 'fp':
                g = goal
                if kind in ('close', 'le'): g = self.fp_close(kind, terms)
                try: res, env = self.fp.check(list(pc) + [bnot(g)], self.cfg.get('fp_ms', ms), True)
                except KeyError as e: why.append('fp %s' % e); continue
                if res == 'unsat': return 'fp'
                if res == 'sat':
                    cands.insert(0, ('env', env))
                    if self.try_cands(st, kind, msg, pc, terms, cands): return 'violated'
                    cands = []
                why.append('fp ' + res)
            elif enc == 'rnd':
                # reals with every rounding error bounded: a proof covers rounding, a model is only a candidate
                if kind in ('close', 'le'): g = (kind, terms[0], terms[1], terms[2], Fr(float(tofloat(terms[3]))) )
                elif kind == 'eq': continue
                else: g = ('bool', goal)
                q = real.Query(pc, g, self.oracle, ms, rounding=True)
                res = q.run()
                if res == 'unsat' and not q.candidates: return 'rnd'
                why.append('rnd %s %s' % (res, q.why))
                if res == 'sat': cands.insert(0, ('real', q))
            elif enc == 'real':
                if kind in ('close', 'le'):
                    tol = Fr(float(tofloat(terms[3])))
                    g = (kind, terms[0], terms[1], terms[2], tol)
                elif kind == 'eq':
                    g = ('close', terms[0], terms[1], fconst(0.0, terms[0].sort), Fr(0))
                else:
                    g = ('bool', goal)
                q = real.Query(pc, g, self.oracle, ms)
                res = q.run()
                if res == 'unsat' and (kind != 'eq' or self.cfg.get('eq_real', False)):
                    if q.candidates and self.try_cands(st, kind, msg, pc, terms, [('real', q)]): return 'violated'
                    return 'real'
                if res == 'unsat': why.append('real unsat (exactness open)')
                else: why.append('real %s %s' % (res, q.why))
                if res == 'sat':
                    cands.insert(0, ('real', q))
                    if self.try_cands(st, kind, msg, pc, terms, cands): return 'violated'
                    cands = []
        if cands and self.try_cands(st, kind, msg, pc, terms, cands): return 'violated'
        r = self.narrow(st, kind, msg, pc, terms, goal)
        if r == 'violated': return r
        if r:
            self.res['notes'].append('%s "%s": open in general (%s), decided for all values of one or two inputs with the others fixed, %d ways' % (kind, msg, '; '.join(why), r))
            return 'narrowed'
        self.res['undecided'].append('%s "%s": %s' % (kind, msg, '; '.join(why)))
        return 'undecided'

    def narrow(self, st, kind, msg, pc, terms, goal):
        """the obligation with all inputs but one or two fixed, bit-precisely; number of such restrictions decided"""
        if kind in ('close', 'le'): goal = self.fp_close(kind, terms)
        env0 = self.witness(st)
        envs = [] if env0 is None else [env0]
        rnd = random.Random(5)
        for k in range(400):
            if len(envs) >= 4: break
            e = dict(env0 or {})
            for n, s, lo, hi in st.inputs:
                if isinstance(s, str): e[n] = f2bits(self.rfloat(rnd), s)
                elif lo is not None: e[n] = self.rint(rnd, lo, hi)
            if self.accept(e, pc, None): envs.append(e)
        done = 0
        used = {t.val: t for t in subterms(list(pc) + [goal]) if t.op == 'var' and isinstance(t.sort, (str, tuple)) and t.sort != BOOL and t.sort[0] != 'arr'}
        names = sorted(used)
        if not names: return 0
        for j, e in enumerate(envs):
            for free in ([names[(j * 5 + 1) % len(names)]], [names[-1 - j % len(names)]], [names[j % len(names)], names[(j + len(names) // 2) % len(names)]]):
                if self.timeleft() < 0: return done
                memo = {used[n].id: const(e.get(n, 0), used[n].sort) for n in names if n not in free}
                try:
                    q = [fold(t, memo) for t in list(pc) + [bnot(goal)]]
                    res, env = self.fp.check(q, 4000, True)
                except Exception: continue
                if res == 'unsat': done += 1
                if res == 'sat':
                    full = dict(e)
                    full.update(env)
                    if self.try_cands(st, kind, msg, pc, terms, [('env', full)], 40): return 'violated'
        return done if done >= 3 else 0

    def fp_close(self, kind, terms):
        a, b, sc, tol = terms
        s = a.sort
        d = app('fsub', (a, b), s)
        bound = app('fadd', (app('fmul', (sc, tol), s), fconst(TINY[s], s)), s)
        if kind == 'close':
            ok = fcmp('ole', app('fabs', (d,), s), bound)
        else: ok = fcmp('ole', d, bound)
        big = bnot(fcmp('olt', sc, fconst(math.inf, s)))
        return bor(eq_goal(a, b), bor(ok, big))

    def try_cands(self, st, kind, msg, pc, terms, cands, limit=400):
        n = 0
        for c in cands:
            for env in self.concretize(st, c[1], pc, (kind, terms), limit) if c[0] == 'real' else self.perturb(st, c[1], pc, (kind, terms), limit):
                vals = [(s, env.get(nm, 0)) for nm, s, lo, hi in st.inputs]
                rp = self.rep.run(self.name, vals)
                if rp['bad']:
                    self.res['violations'].append({'msg': msg, 'kind': kind, 'inputs': [(s if isinstance(s, str) else 'u', v) for s, v in vals],
                                                   'shown': [self.show(s, v) for s, v in vals], 'native': rp['bad'][:3]})
                    return True
                n += 0.2 if 'SKIP' in rp['lines'] else 1
                if n > 6: break
        return False

    def holds(self, env, pc, ob):
        """(pc satisfied, obligation satisfied) natively"""
        kind, terms = ob if ob else ('none', ())
        try: v = evaluate(list(pc) + list(terms), env)
        except Exception: return False, True
        if not all(v[:len(pc)]): return False, True
        if kind in ('panic', 'memory'): return True, False
        if kind == 'none': return True, True
        return True, native_ok(kind, v[len(pc):], [t.sort for t in terms])

    def accept(self, env, pc, ob):
        p, o = self.holds(env, pc, ob)
        return p and (ob is None or not o)

    def perturb(self, st, env, pc, ob, limit):
        if self.accept(env, pc, ob):
            yield env
        rnd = random.Random(1)
        for k in range(limit):
            e = dict(env)
            for n, s, lo, hi in st.inputs:
                if isinstance(s, str) and rnd.random() < 0.7:
                    e[n] = f2bits(self.rfloat(rnd), s)
                elif lo is not None and hi - lo > 1000 and rnd.random() < 0.3: e[n] = self.rint(rnd, lo, hi)
            if self.accept(e, pc, ob): yield e

    def rint(self, rnd, lo, hi):
        if rnd.random() < 0.5: return rnd.randint(lo, min(hi, lo + rnd.choice([2, 9, 100])))
        return min(hi, lo + int(2 ** rnd.uniform(0, min(26, (hi - lo + 1).bit_length()))))

    def rfloat(self, rnd):
        k = rnd.random()
        if k < 0.1: return 0.0
        if k < 0.3: return float(rnd.choice([1, -1, 2, 0.5, -0.5, 3]))
        if k < 0.6: return rnd.uniform(-1, 1)
        return rnd.choice([-1, 1]) * 10 ** rnd.uniform(-4, 4)

    def concretize(self, st, q, pc, ob, limit):
        rnd = random.Random(7)
        count = 0
        for R, m in q.candidates[:6]:
            if m is None: m = {}
            base = {}
            for n, s, lo, hi in st.inputs:
                if n in m: base[n] = m[n]
            for n in m:
                if n.split('_')[0][:5] in ('havoc', 'undef'): base[n] = m[n]
            variants = [base]
            # make transcendental atoms consistent with their arguments
            for (arg, c, s) in getattr(R, 'groups', []):
                th = math.atan2(float(m.get(s, 0)), float(m.get(c, 1)))
                for t in (th, th + 2 * math.pi, th + math.pi):
                    variants += self.solve_for(R, arg, Fr(t), m, base)
            for (u, nm) in getattr(R, 'exps', []):
                E = float(m.get(nm, 1))
                if E > 0: variants += self.solve_for(R, u, Fr(math.log(E)), m, base)
            for (x, nm) in getattr(R, 'logs', []):
                L = float(m.get(nm, 0))
                if abs(L) < 600: variants += self.solve_for(R, x, Fr(math.exp(L)), m, base)
            for v in variants:
                for e in self.to_envs(st, v, rnd):
                    count += 1
                    if self.accept(e, pc, ob): yield e
            # neighbourhood / generic instantiation of the solver's case
            for k in range(limit):
                v = dict(rnd.choice(variants))
                for n, s, lo, hi in st.inputs:
                    if rnd.random() < 0.5:
                        if isinstance(s, str): v[n] = Fr(self.rfloat(rnd))
                        elif lo is not None:
                            v[n] = Fr(self.rint(rnd, lo, hi) if hi - lo > 1 << 26 or rnd.random() < 0.6 else rnd.randint(lo, hi))
                for e in self.to_envs(st, v, rnd, 1):
                    if self.accept(e, pc, ob): yield e

    def solve_for(self, R, arg, target, m, base):
        """choose one input so that the rational function arg equals target"""
        out = []
        n, d = arg.n, arg.d
        for v in sorted(n.vars() | d.vars()):
            if v not in base: continue
            def lin(p):
                c0, c1 = Fr(0), Fr(0)
                for mon, c in p.d.items():
                    e = 0
                    x = c
                    for w, k in mon:
                        if w == v: e = k
                        else: x *= m.get(w, Fr(0)) ** k
                    if e == 0: c0 += x
                    elif e == 1: c1 += x
                    else: return None
                return c0, c1
            a, b = lin(n), lin(d)
            if a is None or b is None: continue
            den = a[1] - target * b[1]
            if den == 0: continue
            x = (target * b[0] - a[0]) / den
            nb = dict(base)
            nb[v] = x
            out.append(nb)
        return out

    def to_envs(self, st, v, rnd, maxn=6):
        names = [(n, s) for n, s, lo, hi in st.inputs]
        ints = [n for n, s in names if isinstance(s, tuple) and n in v and v[n].denominator != 1]
        outs = []
        combos = itertools.islice(itertools.product((0, 1), repeat=len(ints)), maxn) if ints else [()]
        for cb in combos:
            e = {}
            ok = True
            for n, x in v.items():
                s = next((s for k, s in names if k == n), None)
                if s is None: s = 'f32' if n.endswith('f32') else 'f64' if n.endswith('f64') else I64
                if isinstance(s, str):
                    try: e[n] = f2bits(float(x), s)
                    except OverflowError: ok = False
                else:
                    k = math.floor(x) + (cb[ints.index(n)] if n in ints else 0)
                    e[n] = int(k) & ((1 << s[1]) - 1)
            if ok: outs.append(e)
        return outs
