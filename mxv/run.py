"""Check driver: collects proof obligations of one property, decides them, reports."""
import os, sys, time, json, traceback, hashlib, subprocess
from . import fe
from .terms import *
from .values import *
from .interp import Interp, State, Out
from .solve import Solver, model_value

VERIF = fe.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')

class TimeLimit(BaseException): pass
class Check:
    def __init__(self, pid, tier=None, title=''):
        self.pid = pid; self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.solver = Solver()
        self.n = 0; self.trivial = 0; self.byz3 = 0
        self.failed = []          # (key, text, witness dict)
        self.undecided = []       # (key, reason)
        self.contracts = set()    # functions under contract (verified bodies)
        self.trusted = {}         # library models
        self.called = {}
        self.assumptions = []
        self.samples = []
        self.notes = []
        self.covers = 0
        self.bounded = []         # labelled bounded stand-ins that ran
        self.known = {}
        self.obl_kinds = {}
        self.title = title
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                if l.startswith('finding:'):
                    d = l.split(None, 3)
                    if d[1] == 'property=' + pid: self.known[d[2].split('=', 1)[1]] = d[3].strip()
        self.known_hit = {}
    def log(self, *a):
        print('[%s %.0fs]' % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)
    # ------------------------------------------------------------------
    def interp(self, P):
        I_ = Interp(P, self.solver)
        return I_
    def absorb(self, I_, func=None):
        for q, k in I_.trusted.items(): self.trusted[q] = self.trusted.get(q, 0) + k
        for q, k in I_.called.items(): self.called[q] = self.called.get(q, 0) + k
        if func is not None: self.contracts.add(func)
    def prove(self, key, pc, goal, where='', witness=None, kind='post', timeout=None):
        """decide one obligation.  witness(model) -> dict(confirmed=bool, text, path) replays a counter-model"""
        self.n += 1
        self.obl_kinds[kind] = self.obl_kinds.get(kind, 0) + 1
        if goal is TRUE or And(*pc, Not(goal)) is FALSE:
            self.trivial += 1
            if len(self.samples) < 4: self.samples.append({'obligation': key, 'back_end': 'simplifier', 'where': where})
            return True
        r, m = self.solver.prove(pc, goal, timeout)
        if r == 'proved':
            self.byz3 += 1
            if len(self.samples) < 8: self.samples.append({'obligation': key, 'back_end': 'z3', 'where': where})
            return True
        if r == 'unknown':
            self.undecided.append((key, 'solver returned unknown (%s)' % where)); return None
        f = {'pc': pc, 'goal': goal}
        self.failed.append({'key': key, 'where': where, 'mtext': model_text(m, f), 'gtext': show(goal, 12)[:4000], 'model': m, 'witness': witness, 'kind': kind})
        return False
    def is_known(self, key):
        key = key.replace(' ', '_')
        return next((k for k in self.known if key == k or key.startswith(k + '/') or key.startswith(k + '#')), None)
    def replay_failures(self):
        done = 0
        for f in self.failed:
            if 'w' in f: continue
            w = None
            if self.is_known(f['key']) is not None: w = {'confirmed': None, 'text': 'listed in known-findings.txt, not replayed'}
            elif done >= 8: w = {'confirmed': None, 'text': 'not replayed: eight other failures of this run were'}
            elif f.get('witness') is not None:
                done += 1
                try: w = f['witness'](f['model'])
                except Exception as e:
                    if os.environ.get('MXV_DEBUG'): traceback.print_exc(limit=-5)
                    w = {'confirmed': None, 'text': 'replay could not be built: %s %s' % (type(e).__name__, str(e)[:500])}
            f['w'] = w
    def parallel(self, items, fn, nproc=8, limit=None):
        """fn(item) for every item, in forked workers; obligations and results are collected.  Returns the fn results in order"""
        import pickle, tempfile
        items = list(items)
        nproc = min(nproc, max(1, len(items)))
        sys.stdout.flush(); sys.stderr.flush()
        kids = []
        import fcntl
        lockp = tempfile.NamedTemporaryFile(delete=False)
        def take():
            with open(lockp.name, 'r+b') as l:
                fcntl.flock(l, fcntl.LOCK_EX)
                v = int(l.read() or b'0'); l.seek(0); l.write(b'%d' % (v + 1)); l.flush()
            return v
        for k in range(nproc):
            tf = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    n0 = len(self.failed); u0 = len(self.undecided)
                    base = (self.n, self.trivial, self.byz3, self.covers, self.solver.n, self.solver.time)
                    kinds0 = dict(self.obl_kinds); self.samples = []; self.contracts = set(); self.trusted = {}; self.called = {}
                    self.bounded = []; self.notes = []
                    res = []
                    while True:
                        i = take()
                        if i >= len(items): break
                        if limit:
                            import signal
                            def late(*a): raise TimeLimit('time limit of %d s for one function' % limit)
                            signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, limit, 5)
                        try: r = fn(items[i])
                        except (Unsupported, TimeLimit) as e: self.undec(str(items[i])[:80], str(e)); r = None
                        finally:
                            if limit: signal.setitimer(signal.ITIMER_REAL, 0)
                        res.append((i, r))
                    self.replay_failures()
                    for f in self.failed: f.pop('model', None); f.pop('witness', None)
                    out = dict(n=self.n - base[0], trivial=self.trivial - base[1], byz3=self.byz3 - base[2], covers=self.covers - base[3],
                               sn=self.solver.n - base[4], st=self.solver.time - base[5], failed=self.failed[n0:], undecided=self.undecided[u0:],
                               kinds={q: v - kinds0.get(q, 0) for q, v in self.obl_kinds.items()}, samples=self.samples, contracts=self.contracts,
                               trusted=self.trusted, called=self.called, bounded=self.bounded, notes=self.notes, res=res)
                    pickle.dump(out, tf); tf.flush(); code = 0
                except BaseException as e:
                    try:
                        traceback.print_exc(limit=-5)
                    except Exception: pass
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            kids.append((pid, tf))
        results = {}
        for pid, tf in kids:
            _, st = os.waitpid(pid, 0)
            tf.seek(0)
            try: o = pickle.load(tf)
            except Exception: o = None
            if st != 0 or o is None:
                self.undec('worker', 'a worker process died (status %d)' % st); continue
            self.n += o['n']; self.trivial += o['trivial']; self.byz3 += o['byz3']; self.covers += o['covers']
            self.solver.n += o['sn']; self.solver.time += o['st']
            self.failed += o['failed']; self.undecided += o['undecided']
            for q, v in o['kinds'].items(): self.obl_kinds[q] = self.obl_kinds.get(q, 0) + v
            self.samples += o['samples']; self.contracts |= o['contracts']; self.bounded += o['bounded']; self.notes += o['notes']
            for src, dst in ((o['trusted'], self.trusted), (o['called'], self.called)):
                for q, v in src.items(): dst[q] = dst.get(q, 0) + v
            results.update(dict(o['res']))
        os.unlink(lockp.name)
        self.failed.sort(key=lambda f: f['key']); self.undecided.sort()
        return [results.get(i) for i in range(len(items))]
    def prove_all(self, pc, items, where='', witness=None, kind='post', timeout=None):
        """items: [(key, goal)] under one path condition: first as one query, then one by one when that fails"""
        todo = [(k, g) for k, g in items if not (g is TRUE or And(*pc, Not(g)) is FALSE)]
        if len(todo) > 1 and self.solver.prove(pc, And(*[g for _, g in todo]), timeout)[0] == 'proved':
            for k, g in items:
                self.n += 1; self.obl_kinds[kind] = self.obl_kinds.get(kind, 0) + 1
                if (k, g) in todo:
                    self.byz3 += 1
                    if len(self.samples) < 8: self.samples.append({'obligation': k, 'back_end': 'z3', 'where': where})
                else: self.trivial += 1
            return True
        ok = True
        for k, g in items: ok = (self.prove(k, pc, g, where, witness, kind, timeout) is True) and ok
        return ok
    def prove_obls(self, I_, prefix, witness=None):
        """discharge obligations the evaluator raised (null dereference, bounds, ...)"""
        seen = set(); near = {}
        for o in I_.obls:
            key = '%s/%s' % (prefix, o.kind)
            full = (o.goal, frozenset(o.pc), o.where)
            if full in seen: continue
            seen.add(full)
            # the conjuncts of the path that speak about the goal usually suffice; they recur on many paths
            fv = set(freevars(o.goal))
            pc = [c for c in o.pc if not fv.isdisjoint(freevars(c))]
            k = (o.goal, frozenset(pc))
            if k not in near: near[k] = And(*pc, Not(o.goal)) is FALSE or self.solver.prove(pc, o.goal, 3000)[0] == 'proved'
            if near[k]:
                self.n += 1; self.obl_kinds[o.kind] = self.obl_kinds.get(o.kind, 0) + 1; self.byz3 += 1
                if len(self.samples) < 8: self.samples.append({'obligation': key, 'back_end': 'z3', 'where': o.where})
                continue
            self.prove(key, o.pc, o.goal, o.where, witness, kind=o.kind)
        I_.obls = []
    def cover(self, key, pc):
        """vacuity guard: the precondition / path must be reachable"""
        self.covers += 1
        r = self.solver.check(list(pc))
        if r == 'unsat': self.undecided.append((key, 'vacuous: precondition unreachable')); return False
        return True
    def undec(self, key, why): self.undecided.append((key, why))
    def guard(self, key, fn):
        """run fn; translate engine limits into 'undecided'"""
        try: return fn()
        except fe.FrontendError: raise
        except (Unsupported, MergeFail, Infeasible) as e:
            self.undec(key, '%s: %s' % (type(e).__name__, e))
        except RecursionError as e: self.undec(key, 'recursion limit')
        except Exception as e:
            if os.environ.get('MXV_DEBUG'): traceback.print_exc(limit=-5)
            self.undec(key, 'engine: %s %s' % (type(e).__name__, str(e)[:300]))
        return None
    # ------------------------------------------------------------------
    def finish(self, standin=None, checker_cmd=None, level='proof', trusted=(), extra=None, bounded_always=False):
        """standin(keys) -> list of dict(key,text,path) : labelled bounded check on the real code"""
        vio = []; quiet_known = []
        ran_standin = None
        self.replay_failures()
        is_known = self.is_known
        need = bool(self.undecided) or any(not (f['w'] and f['w'].get('confirmed')) and not is_known(f['key']) for f in self.failed) or self.tier == 'thorough' or bounded_always
        res = []
        if standin is not None and need:
            self.log('running bounded stand-in: %d undecided, %d refuted' % (len(self.undecided), len(self.failed)))
            try:
                res = standin([k for k, _ in self.undecided] + [f['key'] for f in self.failed]) or []
                ran_standin = True
            except Exception as e:
                if os.environ.get('MXV_DEBUG'): traceback.print_exc(limit=-5)
                self.notes.append('bounded stand-in could not run: %s %s' % (type(e).__name__, str(e)[:400]))
                ran_standin = False; print('bounded stand-in could not run: %s %s' % (type(e).__name__, str(e)[:600]))
        os.makedirs(VERIF + '/build/replay', exist_ok=True)
        for f in self.failed:
            k = is_known(f['key'])
            if k is not None: self.known_hit[k] = 1; continue
            w = f['w'] or {}
            path = '%s/build/replay/%s-%s.txt' % (VERIF, self.pid, hashlib.sha1(f['key'].encode()).hexdigest()[:10])
            with open(path, 'w') as fh:
                fh.write('property: %s\nobligation: %s\nwhere: %s\nkind: %s\n\ngoal: %s\n\ncounter-model:\n%s\n\nreplay:\n%s\n' % (
                    self.pid, f['key'], f['where'], f['kind'], f['gtext'], f['mtext'], w.get('text', '(none)')))
            vio.append((f['key'], path, bool(w.get('confirmed'))))
        for r in res:
            k = is_known(r['key'])
            if k is not None: self.known_hit[k] = 1; continue
            path = '%s/build/replay/%s-b%s.txt' % (VERIF, self.pid, hashlib.sha1(r['key'].encode()).hexdigest()[:10])
            with open(path, 'w') as fh: fh.write('property: %s\nbounded check on the real code failed\nkey: %s\n\n%s\n' % (self.pid, r['key'], r['text']))
            vio.append((r['key'], path, True))
        # a refuted obligation without a confirmed input is only reported as such when the real code was not shown wrong elsewhere
        if os.environ.get('MXV_DEBUG'):
            for v in vio: self.log('refuted', v)
        conf = [v for v in vio if v[2]]
        show_v = conf if conf else vio
        disc = self.trivial + self.byz3
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(show_v),
              'assumptions': list(self.assumptions),
              'coverage': {'obligations': self.n, 'discharged': disc, 'checker_cmd': checker_cmd or 'python3-vt /verif/check.py %s' % self.pid,
                  'trusted_base': list(trusted) + ['library model: ' + q for q in sorted(self.trusted)],
                  'discharged_by': {'simplifier (term rewriting)': self.trivial, 'z3 ' + z3ver(): self.byz3},
                  'refuted': len(self.failed), 'undecided': [list(u) for u in self.undecided[:60]], 'undecided_count': len(self.undecided),
                  'functions_under_contract': len(self.contracts), 'functions_executed_inline': len([q for q in self.called if q not in self.contracts]),
                  'function_sample': sorted(self.contracts)[:25], 'solver_queries': self.solver.n, 'solver_time_s': round(self.solver.time, 2),
                  'reachability_covers': self.covers, 'obligation_kinds': self.obl_kinds, 'samples': self.samples[:8],
                  'bounded_stand_in': {'ran': ran_standin, 'failures': len(res), 'runs': self.bounded},
                  'known_findings_hit': sorted(self.known_hit), 'notes': self.notes}}
        if extra: ev['coverage'].update(extra)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
        for k in sorted(self.known_hit): print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        for u in self.undecided[:12]: print('undecided (bounded stand-in %s): %s -- %s' % ({True: 'ran', False: 'FAILED TO RUN', None: 'absent'}[ran_standin], u[0], u[1][:300]))
        print('%s: %d obligations, %d discharged, %d refuted, %d undecided, %d functions under contract, %.1fs' % (self.pid, self.n, disc, len(self.failed), len(self.undecided), len(self.contracts), time.time() - self.t0))
        if show_v:
            for key, path, ok in show_v[:20]:
                print('  failed: %s' % key)
                print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if ok else ' no-failing-input-found'))
            return 1
        if self.n == 0 and not (self.undecided and ran_standin): print('error: no obligations were generated'); return 2
        if self.undecided and ran_standin is False:
            print('error: undecided obligations and the bounded stand-in could not run'); return 2
        return 0

def z3ver():
    import z3
    return z3.get_version_string()
def model_text(m, f):
    try:
        fv = freevars(And(*f['pc'], Not(f['goal'])))
        out = []
        for nme in sorted(fv):
            out.append('  %s = %r' % (nme, model_value(m, fv[nme])))
        return '\n'.join(out[:200])
    except Exception as e: return str(m)[:3000]
