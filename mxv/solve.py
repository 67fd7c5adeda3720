"""Solver back end: z3 (in process) with caching; obligations, counter-models."""
import time, z3, os
from .terms import *
z3.set_param('smt.random_seed', 1)

class Solver:
    def __init__(self, timeout_ms=4000):
        self.cache = {}; self.n = 0; self.time = 0.0; self.timeout = timeout_ms; self.unknowns = 0
        self.axioms = []     # global side conditions (terms) always assumed
        self.nconst = 0
    def _mk(self, timeout=None):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        return s
    def relevant(self, ts):
        """cone of influence: drop conjuncts sharing no variable with the last (goal) conjunct"""
        return ts
    def check(self, pcs, timeout=None, model=False):
        t = And(*pcs)
        if t is FALSE: self.nconst += 1; return ('unsat', None) if model else 'unsat'
        if t is TRUE and not self.axioms and not model: return 'sat'
        key = t.id
        if not model and key in self.cache: return self.cache[key]
        t0 = time.time()
        s = self._mk(timeout)
        ab = simple_strings(t) and all(simple_strings(a) for a in self.axioms)
        conv = to_z3a if ab else to_z3
        for a in self.axioms: s.add(conv(a))
        if t.op == 'and':
            for x in t.args: s.add(conv(x))
        else: s.add(conv(t))
        r = str(s.check())
        self.n += 1; self.time += time.time() - t0
        if r == 'unknown': self.unknowns += 1
        self.cache[key] = r
        if model: return r, (Model(s.model(), ab) if r == 'sat' else None)
        return r
    def prove_many(self, pc, goals, timeout=None):
        """one query for a conjunction of goals"""
        return self.prove(pc, And(*goals), timeout)[0] == 'proved'
    def prove(self, pc, goal, timeout=None):
        """-> ('proved'|'refuted'|'unknown', model)"""
        if goal is TRUE: return 'proved', None
        r, m = self.check(list(pc) + [Not(goal)], timeout or 20000, model=True)
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r], m

class Model:
    def __init__(self, m, ab): self.m = m; self.ab = ab
    def eval(self, t, model_completion=True): return self.m.eval(to_z3a(t) if self.ab else to_z3(t), model_completion=True)
    def __str__(self): return str(self.m)
def model_value(m, t):
    """python value of term t in z3 model m"""
    v = m.eval(t)
    if t.sort == 'S' and m.ab:
        n = v.as_long() if z3.is_int_value(v) else 0
        return STRS[n] if 0 <= n < len(STRS) else 'text%d' % abs(n)
    if t.sort == 'B': return z3.is_true(v)
    if t.sort == 'I': return v.as_long() if z3.is_int_value(v) else None
    if t.sort == 'R':
        if z3.is_rational_value(v): return v.as_fraction()
        if z3.is_algebraic_value(v): return v.approx(20).as_fraction()
        return None
    if t.sort == 'S':
        try: return v.as_string() if False else zstr_decode(v.as_string())
        except Exception: return None
    return str(v)
import re
def zstr_decode(s): return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
