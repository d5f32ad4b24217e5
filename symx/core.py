"""Path-exploring core of the symbolic executor.

One Engine explores one harness configuration.  A path is identified by the
list of decisions taken at symbolic branches; exploration is depth first by
re-execution: the harness is run again from the start for every path, the
recorded decisions are replayed, and behind them every new symbolic branch is
put to the solver on both sides.
"""
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """Ends the current path (never caught by code under test)."""


class Infeasible(PathEnd):
    pass


class Budget(PathEnd):
    pass


ENGINE = None      # the engine of the path being executed


def eng():
    return ENGINE


class Atom:
    __slots__ = ('id', 'name', 'var', 'is_int', 'lo', 'hi', 'grid', 'toreal')

    def __init__(self, id_, name, is_int, lo=None, hi=None, grid=None):
        self.id = id_
        self.name = name
        self.is_int = is_int
        self.var = z3.Int(name) if is_int else z3.Real(name)
        self.toreal = z3.ToReal(self.var) if is_int else self.var
        self.lo = lo
        self.hi = hi
        self.grid = grid      # number of decimals if the value is round()ed


def frac(x):
    if isinstance(x, Fraction):
        return x
    if type(x) is bool or isinstance(x, int):
        return Fraction(int(x))
    if isinstance(x, float):
        # decimal intent of the literal: 0.1 is one tenth
        return Fraction(repr(float(x)))
    raise TypeError(x)


def zval(fr, as_int=False):
    if as_int:
        return z3.IntVal(fr.numerator)
    return z3.RealVal(fr)


def model_frac(m, var):
    v = m.eval(var, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('no value: %s' % v)


EPS = Fraction(1, 10**6)


class Stats:
    def __init__(self):
        self.paths = 0
        self.states = 0            # branch points visited for the first time
        self.transitions = 0       # feasible branch edges
        self.queries = 0
        self.solver_s = 0.0
        self.discharged = 0        # checks decided by the solver (unsat)
        self.folded = 0            # checks decided without the solver
        self.unknown = 0
        self.incomplete = 0        # paths with a concretised value
        self.infeasible = 0
        self.errors = 0
        self.functions = set()
        self.notes = {}

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def dump(self):
        d = dict(self.__dict__)
        d['functions'] = sorted(self.functions)
        return d


class Engine:
    def __init__(self, seed=1, query_timeout_ms=8000):
        self.seed = seed
        self.qt = query_timeout_ms
        self.stats = Stats()
        self.work = []
        self.violations = []
        self.witnesses = []
        self.max_violations = 1

    # ---------------------------------------------------------------- paths
    def start_path(self, prefix):
        global ENGINE
        ENGINE = self
        self.prefix = prefix
        self.decisions = []
        self.pos = 0
        self.atoms = []
        self.natoms = 0
        self.counters = {}
        self.inputs = {}
        self.input_order = []
        self.observations = {}
        self.cons = []            # (z3 expr) hard constraints of this path
        self.slack = []           # (SNum diff, op) of decided comparisons
        self.cache = {}
        self.keep = []
        self.roundcache = {}
        self.model = None
        self.concretised = False
        self.approx = False
        self.checked = 0
        self.symkeys = False
        self.nosym = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qt)
        self.solver.set('random_seed', self.seed % 10000)

    def fresh(self, base, is_int, lo=None, hi=None, grid=None):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        name = base if n == 0 else '%s#%d' % (base, n)
        a = Atom(self.natoms, name, is_int, lo, hi, grid)
        self.natoms += 1
        self.atoms.append(a)
        if lo is not None:
            self.add(a.var >= (zval(lo, is_int)))
        if hi is not None:
            self.add(a.var <= (zval(hi, is_int)))
        return a

    def add(self, e):
        self.cons.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def ask(self, e=None):
        """('sat', model) | ('unsat', None) | ('unknown', None)"""
        t = time.time()
        s = self.solver
        if e is not None:
            s.push()
            s.add(e)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if e is not None:
            s.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return str(r), m

    def get_model(self):
        if self.model is None:
            r, m = self.ask()
            if r == 'unsat':
                raise Infeasible()
            if r == 'unknown':
                self.stats.note('path condition undecided (solver timeout)')
                raise Infeasible()
            self.model = m
        return self.model

    def branch(self, cond, slack=None):
        """Decide a symbolic condition; returns a Python bool."""
        k = cond.get_id()
        hit = self.cache.get(k)
        if hit is not None:
            return hit
        d = self._decide(cond, slack)
        self.keep.append(cond)
        self.cache[k] = d
        n = z3.Not(cond)
        self.keep.append(n)
        self.cache[n.get_id()] = not d
        return d

    def _decide(self, cond, slack):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(c)
            d = bool(c & 1)
            if c & 2:
                e = cond if d else z3.Not(cond)
                self.cons.append(e)
                self.solver.add(e)
                self.model = None
            if slack is not None:
                self.slack.append((slack, d))
            return d
        self.pos += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        m = self.get_model()
        self.stats.states += 1
        mv = z3.is_true(m.eval(cond, model_completion=True))
        r, m2 = self.ask(z3.Not(cond) if mv else cond)
        if r == 'unsat':
            self.decisions.append(int(mv))
            self.stats.transitions += 1
        else:
            if r == 'unknown':
                self.stats.note('branch undecided, both sides explored')
            self.work.append(self.decisions + [2 | int(not mv)])
            self.decisions.append(2 | int(mv))
            self.stats.transitions += 2
            e = cond if mv else z3.Not(cond)
            self.cons.append(e)
            self.solver.add(e)
        if slack is not None:
            self.slack.append((slack, mv))
        return mv

    def pick_int(self, snum):
        """Fork over all values of an integer term; returns a Python int."""
        lo, hi = snum.interval()
        ze = snum.z()
        while True:
            if self.pos < len(self.prefix):
                # value recorded as a decision entry: ('v', n, taken)
                c = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(c)
                _, n, taken = c
                e = (ze == n) if taken else (ze != n)
                self.cons.append(e)
                self.solver.add(e)
                self.model = None
                if taken:
                    return n
                continue
            self.pos += 1
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            m = self.get_model()
            v = m.eval(ze, model_completion=True)
            n = v.as_long() if z3.is_int_value(v) else int(
                Fraction(v.numerator_as_long(), v.denominator_as_long()))
            self.stats.states += 1
            r, m2 = self.ask(ze != n)
            if r != 'unsat':
                self.work.append(self.decisions + [('v', n, False)])
                self.stats.transitions += 1
            self.decisions.append(('v', n, True))
            self.stats.transitions += 1
            self.cons.append(ze == n)
            self.solver.add(ze == n)
            return n

    def concretise_term(self, snum):
        """Fix a term to its value in the current model (loses coverage)."""
        m = self.get_model()
        v = m.eval(snum.z(), model_completion=True)
        if z3.is_int_value(v):
            f = Fraction(v.as_long())
        elif z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        else:
            a = v.approx(12)
            f = Fraction(a.numerator_as_long(), a.denominator_as_long())
        if not self.concretised:
            self.concretised = True
        self.add(snum.z() == (zval(f, snum.all_int()) if snum.all_int() else z3.RealVal(f)))
        return f

    # --------------------------------------------------------------- checks
    def assume(self, cond):
        from . import values as V
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if isinstance(cond, V.SBool):
            self.add(cond.e)
            self.keep.append(cond.e)
            self.cache[cond.e.get_id()] = True
            r, m = self.ask()
            if r == 'unsat':
                raise Infeasible()
            if r == 'sat':
                self.model = m
            return
        if not cond:
            raise Infeasible()

    def check(self, cond, msg, detail=None):
        from . import values as V
        if self.pos < len(self.prefix):
            # decided on the path this one was split from
            if not isinstance(cond, V.SBool) and cond:
                return
            if isinstance(cond, V.SBool):
                return
        self.checked += 1
        if isinstance(cond, V.SBool):
            hit = self.cache.get(cond.e.get_id())
            if hit is True:
                self.stats.folded += 1
                return
            r, m = self.ask(z3.Not(cond.e))
            if r == 'unsat':
                self.stats.discharged += 1
                return
            if r == 'unknown':
                self.stats.note('check undecided: ' + msg)
                return
            self.violate(z3.Not(cond.e), m, msg, detail)
        elif cond:
            self.stats.folded += 1
        else:
            self.violate(None, self.get_model(), msg, detail)

    def violate(self, extra, m, msg, detail):
        cands = [self.model_inputs(m)]
        for k in (1, 8, 64, 1000):
            mm = self.snapped(extra, k)
            if mm is not None:
                cands.insert(0 if k == 1 else 1, self.model_inputs(mm))
                if k > 1:
                    break
        self.violations.append({
            'msg': msg, 'inputs': cands, 'detail': str(detail) if detail else None,
            'incomplete': self.concretised or self.approx,
        })
        raise PathEnd()

    def snapped(self, extra, k):
        """A model whose real inputs are multiples of 1/k."""
        s = z3.Solver()
        s.set('timeout', 2000)
        for c in self.cons:
            s.add(c)
        if extra is not None:
            s.add(extra)
        for i, (kind, atoms) in enumerate(self.inputs.values()):
            for a in atoms:
                if isinstance(a, Atom) and not a.is_int:
                    s.add(a.var * k == z3.ToReal(z3.Int('snap!%s' % a.name)))
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return s.model() if r == z3.sat else None

    def robust_model(self):
        """A model of the path away from the borders of its comparisons."""
        s = z3.Solver()
        s.set('timeout', 3000)
        for c in self.cons:
            s.add(c)
        from . import values as V
        s.push()
        for (diff, op), d in self.slack:
            if diff.all_int():
                continue
            z = diff.zr()
            e = z3.RealVal(EPS)
            if op == '<':
                s.add(z < -e if d else z > e)
            elif op == '<=':
                s.add(z < -e if d else z > e)
            elif op == '==' and not d:
                s.add(z3.Or(z < -e, z > e))
        s.push()
        for kind, atoms in self.inputs.values():
            for a in atoms:
                if isinstance(a, Atom) and not a.is_int:
                    s.add(a.var * 64 == z3.ToReal(z3.Int('snap!%s' % a.name)))
        self.stats.queries += 1
        t = time.time()
        try:
            if s.check() == z3.sat:
                return s.model(), True
            s.pop()
            if s.check() == z3.sat:
                return s.model(), True
            s.pop()
            if s.check() == z3.sat:
                return s.model(), False
        finally:
            self.stats.solver_s += time.time() - t
        return None, False

    def model_inputs(self, m):
        out = {}
        for name, (kind, atoms) in self.inputs.items():
            vals = []
            for a in atoms:
                if isinstance(a, Atom):
                    f = model_frac(m, a.var)
                    vals.append(int(f) if a.is_int else '%d/%d' % (f.numerator, f.denominator))
                else:
                    vals.append(a)
            out[name] = [kind, vals]
        return out

    # -------------------------------------------------------------- explore
    def explore(self, fn, prefixes=None, deadline=None, max_paths=None,
                sampler=None):
        """Run fn() for every path. Returns the prefixes left unexplored."""
        self.work = list(prefixes) if prefixes else [[]]
        self.deadline = deadline
        n = 0
        while self.work:
            if deadline and time.time() > deadline:
                break
            if max_paths and n >= max_paths:
                break
            if len(self.violations) >= self.max_violations:
                break
            prefix = self.work.pop()
            self.start_path(prefix)
            n += 1
            done = False
            try:
                fn()
                done = True
            except Budget:
                # give the prefix back: it has not been explored
                self.work.append(self.decisions if False else prefix)
                # branches pushed while on this path must not be pushed twice
                self.work = [w for w in self.work
                             if w is prefix or not _extends(w, prefix)]
                break
            except Infeasible:
                self.stats.infeasible += 1
                continue
            except PathEnd:
                self.stats.paths += 1
            if done:
                self.stats.paths += 1
                if self.concretised:
                    self.stats.incomplete += 1
                if sampler is not None and sampler(self.stats.paths):
                    m, robust = self.robust_model()
                    if m is not None:
                        self.witnesses.append({
                            'inputs': self.model_inputs(m),
                            'robust': robust,
                            'obs': eval_obs(m, self.observations),
                            'checked': self.checked,
                        })
        return self.work


def _extends(w, prefix):
    return len(w) > len(prefix) and w[:len(prefix)] == prefix


def eval_obs(m, obj):
    from . import values as V
    if isinstance(obj, V.SNum):
        return float(obj.eval(m))
    if isinstance(obj, V.SBool):
        return z3.is_true(m.eval(obj.e, model_completion=True))
    if isinstance(obj, V.SSeq):
        return obj.eval(m)
    t = type(obj)
    if t is dict:
        return {str(eval_obs(m, k)): eval_obs(m, v) for k, v in obj.items()}
    if t in (list, tuple):
        return [eval_obs(m, v) for v in obj]
    if t in (set, frozenset):
        return sorted((eval_obs(m, v) for v in obj), key=repr)
    if t is bytes:
        return obj.decode('latin')
    if t in (int, float, str, bool) or obj is None:
        return obj
    if isinstance(obj, int):
        return int(obj)
    return repr(t)
