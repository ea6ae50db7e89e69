"""Path context, fresh symbols, facts, obligations, arithmetic helpers of the deductive engine.

The engine executes the functions of /repo symbolically, for inputs of any size and any content: sequences are
(length term, element function), loops over sequences of symbolic length are summarised by one generic iteration.
Branches on symbolic conditions are explored by re-execution along a decision trace (all feasible paths).
"""
import os
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

# terms are never freed: the order in which z3 writes the arguments of a sum depends on the age of the terms, and a replayed path
# must build the same terms
z3.AstRef.__del__ = lambda self: None


SLOW = __import__('os').environ.get('PYDV_SLOW')


class Unsupported(Exception):
    """a construct of the verified code (or of a library) for which the engine has no meaning: no obligation"""


class Infeasible(Exception):
    """the current path has a contradictory path condition"""


class PyRaise(Exception):
    """an exception raised by the program under verification"""

    def __init__(self, exc):
        super().__init__(repr(exc)[:200])
        self.exc = exc


class EngineError(Exception):
    pass


def is_term(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())


def is_num(x):
    return isinstance(x, (int, float)) or isinstance(x, z3.ArithRef)


def is_bool(x):
    return isinstance(x, bool) or isinstance(x, z3.BoolRef)


def lift(x):
    """python scalar -> z3 term"""
    if is_term(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported(f'float {x}')
        f = Fraction(x)
        g = f.limit_denominator(10**6)      # constants are reals, up to rounding: 0.4 and 1.4 - 1 are 2/5
        if abs(f - g) <= abs(f) * Fraction(2, 10**15):
            f = g
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    raise Unsupported(f'not a scalar: {type(x).__name__}')


def simp(t):
    """simplify; constants come back as python values"""
    if not is_term(t):
        return t
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def consts_of(t, acc=None):
    """names of uninterpreted constants in a term"""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


def has_ite(t):
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        return True
    return z3.is_expr(t) and any(has_ite(x) for x in t.children())


def quantified(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            stack.extend(x.children())
    return False


FUNS = {}


def funs_of(t):
    """names of uninterpreted functions applied in a term"""
    key = t.get_id()
    if key in FUNS:
        return FUNS[key][0]
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    FUNS[key] = (out, t)
    return out


COMM = None


def ckey(t):
    """text of a term that does not depend on the order of the arguments of commutative operators"""
    global COMM
    if COMM is None:
        COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF}
    memo = {}

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if not z3.is_app(x):
            r = x.sexpr()
        elif x.num_args() == 0:
            r = x.sexpr()
        else:
            a = [rec(c) for c in x.children()]
            if x.decl().kind() in COMM:
                a.sort()
            r = f"({x.decl().name()} {' '.join(a)})"
        memo[i] = r
        return r
    return rec(t)


# ---- polynomials over atoms, for index arithmetic
def poly(t):
    """{tuple of atom ids sorted: coefficient}, atoms {id: term}"""
    if isinstance(t, int):
        return ({(): t} if t else {}), {}
    if z3.is_int_value(t):
        v = t.as_long()
        return ({(): v} if v else {}), {}
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        return _padd([poly(c) for c in t.children()])
    if k == z3.Z3_OP_SUB:
        ch = [poly(c) for c in t.children()]
        return _padd([ch[0]] + [_pscale(c, -1) for c in ch[1:]])
    if k == z3.Z3_OP_UMINUS:
        return _pscale(poly(t.children()[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = ({(): 1}, {})
        for c in t.children():
            r = _pmul(r, poly(c))
        return r
    return {(t.get_id(),): 1}, {t.get_id(): t}


def _padd(ps):
    m, at = {}, {}
    for p, a in ps:
        at.update(a)
        for k, c in p.items():
            m[k] = m.get(k, 0) + c
    return {k: c for k, c in m.items() if c}, at


def _pscale(p, s):
    return {k: c * s for k, c in p[0].items()}, p[1]


def _pmul(p, q):
    m = {}
    for k1, c1 in p[0].items():
        for k2, c2 in q[0].items():
            k = tuple(sorted(k1 + k2))
            m[k] = m.get(k, 0) + c1 * c2
    return {k: c for k, c in m.items() if c}, {**p[1], **q[1]}


def unpoly(p):
    m, at = p
    t = None
    for k, c in sorted(m.items(), key=lambda kv: (len(kv[0]), kv[0])):
        f = None
        for i in k:
            f = at[i] if f is None else f * at[i]
        x = z3.IntVal(c) if f is None else (f if c == 1 else c * f)
        t = x if t is None else t + x
    return 0 if t is None else simp(t)


def norm(t):
    if not is_term(t):
        return t
    return unpoly(poly(z3.simplify(t)))


def same_int(a, b):
    """syntactic equality of integer terms up to polynomial normal form"""
    if not is_term(a) and not is_term(b):
        return a == b
    p, _ = _padd([poly(lift(a)), _pscale(poly(lift(b)), -1)])
    return not p


# ---- values are structured; generic operations on them are registered by values.py
class Obl:
    __slots__ = ('name', 'status', 'backend', 'time', 'where', 'info', 'goal')

    def __init__(self, name, status, backend, t, where='', info='', goal=''):
        self.name, self.status, self.backend, self.time, self.where, self.info, self.goal = name, status, backend, t, where, info, goal


class Generic:
    """an active generic iteration: index k, guards of the current position"""

    def __init__(self, k, n, ident):
        self.k, self.n, self.ident = k, n, ident
        self.guards = []
        self.effects = {}   # id(obj) -> (obj, [effects])
        self.reads = {}     # id(store) -> store
        self.pure = False


class Ctx:
    """one symbolic execution path"""
    TIMEOUT = 6000
    RATE = 1500        # z3 work units that take about 1 ms
    RETRY = 30000

    def __init__(self, trace=()):
        self.trace = list(trace)     # decisions to replay
        self.pos = 0
        self.taken = []              # decisions of this run [(choice, forced)]
        self.facts = []              # path condition and axioms
        self.generics = []
        self.cuts = []              # loops of these lengths are cut at these positions: [(length, [positions])]
        self.quick = False          # decisions (not proofs) are taken from the facts without quantifiers alone
        self.nfresh = {}
        self.obligations = []
        self.loopid = 0
        self.where = ''
        self.solver_time = 0.0
        self.cache = {}
        self.assumptions = set()
        self.functions = set()
        self.steps = 0
        self.dry = 0
        self.gcount = 0
        self.lemmas = set()
        self.heavy = set()
        self.split = None
        self.ghosts = []             # ghost functions of filters and groups (witnesses for proofs)
        self.defs = set()            # facts that are definitions of fresh symbols

    def new_generic(self, n):
        self.gcount += 1
        return Generic(z3.Int(self.fresh_name('k')), n, self.gcount)

    # ---- symbols
    def fresh_name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return f'{base}!{n}'

    def fresh(self, base, sort=None, plain=False):
        """fresh constant; a function of the active generic indices"""
        sort = z3.IntSort() if sort is None else sort
        name = self.fresh_name(base)
        ks = [] if plain else [g.k for g in self.generics]
        if not ks:
            return z3.Const(name, sort)
        return z3.Function(name, *([k.sort() for k in ks] + [sort]))(*ks)

    def fresh_fun(self, base, *sorts):
        """fresh function; active generic indices are extra leading arguments"""
        name = self.fresh_name(base)
        ks = [g.k for g in self.generics]
        f = z3.Function(name, *([k.sort() for k in ks] + list(sorts)))
        return (lambda *a: f(*(ks + [lift(x) for x in a]))) if ks else (lambda *a: f(*[lift(x) for x in a]))

    # ---- facts
    def guard(self):
        out = []
        for g in self.generics:
            out.append(z3.And(0 <= g.k, g.k < lift(g.n)))
            out += g.guards
        return out

    def define(self, f, heavy=False):
        """fact that only says what a fresh symbol is (holds without the facts so far); heavy: often not needed, left out at first"""
        n = len(self.facts)
        self.assume(f)
        self.defs.update(x.get_id() for x in self.facts[n:])
        if heavy:
            self.heavy.update(x.get_id() for x in self.facts[n:])

    def light(self, goal):
        """facts without the heavy ones and the definitions of symbols that the goal does not lead to; None when that is all of them"""
        key = (len(self.facts), self.facts[-1].get_id() if self.facts else 0, len(self.defs))
        if self.split is None or self.split[0] != key:
            base, defs = [], []
            for f in self.facts:
                if f.get_id() not in self.heavy:
                    (defs if f.get_id() in self.defs else base).append(f)
            self.split = key, base, defs, set().union(*[funs_of(f) for f in base])
        _, base, defs, known = self.split
        known = known.union(*[funs_of(g) for g in self.guard()])
        need = set(funs_of(goal)) - known
        todo, kept = [(f, funs_of(f) - known) for f in defs], []
        more = True
        while more:
            more, rest = False, []
            for f, own in todo:
                if not own or own & need:
                    kept.append(f)
                    if own - need:
                        need |= own
                        more = True
                else:
                    rest.append((f, own))
            todo = rest
        if not todo and not self.heavy:
            return None
        return base + kept

    def assume(self, f, pats=None):
        """add a fact; under generic iterations it holds for all of them"""
        f = simp(f)
        if f is True:
            return
        if f is False and not self.generics:
            raise Infeasible()
        f = lift(f)
        ks = [g.k for g in self.generics]
        if ks:
            names = consts_of(f)
            for gd in self.guard():
                names |= consts_of(gd)
            ks = [k for k in ks if k.decl().name() in names]
        if ks:
            gd = [c for c in self.guard()]
            body = z3.Implies(z3.And(gd), f)
            f = z3.ForAll(ks, body, patterns=pats) if pats else z3.ForAll(ks, body)
        self.facts.append(f)
        if not ks:
            self.shifted(f)

    def shifted(self, f):
        """instances of 'for all i: .. t(i + a) ..' are found from the terms t(x)"""
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.num_patterns() == 0 and f.var_sort(0) == z3.IntSort()):
            return
        from .models import offset_terms
        k = z3.Int('canon!sh')
        body = z3.substitute_vars(f.body(), k)
        ts = [(off, t) for off, t in offset_terms(body, k) if not isinstance(off, int) and not z3.is_int_value(off)]
        names = [t(k).decl().name() for _, t in ts]
        for (off, t), nm in zip(ts, names):
            if names.count(nm) == 1:
                self.facts.append(z3.ForAll([k], z3.simplify(z3.substitute(body, (k, k + off))), patterns=[t(k)]))

    def forall(self, vs, body, pats=None):
        vs = list(vs)
        pats = [p for p in pats or () if not has_ite(p)]
        if pats:
            try:
                return z3.ForAll(vs, body, patterns=pats)
            except z3.Z3Exception:
                pass
        return z3.ForAll(vs, body)

    # ---- solving
    def _solver(self, timeout, mbqi=True, seed=7):
        s = z3.SimpleSolver() if not mbqi else z3.Solver()
        s.set('rlimit', timeout * self.RATE)      # work units, so that the result does not depend on the load of the machine
        s.set('timeout', 6 * timeout + 2000)
        s.set('random_seed', seed)
        if not mbqi:
            s.set('mbqi', False)
            s.set('auto_config', False)
        return s

    MEMO = {}      # checks already made on other paths (same hash-consed formulas): result, and the formulas kept alive

    def memo(self, extra, timeout, mbqi=True, hyps=None):
        """check whose model is not needed; the same question has the same answer on every path (paths are replayed)"""
        fs = (self.facts if hyps is None else hyps) + self.guard() + list(extra)
        key = (tuple(f.get_id() for f in fs), timeout, mbqi)
        if key not in self.MEMO:
            self.MEMO[key] = (self.check(extra, timeout, mbqi=mbqi, hyps=hyps), fs)
        return self.MEMO[key][0]

    KEPT = {}

    def mark(self, *terms):
        """identity of a decision, to check that a replayed path meets the same decisions"""
        ts = [lift(t) for t in terms if t is not None]
        for t in ts:
            self.KEPT[t.get_id()] = t
        return tuple(t.get_id() for t in ts)

    def replayed(self, mk):
        """the next decision of the trace, which must be the one of the earlier run"""
        e = self.trace[self.pos]
        if e[2] != mk:
            raise EngineError('a replayed path met another decision')
        return e

    def check(self, extra, timeout=None, hyps=None, mbqi=True, seed=7):
        """satisfiability of facts + extra -> 'sat' 'unsat' 'unknown'"""
        t = time.time()
        s = self._solver(timeout or self.TIMEOUT, mbqi, seed)
        for f in (self.facts if hyps is None else hyps):
            s.add(f)
        for g in self.guard():
            s.add(g)
        for e in extra:
            s.add(e)
        r = str(s.check())
        dt = time.time() - t
        self.solver_time += dt
        if SLOW and dt > float(SLOW):
            import traceback
            st = [f'{f.name}:{f.lineno}' for f in traceback.extract_stack()[-9:-1]]
            print(f'SLOW {dt:.2f} {r} mbqi={mbqi} {self.where} {st} {str(extra)[:150]!r}', file=sys.stderr)
        self.last = s
        return r

    def proves(self, goal, timeout=700):
        """does the context imply goal (used to decide, never recorded)"""
        goal = simp(goal)
        if goal is True:
            return True
        if goal is False:
            return self.memo([], timeout) == 'unsat'
        key = (goal.get_id(), len(self.facts), tuple((g.ident, len(g.guards)) for g in self.generics))
        if key not in self.cache:
            r = 'unknown'
            if self.quick and not quantified(goal) and not funs_of(goal):
                r = 'unsat' if self.memo([z3.Not(goal)], timeout // 2, hyps=[f for f in self.facts if not quantified(f)], mbqi=False) == 'unsat' else 'no'
                self.cache[key] = (r == 'unsat', goal)
                return r == 'unsat'
            light = self.light(goal) if self.heavy else None
            if light is not None:
                r = self.memo([z3.Not(goal)], timeout // 2, hyps=light, mbqi=False)
            if r != 'unsat':
                r = self.memo([z3.Not(goal)], timeout // 2, mbqi=False)
            if r != 'unsat':
                r = self.memo([z3.Not(goal)], 40)
            self.cache[key] = (r == 'unsat', goal)
        return self.cache[key][0]

    def depends_generic(self, t):
        """generic iterations on whose index the term depends"""
        if not is_term(t) or not self.generics:
            return []
        names = consts_of(t)
        return [g for g in self.generics if g.k.decl().name() in names]

    def decide(self, options):
        """choose one option index along the trace; options: list of (label, condition)"""
        mk = self.mark(*[o[1] for o in options])
        if self.pos < len(self.trace):
            i, n, _ = self.replayed(mk)
            self.pos += 1
            self.taken.append((i, n, mk))
            if options[i][1] is not None:
                if self.pos == len(self.trace) and self.memo([lift(options[i][1])], 1500) == 'unsat':
                    raise Infeasible()
                self.assume(options[i][1])
            return i
        # first feasible
        for i, (_, c) in enumerate(options):
            if c is None or self.memo([lift(c)], 1500) != 'unsat':
                self.pos += 1
                self.trace.append((i, len(options), mk))
                self.taken.append((i, len(options), mk))
                if c is not None:
                    self.assume(c)
                return i
        raise Infeasible()

    def branch(self, cond):
        """truth of cond on this path"""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        dep = self.depends_generic(cond)
        if dep:
            if self.proves(cond):
                return True
            if self.proves(z3.Not(cond)):
                return False
            raise NeedGuard(cond)
        if self.generics:
            # decide outside of the generic scope
            saved, self.generics = self.generics, []
            try:
                r = self._branch(cond)
            finally:
                self.generics = saved
            return r
        return self._branch(cond)

    def _branch(self, cond):
        if self.dry:
            return not self.proves(z3.Not(cond))
        mk = self.mark(cond)
        if self.pos >= len(self.trace):
            if self.proves(cond):
                ch = (0, 1, mk)
            elif self.proves(z3.Not(cond)):
                ch = (1, 1, mk)
            else:
                ch = (0, 2, mk)
            self.trace.append(ch)
        ch = self.replayed(mk)
        self.pos += 1
        self.taken.append(ch)
        if ch[:2] != (1, 1) or not quantified(cond):       # a proved denial of a 'for all' says nothing new and is hard to use
            self.assume(cond if ch[0] == 0 else z3.Not(cond))
        return ch[0] == 0

    def must(self, cond, exc):
        """cond holds or the program raises exc; under generic iterations: holds for all of them or raises"""
        cond = simp(cond)
        if cond is True or self.dry:
            return
        if cond is not False and self.proves(cond):
            return
        dep = self.depends_generic(cond) if cond is not False else []
        if cond is False and self.generics:
            dep = self.generics
        if dep:
            ks = [g.k for g in self.generics]
            allc = z3.ForAll(ks, z3.Implies(z3.And(self.guard()), lift(cond)))
            saved, self.generics = self.generics, []
            try:
                ok = self._branch(allc)
            finally:
                self.generics = saved
            if not ok:
                raise PyRaise(exc)
            return
        if cond is False or not self.branch(cond):
            raise PyRaise(exc)

    # ---- obligations
    def prove(self, name, goal):
        goal = simp(goal)
        t = time.time()
        if goal is True:
            self.obligations.append(Obl(name, 'proved', 'simplifier', 0.0, self.where))
            return True
        if 'qdiv' in self.lemmas:
            from .values import renorm_div
            goal = renorm_div(goal)
            if goal is True:
                self.obligations.append(Obl(name, 'proved', 'simplifier', time.time() - t, self.where))
                return True
        g = lift(goal)
        fs = self.facts + self.guard() + [g]
        key = (tuple(f.get_id() for f in fs), 'prove')
        if key in self.MEMO:       # the same obligation on an earlier path with the same beginning
            (st, backend, info), _ = self.MEMO[key]
            self.obligations.append(Obl(name, st, backend, time.time() - t, self.where, info, str(goal)[:600]))
            return st == 'proved'
        failed = any(o.status != 'proved' for o in self.obligations)
        backend, info = 'z3', ''
        stages = [('z3e', 2000, 7), ('z3', 1500, 7), ('cvc5', 4000, 0)]
        if not failed:
            stages += [('z3e', 4000, 23), ('z3', 6000, 11), ('cvc5', 20000, 0), ('z3e', 20000, 31), ('z3', 20000, 5)]
        r = 'unknown'
        light = self.light(g)
        if light is not None:
            stages = [('light', 2000 if self.heavy else 600, 7)] + stages + ([] if failed else [('light', 5000, 23), ('light', 20000, 31)])
        for solver, tmo, seed in stages:
            if solver == 'light':
                r = self.check([z3.Not(g)], tmo, hyps=light, mbqi=False, seed=seed)
                solver = 'z3e'
            elif solver == 'z3':
                r = self.check([z3.Not(g)], tmo, seed=seed)
            elif solver == 'z3e':
                r = self.check([z3.Not(g)], tmo, mbqi=False, seed=seed)
            else:
                t1 = time.time()
                r = cvc5_check(self.facts + self.guard() + [z3.Not(g)], tmo)
                self.solver_time += time.time() - t1
            if solver != 'z3' and r == 'sat':
                r = 'unknown'
            if r != 'unknown':
                backend = solver[:2] if solver == 'z3e' else solver
                break
        st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'undecided'}[r]
        if st != 'proved':
            info = self.describe(self.last, r)
        self.MEMO[key] = ((st, backend, info), fs)
        self.obligations.append(Obl(name, st, backend, time.time() - t, self.where, info, str(goal)[:600]))
        return st == 'proved'

    def describe(self, s, r):
        if r != 'sat':
            try:
                return 'reason: ' + s.reason_unknown()
            except Exception:
                return 'unknown'
        try:
            m = s.model()
            return 'model: ' + ', '.join(f'{d.name()} = {m[d]}' for d in list(m.decls())[:25])[:1500]
        except Exception:
            return 'model not available'


class NeedGuard(Exception):
    """a condition inside a generic iteration depends on the iteration: must be executed guarded"""

    def __init__(self, cond):
        super().__init__('branch on ' + str(cond)[:120])
        self.cond = cond


def cvc5_check(formulas, timeout):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    for f in formulas:
        s.add(f)
    try:
        text = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption('tlimit-per', str(int(timeout)))
        parser = cvc5.InputParser(solver)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = parser.getSymbolManager()
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(solver, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res or 'unknown'
    except Exception:
        return 'unknown'


def _constrained(self, t):
    """False when no fact is known about the functions of the term (nothing about its values can be proved then)"""
    heads, todo, seen = set(), [lift(t)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            heads.add(x.decl().name())
        else:
            todo.extend(x.children()[1:] if x.decl().kind() == z3.Z3_OP_ITE else x.children())
    if not heads:
        return True
    known = set().union(*[funs_of(f) for f in self.facts], *[funs_of(x) for x in self.guard()])
    return heads <= known


Ctx.constrained = _constrained


def _finite_range(self, get, n):
    """values 0..8 that the sequence may take, or None"""
    i = z3.Int('fr')
    e = lift(get(i))
    if not self.constrained(e):
        return None
    if not self.proves(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(n)), z3.And(e >= 0, e <= 8)))):
        return None
    return [v for v in range(9) if not self.proves(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(n)), e != v)))]


Ctx.finite_range = _finite_range
