"""Contracts: registry, exploration of the paths, discharge of the obligations (in parallel processes)."""
import importlib
import multiprocessing
import os
import sys
import time
import traceback
from .core import z3
from . import core, values as V
from .core import Ctx, EngineError, Unsupported, Infeasible, PyRaise, NeedGuard, lift, simp, is_term, consts_of
from .values import SSeq, SList, SArr, SSet, SDict, and_, or_, not_, eq, ite, conc

TRUSTED = [
    'CPython semantics of the subset of Python given by vf/pydv/interp.py',
    'the meaning given to builtins, itertools, collections (vf/pydv/models.py) and numpy (vf/pydv/np_models.py)',
    'z3 5.3.2 and cvc5 1.4.2',
    'integers are mathematical integers; floating point numbers are mathematical reals in the deductive part',
]

CONTRACTS = {}     # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fun, bound, assumes, maxpaths):
        self.prop, self.name, self.fun, self.bound, self.assumes, self.maxpaths = prop, name, fun, bound, assumes, maxpaths
        self.variants = [None]


def contract(prop, name=None, bound='', assumes=(), maxpaths=400, variants=(None,)):
    """register fun(v[, variant]) as a contract of the property; variants are verified as separate tasks"""
    def deco(fun):
        for p in ([prop] if isinstance(prop, str) else prop):
            for var in variants:
                nm = (name or fun.__name__.lstrip('_')) + (f'[{var}]' if var is not None else '')
                f = fun if var is None else (lambda v, fun=fun, var=var: fun(v, var))
                c = Contract(p, nm, f, bound, tuple(assumes), maxpaths)
                CONTRACTS.setdefault(p, []).append(c)
        return fun
    return deco


_loaded = set()


def load(prop):
    if prop in _loaded:
        return
    _loaded.add(prop)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f.startswith(prop.lower()):
            importlib.import_module(f'vf.contracts.{f[:-3]}')


def has_contracts(prop):
    load(prop)
    return bool(CONTRACTS.get(prop))


def level(prop):
    return 'proof' if has_contracts(prop) else 'exploration'


def note(prop):
    load(prop)
    from vf import notes
    return notes.note(prop, has_contracts(prop))


class Done(Exception):
    """nothing left to prove on this path (empty range)"""


# --------------------------------------------------------------------------- what a contract can use
class Verifier:
    def __init__(self, ctx, it):
        self.c, self.it = ctx, it
        self.reached = 0

    # inputs
    def int(self, name='n', lo=None, hi=None):
        x = self.c.fresh(name)
        if lo is not None:
            self.c.assume(x >= lo)
        if hi is not None:
            self.c.assume(x <= hi)
        return x

    def real(self, name='x'):
        return self.c.fresh(name, z3.RealSort())

    def text(self, name):
        return self.c.fresh(name, z3.StringSort())

    def bool(self, name='b'):
        return self.c.fresh(name, z3.BoolSort())

    def fun(self, name, *sorts):
        return self.c.fresh_fun(name, *sorts)

    def array(self, name, shape, dtype='i'):
        s = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[dtype]
        f = self.c.fresh_fun(name, *([z3.IntSort()] * len(shape)), s)
        return SArr(list(shape), lambda *i: f(*i), dtype)

    def seq(self, name, n, dtype='i'):
        s = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[dtype]
        f = self.c.fresh_fun(name, z3.IntSort(), s)
        return SSeq(n, lambda i: f(i))

    def list(self, name, n, dtype='i'):
        return SList(self.seq(name, n, dtype))

    def choose(self, *options):
        """case split over python values (all are explored)"""
        return options[self.c.decide([(str(o), None) for o in options])]

    def assume(self, f):
        self.c.assume(f)

    def ivar(self, base='i'):
        return z3.Int(self.c.fresh_name(base))

    def distinct(self, s, sort=None):
        """assume that the items of the sequence are pairwise distinct (given by an inverse function)"""
        inv = self.fun("inv", z3.IntSort() if sort is None else sort, z3.IntSort())
        for off, p in s.segments():
            self.assume(self.forall(p.n, lambda i: inv(p.get(i)) == lift(off) + i, pats=lambda i: V.pattern_of(lift(p.get(i)), i)))
        return inv

    def forall(self, n, body, base='i', pats=None):
        """for all 0 <= i < n (or a list of bounds): body(i)"""
        ns = list(n) if isinstance(n, (list, tuple)) else [n]
        vs = [self.ivar(base) for _ in ns]
        b = body(*vs)
        return self.c.forall(vs, z3.Implies(z3.And([z3.And(0 <= v, v < lift(m)) for v, m in zip(vs, ns)]), lift(b)),
                             pats(*vs) if pats else None)

    def arbitrary(self, n, base='i'):
        """an arbitrary index 0 <= i < n: proving a goal about it proves it for all"""
        if conc(n) == 0:
            raise Done()
        i = self.ivar(base)
        self.c.assume(z3.And(0 <= i, i < lift(n)))
        return i

    # running the code under verification
    def call(self, f, *a, **k):
        if isinstance(f, str):
            raise Unsupported('name instead of function')
        return self.it.call(f, *a, **k)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def meth(self, o, name, *a, **k):
        return self.it.call_value(self.it.getattr(o, name), list(a), dict(k))

    def setattr(self, o, name, val):
        self.it.setattr(o, name, val)

    def item(self, o, i):
        return self.it.models.getitem(self.it, o, i)

    def raises(self, thunk, exc=Exception):
        """None if thunk() returns on this path, else the exception"""
        try:
            thunk()
        except PyRaise as e:
            if isinstance(e.exc, exc):
                return e.exc
            raise
        return None

    # obligations
    def prove(self, name, goal):
        self.reached += 1
        if isinstance(goal, (list, tuple)):
            goal = and_(*goal)
        return self.c.prove(name, goal)

    def prove_all(self, name, n, body):
        """for all 0 <= i < n (or list of bounds): body(*i), proved for arbitrary indices"""
        ns = list(n) if isinstance(n, (list, tuple)) else [n]
        nf = len(self.c.facts)
        self.reached += 1
        if any(conc(m) == 0 for m in ns):
            return self.c.prove(name, True)
        vs = [self.ivar() for _ in ns]
        try:
            for x, m in zip(vs, ns):
                self.c.assume(z3.And(0 <= x, x < lift(m)))
            try:
                goal = body(*vs)
            except Infeasible:
                return True
            except Unsupported:
                if self.c.memo([], 2000, mbqi=False) == 'unsat':     # empty range
                    return self.c.prove(name, True)
                raise
            if isinstance(goal, (list, tuple)):
                goal = and_(*goal)
            return self.c.prove(name, goal)
        except Infeasible:
            return True
        finally:
            # definitions made on the way stay (under a range that is not empty), facts on these indices go
            names = {x.decl().name() for x in vs}
            ne = z3.And([lift(m) > 0 for m in ns])
            keep = [f if f.get_id() in self.c.defs else z3.Implies(ne, f) for f in self.c.facts[nf:] if not consts_of(f) & names]
            self.c.facts[nf:] = keep

    def hint(self, name, n, body, pats, i):
        """a fact that helps: used when it is proved, dropped (no obligation) when it is not"""
        k = len(self.c.obligations)
        ok = self.prove_all(name, n, body)
        if not ok:
            del self.c.obligations[k:]
            return
        for pt in pats:
            self.c.assume(self.c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(n)), lift(body(i))), pt))

    def fail(self, name):
        return self.prove(name, False)

    def induct(self, n, st):
        """instance of the induction schema: st(0) and (st(i) => st(i+1) for i < n-1) imply st(i) for all 0 <= i < n"""
        i = self.ivar()
        self.c.assume(z3.Implies(z3.And(lift(st(z3.IntVal(0))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(n) - 1, lift(st(i))), lift(st(i + 1))))),
                                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(n)), lift(st(i))))))

    def lemma(self, name, goal):
        """prove, then use"""
        ok = self.prove(name, goal)
        self.c.assume(goal)
        return ok

    def by(self, name, goal, hyps):
        """prove the steps, then the goal from them alone"""
        c = self.c
        for k, h in enumerate(hyps):
            self.prove(f'{name} (step {k + 1})', h)
        facts = c.facts
        c.facts = [lift(h) for h in hyps if h is not True]
        try:
            return self.prove(name, goal)
        finally:
            c.facts = facts

    def seq_eq(self, name, a, b):
        """the two sequences (values or SSeq) are equal"""
        a, b = V.seq_of(a), V.seq_of(b)
        self.prove(name + ' (length)', eq(a.n, b.n))
        if a.lst is not None and b.lst is not None and len(a.lst) == len(b.lst):
            self.prove(name, and_(*[eq(x, y) for x, y in zip(a.lst, b.lst)]))
        else:
            self.prove_all(name, a.n, lambda i: eq(a.get(i), b.get(i)))


# --------------------------------------------------------------------------- exploration
def explore(con, deadline):
    """all paths of a contract -> dict"""
    from .interp import Interp
    from .space import SPACE
    res = dict(contract=con.name, prop=con.prop, obligations=[], unsupported=None, paths=0, time=0.0, solver=0.0, functions=set(),
               assumptions=set(con.assumes), reached=0)
    t0 = time.time()
    trace = []
    while True:
        if time.time() > deadline:
            res['unsupported'] = 'time limit'
            break
        c = Ctx(trace)
        V.CTX[0] = c
        it = Interp(SPACE)
        v = Verifier(c, it)
        dead = False
        try:
            con.fun(v)
        except Infeasible:
            dead = True
        except Done:
            pass
        except PyRaise as e:
            c.generics = []
            c.prove(f'no exception ({type(e.exc).__name__} at {c.where})', False)
            o = c.obligations[-1]
            if o.status == 'proved':
                c.obligations.pop()      # the path is not feasible
                dead = True
            else:
                o.info = f'raises {e.exc!r}; ' + o.info
        except NeedGuard as e:
            res['unsupported'] = f'{c.where}: {e}'
        except Unsupported as e:
            res['unsupported'] = f'{c.where}: {e}'
            if os.environ.get('PYDV_DEBUG'):
                traceback.print_exc()
        except EngineError as e:
            res['unsupported'] = f'{c.where}: engine: {e}'
        except RecursionError:
            res['unsupported'] = f'{c.where}: recursion'
        except z3.Z3Exception as e:
            res['unsupported'] = f'{c.where}: engine: {e}' + (traceback.format_exc() if os.environ.get('PYDV_DEBUG') else '')
        except (AssertionError, KeyError, IndexError, TypeError, AttributeError, ValueError, NotImplementedError) as e:
            res['unsupported'] = f'{c.where}: engine: {type(e).__name__}: {e}' + (traceback.format_exc() if os.environ.get('PYDV_DEBUG') else '')
        res['paths'] += 1
        res['solver'] += c.solver_time
        res['functions'] |= c.functions
        res['assumptions'] |= c.assumptions
        if res['unsupported']:
            # a path already refuted before the unsupported construct still counts
            for o in c.obligations:
                res['obligations'].append(o)
            break
        if not dead:
            if not res['reached'] and v.reached:
                # vacuity: some path must not be contradictory
                c.generics = []
                if c.memo([], 300) != 'unsat':
                    res['reached'] += v.reached
            for o in c.obligations:
                res['obligations'].append(o)
        # next trace
        taken = c.taken
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            break
        if res['paths'] >= con.maxpaths:
            res['unsupported'] = f'more than {con.maxpaths} paths'
            break
        trace = taken[:-1] + [(taken[-1][0] + 1,) + taken[-1][1:]]
    # vacuity: at least one path must be satisfiable (not refuted by the solver) and reach an obligation
    if not res['unsupported'] and res['reached'] == 0:
        res['unsupported'] = 'no obligation reached on a consistent path (vacuous contract)'
    res['time'] = time.time() - t0
    return res


def _task(args):
    prop, i, deadline = args
    load(prop)
    con = CONTRACTS[prop][i]
    r = explore(con, deadline)
    r['functions'] = sorted(r['functions'])
    r['assumptions'] = sorted(r['assumptions'])
    r['obligations'] = [dict(contract=con.name, name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), where=o.where,
                             info=o.info, goal=o.goal if o.status != 'proved' else '') for o in r['obligations']]
    return r


def run(prop, tier, budget):
    load(prop)
    cons = CONTRACTS.get(prop, [])
    out = dict(obligations=[], unsupported=[], backends={}, solver_time=0.0, paths=0, functions=[], contracts=[], assumptions=[])
    if not cons:
        return out
    deadline = time.time() + budget
    tasks = [(prop, i, deadline) for i in range(len(cons))]
    results = []
    if len(tasks) == 1 or os.environ.get('PYDV_SERIAL'):
        results = [_task(t) for t in tasks]
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(min(8, len(tasks)), maxtasksperchild=1) as pool:
            asy = [pool.apply_async(_task, (t,)) for t in tasks]
            for t, a in zip(tasks, asy):
                try:
                    results.append(a.get(max(5, deadline + 60 - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(contract=cons[t[1]].name, obligations=[], unsupported='time limit', paths=0, solver=0.0, functions=[],
                                        assumptions=[], time=budget, reached=0))
                except Exception as e:
                    results.append(dict(contract=cons[t[1]].name, obligations=[], unsupported=f'engine: {type(e).__name__}: {e}', paths=0,
                                        solver=0.0, functions=[], assumptions=[], time=0, reached=0))
            pool.terminate()
    funcs, ass = set(), set()
    for con, r in zip(cons, results):
        out['obligations'] += r['obligations']
        if r['unsupported']:
            out['unsupported'].append(dict(contract=r['contract'], why=r['unsupported'][:600]))
        for o in r['obligations']:
            if o['status'] == 'proved':
                out['backends'][o['backend']] = out['backends'].get(o['backend'], 0) + 1
        out['paths'] += r['paths']
        out['solver_time'] += r['solver']
        funcs |= set(r['functions'])
        ass |= set(r['assumptions'])
        out['contracts'].append(dict(name=r['contract'], bound=con.bound, obligations=len(r['obligations']),
                                     proved=sum(o['status'] == 'proved' for o in r['obligations']), paths=r['paths'],
                                     time=round(r['time'], 2), unsupported=r['unsupported']))
    out['functions'] = sorted(funcs)
    out['assumptions'] = sorted(ass)
    out['solver_time'] = round(out['solver_time'], 2)
    return out


def main():
    """verify.py C01 [contract substring]: report on the terminal"""
    from vf import common
    args = sys.argv[1:]
    common.import_repo()
    prop = args[0]
    load(prop)
    if len(args) > 1:
        CONTRACTS[prop] = [c for c in CONTRACTS[prop] if args[1] in c.name]
    t = time.time()
    r = run(prop, 'quick', 600)
    for c in r['contracts']:
        print(f"{c['name']:40s} {c['proved']}/{c['obligations']} obligations, {c['paths']} paths, {c['time']} s", f"UNSUPPORTED {c['unsupported'][-1500:]}" if c['unsupported'] else '')
    for o in r['obligations']:
        if o['status'] != 'proved':
            print('  ', o['status'], o['contract'], o['name'], o['where'], f"{o['time']} s", o['info'][:500], '\n      ', o['goal'][:300])
        elif os.environ.get('PYDV_VERBOSE'):
            print('  ', o['status'], o['contract'], o['name'], o['backend'], f"{o['time']} s")
    print(f"{len(r['obligations'])} obligations {r['backends']}, {r['paths']} paths, solver {r['solver_time']} s, wall {time.time() - t:.1f} s")


if __name__ == '__main__':
    from vf.pydv import verify
    verify.main()
