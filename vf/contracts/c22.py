"""C22: probe variables.  Any prefix, any subset of the files, any content of the files and of the variables already present."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SArr, eq, and_, or_, not_, text_cat, ltext, to_real
from ..pydv import io_models as IO, num_models as NM, models as M

DEPS = {'Asound': ['P', 'RHO'], 'S': ['P', 'RHO'], 'Mach': ['U', 'Asound'], 'U': ['U-X', 'U-Y', 'U-Z'], 'INVX+': ['U-X', 'Asound'], 'INVX-': ['U-X', 'Asound']}
ALL = ['P', 'RHO', 'U-X', 'U-Y', 'U-Z'] + list(DEPS)


def definition(name, g):
    """value at a point, g: values of the other variables there"""
    if name == 'U':
        return NM.SQRT(g('U-X') * g('U-X') + g('U-Y') * g('U-Y') + g('U-Z') * g('U-Z'))
    if name == 'Asound':
        return NM.SQRT(lift(1.4) * g('P') / g('RHO'))
    if name == 'Mach':
        return g('U') / g('Asound')
    if name == 'INVX+':
        return 5 * g('Asound') + g('U-X')
    if name == 'INVX-':
        return 5 * g('Asound') - g('U-X')
    return NM.LOG(g('P') / M.power(g('RHO'), lift(1.4))) * 5 / 2


class World:
    """files prefix.X for some variables, with nt lines of 3 + npt columns; variables already present"""

    def __init__(self, v, present, time):
        from cfdtools.probes.data import phydata
        self.v, self.nt, self.npt = v, v.int('nt', 2), v.int('npt', 1)
        self.prefix = v.text('prefix')
        self.p = v.call(phydata, v.text('base'), verbose=v.choose(False, True))
        self.table, self.present, self.order = {}, {}, []
        for name in ALL + ['T']:
            a = v.array('table ' + name, [self.nt, self.npt + 3], 'f')
            self.table[name] = a
            NM.tables().append((ltext(text_cat(self.prefix, '.' + name)), a))
        d = v.attr(self.p, 'alldata')
        for name in present:
            self.present[name] = v.array('present ' + name, [self.nt, self.npt], 'f')
            v.it.models.setitem(v.it, d, name, self.present[name].copy())
        self.time = v.array('time', [self.nt], 'f') if time else None
        if time:
            v.it.models.setitem(v.it, d, 'time', self.time.copy())

    def in_file(self, name):
        return self.v.c.branch(lift(IO.fs().exists(IO.as_path(text_cat(self.prefix, '.' + name)))))

    def possible(self, name):
        if name in self.present or self.in_file(name):
            return True
        return name in DEPS and all([self.possible(d) for d in DEPS[name]])

    def value(self, name, i, j):
        if name in self.present:
            return lift(self.present[name].get(i, j))
        if self.in_file(name):
            return lift(self.table[name].get(i, 3 + j))
        return definition(name, lambda d: self.value(d, i, j))

    def data(self):
        return self.v.attr(self.p, 'alldata').d

    def check(self):
        """every variable there has the value of the rule"""
        v, d = self.v, self.data()
        for name in self.present:
            v.prove(f'{name} is still there', name in d)
        for name, a in d.items():
            if name == 'time':
                continue
            v.prove(f'{name} is available', self.possible(name))
            v.prove(f'shape of {name}', a.ndim == 2 and and_(eq(a.shape[0], self.nt), eq(a.shape[1], self.npt)))
            v.prove_all(f'values of {name}', [self.nt, self.npt], lambda i, j: eq(a.get(i, j), self.value(name, i, j)))
        if self.time is not None:
            v.prove_all('time is left', self.nt, lambda i: eq(d['time'].get(i), self.time.get(i)))
        elif 'time' in d:
            read = [n for n in d if n in self.table and n not in self.present and self.in_file(n)]
            v.prove('number of times', d['time'].ndim == 1 and eq(d['time'].shape[0], self.nt))
            v.prove('time is the second column of a file', or_(*[v.forall(self.nt, lambda i: eq(d['time'].get(i), self.table[n].get(i, 1))) for n in read]))

    def request(self, name):
        """one request; False when it must fail"""
        v = self.v
        ok = self.possible(name)
        if ok:
            r = v.meth(self.p, 'check_data', name, prefix=self.prefix)
            v.prove(f'request of {name} is successful', v.it.truth(r))
            v.prove(f'{name} is there', name in self.data())
        else:
            e = v.raises(lambda: v.meth(self.p, 'check_data', name, prefix=self.prefix), Exception)
            v.prove(f'request of {name} fails with an error naming a variable', e is not None and any(x in str(e) for x in ALL + [name]))
        self.check()
        return ok


@contract('C22', bound='one request', variants=['P', 'T', 'U', 'Asound', 'Mach', 'S', 'INVX+', 'INVX-'])
def request(v, name):
    """any subset of the files"""
    World(v, [], v.choose(False, True)).request(name)


@contract('C22', bound='the listed variables are present', variants=['U:P', 'P:P', 'Mach:U', 'Mach:Asound', 'INVX+:U-X', 'INVX-:Asound', 'S:RHO', 'Mach:Mach', 'Asound:U-X+P+RHO',
                                                                         'INVX+:P+RHO+Asound+U-X', 'INVX-:P+RHO+Asound', 'Mach:U-X+U-Y+U-Z+U+Asound', 'Mach:P+RHO+Asound+U', 'S:P+RHO+U+Asound'])
def request_with_present(v, plan):
    name, present = plan.split(':')
    World(v, present.split('+'), v.choose(False, True)).request(name)


@contract('C22', bound='two requests', variants=['Asound,S', 'U-X,INVX+', 'INVX+,INVX-', 'S,P', 'U,Mach', 'P,T'])
def two_requests(v, plan):
    w = World(v, [], False)
    for name in plan.split(','):
        if not w.request(name):
            return


@contract('C22', bound='one line', variants=['X', 'Y', 'Z'])
def coordinates(v, name):
    """a file of one line: positions"""
    w = World(v, [], v.choose(False, True))
    v.assume(lift(IO.fs().exists(IO.as_path(text_cat(w.prefix, '.' + name)))))
    line = v.array('line', [w.npt + 3], 'f')
    NM.tables().append((ltext(text_cat(w.prefix, '.' + name)), line))
    r = v.meth(w.p, 'check_data', name, prefix=w.prefix)
    v.prove('successful', v.it.truth(r))
    d = w.data()
    v.prove('number of positions', d[name].ndim == 1 and eq(d[name].shape[0], w.npt))
    v.prove_all('positions', w.npt, lambda i: eq(d[name].get(i), line.get(3 + i)))
    if w.time is not None:
        v.prove_all('time is left', w.nt, lambda i: eq(d['time'].get(i), w.time.get(i)))
    else:
        v.prove('no time', 'time' not in d)


@contract('C22', bound='two requests', variants=['P, T', 'RHO, U-X'])
def lengths(v, plan):
    """files of different numbers of lines and columns: each variable is that of its file, the time is that of the first one"""
    first, second = plan.split(', ')
    w = World(v, [], v.choose(False, True))
    names = {first: w.table[first], second: None}
    nt, npt = v.int('other nt', 2), v.int('other npt', 1)
    names[second] = v.array('other table', [nt, npt + 3], 'f')
    NM.tables()[:] = [(ltext(text_cat(w.prefix, '.' + n)), a) for n, a in names.items()]
    for n in names:
        v.assume(lift(IO.fs().exists(IO.as_path(text_cat(w.prefix, '.' + n)))))
    for k, n in enumerate(names):
        v.prove(f'request of {n} is successful', v.it.truth(v.meth(w.p, 'check_data', n, prefix=w.prefix)))
        d = w.data()
        for m in list(names)[:k + 1]:
            a = names[m]
            v.prove(f'shape of {m}', d[m].ndim == 2 and and_(eq(d[m].shape[0], a.shape[0]), eq(d[m].shape[1] + 3, a.shape[1])))
            v.prove_all(f'values of {m}', [a.shape[0], norm(lift(a.shape[1]) - 3)], lambda i, j: eq(d[m].get(i, j), a.get(i, norm(lift(j) + 3))))
        t, size = (w.time.get, w.nt) if w.time is not None else (lambda i: names[first].get(i, 1), w.nt)
        v.prove('number of times', d['time'].ndim == 1 and eq(d['time'].shape[0], size))
        v.prove_all('time', size, lambda i: eq(d['time'].get(i), t(i)))
