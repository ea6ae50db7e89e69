"""C21: spectra and spectrograms of time series."""
from ..pydv.core import z3, lift, norm, simp
from ..pydv.verify import contract
from ..pydv.values import SArr, SList, SSeq, eq, and_, or_, ite, to_real
from ..pydv import num_models as NM
BOUND = 'three variables besides time, any length, values and window'
FILTERS = {'all': None, 'one': ['P'], 'two': ['T', 'P'], 'with time': ['T', 'time', 'freqs'], 'only time': ['time']}


class Series:
    def __init__(self, v, least=2):
        from cfdtools.data import DataSet
        self.v = v
        self.n = v.int('n', least)
        self.ds = v.call(DataSet, Xrep=v.choose('nodal', 'cellaverage'), Trep='timeevol')
        self.val = {}
        for m in ('P', 'time', 'T', 'freqs'):
            self.val[m] = v.array(m, [self.n], 'i' if m == 'T' else 'f')
            v.meth(self.ds, 'add_data', m, self.val[m].copy())
        t = self.val['time']
        i = z3.Int('ti')
        j = z3.Int('tj')
        v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lift(self.n)), t.get(i) < t.get(j)), patterns=[z3.MultiPattern(t.get(i), t.get(j))]))

    def filter(self, key):
        names = FILTERS[key]
        return None if names is None else SList(SSeq(lst=list(names)))

    def wanted(self, key):
        return [m for m in (FILTERS[key] or ['P', 'T', 'freqs']) if m != 'time']

    def unchanged(self, flt, key):
        v = self.v
        d = v.attr(self.ds, 'data').d
        v.prove('variables of the source', sorted(d) == sorted(self.val))
        for m, a in self.val.items():
            v.prove(f'source: size of {m}', d[m].ndim == 1 and eq(d[m].shape[0], self.n))
            v.prove_all(f'source: values of {m}', self.n, lambda i: eq(d[m].get(i), a.get(i)))
        v.prove('source: representation', v.attr(self.ds, 'Trep') == 'timeevol')
        if flt is not None:
            q = flt.seq
            v.prove('list of the caller', q.lst is not None and list(q.lst) == FILTERS[key])


def window(v, n):
    """limits (as given, as positions)"""
    def limit(x, default):
        if x is None:
            return default
        x = z3.If(x < 0, x + lift(n), x)
        return norm(z3.If(x < 0, 0, z3.If(x > lift(n), lift(n), x)))
    a, b = v.choose((None, None), (v.int('imin'), None), (None, v.int('imax')), (v.int('imin'), v.int('imax')))
    lo, hi = limit(a, 0), limit(b, n)
    v.assume(lift(hi) - lift(lo) >= 2)
    return a, b, lo, hi


@contract('C21', variants=list(FILTERS), bound=BOUND)
def spectrum(v, key):
    s = Series(v)
    a, b, lo, hi = window(v, s.n)
    n = norm(lift(hi) - lift(lo))
    flt = s.filter(key)
    t = s.val['time']
    avg = (t.get(norm(lift(hi) - 1)) - t.get(lo)) / z3.ToReal(lift(n) - 1)
    for go in (1, 2):
        r = v.meth(s.ds, 'dataSet_spectrum', **({} if flt is None else dict(datafilter=flt)), **({} if a is None else dict(imin=a)), **({} if b is None else dict(imax=b)))
        d = v.attr(r, 'data').d
        v.prove('variables of the spectrum', sorted(d) == sorted(s.wanted(key) + ['freq']))
        v.prove('representation', v.attr(r, 'Trep') == 'spectrum')
        for m in s.wanted(key):
            x = s.val[m]
            v.prove(f'size of {m}', d[m].ndim == 1 and eq(d[m].shape[0], n))
            v.prove_all(f'modulus of {m}', n, lambda q: NM.same(d[m].get(q), NM.modulus(lambda j: x.get(norm(lift(lo) + j)), n, q)))
        v.prove('size of the frequencies', d['freq'].ndim == 1 and eq(d['freq'].shape[0], n))
        q0 = lambda q: z3.If(2 * lift(q) < lift(n) , lift(q), lift(q) - lift(n))
        v.prove_all('frequencies', n, lambda q: eq(d['freq'].get(q) * (avg * z3.ToReal(lift(n))), z3.ToReal(q0(q))))
        s.unchanged(flt, key)


@contract('C21', variants=[f'{k}, {w}' for k in FILTERS for w in ('window given', 'default window')], bound=BOUND)
def spectrogram(v, plan):
    key, w = plan.split(', ')
    s = Series(v)
    flt = s.filter(key)
    kw = {} if flt is None else dict(datafilter=flt)
    if w == 'window given':
        width = kw['window'] = v.int('window', 4)
    else:
        width = norm(lift(s.n) / 100)
    h = norm(lift(width) / 2)
    size = norm(2 * lift(h) + 1)
    v.assume(and_(lift(h) >= 2, lift(s.n) >= lift(size)))
    t = s.val['time']
    avg = (t.get(norm(s.n - 1)) - t.get(0)) / z3.ToReal(lift(s.n) - 1)
    for go in (1, 2):
        r = v.meth(s.ds, 'dataSet_spectrogram', **kw)
        d = v.attr(r, 'data').d
        names = s.wanted(key)
        v.prove('variables of the spectrogram', sorted(d) == sorted(names + ['freq', 'time']))
        v.prove('representation', v.attr(r, 'Trep') == 'spectrogram')
        nr, nf = d['time'].shape[0], d['freq'].shape[0]
        # windows i: values h*i .. h*i + 2h; as many as fit
        v.prove('all the windows that fit', [lift(nr) >= 0, or_(lift(nr) == 0, lift(h) * (lift(nr) + 1) <= lift(s.n) - 1), lift(h) * (lift(nr) + 2) > lift(s.n) - 1])
        v.prove_all('time of a window: its middle', nr, lambda i: eq(d['time'].get(i), t.get(norm(lift(h) * (i + 1)))))
        v.prove('first frequency kept', lift(nf) <= lift(h) + 1)
        q0 = norm(lift(h) + 1 - lift(nf))
        v.prove_all('frequencies of a window, up to the highest', nf, lambda q: eq(d['freq'].get(q) * (avg * z3.ToReal(lift(size))), z3.ToReal(lift(q0) + q)))
        for m in names:
            x, y = s.val[m], d[m]
            v.prove(f'shape of {m}', y.ndim == 2 and and_(eq(y.shape[0], nr), eq(y.shape[1], nf)))
            v.prove_all(f'modulus of {m}', [nr, nf], lambda i, q: NM.same(y.get(i, q), NM.LOG(NM.modulus(lambda j: x.get(norm(lift(h) * i + j)) * NM.HANN(j, lift(size)), size, norm(lift(q0) + q)))))
        s.unchanged(flt, key)
