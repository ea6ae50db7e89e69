import numpy as np
from ..common import Fail, req, eq


def _seq(rng, k):
    m = k % 9
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 17, 300]) if k > 20 else rng.choice([0, 1, 2, 3, 4])
    a = rng.choice([0, 0, 1, -3, 7, 250, 2**31 - 3, -2**40])
    if m in (0, 1):
        return [a + i for i in range(n)]
    s = [a + i for i in range(max(n, 2))]
    if m == 2:  # almost consecutive: two interior values exchanged, ends kept
        if len(s) > 3:
            i = rng.randrange(1, len(s) - 2)
            s[i], s[i + 1] = s[i + 1], s[i]
        else:
            s.reverse()
    elif m == 3:
        s[-1] += rng.choice([1, -1, 5])
    elif m == 4:
        s[0] += rng.choice([1, -1, 5])
    elif m == 5:
        s[rng.randrange(len(s))] += rng.choice([1, -1])
    elif m == 6:
        rng.shuffle(s)
    elif m == 7:
        s = s[::-1]
    else:
        s = [rng.randint(-5, 5) for _ in range(n)]
    return s


def is_run(s):
    return all(b == a + 1 for a, b in zip(s, s[1:]))


def build(rng, s):
    from cfdtools.meshbase._connectivity import indexlist
    form = rng.randrange(5)
    if is_run(s) and s and form == 0:
        return indexlist(irange=[s[0], s[-1]])
    if is_run(s) and s and form == 1:
        return indexlist(irange=np.array([s[0], s[-1]]))
    if is_run(s) and s and form == 2:
        return indexlist(irange=(s[0], s[-1]))
    if not s and form == 0:
        a = rng.randint(-3, 9)
        return indexlist(irange=[a, a - 1])
    if form == 3:
        dt = [np.int64, np.int32][rng.randrange(2)]
        if s and (min(s) < -2**31 or max(s) >= 2**31):
            dt = np.int64
        return indexlist(ilist=np.array(s, dtype=dt))
    return indexlist(ilist=list(s))


def observe(il, s, what, rng=None):
    eq([int(x) for x in il.list()], s, what + ' list()')
    eq(int(il.size), len(s), what + ' size')
    req(il.type in ('list', 'range'), what + ' type %s', il.type)
    if il.type == 'range':
        req(is_run(s), what + ': range form of a sequence that is not a run')
        r = il.range()
        eq([int(r[0]), int(r[1]) - int(r[0]) + 1], [s[0] if s else int(r[0]), len(s)], what + ' range()')
    if s:
        for i in {0, len(s) - 1, -1, len(s) // 2}:
            eq(int(il[i]), s[i], what + f' [{i}]')
        eq([int(x) for x in il[1:]], s[1:], what + ' [1:]')


def case_ops(rng, k, scratch):
    from cfdtools.meshbase._connectivity import indexlist
    s = _seq(rng, k)
    il = build(rng, s)
    pool = [(il, s)]
    observe(il, s, 'new')
    if k % 3 == 0:   # several index lists built from one list or array
        src = list(s) if rng.random() < 0.6 else np.array(s, dtype=np.int64)
        pool = [(indexlist(ilist=src), list(s)) for _ in range(rng.randint(2, 3))]
    for step in range(rng.randint(1, 7)):
        j = rng.randrange(len(pool))
        il, s = pool[j]
        op = rng.choice(['compress', 'shift', 'add', 'append', 'setl', 'setr', 'compress', 'self'])
        what = f"step {step} {op} on {s[:12]}"
        if op == 'compress':
            il.compress()
            observe(il, s, what)
            eq(il.type, 'range' if is_run(s) else 'list', what + ' type')
        elif op == 'shift':
            d = rng.choice([0, 1, -1, 10, 255, 2**33])
            pool.append((il.shift(d), [x + d for x in s]))
        elif op == 'add':
            o, t = rng.choice(pool) if rng.random() < 0.3 else (None, None)
            if o is None:
                t = _seq(rng, rng.randrange(40))
                o = build(rng, t)
                pool.append((o, t))
            pool.append((il + o, s + t))
        elif op == 'self':
            pool.append((il + il, s + s))
        elif op == 'append':
            t = _seq(rng, rng.randrange(40))
            a = np.array(t, dtype=np.int64) if rng.random() < 0.4 else list(t)
            t0 = list(t)
            il.append(a)
            eq([int(x) for x in a], t0, what + ' argument')
            pool[j] = (il, s + t)
        elif op == 'setl':
            t = _seq(rng, rng.randrange(40))
            il.set_list(np.array(t, dtype=np.int64) if rng.random() < 0.4 else list(t))
            pool[j] = (il, t)
        elif op == 'setr':
            a, n = rng.randint(-5, 5), rng.randint(0, 5)
            il.set_range([a, a + n - 1])
            pool[j] = (il, list(range(a, a + n)))
        for n, (x, t) in enumerate(pool):
            observe(x, t, what + f' then object {n}')
        if len(pool) > 5:
            pool = pool[-4:]


def case_compress(rng, k, scratch):
    """exhaustive compression: all sequences of length <= 4 over a window of 5 values, both input kinds"""
    import itertools
    from cfdtools.meshbase._connectivity import indexlist
    n = k % 5
    base = rng.choice([0, -2, 100])
    for t in itertools.product(range(5), repeat=n):
        s = [base + x for x in t]
        il = indexlist(ilist=np.array(s, dtype=np.int64) if k % 2 else list(s))
        il.compress()
        observe(il, s, f'compress {s}')
        eq(il.type, 'range' if is_run(s) else 'list', f'type after compress of {s}')
    if k > 5:
        n = rng.randint(5, 3000)
        s = list(range(base, base + n))
        i = rng.randrange(n)
        if rng.random() < 0.7:
            s[i] += rng.choice([1, -1, n])
        else:
            j = rng.randrange(n)
            s[i], s[j] = s[j], s[i]
        il = indexlist(ilist=list(s))
        il.compress()
        eq(il.type, 'range' if is_run(s) else 'list', 'type after compress of long list')
        eq(il.list(), s, 'long list')


CASES = [(case_ops, 4000), (case_compress, 60)]
