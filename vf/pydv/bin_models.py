"""Contract assumed on binary files: struct packs values one after another in the announced byte order, a file gives back the bytes
written in it. Content of a file = runs (type code, byte order, count, values), positions = numbers of bytes."""
import builtins
import os
import struct
import z3
from .core import Unsupported, PyRaise, is_term, is_num, lift, norm, simp
from .values import to_real, SSeq, SList, SArr, eq, and_, or_, not_, seq_of, concat, conc, ctx, subst
from . import models as M, io_models as IO
from .models import simple

SIZE = {'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'e': 2, 's': 1, 'x': 1}
INTS = 'bBhHiIlLqQ'
ORDER = {'@': '<', '=': '<', '<': '<', '>': '>', '!': '>'}


class Format:
    """text with symbolic repetitions or numbers: list of literals, ('rep', char, n), ('num', n)"""

    def __init__(self, parts):
        self.parts = parts

    def sv_binop(self, it, op, o, reflected):
        if op == 'Add' and isinstance(o, (str, Format)):
            p = o.parts if isinstance(o, Format) else [o]
            return Format(p + self.parts if reflected else self.parts + p)
        if op == 'Mult' and is_num(o) and len(self.parts) == 1 and self.parts[0][0] == 'rep':
            _, ch, n = self.parts[0]
            return Format([('rep', ch, norm(lift(n) * lift(o)))])
        if op == 'Mod' or op == 'Add':
            from .values import OpaqueStr
            return OpaqueStr()
        return NotImplemented

    def sv_type(self):
        return str

    def sv_str(self, it):
        from .values import OpaqueStr
        return OpaqueStr()

    def sv_subst(self, pairs):
        return Format([p if isinstance(p, str) else p[:-1] + (subst(p[-1], pairs),) for p in self.parts])


def text_repeat(s, n):
    """s*n, n symbolic"""
    n = norm(lift(n))
    if len(s) == 1:
        return Format([('rep', s, n)])
    return None


def text_number(fmt, n):
    """fmt % n where fmt holds one %d"""
    a, b = fmt.split('%d')
    return Format([x for x in (a, ('num', n), b) if x])


def parse(form):
    """byte order character, runs [(code, count)]"""
    if isinstance(form, str):
        if form not in FORMS:
            FORMS[form] = parse_parts([form])
        return FORMS[form][0], list(FORMS[form][1])
    return parse_parts(form)


FORMS = {}


def parse_parts(form):
    parts = form if isinstance(form, list) else form.parts if isinstance(form, Format) else None
    if parts is None:
        if isinstance(form, bytes):
            parts = [form.decode()]
        else:
            raise Unsupported(f'format given by {type(form).__name__}')
    order, runs, count, first = '@', [], None, True

    def put(ch, n):
        if ch not in SIZE:
            raise PyRaise(struct.error('bad char in struct format'))
        if ch in 'sx?e':
            raise Unsupported(f'format {ch}')
        if runs and runs[-1][0] == ch:
            a = runs[-1][1]
            runs[-1] = (ch, a + n if isinstance(a, int) and isinstance(n, int) else norm(lift(a) + lift(n)))
        else:
            runs.append((ch, n))
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                if first and ch in ORDER:
                    order = ch
                elif ch.isdigit():
                    if is_term(count):
                        raise Unsupported('format with a mixed number')
                    count = (count or 0) * 10 + int(ch)
                elif ch.isspace():
                    pass
                else:
                    put(ch, 1 if count is None else count)
                    count = None
                first = False
        elif p[0] == 'num':
            if count is not None:
                raise Unsupported('format with a mixed number')
            ctx().must(lift(p[1]) >= 0, struct.error('bad char in struct format'))
            count = p[1]
            first = False
        else:
            if count is not None:
                raise Unsupported('format with a repeated number')
            n = p[2]
            if not ctx().proves(lift(n) >= 0):
                n = simp(z3.If(lift(n) >= 0, lift(n), 0))
            put(p[1], n)
            first = False
    if count is not None:
        raise PyRaise(struct.error('repeat count given without format specifier'))
    return order, runs


def size_of(order, code):
    return 8 if order == '@' and code in 'lL' else SIZE[code]


def total(ns):
    """sum of numbers"""
    k, ts = 0, []
    for n in ns:
        if isinstance(n, int):
            k += n
        else:
            ts.append(lift(n))
    return k if not ts else norm(sum(ts, z3.IntVal(k)))


class Run:
    def __init__(self, code, order, n, get, size=None):
        self.code, self.order, self.n, self.get = code, order, norm(lift(n)), get
        self.size = SIZE[code] if size is None else size

    @property
    def nbytes(self):
        return self.n * self.size if isinstance(self.n, int) else norm(lift(self.n) * self.size)

    def part(self, lo, n):
        return Run(self.code, self.order, n, lambda i: self.get(norm(lift(i) + lift(lo))), self.size)

    def sv_subst(self, pairs):
        return Run(self.code, self.order, subst(self.n, pairs), lambda i: subst(self.get(i), pairs), self.size)


def raw(n):
    """bytes of unknown meaning"""
    f = z3.Function(ctx().fresh_name('bytes'), z3.IntSort(), z3.IntSort())
    return Run('raw', '<', n, lambda i: f(lift(i)), 1)


def merged(runs):
    out = []
    for r in runs:
        if isinstance(r.n, int) and r.n == 0:
            continue
        if out and (out[-1].code, out[-1].order, out[-1].size) == (r.code, r.order, r.size) and isinstance(out[-1].n, int) and isinstance(r.n, int):
            a = out[-1]
            out[-1] = Run(a.code, a.order, a.n + r.n, (lambda a, r: lambda i: joined(a, r, i))(a, r), a.size)
        else:
            out.append(r)
    return out


def joined(a, r, i):
    c = conc(i)
    if c is not None:
        return a.get(c) if c < a.n else r.get(c - a.n)
    return concat([SSeq(a.n, a.get), SSeq(r.n, r.get)]).get(i)


class Bytes:
    def __init__(self, runs):
        self.runs = merged(runs)

    def sv_len(self, it=None):
        return total([r.nbytes for r in self.runs])

    def sv_type(self):
        return bytes

    def sv_truth(self, it=None):
        return simp(lift(self.sv_len()) > 0)

    def sv_binop(self, it, op, o, reflected):
        if op != 'Add' or not isinstance(o, (bytes, Bytes)):
            return NotImplemented
        o = as_bytes(o)
        return Bytes(o.runs + self.runs if reflected else self.runs + o.runs)

    def sv_subst(self, pairs):
        return Bytes([r.sv_subst(pairs) for r in self.runs])


def as_bytes(x):
    if isinstance(x, Bytes):
        return x
    if isinstance(x, (bytes, bytearray)):
        b = bytes(x)
        return Bytes([Run('c', '<', len(b), lambda i: SSeq(lst=[b[k:k + 1] for k in range(len(b))]).get(i))])
    raise PyRaise(TypeError(f"a bytes-like object is required, not '{type(x).__name__}'"))


def converted(code, x):
    """value packed with a type code"""
    if code == 'c':
        if not (isinstance(x, bytes) and len(x) == 1):
            raise PyRaise(struct.error('char format requires a bytes object of length 1'))
        return x
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.get()
    if isinstance(x, M.np.generic):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if not is_num(x):
        if isinstance(x, (SArr, M.np.ndarray)) or x is None or isinstance(x, (str, bytes, tuple, SList)):
            raise PyRaise(struct.error('required argument is not a number'))
        raise Unsupported(f'{type(x).__name__} packed')
    if code in INTS:
        t = lift(x)
        if not t.is_int():
            raise PyRaise(struct.error('required argument is not an integer'))
        if not is_term(x):
            try:
                struct.pack('<' + code, int(x))
            except struct.error as e:
                raise PyRaise(e)
        else:
            ctx().assumptions.add('integers written with struct fit in their type')
        return x
    if code == 'd':
        return simp(to_real(lift(x)))
    raise Unsupported(f'packed as {code}')


SWAP = {}


def swapped(code, x):
    if code == 'c' or code == 'raw':
        return x
    if not is_term(x) and is_num(x) and code in INTS + 'd':
        try:
            return M.num(struct.unpack('>' + code, struct.pack('<' + code, x))[0])
        except struct.error as e:
            raise PyRaise(e)
    t = lift(x)
    key = (code, t.sort().name())
    if key not in SWAP:
        SWAP[key] = z3.Function(f'byteswap_{code}_{t.sort().name()}', t.sort(), t.sort())
    f = SWAP[key]
    if t.num_args() == 1 and t.decl().eq(f):
        return simp(t.arg(0))
    return f(t)


class Struct:
    def __init__(self, form):
        self.form = form
        o, self.runs = parse(form)
        self.order, self.native = ORDER[o], o == '@'
        if o in '@=':
            ctx().assumptions.add('native byte order is little-endian, native sizes are those of a 64-bit machine')
        self.sizes = [size_of(o, c) for c, _ in self.runs]
        if self.native:
            at = 0
            for (c, n), s in zip(self.runs, self.sizes):
                if at is None and s > 1 or at is not None and at % s:
                    raise Unsupported('alignment of native types')
                at = at + n * s if at is not None and isinstance(n, int) else None if s < 8 else 0
        self.size = total([n * s if isinstance(n, int) else lift(n) * s for (_, n), s in zip(self.runs, self.sizes)])

    def sv_getattr(self, it, nm):
        if nm in ('size', 'format'):
            return getattr(self, 'size' if nm == 'size' else 'form')
        if nm == 'pack':
            return M.Model(lambda *a: self.pack(it, a), nm)
        if nm == 'unpack':
            return M.Model(self.unpack, nm)
        raise Unsupported(f'Struct.{nm}')

    def pack(self, it, args):
        s = concat([a.seq if hasattr(a, 'seq') and type(a).__name__ == 'StarArgs' else SSeq(lst=[a]) for a in args])
        want = total([n for _, n in self.runs])
        ctx().must(eq(s.n, want), struct.error('pack expected another number of items'))
        out, at = [], 0
        for (c, n), size in zip(self.runs, self.sizes):
            if s.lst is not None and isinstance(n, int):
                lst = [converted(c, x) for x in s.lst[at:at + n]]
                q = SSeq(lst=lst)
                out.append(Run(c, self.order, n, q.get, size))
            else:
                converted(c, s.get(0)) if not (isinstance(s.n, int) and s.n == 0) else None      # only the sort matters here
                out.append(Run(c, self.order, n, (lambda at, c: lambda i: converted(c, s.get(norm(lift(i) + lift(at)))))(at, c), size))
            at = norm(lift(at) + lift(n))
        return Bytes(out)

    def unpack(self, b):
        if isinstance(b, M.np.ndarray) or b is None:
            raise PyRaise(TypeError('a bytes-like object is required'))
        b = as_bytes(b)
        ctx().must(eq(b.sv_len(), self.size), struct.error('unpack requires a buffer of another size'))
        seqs, runs = [], list(b.runs)
        for (c, n), size in zip(self.runs, self.sizes):
            if isinstance(n, int) and n == 0:
                continue
            r = runs.pop(0) if runs else None
            if r is not None and r.code == c and r.size == size and ctx().proves(eq(r.n, n)):
                pass
            elif r is not None and r.code == c and r.size == size and isinstance(r.n, int) and isinstance(n, int) and r.n > n:
                runs.insert(0, r.part(n, r.n - n))
                r = r.part(0, n)
            elif ctx().proves(eq(n, 0)):
                if r is not None:
                    runs.insert(0, r)
                continue
            else:
                # neighbouring runs of the same kind
                acc = [r] if r is not None else []
                while acc and runs and runs[0].code == c and r.code == c and runs[0].order == r.order and not ctx().proves(eq(norm(sum((lift(x.n) for x in acc), z3.IntVal(0))), n)):
                    acc.append(runs.pop(0))
                if acc and r.code == c and ctx().proves(eq(norm(sum((lift(x.n) for x in acc), z3.IntVal(0))), n)):
                    q = concat([SSeq(x.n, x.get) for x in acc])
                    r = Run(c, r.order, n, q.get, size)
                else:
                    r = self.reinterpreted(c, n, size)
                    runs = []
            x = SSeq(r.n, r.get) if r.order == self.order else SSeq(r.n, (lambda r, c: lambda i: swapped(c, r.get(i)))(r, c))
            seqs.append(x)
        s = concat(seqs)
        return tuple(s.lst) if s.lst is not None else s

    def reinterpreted(self, c, n, size):
        ctx().prove('bytes are read with the types they were written with', z3.BoolVal(False))
        S = z3.RealSort() if c in 'fd' else z3.IntSort()
        f = z3.Function(ctx().fresh_name('unknown'), z3.IntSort(), S)
        if c == 'c':
            return Run('c', self.order, n, lambda i: b'?', size)
        return Run(c, self.order, n, lambda i: f(lift(i)), size)


class Content:
    """bytes of a file: runs, and the position where it was cut (None: whole)"""

    def __init__(self, runs=None, cut=None):
        self.runs, self.cut = list(runs or []), cut
        self.offs = [0]

    def offsets(self):
        while len(self.offs) <= len(self.runs):
            self.offs.append(norm(lift(self.offs[-1]) + lift(self.runs[len(self.offs) - 1].nbytes)))
        return self.offs[:-1], self.offs[-1]

    @property
    def total(self):
        return self.offsets()[1] if self.cut is None else self.cut


class BinFile:
    def __init__(self, content, mode, name):
        self.content, self.mode, self.name = content, mode, name
        self.pos, self.at, self.closed = 0, (0, 0), False

    def sv_type(self):
        import io
        return io.BufferedReader if self.mode == 'rb' else io.BufferedWriter

    def sv_enter(self, it):
        return self

    def sv_exit(self, it):
        self.closed = True

    def sv_getattr(self, it, nm):
        if nm in ('name', 'mode', 'closed'):
            return getattr(self, nm)
        if nm in ('read', 'write', 'seek', 'tell', 'close'):
            return M.Model(getattr(self, nm), nm)
        if nm in ('flush',):
            return M.Model(lambda: None, nm)
        raise Unsupported(f'attribute {nm} of a binary file')

    def alive(self):
        if self.closed:
            raise PyRaise(ValueError('I/O operation on closed file.'))
        if ctx().generics:
            raise Unsupported('file used in a loop of symbolic length')

    def close(self):
        self.closed = True

    def tell(self):
        self.alive()
        return self.pos

    def write(self, b):
        import io
        self.alive()
        if self.mode == 'rb':
            raise PyRaise(io.UnsupportedOperation('write'))
        if self.at != 'end':
            raise Unsupported('write elsewhere than at the end')
        b = as_bytes(b)
        self.content.runs += b.runs
        n = b.sv_len()
        self.pos = norm(lift(self.pos) + lift(n))
        return n

    def seek(self, off, whence=0):
        self.alive()
        if whence == os.SEEK_SET:
            p = off
        elif whence == os.SEEK_CUR:
            p = norm(lift(self.pos) + lift(off))
        elif whence == os.SEEK_END:
            p = norm(lift(self.content.total) + lift(off))
        else:
            raise PyRaise(ValueError('invalid whence'))
        if isinstance(p, M.np.generic):
            p = int(p)
        at = self.locate(p) if self.mode == 'rb' else None
        if at is None:
            ctx().must(lift(p) >= 0, OSError('Invalid argument'))
        if self.mode != 'rb':
            if not ctx().proves(eq(p, self.pos)):
                raise Unsupported('seek in a file being written')
            return self.pos
        self.pos = p
        self.at = at
        return p

    def locate(self, p):
        """run, element where a position is, None: in the middle of a value"""
        offs, end = self.content.offsets()
        offs = offs + [end]
        for k, o in enumerate(offs):
            if is_term(o) and is_term(p) and o.get_id() == p.get_id():
                return k, 0
        for k, o in enumerate(offs):
            if eq(o, p) is True:
                return k, 0
        for k, o in enumerate(offs):
            if ctx().proves(eq(o, p)):
                return k, 0
        for k, o in enumerate(offs[:-1]):
            r = self.content.runs[k]
            d = norm(lift(p) - lift(o))
            if isinstance(d, int) and d > 0 and d % r.size == 0 and ctx().proves(lift(d) < lift(r.nbytes)):
                return k, d // r.size
        if ctx().proves(lift(p) > lift(end)):
            return len(self.content.runs), 1
        return None

    def read(self, size=-1):
        import io
        self.alive()
        if self.mode != 'rb':
            raise PyRaise(io.UnsupportedOperation('read'))
        c = ctx()
        if size is None or not is_term(size) and size < 0:
            left = norm(lift(self.content.total) - lift(self.pos))
            size = left if c.branch(lift(left) > 0) else 0
        if is_term(size) and not c.branch(lift(size) >= 0):
            raise Unsupported('read of a negative number of bytes')
        if self.content.cut is not None or self.at is None:
            left = norm(lift(self.content.total) - lift(self.pos))
            if not c.branch(lift(size) <= lift(left)):
                n = left if c.branch(lift(left) > 0) else 0
                self.pos = norm(lift(self.pos) + lift(n))
                self.at = None
                return Bytes([raw(n)])
        out, rest, at = [], norm(lift(size)), self.at
        while at is not None and not (isinstance(rest, int) and rest == 0):
            k, e = at
            if k >= len(self.content.runs):
                if c.branch(eq(rest, 0)):
                    break
                self.pos, self.at = (self.content.offsets()[1] if not e else self.pos), at
                return Bytes(out)
            r = self.content.runs[k]
            avail = norm(lift(r.nbytes) - e * r.size)
            more = simp(lift(norm(lift(rest) - lift(avail))) >= 0)
            if is_term(more) and is_term(rest) and c.proves(eq(rest, 0)):
                break
            if c.branch(more):
                out.append(r.part(e, norm(lift(r.n) - e)) if e else r)
                rest = norm(lift(rest) - lift(avail))
                at = (k + 1, 0)
            elif isinstance(rest, int) and rest % r.size == 0:
                out.append(r.part(e, rest // r.size))
                at = (k, e + rest // r.size)
                rest = 0
            else:
                at = None
        self.at = at
        if at is None:
            self.pos = norm(lift(self.pos) + lift(size))
            return Bytes([raw(norm(lift(size)))])
        o = self.content.offsets()
        o = (o[0] + [o[1]])[at[0]]
        self.pos = norm(lift(o) + at[1] * self.content.runs[at[0]].size) if at[1] else o
        return Bytes(out)


def text_file(path):
    from .text_models import Text, TextFile
    f = IO.fs()
    p = IO.as_path(path)
    for fo, na, content in reversed(f.written):
        same = and_(eq(fo, p.folder), eq(na, p.name))
        if same is True or is_term(same) and ctx().proves(same):
            if not isinstance(content, Text):
                raise Unsupported('content of the file')
            return TextFile(content)
        if is_term(same) and not ctx().proves(not_(same)):
            raise Unsupported('which file is opened')
    raise PyRaise(FileNotFoundError('No such file or directory'))


class OutText:
    """text file open for writing: the pieces of text written, in order"""

    def __init__(self, name):
        self.name, self.pieces, self.closed = name, [], False

    def sv_type(self):
        import io
        return io.TextIOWrapper

    def sv_enter(self, it):
        return self

    def sv_exit(self, it):
        self.closed = True

    def sv_getattr(self, it, nm):
        if nm in ('name', 'closed'):
            return getattr(self, nm)
        if nm in ('write', 'writelines', 'close', 'flush'):
            return M.Model(lambda *a: getattr(self, nm)(it, *a), nm)
        raise Unsupported(f'attribute {nm} of a text file')

    def flush(self, it):
        pass

    def close(self, it):
        self.closed = True

    def write(self, it, s):
        if self.closed:
            raise PyRaise(ValueError('I/O operation on closed file.'))
        if ctx().generics:
            raise Unsupported('file used in a loop of symbolic length')
        self.pieces.append(s)

    def writelines(self, it, seq):
        for s in M.iterate(it, seq):
            self.write(it, s)


@simple(builtins.open)
def m_open(it, path, mode='r', *a, **kw):
    f = IO.fs()
    if mode in ('r', 'rt') and not a and set(kw) <= {'encoding'}:
        return text_file(path)
    if mode in ('w', 'wt', 'x', 'xt') and not a and set(kw) <= {'encoding', 'newline'}:
        p = IO.as_path(path)
        if mode[0] == 'x' and ctx().branch(lift(f.exists(p))):
            raise PyRaise(FileExistsError(17, 'File exists'))
        b = OutText(p.sv_str(it))
        f.write(p, b)
        return b
    if mode == 'wb':
        p = IO.as_path(path)
        content = Content()
        f.write(p, content)
        b = BinFile(content, mode, p.sv_str(it))
        b.at = 'end'
        return b
    if mode == 'rb':
        p = IO.as_path(path)
        ctx().assumptions.add('a binary file read gives back the bytes written in it; read() gives fewer bytes only at the end of the file')
        for fo, na, content in reversed(f.written):
            same = and_(eq(fo, p.folder), eq(na, p.name))
            if same is True or is_term(same) and ctx().proves(same):
                if not isinstance(content, Content):
                    raise Unsupported('content of the file')
                return BinFile(content, mode, p.sv_str(it))
            if is_term(same) and not ctx().proves(not_(same)):
                raise Unsupported('which file is opened')
        raise PyRaise(FileNotFoundError('No such file or directory'))
    raise Unsupported(f'open in mode {mode}')


REG_STRUCT = simple(struct.Struct)(lambda it, form: Struct(form))
simple(struct.pack)(lambda it, form, *a: Struct(form).pack(it, a))
simple(struct.unpack)(lambda it, form, b: Struct(form).unpack(b))
simple(struct.calcsize)(lambda it, form: Struct(form).size)
