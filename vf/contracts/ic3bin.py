"""Shared by C10-C12: IC3 version 2 and 3 files as sequences of sections, read by an independent walk."""
from ..pydv.core import z3, lift, norm
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, bin_models as B

MAGIC = 123581321
ORDERS = {'native': '<', 'little': '<', 'big': '>'}
ID = {'counts': 10, 'I0': 11, 'D0': 12, 'FA_CHECK': 20, 'NOOFA': 21, 'CVOFA': 22, 'FA_ZONE': 23, 'NO_CHECK': 30, 'X_NO': 31, 'CV_CHECK': 40,
      'CV_PART': 41, 'DATA': 50, 'EOF': 51, 'FA_D1': 24, 'FA_D3': 25, 'NO_D1': 32, 'NO_D3': 33, 'NO_II1': 34, 'CV_D1': 42, 'CV_D3': 43, 'CV_D33': 44, 'CV_II1': 45}
HEADER = 'c' * 52 + 'i' + 'q' + 'q' * 8 + 'd' * 16


class Section:
    def __init__(self, name, id, skip, idata, rdata, payload, order, at):
        self.name, self.id, self.skip, self.idata, self.rdata, self.payload, self.order, self.at = name, id, skip, idata, rdata, payload, order, at

    def values(self, *parts):
        """the payload as values of the given (code, count)"""
        r = self.payload
        f = B.Format([self.order] + [('rep', c, n) for c, n in parts])
        s = B.Struct(f).unpack(r)
        s, out, at = seq_of(s), [], 0
        for _, n in parts:
            out.append(s.slice(at, norm(lift(at) + lift(n))))
            at = norm(lift(at) + lift(n))
        return out[0] if len(out) == 1 else out


def path(v, name='file'):
    return IO.F_JOIN(v.text(name + 'folder'), IO.known_name(v.text(name)))


def writer_class(version):
    import importlib
    return importlib.import_module(f'cfdtools.ic3.writerV{version}').writer


def written(v, m, version, endian):
    w = v.call(writer_class(version), m, endian)
    v.meth(w, 'write_data', path(v))
    files = [c for _, _, c in IO.fs().written]
    v.prove('one file is written', len(files) == 1)
    return files[0]


def walk(v, content, order, version):
    """sections of a file; the walk itself is part of the specification"""
    f = B.BinFile(content, 'rb', '')
    head = B.Struct(order + 'ii').unpack(f.read(8))
    v.prove('magic number and version', and_(eq(head[0], MAGIC), eq(head[1], int(version))))
    out = []
    while True:
        at = f.pos
        h = f.read(256)
        v.prove('a header is 256 bytes', eq(h.sv_len(), 256))
        s = B.Struct(order + HEADER).unpack(h)
        name = b''.join(s[:52]).split(b'\0')[0].decode()
        id, skip = conc(s[52]), s[53]
        v.prove(f'identifier of section {len(out)}', id is not None)
        v.prove(f'section {name} announces at least its header', lift(skip) >= 256)
        p = f.read(norm(lift(skip) - 256))
        v.prove(f'section {name} announces the distance to the next section', f.at is not None)
        out.append(Section(name, id, skip, s[54:62], s[62:78], p, order, at))
        if id is None or id == ID['EOF']:
            break
    v.prove('the last section ends the file', eq(f.pos, content.total))
    v.prove('the last section has no data', eq(out[-1].skip, 256))
    return out


def find(v, sections, kind):
    r = [s for s in sections if s.id == ID[kind]]
    v.prove(f'one section {kind}', len(r) == 1)
    return r[0]


NAMES = ['inlet', 'mark two', 'x3']


class GhostMesh:
    """a valid file: any faces of these sizes, any owners, nm zones and the internal one, any partition, any coordinates"""

    def __init__(self, v, version, order, sizes=(4,), nm=1, opt=()):
        self.v, self.version, self.order, self.opt = v, version, order, opt
        self.runs, self.at = [], {}
        self.pack('ii', [MAGIC, int(version)])
        nn, nc, n = self.nn, self.nc, self.n = v.int('nnode', 1), v.int('ncell', 1), v.int('nface', 1)
        sz = self.sz = v.fun('sz', z3.IntSort(), z3.IntSort())
        v.assume(v.forall(n, lambda i: z3.Or([sz(i) == k for k in sizes]), pats=lambda i: [sz(i)]))
        off = self.off = v.it.models.prefix_sum(sz, n)
        val = self.val = v.array('val', [off(n)], 'i')
        own = self.own = v.array('own', [2 * n], 'i')
        v.assume(v.forall(2 * n, lambda i: lift(own.get(i)) < nc, pats=lambda i: [lift(own.get(i))]))
        last = v.arbitrary(2 * n)
        v.assume(own.get(last) == nc - 1)
        self.section('NO_FA_CV_NOOFA_COUNTS', 'counts', [nn, n, nc, off(n)])
        if version == '2':
            for nm_, k, x in (('NO_CHECK', 'NO_CHECK', nn), ('FA_CHECK', 'FA_CHECK', n), ('CV_CHECK', 'CV_CHECK', nc)):
                self.section(nm_, k, [x], data=[('i', x, lambda i: i)])
        self.section('NOOFA_I_AND_V', 'NOOFA', [n, off(n)], data=[('i', n, lambda i: sz(lift(i))), ('i', off(n), val.get)])
        self.section('CVOFA', 'CVOFA', [n, 2], data=[('i', norm(2 * lift(n)), own.get)])
        zones = [(NAMES[k], ['boundary', 'perio_cart', 'perio_cylx'][k % 3]) for k in range(nm)]
        if 'no internal' not in opt:
            zones.append(('internal-domain', 'internal'))
        cuts = self.cuts = [0] + [v.int(f'cut{k}', 0) for k in range(len(zones) - 1)] + [n]
        self.zones, self.trs = zones, {}
        for a, b, (z, ty) in zip(cuts, cuts[1:], zones):
            v.assume(lift(a) <= lift(b) if ty == 'internal' else lift(a) < lift(b))
            self.trs[z] = [v.real(f'tr_{z}_{c}'.replace(' ', '_').replace('-', '_')) if c < 4 and ty == 'perio_cart' else 0 for c in range(16)]
            self.section(z, 'FA_ZONE', [{'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}[ty], a, norm(lift(b) - 1)], self.trs[z])
        self.npart, self.icv = v.int('npart', 1), v.array('icv', [nc], 'i')
        self.section('CV_PART', 'CV_PART', [nc, self.npart], data=[('i', nc, self.icv.get)])
        self.xyz = v.array('xyz', [3 * nn], 'f')
        self.section('X_NO', 'X_NO', [nn, 3], data=[('d', norm(3 * lift(nn)), self.xyz.get)])
        self.mesh_end = B.Content(self.runs).total
        self.section('DATA', 'DATA')

    def pack(self, form, values):
        s = B.Struct(self.order + form)
        self.runs += s.pack(self.v.it, values).runs

    def section(self, name, kind, idata=(), rdata=(), data=()):
        size = norm(sum((lift(n) * B.SIZE[c] for c, n, _ in data), z3.IntVal(256)))
        self.at.setdefault(kind, B.Content(self.runs).total)
        t = [name[k:k + 1].encode() if k < len(name) else b'\0' for k in range(52)]
        pad = lambda x, n: list(x) + [0] * (n - len(x))
        self.pack(HEADER, t + [ID[kind], size] + pad(idata, 8) + pad(rdata, 16))
        for c, n, get in data:
            self.runs.append(B.Run(c, self.order, n, get))

    def store(self, cut=None):
        if self.runs is not None:
            self.section('EOF', 'EOF')
        p = path(self.v)
        self.content = B.Content(self.runs, cut)
        IO.fs().write(IO.as_path(p), self.content)
        return p

    def same_mesh(self, m):
        v, nn, nc, n = self.v, self.nn, self.nc, self.n
        sz, off, val, own = self.sz, self.off, self.val, self.own
        v.prove('sizes', and_(eq(v.attr(m, 'nnode'), nn), eq(v.attr(m, 'ncell'), nc), eq(v.attr(m, 'nface'), n)))
        got = seq_of(v.meth(m, 'nodescoord'))
        for c in range(3):
            v.prove(f'coordinate {c}: number', eq(got.get(c).shape[0], nn))
            v.prove_all(f'coordinate {c}', nn, lambda i: eq(got.get(c).get(i), self.xyz.get(norm(3 * lift(i) + c))))
        faces = v.attr(m, '_faces')
        v.prove('one set of faces', list(seq_of(faces).lst) == ['mixed'])
        f = v.item(faces, 'mixed')
        con, own2 = v.item(f, 'face2node'), v.attr(v.item(f, 'face2cell'), 'conn')
        v.prove('number of owners', own2.ndim == 2 and and_(eq(own2.shape[0], n), eq(own2.shape[1], 2)))
        v.prove_all('owners', n, lambda w: and_(*[eq(own2.get(w, c), own.get(norm(2 * lift(w) + c))) for c in range(2)]))
        v.prove('number of faces', eq(v.attr(con, 'nelem'), n))
        every = v.meth(con, 'all_index')
        q = v.ivar('p')
        v.lemma('size of the face', z3.Implies(z3.And(0 <= q, q < n), sz(q) >= 2))
        v.prove('every face is there', z3.Implies(z3.And(0 <= q, q < n), lift(v.it.models.contains(v.it, every, q))))
        tuples = seq_of(v.meth(con, 'index_elem_tuples'))
        q = v.arbitrary(tuples.n)
        i, nodes = tuples.get(q)
        nodes = seq_of(nodes)
        v.prove('number of a face', and_(lift(i) >= 0, lift(i) < n))
        v.prove('node count', eq(nodes.n, sz(i)))
        c = v.int('c', 0)
        v.assume(c < lift(nodes.n))
        v.prove('nodes in order', eq(nodes.get(c), val.get(off(i) + c)))
        bocos = v.attr(m, '_bocos')
        v.prove('names of the marks', list(seq_of(bocos).lst) == [z for z, _ in self.zones])
        for k, (z, ty) in enumerate(self.zones):
            b = v.item(bocos, z)
            v.prove(f'kind of {z}', v.attr(b, 'name') == z and v.attr(b, 'type') == ty and v.attr(b, 'geodim') in (('intface',) if ty == 'internal' else ('face', 'bdface')))
            s = seq_of(v.meth(v.attr(b, 'index'), 'list'))
            v.prove(f'size of {z}', eq(s.n, norm(lift(self.cuts[k + 1]) - lift(self.cuts[k]))))
            v.prove_all(f'faces of {z}', s.n, lambda i: eq(s.get(i), norm(lift(self.cuts[k]) + lift(i))))
            tr = v.item(v.attr(b, 'properties'), 'periodic_transform')
            tr = seq_of(tr)
            v.prove(f'transformation of {z}', tr.n == 16 and and_(*[eq(tr.get(c), self.trs[z][c]) for c in range(16)]))
        part = v.item(v.attr(m, '_cellprop'), 'partition')
        icv = v.item(part, 'icvpart')
        v.prove('partition: sizes', and_(eq(v.item(part, 'npart'), self.npart), eq(icv.shape[0], nc)))
        v.prove_all('partition', nc, lambda i: eq(icv.get(i), self.icv.get(i)))
