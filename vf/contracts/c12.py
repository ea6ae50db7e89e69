"""C12: sections of IC3 version 2 and 3 files."""
import os
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, bin_models as B
from .c11 import some_mesh, some_fields
from .ic3bin import ORDERS, ID, MAGIC, HEADER, path, written, walk, GhostMesh

CODES = {'counts': 'UGP_IO_NO_FA_CV_NOOFA_COUNTS', 'I0': 'UGP_IO_I0', 'D0': 'UGP_IO_D0', 'FA_ZONE': 'UGP_IO_FA_ZONE', 'NO_D1': 'UGP_IO_NO_D1',
         'CV_D3': 'UGP_IO_CV_D3', 'X_NO': 'UGP_IO_X_NO', 'CV_II1': 'UGP_IO_CV_II1'}


@contract('C12', bound='at most 3 marks, 6 fields', variants=['quad4/quad4:1:native:2:0', 'tri3+quad4/tri3:2:big:3:1', 'quad4:0:little:2:1', 'tri3+quad4:1:big:3:3'])
def sections_written(v, plan):
    """a written file is a chain of sections which ends with the end of the file"""
    shape, nm, endian, version, ndof = plan.split(':')
    m, nn, nc = some_mesh(v, shape, int(nm))
    if ndof != '0':
        some_fields(v, m, nn, nc, version, int(ndof))
    S = walk(v, written(v, m, version, endian), ORDERS[endian], version)
    v.prove('one end', [s.id for s in S].count(ID['EOF']) == 1)


class Sections(GhostMesh):
    def __init__(self, v, order):
        self.v, self.order, self.runs, self.at = v, order, [], {}
        self.pack('ii', [MAGIC, 2])


NAMES = ['', 'x', 'a name', 'n' * 51, 'm' * 52, 'rho']


@contract('C12', bound='files of 3 sections', variants=[f'{o}:{k}' for o in '<>' for k in ('counts+NO_D1+CV_D3', 'FA_ZONE+FA_ZONE+X_NO', 'I0+D0+I0', 'CV_II1+D0+CV_II1')])
def search(v, plan):
    """the next section of one of the kinds, and the position on its data"""
    from cfdtools.ic3._ic3 import restartSectionHeader
    order, kinds = plan.split(':')
    kinds = kinds.split('+')
    g = Sections(v, order)
    infos = []
    for k, kind in enumerate(kinds):
        n = v.int(f'n{k}', 0)
        idata, rdata = [v.int(f'i{k}_{c}') for c in range(8)], [v.real(f'r{k}_{c}') for c in range(16)]
        vals = v.array(f'data{k}', [n], 'i')
        name = NAMES[(k + len(kind)) % len(NAMES)]
        code = 'iqd'[k % 3]
        g.section(name, kind, idata, rdata, [(code, n, vals.get if code != 'd' else lambda i, vals=vals: z3.ToReal(lift(vals.get(i))))])
        infos.append((kind, name, idata, rdata, n, code, vals))
    IO.fs().write(IO.as_path(path(v)), None)
    g.section('EOF', 'EOF')
    content = B.Content(g.runs)
    starts = [o for o, r in zip(content.offsets()[0], content.runs) if r.code == 'c']
    f = B.BinFile(content, 'rb', '')
    swap = order == '<'
    wanted = v.choose(*[w for w in ([kinds[1]], [kinds[2]], [kinds[0], kinds[2]], ['absent'])])
    codes = lambda: SList([CODES.get(w, 'UGP_IO_FA_D3') for w in wanted])
    how = v.choose('same header', 'new header')

    def found(h, k):
        kind, name, idata, rdata, n, code, vals = infos[k]
        v.prove('name', v.attr(h, 'name') == name)
        v.prove('kind', eq(v.item(v.attr(h, 'id'), 0), ID[kind]))
        gi, gr = seq_of(v.attr(h, 'idata')), seq_of(v.attr(h, 'rdata'))
        v.prove('integers', and_(gi.n == 8, *[eq(gi.get(c), idata[c]) for c in range(8)]))
        v.prove('reals', and_(gr.n == 16, *[eq(gr.get(c), rdata[c]) for c in range(16)]))
        v.prove('position', eq(f.tell(), norm(lift(starts[k]) + 256)))
        v.prove('announced size', eq(v.meth(h, 'skip'), norm(lift(n) * B.SIZE[code] + 256)))
    h = v.call(restartSectionHeader)
    first = True
    at = 0
    while True:
        nxt = [k for k in range(at, 3) if kinds[k] in wanted]
        got = v.meth(h, 'readVar', f, swap, codes(), reset_offset=first)
        v.prove('found or not', got is bool(nxt))
        if not nxt:
            break
        k = nxt[0]
        found(h, k)
        at, first = k + 1, False
        if how == 'new header':
            kind, name, idata, rdata, n, code, vals = infos[k]
            b = f.read(norm(lift(n) * B.SIZE[code]))
            s = seq_of(B.Struct(B.Format([order, ('rep', code, n)])).unpack(b))
            v.prove('number of data', eq(s.n, n))
            v.prove_all('data', n, lambda i: eq(s.get(i), vals.get(i)))
            h = v.call(restartSectionHeader)
    h = v.call(restartSectionHeader)
    if at == 0:
        v.prove('a required section which is absent is an error', v.raises(lambda: v.meth(h, 'readReqVar', f, swap, codes())) is not None)
    else:
        v.meth(h, 'readReqVar', f, swap, codes())
        found(h, [k for k in range(3) if kinds[k] in wanted][0])


@contract('C12', bound='faces of 4 nodes, 1 zone, 2 fields', variants=[f'{x}:{k}' for x in '23' for k in range(8)])
def cut_file(v, plan):
    """a file cut before its end is not read"""
    from cfdtools.ic3.reader_legacy import reader
    version, part = plan.split(':')
    part = int(part)
    g = GhostMesh(v, version, '<' if version == '2' else '>', (4,), 1)
    limits = [0] + [g.at[k] for k in ('NOOFA', 'CVOFA', 'FA_ZONE', 'CV_PART')] + [g.mesh_end]
    if part >= 5:
        g.section('step', 'I0', [v.int('step')])
        rho, u = v.array('rho', [g.nc], 'f'), v.array('u', [3 * g.nn], 'f')
        g.section('rho', 'CV_D1', [g.nc, 1], data=[('d', g.nc, rho.get)])
        g.section('u', 'NO_D3', [g.nn, 3], data=[('d', norm(3 * lift(g.nn)), u.get)])
        limits += [g.at['CV_D1'], B.Content(g.runs).total]
        limits.append(norm(lift(limits[-1]) + 256))
    cut = v.int('cut', 0)
    v.assume(z3.And(lift(limits[part]) <= lift(cut), lift(cut) < lift(limits[part + 1])))
    p = g.store(cut)
    r = v.call(reader, p)
    v.prove('a cut file is not read', v.raises(lambda: v.meth(r, 'read_data')) is not None)
