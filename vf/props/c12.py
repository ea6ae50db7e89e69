import os
import numpy as np
from ..common import Fail, req, eq, must_raise
from .. import gen, ic3x
from .c11 import field_sets, random_state


def make_file(rng, k, fname, version=None, endian=None, maxn=2):
    from cfdtools.data import DataSet
    version = version or 2 + k % 2
    endian = endian or ['little', 'big', 'native'][k // 2 % 3]
    desc, m, marks, part, e = ic3x.make(rng, k, maxn=maxn)
    ndof = rng.choice([1, 2]) if version == 3 else 1
    node, cell = field_sets(rng, version, desc.nnode, desc.ncell, ndof)
    nd, cd = DataSet('nodal'), DataSet('spectralcell', ndof=ndof)
    for ds, want in ((nd, node), (cd, cell)):
        for n, a in want:
            ds.add_data(n, a)
    m.set_nodedata(nd)
    m.set_celldata(cd)
    m.update_params(random_state(rng))
    ic3x.write(m, version, endian, fname)
    return open(fname, 'rb').read()


def case_walk(rng, k, scratch):
    raw = make_file(rng, k, 'w.ic3')
    en, ver, secs = ic3x.parse(raw)
    I = ic3x.IDS
    want = [I['COUNTS']] + ([I['NO_CHECK'], I['FA_CHECK'], I['CV_CHECK']] if ver == 2 else []) + [I['NOOFA'], I['CVOFA']]
    ids = [s.id for s in secs]
    eq(sorted(i for i in ids if i in want), sorted(want), 'mesh sections')
    eq(ids[-1], I['EOF'], 'last section')
    eq(ids.count(I['EOF']), 1, 'end-of-file sections')
    eq(secs[-1].name, 'EOF', 'name of last section')


def search(fid, swap, secs, pos, kinds, codes, reset, first):
    """expected result of a search from a position at the payload of section pos (or file header)"""


def case_search(rng, k, scratch):
    """every search, from the file start or from every section, with the header state of the previous search"""
    from cfdtools.ic3._ic3 import restartSectionHeader, ic3_restart_codes
    raw = make_file(rng, k, 's.ic3')
    en, ver, secs = ic3x.parse(raw)
    codes = {n: c for n, c in ic3_restart_codes.items() if 10 <= c <= 51}
    eq({n[7:]: c for n, c in codes.items() if c in (10, 23, 31, 44, 51)}, {'NO_FA_CV_NOOFA_COUNTS': 10, 'FA_ZONE': 23, 'X_NO': 31, 'CV_D33': 44, 'EOF': 51}, 'section codes')
    swap = en == '<'
    names = sorted(codes)
    with open('s.ic3', 'rb') as fid:
        for rep in range(25):
            # start: file start (reset), or just after a header as a search leaves it
            start = rng.randrange(-1, len(secs) - 1)
            kinds = rng.sample(names, rng.choice([1, 1, 2, 5]))
            if rng.random() < 0.3:
                present = [n for n in names if codes[n] in {s.id for s in secs}]
                kinds = [rng.choice(present)]
            ids = {codes[n] for n in kinds}
            h = restartSectionHeader()
            if start < 0 or rng.random() < 0.3:
                # wherever the file is, a reset search starts at the first section
                fid.seek(rng.randrange(len(raw)))
                start = -1
                args = dict(reset_offset=True)
            else:
                # reach section `start` first with the same header object, then go on from there
                s = secs[start]
                nth = sum(1 for t in secs[:start + 1] if t.id == s.id)
                kind = [n for n in names if codes[n] == s.id]
                for i in range(nth):
                    ok = h.readVar(fid, swap, kind, reset_offset=i == 0)
                    req(ok is True, f'section {s.id} number {i} not found')
                eq((h.name, fid.tell()), (s.name, s.pos + 256), f'search of section {s.id} number {nth}')
                args = dict(reset_offset=False)
                if rng.random() < 0.5:  # new header object positioned at the next header
                    fid.seek(s.pos + s.skip)
                    h = restartSectionHeader()
            hit = next((t for t in secs[start + 1:] if t.id in ids), None)
            # a section named like DEOF ends the search; names starting with DEOF are not generated
            ok = h.readVar(fid, swap, kinds, **args)
            if hit is None:
                req(not ok, f'search of {kinds} from section {start} found {h.name!r} (id {h.id[0]})')
                h = restartSectionHeader()
                must_raise(lambda: h.readReqVar(fid, swap, kinds), 'required section which is absent') if not any(t.id in ids for t in secs) else None
            else:
                req(ok is True, f'search of {kinds} from section {start} reports absence')
                eq((h.name, int(h.id[0]), [int(x) for x in h.idata], [float(x) for x in h.rdata], int(h.skip())),
                   (hit.name, hit.id, list(hit.idata), list(hit.rdata), hit.skip), f'header found searching {kinds} from {start}')
                eq(fid.tell(), hit.pos + 256, f'position after search of {kinds} from {start}')


def case_truncate(rng, k, scratch):
    """cut anywhere: error"""
    raw = make_file(rng, k, 't.ic3', maxn=1)
    en, ver, secs = ic3x.parse(raw)
    end = len(raw)
    bounds = [s.pos for s in secs] + [end]
    cuts = {0, 1, 4, 7, 8, 9} | {end - i for i in (1, 2, 3, 4, 5, 7, 8, 9, 16, 24, 128, 255)}
    for b in bounds:
        cuts |= {b - 1, b, b + 1, b + 52, b + 128, b + 255, b + 256, b + 257, b + 260}
    while len(cuts) < 300:
        cuts.add(rng.randrange(end))
    for c in sorted(c for c in cuts if 0 <= c < end):
        with open('cut.ic3', 'wb') as f:
            f.write(raw[:c])
        must_raise(lambda: ic3x.read('cut.ic3'), f'v{ver} file of {len(raw)} bytes cut at {c}')


def case_truncate_all(rng, k, scratch):
    """every cut in the mesh of one cell, and in the last section"""
    k = [0, 3][k % 2] if k < 2 else k
    raw = make_file(rng, k, 't.ic3', maxn=1, version=2 + k % 2)
    en, ver, secs = ic3x.parse(raw)
    xno = next(s for s in secs if s.id == ic3x.IDS['X_NO'])
    end = xno.pos + xno.skip
    step = 1 if end < 4000 else 3
    for c in list(range(rng.randrange(step), end, step)) + list(range(len(raw) - 256, len(raw))):
        with open('cut.ic3', 'wb') as f:
            f.write(raw[:c])
        must_raise(lambda: ic3x.read('cut.ic3'), f'v{ver} file of {len(raw)} bytes cut at {c} (mesh ends at {end})')


CASES = [(case_walk, 60), (case_search, 40), (case_truncate, 40), (case_truncate_all, 4)]
