"""Visibility data: what a tree reads from and writes to a measurement set."""
import os, shutil, tempfile, math
from vf.forest import *
if not os.environ.get('VF_META'): import msdrv
PROPERTY = 'V01'; LEVEL = 'exploration'
RULE = ('random measurement sets (antennas, fields, spectral windows in either frequency order, polarizations, missing and autocorrelation rows, rows in any order, irregular times, bitflags, weights, storage managers) read through '
        'MSInputChannel, the queue channel, VisDataMux, spigots and sinks, and written back by both output channels, with random selections, tilings, steps and flag masks, several runs per forest, against a numpy shadow of the set; '
        'distinct by (shape of the selection, tiling, spigot and sink settings, output settings)')
CASE_TIMEOUT = 60
T0 = 4.6e9
class MS: pass
def gen_ms(rng, big=False):
    m = MS()
    m.nant = rng.choice([2, 3, 3, 4, 5]) if not big else rng.choice([31, 33])
    m.nfield = rng.choice([1, 1, 2])
    nspw = rng.choice([1, 1, 2])
    m.freqs = []; m.widths = []
    for s in range(nspw):
        n = rng.choice([1, 2, 3, 4, 6, 7]); f = 1e9 + np.cumsum([rng.choice([1e6, 1e6, 2e6]) for _ in range(n)]) if rng.random() < .3 else 1e9 + 1e6 * np.arange(n)
        if rng.random() < .3: f = f[::-1].copy()
        m.freqs.append(f); m.widths.append(np.array([rng.choice([1e6, 1e6, -1e6]) for _ in range(n)]))
    m.corrs = [np.array(rng.choice([[9, 10, 11, 12], [9, 10, 11, 12], [9, 12], [5, 6, 7, 8], [9]]), 'i4') for _ in range(rng.choice([1, 1, 2]))]
    ndd = rng.choice([1, 1, 2]) if nspw * len(m.corrs) == 1 else rng.choice([2, 2, 3])
    m.dd = [(rng.randrange(nspw), rng.randrange(len(m.corrs))) for _ in range(ndd)]
    nt = rng.choice([1, 2, 3, 5, 7, 8]) if not big else 2
    t = T0; times = []
    step = 10.
    for i in range(nt):
        times.append(t)
        if rng.random() < .15: step = rng.choice([5., 10., 20.])
        t += step if rng.random() > .15 else step * rng.choice([3, 7])
    m.slot_exposure = {x: (10. if rng.random() < .7 else rng.choice([5., 8., 12.])) for x in times}
    if rng.random() < .6: m.slot_exposure = {x: 10. for x in times}
    drop = rng.choice([0, 0, .1, .4]); auto = rng.random() < .5
    rows = []
    for x in times:
        sl = []
        for f in range(m.nfield):
            for d in range(ndd):
                if (f or d) and rng.random() < .3: continue
                for a in range(m.nant):
                    for b in range(a, m.nant):
                        if a == b and not auto: continue
                        if big and b < m.nant - 2: continue
                        if rng.random() < drop: continue
                        sl.append((x, a, b, f, d))
        if rng.random() < .5: rng.shuffle(sl)
        rows += sl
    m.shuffled = rng.random() < .15
    if m.shuffled: rng.shuffle(rows)
    m.rows = rows; n = len(rows)
    cells = [(len(m.freqs[m.dd[r[4]][0]]), len(m.corrs[m.dd[r[4]][1]])) for r in rows]
    m.cells = cells
    nr = np.random.default_rng(rng.randrange(2**32))
    m.fixed = len(set(cells)) == 1 and rng.random() < .7
    m.tiled = rng.random() < .5
    cplx = lambda: [(np.round(nr.normal(size=c), 3) + 1j * np.round(nr.normal(size=c), 3)).astype('c8') for c in cells]
    m.col = {'DATA': cplx()}
    for c in ('MODEL_DATA', 'CORRECTED_DATA'):
        if rng.random() < (.4 if len(set(cells)) == 1 else 1): m.col[c] = cplx()
    p = rng.choice([0, .1, .3])
    m.col['FLAG'] = [nr.random(c) < p for c in cells]
    m.col['FLAG_ROW'] = nr.random(n) < rng.choice([0, 0, .2])
    m.bitflag = rng.random() < .6
    m.weights = rng.random() < .4
    if m.bitflag:
        undef = rng.choice([0, 0, .3, 1])
        m.col['BITFLAG'] = [None if rng.random() < undef else np.where(nr.random(c) < .3, nr.integers(0, 16, c), 0).astype('i4') for c in cells]
        m.col['BITFLAG_ROW'] = np.where(nr.random(n) < .2, nr.integers(0, 16, n), 0).astype('i4')
    if m.weights: m.col['WEIGHT_SPECTRUM'] = [nr.random(c).astype('f4') for c in cells]
    m.col['UVW'] = np.round(nr.normal(size=(n, 3)) * 100, 3)
    m.col['TIME'] = np.array([r[0] for r in rows]); m.col['EXPOSURE'] = np.array([m.slot_exposure[r[0]] for r in rows])
    for j, c in enumerate(('ANTENNA1', 'ANTENNA2', 'FIELD_ID', 'DATA_DESC_ID')): m.col[c] = np.array([r[j + 1] for r in rows], 'i4')
    return m
CPLX = ('DATA', 'MODEL_DATA', 'CORRECTED_DATA')
def write_ms(m, path):
    c = m.col
    d = dict(nant=m.nant, nfield=m.nfield, fixed=int(m.fixed), tiled=int(m.tiled), freqs=m.freqs, widths=m.widths, corrs=m.corrs,
             dd_spw=np.array([x[0] for x in m.dd], 'i4'), dd_pol=np.array([x[1] for x in m.dd], 'i4'))
    for k in ('TIME', 'EXPOSURE', 'ANTENNA1', 'ANTENNA2', 'FIELD_ID', 'DATA_DESC_ID', 'FLAG_ROW', 'UVW', 'BITFLAG_ROW'):
        if k in c: d[k] = np.ascontiguousarray(c[k])
    d['complex'] = {k: c[k] for k in CPLX if k in c}; d['bool'] = {'FLAG': c['FLAG']}
    d['float'] = {'WEIGHT_SPECTRUM': c['WEIGHT_SPECTRUM']} if m.weights else {}
    d['int'] = {'BITFLAG': c['BITFLAG']} if m.bitflag else {}
    msdrv.create(path, d)
def read_ms(path):
    out = {}
    for k, (code, v) in msdrv.read(path).items():
        un = lambda e: None if e is None else np.frombuffer(e[1], code).reshape(e[0])
        out[k] = [un(e) for e in v] if isinstance(v, list) else un(v)
    return out
def gen_input(rng, m):
    """the input record and what it selects"""
    o = MS()
    r = record(data_column_name='DATA')
    o.col = 'DATA'
    if rng.random() < .2:
        o.col = rng.choice([c for c in CPLX if c in m.col]); r.data_column_name = o.col
    o.pred = rng.choice([c for c in CPLX if c in m.col]) if rng.random() < .25 else None
    if o.pred: r.predict_column_name = o.pred
    sel = record(); o.dd = rng.randrange(len(m.dd)); o.field = rng.randrange(m.nfield)
    if o.dd or rng.random() < .5: sel.ddid_index = o.dd
    if o.field or rng.random() < .5: sel.field_index = o.field
    o.auto = rng.random() < .3
    if o.auto: sel.auto_corr = True
    nch = len(m.freqs[m.dd[o.dd][0]])
    c0, c1, inc = 0, nch - 1, 1
    if rng.random() < .5:
        c0 = rng.randrange(nch); sel.channel_start_index = c0
        if rng.random() < .7:
            c1 = rng.randrange(c0, nch); sel.channel_end_index = c1 if rng.random() < .7 else c1 - nch
            if rng.random() < .2: sel.channel_end_index = c1 = nch - 1; sel.channel_end_index = nch + 3
        if rng.random() < .4: inc = rng.choice([2, 3]); sel.channel_increment = inc
        if rng.random() < .1 and c0 != c1: sel.channel_start_index, sel.channel_end_index = c1, c0
    o.chans = list(range(c0, c1 + 1, inc))
    o.where = lambda row: True
    x = rng.random()
    if x < .1: sel.selection_string = 'ANTENNA1 == 0'; o.where = lambda row: row[1] == 0
    elif x < .2: t = m.rows[rng.randrange(len(m.rows))][0]; sel.selection_string = 'TIME >= %.1f' % t; o.where = lambda row: row[0] >= t
    r.selection = sel
    o.incr = rng.choice([1, 1, 1, 2, 3])
    if o.incr > 1: r.time_increment = o.incr
    o.size = rng.choice([0, 1, 2, 3, 10]); o.segs = rng.choice([0, 0, 0, 1, 2])
    if o.size or rng.random() < .5: r.tile_size = o.size
    if o.segs: r.tile_segments = o.segs
    if not o.size and not o.segs: o.size = 1
    o.flag_mask = rng.choice([-1, -1, 0, 3, 6]); o.legacy = rng.choice([1, 1, 0, 8]); o.tilebit = rng.choice([2, 2, 0, 16])
    if o.flag_mask != -1: r.flag_mask = o.flag_mask
    if o.legacy != 1: r.legacy_bitflag = o.legacy
    if o.tilebit != 2: r.tile_bitflag = o.tilebit
    o.conj = rng.random() < .2; o.hann = rng.random() < .2
    if o.conj: r.invert_phases = True
    if o.hann: r.apply_hanning = True
    o.max_tiles = rng.choice([-1, -1, -1, -1, 1, 2])
    o.rec = r
    # selected rows and slots
    o.rows = [i for i, row in enumerate(m.rows) if row[3] == o.field and row[4] == o.dd and (o.auto or row[1] != row[2]) and o.where(row)]
    o.times = sorted(set(m.rows[i][0] for i in o.rows))
    o.slots = o.times[::o.incr]
    # tiles
    tiles = [[]]; seg = nseg = 0; delta = None; prev = None
    for t in o.slots:
        seg += 1
        if seg == 2: delta = t - prev
        elif seg > 2 and abs(t - prev - delta) > .1:
            nseg += 1; seg = 1
            if o.segs and nseg >= o.segs: tiles.append([]); nseg = 0
        prev = t
        tiles[-1].append(t)
        if o.size and len(tiles[-1]) == o.size: tiles.append([]); nseg = seg = 0
    if not tiles[-1]: tiles.pop()
    o.tiles = tiles if o.max_tiles < 0 else tiles[:o.max_tiles]
    o.all_tiles = tiles
    o.freq = m.freqs[m.dd[o.dd][0]][o.chans]; o.flip = o.freq[0] > o.freq[-1]
    if o.flip: o.freq = o.freq[::-1]
    o.ncorr = len(m.corrs[m.dd[o.dd][1]])
    return o
def flipf(o, a): return a[::-1] if o.flip else a
def load(m, o):
    """the tiles: list of {(a,b): tile}; tile columns are [slot] lists"""
    out = []
    by = {}
    for i in o.rows: by[m.rows[i][:3]] = i
    base = sorted(set(m.rows[i][1:3] for i in o.rows))
    for ts in o.tiles:
        d = {}
        for a, b in base:
            ix = [by.get((t, a, b)) for t in ts]
            if all(i is None for i in ix): continue
            T = MS(); T.rows = ix; d[a, b] = T
            T.DATA = []; T.FLAGS = []; T.ROW = []; T.PREDICT = []; T.WEIGHT = []
            for i in ix:
                if i is None: T.DATA.append(None); T.FLAGS.append(None); T.ROW.append(-1); T.PREDICT.append(None); T.WEIGHT.append(None); continue
                x = m.col[o.col][i]
                if o.conj: x = np.conj(x)
                if o.hann and len(x) > 2:
                    y = x.copy(); y[1:-1] = np.complex64(.5) * x[1:-1] + np.complex64(.25) * x[:-2] + np.complex64(.25) * x[2:]; x = y
                T.DATA.append(flipf(o, x[o.chans]))
                if o.pred: T.PREDICT.append(flipf(o, m.col[o.pred][i][o.chans]))
                if m.weights: T.WEIGHT.append(flipf(o, m.col['WEIGHT_SPECTRUM'][i][o.chans]))
                fl = np.zeros(m.cells[i], 'i4'); rf = 0
                if m.bitflag and o.flag_mask:
                    bf = m.col['BITFLAG'][i]; bf = fl if bf is None else bf
                    fl = bf & o.flag_mask; rf = int(m.col['BITFLAG_ROW'][i]) & o.flag_mask
                    if o.tilebit: fl = np.where(fl, o.tilebit, 0); rf = o.tilebit if rf else 0
                if o.legacy:
                    fl = fl | np.where(m.col['FLAG'][i], o.legacy, 0); rf |= o.legacy if m.col['FLAG_ROW'][i] else 0
                T.FLAGS.append(flipf(o, fl[o.chans]).astype('i4')); T.ROW.append(rf)
        out.append(d)
    return out
def corrmap(rng, ncorr):
    """dims, corr_index of a spigot"""
    if ncorr == 4: return rng.choice([([2, 2], [0, 1, 2, 3])] * 3 + [([2, 2], [3, 1, 2, 0]), ([2, 2], [0, -1, -1, 3]), ([2], [0, 3])])
    if ncorr == 2: return rng.choice([([2, 2], [0, -1, -1, 1]), ([2], [0, 1]), ([2, 2], [0, 1, 1, 0])])
    return rng.choice([([1], [0]), ([2, 2], [0, -1, -1, 0])])
class Node_: pass
def spig_out(s, T, nslot, o):
    """(value, flags) planes of a spigot for a tile: lists over vellsets; value None = null, flags None = none"""
    vals, fls = [], []
    src = T.DATA if s.col == 'DATA' else T.PREDICT
    miss = [x is None for x in src]
    for c in s.index:
        if c < 0: vals.append(None); fls.append(None); continue
        v = np.array([np.full(len(o.freq), np.nan) if x is None else x[:, c] for x in src])
        f = np.zeros(v.shape, 'i4')
        for j, i in enumerate(miss):
            if i: f[j] = 1 << 20
            else:
                f[j] = (T.FLAGS[j][:, c] & s.flag_mask) | (T.ROW[j] & s.row_mask)
        if s.bit: f = np.where(f, s.bit, 0) | np.where(np.array(miss)[:, None], 1 << 20, 0)
        vals.append(v); fls.append(f if f.any() else None)
    return vals, fls
def build(rng, m, o):
    F = Forest(); M = MS(); M.F = F; M.spigs = {}; M.sinks = []; sinks = []; sp = []
    pairs = [(a, b) for a in range(m.nant) for b in range(a, m.nant) if a != b or o.auto]
    if m.nant > 10: pairs = [p for p in pairs if p[1] >= m.nant - 2]
    if rng.random() < .15: pairs.append((m.nant, m.nant + 1))   # not in the set
    common = rng.random() < .7
    mk = lambda: (corrmap(rng, o.ncorr), rng.choice([1, 1, 0, 4]), rng.choice([-1, -1, -1, 2, 9, 0]), rng.choice([-1, -1, 2, 0]))
    par = mk()
    for a, b in pairs:
        if rng.random() < .05: continue
        s = Node_(); (s.dims, s.index), s.bit, s.flag_mask, s.row_mask = par if common else mk()
        s.col = 'PREDICT' if o.pred and rng.random() < .3 else 'DATA'
        kw = {}
        if (s.dims, s.index) != ([2, 2], [0, 1, 2, 3]): kw.update(dims=s.dims, corr_index=s.index)
        if s.bit != 1: kw['flag_bit'] = s.bit
        if s.flag_mask != -1: kw['flag_mask'] = s.flag_mask
        if s.row_mask != -1: kw['row_flag_mask'] = s.row_mask
        s.node = F.node('MeqSpigot', 'spig:%d:%d' % (a, b), station_1_index=a, station_2_index=b, input_col=s.col, publishing_level=1, **kw)
        sp.append(s.node); M.spigs['spig:%d:%d' % (a, b)] = ((a, b), s)
        k = Node_(); k.pair = (a, b); k.spig = s
        k.kind = rng.choice(['spig', 'spig', 'mul', 'const', 'comp'])
        k.k = complex(rng.choice([1, 2, -.5]), rng.choice([0, 1.5]))
        if k.kind in ('const', 'comp'): del M.spigs['spig:%d:%d' % (a, b)]      # nobody asks this spigot for its results
        if k.kind == 'spig': ch = s.node
        elif k.kind == 'mul': ch = F.node('MeqMultiply', 'm%d' % s.node, [s.node, F.node('MeqConstant', 'k%d' % s.node, value=k.k)])
        elif k.kind == 'const': ch = F.node('MeqConstant', 'k%d' % s.node, value=k.k if rng.random() < .7 else k.k.real); k.k = k.k if isinstance(F.recs[ch].value, complex) else k.k.real
        else:
            k.v = [complex(rng.choice([0, 1, 2]), rng.choice([0, -1])) for _ in range(4)]
            ch = F.node('MeqComposer', 'c%d' % s.node, [F.node('MeqConstant', 'k%d_%d' % (s.node, j), value=x) for j, x in enumerate(k.v)], dims=[2, 2])
        kw = {}
        k.out = rng.choice(['PREDICT', 'DATA', 'RESIDUALS', 'PREDICT', None])
        if k.out: kw['output_col'] = k.out if rng.random() < .8 else k.out.lower()
        k.index = None
        if o.ncorr == 2 and rng.random() < .8: k.index = [0, -1, -1, 1]
        elif o.ncorr == 4 and rng.random() < .2: k.index = rng.choice([[3, 2, 1, 0], [0, -1, -1, 3], [1, -1]])
        if k.index: kw['corr_index'] = k.index
        k.mask = rng.choice([-1, -1, 0, 5]); k.bit = rng.choice([0, 0, 8])
        if k.mask != -1: kw['flag_mask'] = k.mask
        if k.bit: kw['flag_bit'] = k.bit
        k.node = F.node('MeqSink', 'sink:%d:%d' % (a, b), [ch], station_1_index=a, station_2_index=b, **kw)
        sinks.append(k.node); M.sinks.append(k)
        for col in ('UVW', 'WEIGHT'):
            if rng.random() < .15 and (col == 'UVW' or m.weights):
                s2 = Node_(); s2.col = col; s2.dims, s2.index = s.dims, s.index; s2.bit, s2.flag_mask, s2.row_mask = 1, -1, -1
                kw = dict(dims=s.dims, corr_index=s.index) if col == 'WEIGHT' else {}
                n2 = F.node('MeqSpigot', col.lower() + ':%d:%d' % (a, b), station_1_index=a, station_2_index=b, input_col=col, publishing_level=1, **kw)
                sp.append(n2); M.spigs[col.lower() + ':%d:%d' % (a, b)] = ((a, b), s2)
                sinks.append(F.node('MeqSink', 's%d' % n2, [n2], station_1_index=a, station_2_index=b))
    order = list(sinks); rng.shuffle(order)
    F.n += 1; r = record(name='vdm', nodeindex=F.n, children=[-1, -1, -1] + order, step_children=sp); r['class'] = 'MeqVisDataMux'
    F.recs[F.n] = r; F.by_name['vdm'] = F.n
    if not sp: return None
    F.build()
    return M
def gen_output(rng, m, o, M):
    r = record(); w = MS(); w.rec = r
    w.cols = {}
    # a column that the set lacks is made with the shape of the selected data
    names = [c for c in CPLX if c in m.col] + (['NEW_DATA', 'CORRECTED_DATA'] if len(set(m.cells)) == 1 else [])
    for k, f in (('DATA', 'data_column'), ('PREDICT', 'predict_column'), ('RESIDUALS', 'residuals_column')):
        if rng.random() < .5: w.cols[k] = rng.choice([c for c in names if c not in w.cols.values()] or [None])
        if w.cols.get(k): r[f] = w.cols[k]
        else: w.cols.pop(k, None)
    b = lambda name, df, vals: r.__setitem__(name, rng.choice(vals)) if rng.random() < .5 else None
    for name, vals in (('write_bitflag', [True, False]), ('write_legacy_flags', [True, False]), ('use_bitflag_column', [True, False])): b(name, True, vals)
    for name, vals in (('legacy_flag_mask', [3, 0]), ('ms_flag_mask', [12, 0, 7]), ('tile_flag_mask', [6, 0, 1]), ('tile_bitflag', [1, 32])): b(name, -1, vals)
    w.wb, w.wl, w.use = r.get('write_bitflag', True), r.get('write_legacy_flags', True), r.get('use_bitflag_column', True) and m.bitflag
    w.lm, w.mm, w.tm, w.tb = r.get('legacy_flag_mask', -1), r.get('ms_flag_mask', -1), r.get('tile_flag_mask', -1), r.get('tile_bitflag', 1)
    w.seq = rng.random() < .6
    return w
def apply_output(m, o, w, M, tiles):
    """updates the shadow; returns the flag cells that nothing is claimed about"""
    skip = set()
    ch = np.array(o.chans)
    for d in tiles:
        for p, T in d.items():
            for k in M.sinks:
                if k.pair != p or not k.out: continue
                sv, sf = spig_out(k.spig, T, len(T.rows), o)
                if k.kind == 'const': planes = [(k.k, None), (0, 'null'), (0, 'null'), (k.k, None)]
                elif k.kind == 'comp': planes = [(x, None if x else 'null') for x in k.v]     # a constant zero is a null, and has no flags to write
                else:
                    planes = [((None if v is None else v * (k.k if k.kind == 'mul' else 1)), f) for v, f in zip(sv, sf)]
                    planes = [((k.k, None) if k.kind == 'mul' else (0, 'null')) if v is None else (v, f) for v, f in planes]       # (missing operands of a product are left out)
                    if k.kind == 'mul': planes = [(v, 'null') if np.size(v) == 1 and not np.any(v) else (v, f) for v, f in planes]      # the product of a single zero is a constant zero, so a null
                    if len(planes) == 1: planes = [planes[0], (0, 'null'), (0, 'null'), planes[0]]
                outp = {}; fl = {}; any_ = False
                for j, (v, f) in enumerate(planes):
                    c = j if k.index is None else (k.index[j] if j < len(k.index) else -1)
                    if c < 0 or c >= o.ncorr: continue
                    any_ = True; outp[c] = v
                    if k.mask and not (isinstance(f, str)):
                        g = np.zeros((len(T.rows), len(ch)), 'i4') if f is None else f & k.mask
                        fl[c] = np.where(g, k.bit, 0) if k.bit else g
                if not any_: continue
                # the tile as it is now
                for s, i in enumerate(T.rows):
                    if i is None: continue
                    cols = {'DATA': T.DATA[s].copy()}
                    if o.pred: cols['PREDICT'] = T.PREDICT[s].copy()
                    x = cols.get(k.out)
                    unk = x is None
                    if unk: x = np.zeros((len(ch), o.ncorr), 'c8')
                    known = set(range(o.ncorr)) if not unk else set(outp)
                    for c, v in outp.items(): x[:, c] = v[s] if isinstance(v, np.ndarray) else v
                    cols[k.out] = x
                    F_ = T.FLAGS[s].copy()
                    for c, g in fl.items(): F_[:, c] = g[s]
                    for tc, mc in w.cols.items():
                        if tc not in cols:      # no sink has set it, but it may be in the tile because other tiles have it
                            if any(q.out == tc for q in M.sinks) and mc in m.col: skip.update((mc, i, c) for c in range(o.ncorr))
                            continue
                        y = flipf(o, cols[tc])
                        if mc not in m.col: m.col[mc] = [np.zeros(cc, 'c8') for cc in m.cells]
                        for c in range(o.ncorr):
                            if tc == k.out and c not in known: skip.add((mc, i, c)); continue
                            m.col[mc][i] = m.col[mc][i].copy(); m.col[mc][i][ch, c] = y[:, c]; skip.discard((mc, i, c))
                    if w.wb or w.wl:
                        y = flipf(o, F_); rf = T.ROW[s]
                        if w.use:
                            if w.wb:
                                old = m.col['BITFLAG'][i]; old = np.zeros(m.cells[i], 'i4') if old is None else old.copy()
                                old[ch] = (old[ch] & w.mm) | np.where(y & w.tm, w.tb, 0); m.col['BITFLAG'][i] = old
                                m.col['BITFLAG_ROW'][i] = nr = (m.col['BITFLAG_ROW'][i] & w.mm) | (w.tb if rf & w.tm else 0)
                                if w.wl:
                                    m.col['FLAG'][i] = m.col['FLAG'][i].copy(); m.col['FLAG'][i][ch] = (old[ch] & w.lm) != 0
                                    m.col['FLAG_ROW'][i] = (nr & w.lm) != 0
                            else: skip.add(('FLAG', i)); skip.add(('FLAG_ROW', i))
                        elif w.wl:
                            m.col['FLAG'][i] = m.col['FLAG'][i].copy(); m.col['FLAG'][i][ch] = (y & w.tm) != 0
                            m.col['FLAG_ROW'][i] = (rf & w.tm) != 0
    return skip
def check_spigots(ctx, m, o, M, tiles, evs, hist):
    """every tile was seen once by every spigot that has a sink, with the right values, flags and grid"""
    got = {}
    for name, st in evs: got.setdefault(name, []).append(st)
    for name, (p, s) in M.spigs.items():
        want = [(ts, d[p]) for ts, d in zip(o.tiles, tiles) if p in d]
        lst = got.get(name, [])
        if not ctx.check(len(lst) == len(want), 'tiles', 'a spigot was executed %d times for %d tiles' % (len(lst), len(want)) + hist): return False
        for (ts, T), st in zip(want, lst):
            res = st.cache.result
            if 'cells' not in res and len(ts) * (1 if s.col == 'UVW' else len(o.freq)) == 1: c = st.request.cells      # a constant
            else: c = res.cells
            if not ctx.check(np.array_equal(np.ravel(c.grid.time), ts) and np.allclose(np.ravel(c.grid.freq), o.freq, rtol=0, atol=1), 'grid', 'the result of %s is on the grid %s %s instead of %s %s' % (name, c.grid.time, c.grid.freq, ts, o.freq) + hist): return False
            wid = np.abs(flipf(o, m.widths[m.dd[o.dd][0]][o.chans]))
            exp = np.array([m.slot_exposure[t] for t in ts])
            if not ctx.check(np.allclose(np.ravel(c.cell_size.time), exp) and np.allclose(np.ravel(c.cell_size.freq), wid), 'grid', 'cell sizes %s %s instead of %s %s' % (c.cell_size.time, c.cell_size.freq, exp, wid) + hist): return False
            miss = np.array([i is None for i in T.rows])
            vs = vellsets(res)
            if s.col == 'UVW':
                for j in range(3):
                    v = np.ravel(value(vs[j])) * np.ones(len(ts)); w = np.array([0 if i is None else m.col['UVW'][i][j] for i in T.rows])
                    if not ctx.check(np.array_equal(v[~miss], w[~miss]), 'uvw', 'UVW %s instead of %s' % (v, w) + hist): return False
                    f = flags(vs[j]); f = np.zeros(len(ts), int) if f is None else np.ravel(f) * np.ones(len(ts), int)
                    w = np.array([r != 0 for r in T.ROW])
                    if not ctx.check(np.array_equal(f != 0, w), 'uvw', 'flags of UVW are %s instead of %s' % (f, w) + hist): return False
                continue
            if s.col == 'WEIGHT':
                for v, c_ in zip(vs, s.index):
                    if c_ < 0: continue
                    w = np.array([np.full(len(o.freq), np.nan) if x is None else x[:, c_] for x in T.WEIGHT])
                    if not ctx.check(np.array_equal(np.broadcast_to(value(v), w.shape)[~miss], w[~miss]), 'weights', 'weights %s instead of %s' % (value(v), w) + hist): return False
                continue
            vals, fls = spig_out(s, T, len(ts), o)
            if not ctx.check(len(vs) == len(vals) and list(np.ravel(res.get('dims', [len(vs)]))) == list(s.dims), 'value', 'a result of %d planes, dims %s' % (len(vs), res.get('dims')) + hist): return False
            for j, (v, w, f) in enumerate(zip(vs, vals, fls)):
                if w is None:
                    if not ctx.check(value(v) is None, 'value', 'a value for a correlation that is not mapped' + hist): return False
                    continue
                x = np.broadcast_to(value(v), w.shape) if value(v) is not None else np.zeros(w.shape)
                ok = np.allclose(x[~miss], w[~miss], rtol=1e-6, atol=1e-7) and (o.hann or np.array_equal(x[~miss], w[~miss]))
                if not ctx.check(ok, 'value', 'plane %d of %s is\n%s\ninstead of\n%s' % (j, name, x, w) + hist): return False
                fl = flags(v); fl = np.zeros(w.shape, 'i4') if fl is None else np.broadcast_to(fl, w.shape); f = np.zeros(w.shape, 'i4') if f is None else f
                ok = np.array_equal(fl[~miss], f[~miss]) and (fl[miss] != 0).all()
                if not ctx.check(ok, 'flags', 'flags of plane %d of %s are\n%s\ninstead of\n%s' % (j, name, fl, f) + hist): return False
            ctx.count('tiles')
    return True
def compare(ctx, m, path, skip, hist):
    g = read_ms(path)
    for k, want in m.col.items():
        if not ctx.check(k in g, 'written', 'column %s is missing' % k + hist): return False
        for i in range(len(m.rows)):
            a, b = g[k][i], want[i]
            if (k, i) in skip: continue
            if b is None or a is None:
                if not ctx.check(a is b or (b is None and a.size and not a.any()) or (a is None and k not in m.orig), 'written', 'row %d %s of %s is %s instead of %s' % (i, m.rows[i], k, a, b) + hist): return False
                continue
            sk = [c for c in range(np.shape(b)[1]) if (k, i, c) in skip] if np.ndim(b) == 2 else []
            if sk: a, b = np.delete(a, sk, 1), np.delete(b, sk, 1)
            ok = np.shape(a) == np.shape(b) and (np.array_equal(a, b) or (np.iscomplexobj(b) and np.allclose(a, b, rtol=1e-5, atol=1e-6)))
            if not ctx.check(ok, 'written', 'row %d %s of %s is\n%s\ninstead of\n%s' % (i, m.rows[i], k, a, b) + hist): return False
    return True
def resync(m, path, skip):
    """takes over the cells that nothing was claimed about"""
    g = read_ms(path)
    for k in list(m.col):
        for i in range(len(m.rows)):
            if (k, i) in skip or any((k, i, c) in skip for c in range(4)) or (k in g and np.iscomplexobj(g[k][i])):      # (complex values agree to within rounding)
                m.col[k][i] = g[k][i]
def events():
    out = []
    for k, v in vdrv.events(): out.append((k, v))
    return out
BAD = ['no-ms', 'not-a-table', 'no-column', 'wrong-column', 'no-predict', 'ddid', 'field', 'empty', 'taql', 'out-type', 'out-type-2', 'queue', 'no-input', 'bad-output', 'taql-col']
def bad_request(rng, o, path, d, n):
    """a run that can only fail"""
    kind = rng.choice(BAD)
    r = o.rec.copy(); r.selection = (r.get('selection') or record()).copy(); r.ms_name = path
    req = request(None, ds=n); req.output = record(); req.output[rng.choice(['ms', 'ms.0'])] = w = record(data_column='DATA')
    if kind == 'no-ms': r.ms_name = d + '/absent.ms'
    elif kind == 'not-a-table': os.makedirs(d + '/dir.ms', exist_ok=True); r.ms_name = d + '/dir.ms'
    elif kind == 'no-column': r.data_column_name = 'ABSENT'
    elif kind == 'wrong-column': r.data_column_name = rng.choice(['FLAG', 'TIME', 'UVW'])
    elif kind == 'no-predict': r.predict_column_name = 'ABSENT'
    elif kind == 'ddid': r.selection.ddid_index = 17
    elif kind == 'field': r.selection.field_index = 17
    elif kind == 'empty': r.selection.selection_string = 'ANTENNA1 > 1000'
    elif kind == 'taql': r.selection.selection_string = rng.choice(['ANTENNA1 ==', ') (', 'ANTENNA1 = "x"'])
    elif kind == 'taql-col': r.selection.selection_string = 'NOSUCH == 1'
    elif kind == 'out-type': w.data_column = rng.choice(['FLAG', 'TIME', 'UVW']); w.predict_column = w.residuals_column = w.data_column
    elif kind == 'out-type-2': w.predict_column = 'UVW'; w.residuals_column = 'ANTENNA1'
    elif kind == 'queue': r.mt_queue_size = 0
    req.input = record(ms=r)
    if kind == 'no-input': req.input = record(nothing=1)
    elif kind == 'bad-output': req.output = record(nothing=1)
    if rng.random() < .3 and 'out' not in kind: del req['output']
    return kind, req
def runs(ctx, i, rng, big=False, bad=False):
    m = gen_ms(rng, big)
    if len(m.rows) < 1: return
    m.orig = set(m.col)
    d = tempfile.mkdtemp(dir=ctx.scratch); path = d + '/x.ms'
    write_ms(m, path)
    M = None; hist = '\nset: %d antennas, %d rows, fixed %s tiled %s, bitflags %s, shuffled %s, dd %s' % (m.nant, len(m.rows), m.fixed, m.tiled, m.bitflag, m.shuffled, m.dd)
    for n in range(rng.choice([1, 2, 3]) if not big else 1):
        for _ in range(20):
            o = gen_input(rng, m)
            if o.rows and (M is None or (o.ncorr == M.ncorr and (not o.pred) == (not M.pred))): break
        else: break
        o.rec.ms_name = path
        if M is None:
            M = build(rng, m, o)
            if M is None: break
            M.ncorr, M.pred = o.ncorr, o.pred
        failed = False
        for q in range(rng.choice([1, 1, 2, 3]) if bad else 0):
            kind, req = bad_request(rng, o, path, d, 100 + 10 * n + q)
            if kind.startswith('out') and not any(k.out for k in M.sinks): continue     # nothing would be written
            hist += '\nfailing run %s: %s' % (kind, req); ctx.describe(hist)
            vdrv.events()
            try: code, res = M.F.execute('vdm', req)
            except vdrv.Error as e: code, res = RES['FAIL'], str(e)
            ks = [k for k, v in events()]
            if not ctx.check(code & RES['FAIL'], 'unreported', 'a run that could not work (%s) reported no failure' % kind + hist): failed = True; break
            if not ctx.check(ks.count('Vis.Channel.Open') == ks.count('Vis.Channel.Closed'), 'unreported', '%d channels opened, %d closed' % (ks.count('Vis.Channel.Open'), ks.count('Vis.Channel.Closed')) + hist): failed = True; break
            if not compare(ctx, m, path, set(), hist): failed = True; break
            ctx.seen(('bad', kind, n, 'output' in req, 'ms' in req.get('output', {}), M is None))
        if failed: break
        tiles = load(m, o)
        req = request(None, ds=n + 1)
        req.input = record(ms=o.rec)
        if o.max_tiles >= 0: req.input.max_tiles = o.max_tiles
        w = None
        if rng.random() < .8:
            w = gen_output(rng, m, o, M)
            req.output = record(); req.output['ms' if w.seq else 'ms.0'] = w.rec
        hist += '\nrun %d: input %s max_tiles %d\n output %s\n tiles %s' % (n, o.rec, o.max_tiles, w and req.output, [len(t) for t in o.tiles])
        ctx.describe(hist)
        vdrv.events()
        try: code, res = M.F.execute('vdm', req)
        except vdrv.Error as e: code, res = RES['FAIL'], str(e)
        evs = events()
        if not ctx.check(not code & RES['FAIL'], 'run', 'the run failed: %s' % str(vellsets(res)[0] if hasattr(res, 'get') and vellsets(res) else res)[:3000] + hist): break
        seen = [(v.name, v) for k, v in evs if k == 'Node.Result']
        foot = [v for k, v in evs if k == 'Vis.Footer']
        full = o.max_tiles < 0
        if not ctx.check(len(foot) == 1 and (not full or foot[0].num_timeslot == len(o.slots)) and foot[0].num_tiles == (len(o.all_tiles) if full else min(o.max_tiles + 1, len(o.all_tiles))), 'footer', 'footer of %s tiles, %s timeslots' % ([f.num_tiles for f in foot], [f.num_timeslot for f in foot]) + hist): break
        if not check_spigots(ctx, m, o, M, tiles, seen, hist): break
        skip = apply_output(m, o, w, M, tiles) if w else set()
        if not compare(ctx, m, path, skip, hist): break
        resync(m, path, skip)
        ctx.seen(('run', len(o.tiles), o.incr, len(o.chans), o.flip, o.ncorr, w and (w.seq, w.wb, w.wl, w.use, tuple(w.cols)), m.shuffled, bool(o.segs), n))
    shutil.rmtree(d, ignore_errors=True)
def many(ctx, i, rng): runs(ctx, i, rng, True)
def err(ctx, i, rng): runs(ctx, i, rng, bad=True)
GROUPS = [('runs', 160, 6000, runs), ('err', 60, 1500, err), ('many', 8, 200, many)]
