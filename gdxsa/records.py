"""Encoding and decoding of one record, followed with a fixed dimension and element sizes, symbolic keys, and the full path condition."""
import btp, tp
from tp import TOP, isconst
from checks import c15
from checks.c25 import lin
T = ('arg', 0)
WIDTH = {'b': 1, 'w': 2, 'i': 4}
SIZES = ((0,), (1,), (2,), (0, 1), (1, 2), (2, 0), (2, 1, 0))

def strip(v, n=0):
    """drop conversions that keep the low n bytes"""
    while v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] in ('trunc', 'zext', 'sext') and len(v[1]) == 3 and tp.ibits(v[1][1]) >= 8 * n: v = v[1][2]
    return v
def form(v, n=0):
    v = strip(v, n)
    out = {}
    for k, c in lin(v).items():
        k2 = strip(k, width(k) or n) if isinstance(k, tuple) else k
        if isinstance(k2, tuple) and k2 != k:
            for a, b in lin(k2).items(): out[a] = out.get(a, 0) + c * b
        else: out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}

def width(v):
    """bytes of the stream item below the conversions"""
    while isinstance(v, tuple) and len(v) == 2 and v[0] == 'x' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('trunc', 'zext', 'sext'): v = v[1][-1]
    return v[1][2] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'x' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'item' and isinstance(v[1][2], int) else 0

class Enc(c15.W):
    """st.tag is the tuple of items (value, bytes) written so far"""
    def __init__(s, m, f, off, d, sizes, deep=True):
        o = off['ElemType'][0]
        pre = {**c15.nulls(off, d), (T, off['DataSize'][0]): ('c', 0), **{(T, o + k): ('c', z) for k, z in enumerate(sizes)}}
        S = {n: o for n, o, z, t in m.fields('gdx::TgdxSymbRecord')}
        pre[(T, off['CurSyPtr'][0])] = ('p', ('nn', 'sym'), 0)
        if 'SSetBitMap' in S: pre[(('nn', 'sym'), S['SSetBitMap'])] = ('c', 0)
        if 'SDataType' in S: pre[(('nn', 'sym'), S['SDataType'])] = ('c', 1)
        c15.W.__init__(s, m, f, off, d, pre)
        s.keyfacts = lambda st: st.tag != 'refused'
        s.vt = btp.vtable(m, 'TMiBufferedStream')
    def store(s, st, p, v, size):
        c15.W.store(s, st, p, v, size)
        if st.tag == 'refused': s.halt = True
    def calls(s, st, cn, args, i):
        if args and args[0][0] == 'p' and args[0][1] == ('stream',):
            cn = cn or slot(s, st, i)
            v, n = TOP, None
            if len(args) == 3 and isconst(args[2]):
                n = args[2][1]
                if args[1][0] == 'p':
                    v = s.load(st, args[1], n)
                    if v == TOP and n == 2: v = s.load(st, args[1], 2)
            elif len(args) == 2: v, n = args[1], {'WriteByte': 1, 'WriteWord': 2, 'WriteInteger': 4}.get(mname(s.m, cn))
            st.tag = ((st.tag if isinstance(st.tag, tuple) else ()) + ((v, n),))[:8]
            return s.fresh(st, i[1]) if i[1] >= 0 else TOP
        return c15.W.calls(s, st, cn, args, i)
def mname(m, cn):
    g = m.fns.get(cn)
    return g.mname if g else ''
def slot(t, st, i):
    c = t.val(st, i[4])
    if c[0] == 'x' and isinstance(c[1], tuple) and c[1][0] == 'm' and c[1][1][0] == 'obj': return t.vt.get(c[1][2], '')
    return ''

def le_fact(facts, small, big):
    """the path condition implies small <= big (linear forms)"""
    want = dict(small)
    for k, c in big.items(): want[k] = want.get(k, 0) - c
    want = {k: c for k, c in want.items() if c}
    for e, b in facts:
        if not isinstance(e, tuple) or len(e) != 3 or e[0] not in ('slt', 'sle', 'ult', 'ule'): continue
        x, y = form(e[1]), form(e[2])
        strict = e[0][1:] == 'lt'
        if not b: x, y, strict = y, x, not strict
        d = dict(x)
        for k, c in y.items(): d[k] = d.get(k, 0) - c
        d = {k: c for k, c in d.items() if c}
        c0, w0 = d.pop(1, 0) + strict, want.get(1, 0)
        w = {k: c for k, c in want.items() if k != 1}
        if d == w and w0 <= c0: return True
    return False

def encoder(cx, m, fs, off, widths, end):
    f = fs.get('DoWrite') or fs.get('gdxDataWriteRaw')
    cx.need(f, 'the record writer was not found')
    for sizes in SIZES:
        d = len(sizes)
        t = Enc(m, f, off, d, sizes)
        t.on_call = t.calls
        mn = lambda k: ('x', ('m', T, off['MinElem'][0] + 4 * k, 4))
        def ret(st, v, j):
            it = st.tag
            if not isinstance(it, tuple) or not it: return
            sg = [c15.signs(t, st.facts, k) for k in range(d)]
            if any(not x for x in sg): return
            cx.count('encodings of a record followed')
            w = c15.wh(f, j)
            if any(t.L(st, k) != t.A(k) and sg[k] != {0} for k in range(d)): cx.violation('last|write', w, f.short, 'the key written is not remembered as the last key of its dimension', 'dimension %d' % d)
            code, n = it[0]
            if n != 1: cx.violation('code|width', w, f.short, 'a record does not start with a change code of one byte', ''); return
            if isconst(code):
                c = code[1] & 255
                if c == end: cx.violation('code|end', w, f.short, 'a record starts with the end mark', ''); return
                if all(x == {0} for x in sg) and len(it) == 1: return           # nothing before it: judged by C15
                if not 1 <= c <= d: cx.violation('code|range', w, f.short, 'a record of dimension %d starts with the change code %d' % (d, c), ''); return
                if any(sg[k] != {0} for k in range(c - 1)):
                    cx.violation('code|skip', w, f.short, 'the change code announces keys from dimension %d on although an earlier key may have changed' % c, 'dimension %d' % d); return
                if len(it) != 1 + d - c + 1:
                    cx.violation('code|keys', w, f.short, 'the change code announces %d keys but %d are written' % (d - c + 1, len(it) - 1), 'dimension %d' % d); return
                for k in range(c - 1, d):
                    v2, n2 = it[1 + k - (c - 1)]
                    if n2 not in widths.get(sizes[k], (n2,)):
                        cx.violation('width|%d' % sizes[k], w, f.short, 'a key of element size %d is written in %s bytes but read in %s' % (sizes[k], n2, sorted(widths[sizes[k]])), '')
                    fo = form(v2, n2 or 0) if v2 != TOP else None
                    if fo != {t.A(k): 1, mn(k): -1}:
                        cx.violation('key|write|%d' % sizes[k], w, f.short, 'a key is not written relative to the minimum of its dimension', 'dimension %d of %d: %s' % (k + 1, d, fo))
            else:
                fo = form(code, 1) if code != TOP else None
                if fo != {t.A(d - 1): 1, t.L0(d - 1): -1, 1: d}:
                    cx.violation('relative|offset', w, f.short, 'the relative change code is not dimension plus change', str(fo)); return
                if len(it) != 1: cx.violation('relative|keys', w, f.short, 'keys follow a relative change code', '')
                if any(sg[k] != {0} for k in range(d - 1)): cx.violation('relative|skip', w, f.short, 'a relative change in the last dimension is written although an earlier key may have changed', '')
                if not le_fact(st.facts, {t.A(d - 1): 1, t.L0(d - 1): -1}, {('x', ('m', T, off['DeltaForWrite'][0], 4)): 1}):
                    cx.violation('relative|bound', w, f.short, 'a relative change is written without being limited to the largest code', '')
        t.on_ret = ret
        t.run()
        if t.over: cx.violation('budget|encode', f.where, f.short, 'the paths of the record writer could not be enumerated', '')

class Dec(tp.TP):
    def __init__(s, m, f, off, d, sizes, code):
        o = off['ElemType'][0]
        p = {(T, off['FCurrentDim'][0]): ('c', d), (T, off['DeltaForRead'][0]): ('c', d), (T, off['TraceLevel'][0]): ('c', 0), (T, off['FFile'][0]): ('p', ('stream',), 0),
             (T, off['DataSize'][0]): ('c', 0), (T, off['ReadUniverse'][0]): ('c', 0), (T, off['CurSyPtr'][0]): ('p', ('nn', 'sym'), 0), (('nn', 'sym'), s_scalar(m)): ('c', 0),
             **{(T, o + k): ('c', z) for k, z in enumerate(sizes)}}
        tp.TP.__init__(s, m, f, preset=p, budget=20000, maxpart=60)
        s.keyfacts = True
        s.maxdepth = 12
        s.code = code
        s.vt = btp.vtable(m, 'TMiBufferedStream')
        s.on_call = s.calls
    def value(s, st, i):
        if i[0] == 'sext':
            n, v = tp.ibits(s.otype(i[4])), s.val(st, i[4])
            if n < 32 and width(v) * 8 == n: return s.mk(('sext', 'signed', n, v))
        return tp.TP.value(s, st, i)
    def item(s, st, n):
        it = st.tag if isinstance(st.tag, tuple) else ()
        st.tag = (it + (n,))[:8]
        if not it and n == 1: return ('c', s.code if s.code < 128 else s.code - 256)
        return ('x', ('item', len(it), n))
    def calls(s, st, cn, args, i):
        if not (args and args[0][0] == 'p' and args[0][1] == ('stream',)): return None
        cn = cn or slot(s, st, i)
        nm = mname(s.m, cn)
        w = {'ReadByte': 1, 'ReadWord': 2, 'ReadInteger': 4}.get(nm)
        if w and len(args) == 1: return s.item(st, w)
        if nm == 'Read' and len(args) == 3 and isconst(args[2]) and args[1][0] == 'p':
            v = s.item(st, args[2][1])
            s.store(st, args[1], v, args[2][1])
            return args[2]
        st.tag = ((st.tag if isinstance(st.tag, tuple) else ()) + (('?', nm),))[:8]
        return s.fresh(st, i[1]) if i[1] >= 0 else TOP
def s_scalar(m):
    return next((o for n, o, z, t in m.fields('gdx::TgdxSymbRecord') if n == 'SScalarFrst'), 0)

def decoder(cx, m, fs, off, end):
    """returns element size -> number of bytes read"""
    f = fs.get('DoRead') or fs.get('gdxDataReadRaw')
    cx.need(f, 'the record reader was not found')
    widths = {}
    for sizes in SIZES:
        d = len(sizes)
        for code in range(1, 256):
            if d > 1 and d < code < 250 and code % 41: continue
            t = Dec(m, f, off, d, sizes, code)
            L0 = lambda k: ('x', ('m', T, off['LastElem'][0] + 4 * k, 4))
            mn = lambda k: ('x', ('m', T, off['MinElem'][0] + 4 * k, 4))
            def ret(st, v, j):
                cx.count('decodings of a record followed')
                w = c15.wh(f, j)
                it = st.tag if isinstance(st.tag, tuple) else ()
                Lk = [t.load(st, ('p', T, off['LastElem'][0] + 4 * k), 4) for k in range(d)]
                if code == end:
                    if v != ('c', 0): cx.violation('end|asrecord', w, f.short, 'the end mark %d is decoded as a record' % end, '')
                    if len(it) != 1: cx.violation('end|items', w, f.short, 'items are read after the end mark', '')
                    return
                if v == ('c', 0): cx.violation('end|max', w, f.short, 'the change code %d of a record is decoded as the end of data' % code, 'dimension %d' % d); return
                if code <= d:
                    if len(it) != 1 + d - code + 1: cx.violation('code|read', w, f.short, 'the change code %d of a record of dimension %d announces %d keys but %d are read' % (code, d, d - code + 1, len(it) - 1), ''); return
                    for k in range(d):
                        if k < code - 1:
                            if Lk[k] != L0(k): cx.violation('code|keep', w, f.short, 'a key that did not change is not kept', 'code %d dimension %d' % (code, d))
                            continue
                        q = 1 + k - (code - 1)
                        widths.setdefault(sizes[k], set()).add(it[q])
                        fo = form(Lk[k], 4) if Lk[k] != TOP else None
                        if fo != {('x', ('item', q, it[q])): 1, mn(k): 1}: cx.violation('key|read|%d' % sizes[k], w, f.short, 'a key is not read relative to the minimum of its dimension', 'dimension %d of %d: %s' % (k + 1, d, fo))
                else:
                    if len(it) != 1: cx.violation('relative|items', w, f.short, 'keys are read after the relative change code %d' % code, 'dimension %d' % d); return
                    for k in range(d):
                        fo = form(Lk[k], 4) if Lk[k] != TOP else None
                        ex = {L0(k): 1, 1: code - d} if k == d - 1 else {L0(k): 1}
                        if fo != ex: cx.violation('relative|read', w, f.short, 'the relative change code %d is not decoded as previous key plus code minus dimension' % code, 'dimension %d of %d: %s' % (k + 1, d, fo))
            t.on_ret = ret
            t.run()
            if t.over: cx.violation('budget|decode', f.where, f.short, 'the paths of the record reader could not be enumerated', ''); break
    return widths
