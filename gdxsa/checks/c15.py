"""C15: only sorted, unique, domain-conforming records reach the file."""
import btp, tp
from tp import TOP, isconst
RULE = ('On every path of the record writer that reaches a write to the stream, the conditions passed imply for the given dimension that the first key that differs from the '
        'preceding record is greater, or that all keys agree and there is no preceding record (or no dimension); and that every key whose dimension has a domain is a member of it. '
        'A path that refuses the record changes neither the preceding keys nor the record count and reports an error; a path that writes it '
        'counts it exactly once and leaves its keys as the preceding ones. The count kept for the symbol is the count of the writer, which starts at zero.')
EXPLANATION = ('trace-partitioned propagation with the full path condition, keys symbolic, the dimension fixed per run (0 to 4 and 20 for the order, 1 to 3 for domains and for '
               'the state after the record); the conditions are read as the sign of the difference of key and preceding key')
TECHNIQUE = 'static analysis: path-condition (trace-partitioned) abstract interpretation of the compiler IR'
ASSUMPTIONS = ['the loops over the dimensions treat dimensions 5 to 19 like the ones analysed', 'membership in a domain is what TBooleanBitArray::GetBit returns']
T = ('arg', 0)
CLS = ('TXStream', 'TXFileStream', 'TBufferedFileStream', 'TMiBufferedStream')

class W(tp.TP):
    def __init__(s, m, f, off, d, pre=None, **kw):
        p = {(T, off['FCurrentDim'][0]): ('c', d), (T, off['TraceLevel'][0]): ('c', 0), (T, off['FFile'][0]): ('p', ('stream',), 0), **(pre or {})}
        tp.TP.__init__(s, m, f, preset=p, budget=60000, maxpart=400)
        s.off, s.d = off, d
        s.keyfacts, s.maxdepth = (lambda st: st.tag is None), 12
        s.on_call = s.calls
        s.vt = btp.vtable(m, 'TMiBufferedStream')
        s.at_write = None
        s.first = True
    def A(s, k): return ('x', ('m', ('arg', 1), 4 * k, 4))
    def L0(s, k): return ('x', ('m', T, s.off['LastElem'][0] + 4 * k, 4))
    def L(s, st, k): return s.load(st, ('p', T, s.off['LastElem'][0] + 4 * k), 4)
    def store(s, st, p, v, size):
        if p == ('p', T, s.off['ErrCnt'][0]) and st.tag is None: st.tag = 'refused'
        tp.TP.store(s, st, p, v, size)
    def calls(s, st, cn, args, i):
        if not args: return None
        if args[0][0] == 'p' and args[0][1] == ('stream',):
            g = s.m.fns.get(cn)
            if s.at_write: s.at_write(st, i)
            return s.fresh(st, i[1]) if i[1] >= 0 else TOP
        g = s.m.fns.get(cn)
        if g and g.mname == 'GetBit': return ('x', ('bit', args[0], args[1]))
        if cn.startswith('_Zn') and i[1] >= 0: return ('p', ('nn', i[1]), 0)
        return None

def signs(t, facts, k):
    """what the path condition says about key k against the preceding key: subset of {-1, 0, 1}"""
    a, l = t.A(k), t.L0(k)
    out = {-1, 0, 1}
    def is_diff(v, neg=False):
        v = v[1] if v[0] == 'x' else v
        if isinstance(v, tuple) and v[0] == 'sub' and len(v) == 3:
            if v[1] == a and v[2] == l: return 1
            if v[1] == l and v[2] == a: return -1
        return 0
    for e, b in facts:
        if not isinstance(e, tuple) or len(e) != 3 or e[0] not in ('eq', 'slt', 'sle'): continue
        op, x, y = e
        s = None
        if is_diff(x) and y == ('c', 0): s = sat(op, is_diff(x), 0)
        elif is_diff(y) and x == ('c', 0): s = sat(op, 0, is_diff(y))
        elif is_diff(x) and isconst(y) and isinstance(y[1], int): s = satc(op, is_diff(x), None, y[1])
        elif is_diff(y) and isconst(x) and isinstance(x[1], int): s = satc(op, None, is_diff(y), x[1])
        elif x == a and y == l: s = sat(op, 1, 0)
        elif x == l and y == a: s = sat(op, 0, 1)
        if s is not None: out &= s if b else ({-1, 0, 1} - s if not isinstance(s, tuple) else {-1, 0, 1})
    return out
def sat(op, x, y):
    """signs of (a - l) for which 'x*sign op y*sign' holds"""
    r = set()
    for g in (-1, 0, 1):
        p, q = (x * g, y * g)
        if {'eq': p == q, 'slt': p < q, 'sle': p <= q}[op]: r.add(g)
    return r
def satc(op, x, y, c):
    return None     # comparison with another constant: nothing is taken from it

def run(cx):
    m = cx.variant('strm')
    off = {n: (o, z) for n, o, z, t in m.fields('gdx::TGXFileObj')}
    for k in ('FCurrentDim', 'LastElem', 'DataCount', 'WrBitMaps', 'DataSize', 'TraceLevel', 'FFile', 'ErrCnt', 'CurSyPtr', 'ErrorList'): cx.need(k in off, 'member %s not found' % k)
    fs = {f.sname: f for f in m.fns.values() if not f.decl and f.scope.endswith('TGXFileObj')}
    f = fs.get('DoWrite') or fs.get('gdxDataWriteRaw')
    cx.need(f, 'the record writer was not found')
    for d in (0, 1, 2, 3, 4, 20): order(cx, m, f, off, d)
    for d in (1, 2, 3): domains(cx, m, f, off, d)
    for d in (0, 1, 2, 3): after(cx, m, f, off, d)
    counts(cx, m, fs, off)

def nulls(off, d): return {(T, off['WrBitMaps'][0] + 8 * k): ('c', 0) for k in range(d)}
def wh(f, i):
    w = str(i[3]) if i is not None and len(i) > 3 and i[3] else ''
    return w if ':' in w else f.where
def over(cx, t, f, what):
    if t.over: cx.violation('budget|%s' % what, f.where, f.short, 'the paths of the record writer could not be enumerated (%s)' % what, '')

def order(cx, m, f, off, d):
    t = W(m, f, off, d, nulls(off, d))
    def atw(st, i):
        t.halt = True
        if not t.final: return
        if st.tag == 'refused':
            cx.violation('refused', wh(f, i), f.short, 'a record is written although an error was reported for it', ''); return
        cx.count('paths to the first byte of a record')
        sg = [signs(t, st.facts, k) for k in range(d)]
        if any(not x for x in sg): return     # contradictory
        pre = True
        for k in range(d):
            if sg[k] == {1}: return           # all before are equal, this one is greater
            if sg[k] != {0}: pre = False; break
        if pre and (d == 0 or first(t, st)): return
        cx.violation('order|%d' % (d > 0), wh(f, i), f.short, 'a record can be written that does not follow the preceding one (dimension %d)' % d,
                     'what the path knows about key minus preceding key, per dimension: %s' % [sorted(x) for x in sg])
    t.at_write = atw
    t.run()
    if d <= 4: over(cx, t, f, 'order %d' % d)
    cx.count('dimensions analysed for the order')
def first(t, st):
    n = ('x', ('m', T, t.off['DataCount'][0], 4))
    for e, b in st.facts:
        if not isinstance(e, tuple) or len(e) != 3: continue
        if e == ('slt', n, ('c', 1)) and b or e == ('sle', n, ('c', 0)) and b or e == ('sle', ('c', 1), n) and not b or e == ('slt', ('c', 0), n) and not b: return True
        if e[0] == 'eq' and set(e[1:]) == {n, ('c', 0)} and b: return True
        if e[0] in ('ult', 'ule') and e[1:] in ((n, ('c', 1)), (n, ('c', 0))) and b: return True
    return False

def domains(cx, m, f, off, d):
    bm = {(T, off['WrBitMaps'][0] + 8 * k): ('p', ('nn', 'domain', k), 0) for k in range(d)}
    t = W(m, f, off, d, bm)
    def atw(st, i):
        t.halt = True
        if not t.final: return
        cx.count('paths to the first byte of a record with domains')
        for k in range(d):
            e = ('bit', ('p', ('nn', 'domain', k), 0), t.A(k))
            if not any(b and x == e for x, b in st.facts):
                cx.violation('domain|%d' % (k > 0), wh(f, i), f.short, 'a record can be written without the key of dimension %d having been found in its domain' % (k + 1), 'dimension of the symbol: %d' % d)
    t.at_write = atw
    t.run()
    over(cx, t, f, 'domains %d' % d)

def after(cx, m, f, off, d):
    """the state when the record was written, or refused"""
    for ds in (0, 1):
        pre = {**nulls(off, d), (T, off['DataSize'][0]): ('c', ds), (T, off['CurSyPtr'][0]): ('p', ('nn', 'symbol'), 0)}
        if 'LastDataField' in off: pre[(T, off['LastDataField'][0])] = ('c', 0)
        if d and ds: continue     # the values are written alike in every dimension
        t = W(m, f, off, d, pre)
        if ds: t.keyfacts, t.maxpart = False, 8
        def atw(st, i, t=t):
            if st.tag is None or st.tag == 'refused': st.tag = ('written', frozenset(k for k in range(d) if signs(t, st.facts, k) == {0}))
        t.at_write = atw
        n0 = ('x', ('m', T, off['DataCount'][0], 4))
        def ret(st, v, j, t=t, ds=ds):
            n = t.load(st, ('p', T, off['DataCount'][0]), 4)
            if isinstance(st.tag, tuple):
                cx.count('exits after a record was written')
                if n not in (('x', ('add', n0, ('c', 1))), ('x', ('add', ('c', 1), n0))):
                    cx.violation('count', wh(f, j), f.short, 'a record that was written is not counted exactly once', 'count at the exit: %r' % (n,))
                if v == ('c', 0): cx.violation('count|ret', wh(f, j), f.short, 'a record that was written is reported as refused', '')
                if ds: return
                for k in range(d):
                    if t.L(st, k) != t.A(k) and k not in st.tag[1]:
                        cx.violation('last', wh(f, j), f.short, 'after a record was written its key in dimension %d is not remembered as the preceding one' % (k + 1), 'dimension of the symbol: %d; remembered: %r' % (d, t.L(st, k)))
            else:
                cx.count('exits without a record written')
                if st.tag != 'refused': cx.violation('silent', wh(f, j), f.short, 'a record is dropped without an error being reported', '')
                if n != n0: cx.violation('count|refused', wh(f, j), f.short, 'a refused record is counted', '%r' % (n,))
                for k in range(d):
                    if t.L(st, k) != t.L0(k): cx.violation('last|refused', wh(f, j), f.short, 'a refused record changes the preceding key', 'dimension %d' % (k + 1))
                if isconst(v) and v[1] != 0: cx.violation('lost', wh(f, j), f.short, 'a record is reported as written although nothing was written', '')
        t.on_ret = ret
        t.run()
        over(cx, t, f, 'state after a record, dimension %d' % d)

def counts(cx, m, fs, off):
    # the count starts at zero
    st = fs.get('gdxDataWriteRawStart')
    if st:
        t = tp.TP(m, st, preset={(T, off['TraceLevel'][0]): ('c', 0)}, budget=60000, maxpart=8)
        def ret(s_, v, j):
            if not (isconst(v) and v[1] == 1): return
            cx.count('starts of a raw writing')
            c = t.load(s_, ('p', T, off['DataCount'][0]), 4)
            if c != ('c', 0): cx.violation('start', wh(st, j), st.short, 'the record count does not start at zero', '%r' % (c,))
        t.on_ret = ret
        t.run()
    # and is handed to the symbol at the end
    dn = fs.get('gdxDataWriteDone')
    sym = {n: (o, z) for n, o, z, t in m.fields('gdx::TgdxSymbRecord')}
    if dn and 'SDataCount' in sym:
        B = ('nn', 'symbol')
        t = tp.TP(m, dn, preset={(T, off['TraceLevel'][0]): ('c', 0), (T, off['CurSyPtr'][0]): ('p', B, 0)}, budget=60000, maxpart=6)
        def calls(s_, cn, args, i):
            g = m.fns.get(cn)
            if g and g.sname == 'DoWrite':
                if t.final and s_.tag != 'zeroed': cx.violation('start|sorted', wh(dn, i), dn.short, 'the record count does not start at zero', '')
                return t.fresh(s_, i[1])
            return None
        orig = t.store
        def store(s_, p, v, size):
            if p == ('p', T, off['DataCount'][0]):
                s_.tag = 'zeroed' if v == ('c', 0) else 'other'
                return                                    # the name of the member stands for the count
            if p == ('p', B, sym['SDataCount'][0]): s_.tag = 'kept' if v == ('x', ('m', T, off['DataCount'][0], 4)) else 'lost'
            orig(s_, p, v, size)
        t.store = store
        t.on_call = calls
        def ret(s_, v, j):
            if not (isconst(v) and v[1] == 1): return
            cx.count('ends of a writing')
            if s_.tag != 'kept': cx.violation('end', wh(dn, j), dn.short, 'the count kept for the symbol is not the count of the records written', '')
        t.on_ret = ret
        t.namejoin = True
        t.run()
        if t.over: cx.violation('budget|end', dn.where, dn.short, 'the paths of the operation could not be enumerated', '')
