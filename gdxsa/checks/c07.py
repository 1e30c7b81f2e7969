from events import Ev, Graph, include
from session import CLS
from checks.c06 import mk_match, labels_ok
import loops, sx
from events import admits
TECHNIQUE = 'static analysis: event-graph inclusion of the record encoder in the record decoder; path-condition abstract interpretation of one record with symbolic keys; interval analysis of key widths and change codes'
RULE = ('Data header and record items written by the raw writing operations are a sequence the raw reading operations accept; keys are written as key minus minimum and read as value plus minimum '
        'in the width selected by the same value of the same element-size entry; sizes are chosen from the same range expression and hold that range; relative codes are offset by the dimension on both '
        'sides and stay below the end mark; a number follows exactly the class byte for ordinary numbers.')
EXPLANATION = 'Abstract interpretation of the writing (start, record, done) and reading (start, record) operations with every stream primitive as an event and values as linear forms over object fields, arguments and items read; one record followed in encoder and decoder with the dimension (1 to 3), element sizes and change code (1 to 255) fixed and the keys symbolic.'
ASSUMPTIONS = ['keys given to raw writing lie within the declared key bounds (documented precondition)', 'files of the version this library writes']
WATCH = ('this.LastElem', 'this.ElemType', 'this.MinElem', 'this.MaxElem')

class E7(Ev):
    def __init__(s, m):
        s.stores, s.under, s.bounds, s.inits, s.split_at = {}, {}, [], {}, []
        super().__init__(m)
    def cond(s, st):
        out = set()
        for k, f in st.facts.items():
            if f[0] == '=' and f[1].__class__ is int:
                a = s.atom(('s', k))
                if a[0] == 'f' and a[1] == 'this.ElemType': out.add(f[1])
        return frozenset(out)
    def on_store(s, fn, i, p, v, st):
        super().on_store(fn, i, p, v, st)
        if not s.on: return
        l = s.plabel(p)
        if l in WATCH:
            a, c = s.lin(v)
            iv = None
            if l == 'this.ElemType' and not a:
                iv = s.range_of_n(st)
            s.stores.setdefault((s.curapi.sname, l), set()).add((tuple(sorted(a.items(), key=str)), c, st.mon[0] if st.mon else None, i[3], fn.short, iv))
    def on_phi(s, fn, p, x, st):
        if s.on: s.inits.setdefault((s.curapi.sname, fn.name, p[1]), set()).add(frz(s.lin(x)))
    def ineqs(s, st):
        """[(linear form, constant)] known to satisfy form + constant <= 0"""
        out = []
        for q, f in st.facts.items():
            sd = s.symd[q]
            if sd[0] == 'cmp' and f[0] == '=' and f[1].__class__ is int:
                pred = sd[1] if f[1] & 1 else s.NEG.get(sd[1])
                if pred is None: continue
                a, b = s.lin(sd[2]), s.lin(sd[3])
                if pred[0] not in 'su': continue
                if pred[1:] in ('gt', 'ge'): a, b, pred = b, a, pred[0] + 'l' + pred[2]
                d = dict(a[0])
                for x, n in b[0].items():
                    d[x] = d.get(x, 0) - n
                    if not d[x]: del d[x]
                out.append((d, a[1] - b[1] + (1 if pred[1:] == 'lt' else 0)))
        return out
    def range_of_n(s, st):
        """known interval of the expression of both key bounds"""
        out = []
        for k, f in st.facts.items():
            a, c = s.lin(('s', k))
            names = {x[1] for x in a if x[0] == 'f'}
            if {'this.MaxElem', 'this.MinElem'} <= names and s.symd[k][0] == 'op':
                lo, hi = (f[1], f[2]) if f[0] == 'i' else (f[1], f[1]) if f[0] == '=' and f[1].__class__ is int else (None, None)
                out.append((tuple(sorted(((x[1], n) for x, n in a.items()), key=str)), c, lo, hi))
        return tuple(sorted(set(out), key=str))
    def mknode(s, fn, i, f, kind, wire, const, labels, argd, st):
        k = super().mknode(fn, i, f, kind, wire, const, labels, argd, st)
        s.under.setdefault(k, set()).add(s.cond(st))
        return k

CAP = {'b': 256, 'w': 65536, 'i': 1 << 32}

def run(cx):
    m = cx.module()
    s = E7(m)
    s.on = False
    init = s.initial()
    def go(name, sts, okrc=1, log=True):
        f = s.api.get(name) or m.find(CLS, name)[0]
        out = []
        s.on = log
        for st in sts:
            for r, e in s.runop(f, st.copy()):
                if r == okrc or okrc is None or (okrc == 'pos' and not (r.__class__ is int and r <= 0)): out.append(e)
        s.on = False
        return out
    canon = lambda es: [x for e in es for x in s.split(s.canon(e))]
    ow = go('gdxOpenWriteEx', init[:1], log=False)
    vo = s.fld.get('VersionRead')
    vs = {e.mem.get((0, vo)) for e in ow}
    cx.need(len(vs) == 1 and next(iter(vs)).__class__ is int, 'version written is not a constant')
    ws = go('gdxDataWriteRawStart', canon(ow))
    cx.need(ws, 'no successful start of raw writing')
    wst = uniq(s, canon(ws))
    go('gdxDataWriteRaw', wst)
    go('gdxDataWriteDone', wst)
    s.version = next(iter(vs))
    rd = go('gdxOpenReadXX', init[:1], log=False)
    rs = go('gdxDataReadRawStart', uniq(s, canon(rd)), okrc='pos')
    cx.need(rs, 'no successful start of raw reading')
    rst = [x for x in uniq(s, canon(rs))]
    go('gdxDataReadRaw', rst)
    N = s.nodes
    marks = {n.const for n in N if n.kind == 'R' and n.const.__class__ is str}
    match = mk_match(marks)
    pairs = set()
    def describe(x):
        if x is None: return 'the start'
        if x == 'END': return 'the end'
        n = N[x]
        t = {'s': 'string', 'i': '4-byte integer', 'l': '8-byte integer', 'b': 'byte', 'w': '2-byte integer', 'd': 'double'}.get(n.wire, n.wire or n.kind)
        return '%s%s%s (%s)' % (t, ' %r' % (n.const,) if n.const is not None else '', ' of ' + '/'.join(sorted(n.labels)) if n.labels else '', n.loc)
    def compare(W, w0, R, r0, what):
        bad, pr, _ = include(s, W, w0, R, r0, match)
        pairs.update(pr)
        for w, w2, exp, rset in bad[:3]:
            n = N[w2] if w2 != 'END' else N[w] if w is not None else None
            r = sorted(e for e in exp if e != 'END')
            cx.violation('%s|%r|%r|%r' % (what, N[w] if w is not None and w != w0 else None, n, N[r[0]] if r else 'END'), n.loc if n else '', n.fn if n else '',
                         '%s: after %s the writer writes %s; the reader can only take: %s' % (what, describe(w), describe(w2), '; '.join(sorted(describe(e) for e in exp)) or 'nothing'), '')
        return pr
    eps = lambda n: n.kind in ('SetCompression', 'GetPosition')
    stop = lambda n: n.kind == 'SetPosition'
    wp = [n.id for n in N if n.api == 'gdxDataWriteRawStart' and n.kind == 'SetPosition']
    rp = [n.id for n in N if n.api == 'gdxDataReadRawStart' and n.kind == 'SetPosition']
    cx.need(len(wp) == 1 and len(rp) == 1, 'start of the data section not found')
    compare(Graph(s, 'gdxDataWriteRawStart', stop, eps, 1), wp[0], Graph(s, 'gdxDataReadRawStart', stop, eps, 'pos'), rp[0], 'data header')
    W = Graph(s, 'gdxDataWriteRaw', stop, eps, 1)
    R = Graph(s, 'gdxDataReadRaw', stop, eps, 1)
    rp_ = compare(W, None, R, None, 'data record')
    cx.need(len(rp_) >= 5, 'record encoder and decoder not found')
    compare(Graph(s, 'gdxDataWriteDone', stop, eps, 1), None, Graph(s, 'gdxDataReadRaw', stop, eps, 0), None, 'end of data')
    # compression: the same mode around an item on both sides, chosen anew at the start of the data
    from checks.c06 import comp_modes
    cls = lambda a: ('off' if a[1] == 0 else 'on') if a and a[0] == 'c' else '.'.join(str(x) for x in a[1:]) if a and a[0] in ('lab', 'this') else 'flag'
    md = {a: comp_modes(s, a, 'unset' if a.endswith('Start') else 'kept', cls) for a in {n.api for n in N}}
    for w, r in sorted(pairs):
        a, b = md[N[w].api].get(w, set()), md[N[r].api].get(r, set())
        cx.count('compression_modes_compared')
        for x, k in ((a, w), (b, r)):
            if 'unset' in x: cx.violation('compression|unset|%r' % N[k], N[k].loc, N[k].fn, 'the data of a symbol starts with %s while the compression of the stream is whatever an earlier symbol left' % describe(k), '')
        if a and b and a != b and 'flag' not in a | b:
            cx.violation('compression|%r' % N[w], N[w].loc, N[w].fn, '%s is written with compression %s but read with compression %s' % (describe(w), '/'.join(sorted(a)), '/'.join(sorted(b))), '')
    # a code of a record is never taken for the end mark, the end mark never for a record
    endm = {n.const for n in N if n.api == 'gdxDataWriteDone' and n.kind == 'W'}
    cx.need(len(endm) == 1 and next(iter(endm)).__class__ is int, 'end mark not found')
    end = next(iter(endm))
    # ---- keys and change codes: followed with fixed dimension, sizes and code ------------
    import records
    ms = cx.variant('strm')
    off = {n: (o, z) for n, o, z, t in ms.fields('gdx::TGXFileObj')}
    fs = {f.sname: f for f in ms.fns.values() if not f.decl and f.scope.endswith('TGXFileObj')}
    for k in ('FCurrentDim', 'LastElem', 'MinElem', 'ElemType', 'DeltaForWrite', 'DeltaForRead', 'DataSize', 'FFile', 'CurSyPtr', 'ReadUniverse'): cx.need(k in off, 'member %s not found' % k)
    widths = records.decoder(cx, ms, fs, off, end)
    records.encoder(cx, ms, fs, off, widths, end)
    wk = rk = {e: {{1: 'b', 2: 'w', 4: 'i'}[n] for n in S if n in (1, 2, 4)} for e, S in widths.items()}
    # ---- element sizes ----------------------------------------------------------------------
    tab = {}
    for op in ('gdxDataWriteRawStart', 'gdxDataReadRawStart'):
        for a, c, mon, loc, fn, iv in s.stores.get((op, 'this.ElemType'), ()):
            if a: continue
            for lf, k, lo, hi in iv or ():
                tab.setdefault((op, c), set()).add((lf, k, lo, hi, loc, fn))
    sizes = 0
    for (op, c), S in sorted(tab.items()):
        for lf, k, lo, hi, loc, fn in S:
            sizes += 1
            if dict(lf) != {'this.MaxElem': 1, 'this.MinElem': -1}:
                cx.violation('size|expr|%s' % op, loc, fn, 'the element size is not chosen from the key range', str(lf)); continue
            for wre in wk.get(c, rk.get(c, ())):
                top = None if hi is None else hi - k          # largest offset of a key from the minimum
                if lo is not None and lo >= 1 and (top is None and CAP[wre] < 1 << 32 or top is not None and top > CAP[wre] - 1):
                    cx.violation('size|%s|%d' % (op, c), loc, fn, 'element size %d (%s) is chosen for key ranges up to %s, more than the item can hold' % (c, wre, hi), '')
        other = ('gdxDataReadRawStart' if op == 'gdxDataWriteRawStart' else 'gdxDataWriteRawStart', c)
        if other in tab and {x[:4] for x in tab[other]} != {x[:4] for x in S}:
            x = sorted(S)[0]
            cx.violation('size|differ|%d' % c, x[4], x[5], 'reader and writer choose element size %d for different key ranges' % c, '%s\n%s' % (sorted(x[:4] for x in S), sorted(x[:4] for x in tab[other])))
    # ---- change codes -------------------------------------------------------------------------
    for e in ws:
        d, f = s.lin(e.mem.get((0, s.fld['DeltaForWrite']), s.sym(('L', 0, s.fld['DeltaForWrite'])))), s.lin(e.mem.get((0, s.fld['FCurrentDim']), s.sym(('L', 0, s.fld['FCurrentDim']))))
        tot = dict(d[0])
        for x, n in f[0].items():
            tot[x] = tot.get(x, 0) + n
            if not tot[x]: del tot[x]
        if not tot and d[1] + f[1] >= end:
            cx.violation('relative|end', m.find(CLS, 'PrepareSymbolWrite')[0].where if m.find(CLS, 'PrepareSymbolWrite') else '', 'PrepareSymbolWrite', 'the largest relative change code %d reaches the end mark %d' % (d[1] + f[1], end), '')
        elif tot and any(str(v) not in ('1',) for v in tot.values()):
            cx.violation('relative|end2', '', 'PrepareSymbolWrite', 'the largest relative change code depends on %s' % tot, '')
    nd = 0
    for e in rs:
        if s.R(e.mem.get((0, s.fld['ReadUniverse']), 0), e) == 1: continue
        a, b = e.mem.get((0, s.fld['DeltaForRead'])), e.mem.get((0, s.fld['FCurrentDim']))
        if a is None or b is None: continue
        nd += 1
        la, lb = s.lin(s.R(a, e)), s.lin(s.R(b, e))
        if la != lb and la[0] == lb[0]:
            cx.violation('relative|readoffset', '', 'PrepareSymbolRead', 'the reader\'s code offset differs from the dimension by %d' % (la[1] - lb[1]), '')
    # value class byte: the same classes carry a number on both sides
    ncl = 0
    clsn = {N[w].ctx for w, r in rp_ if w is not None and any(y != 'END' and N[y].wire == 'd' for y, _ in W.succ(w))}
    for w, r in sorted(rp_):
        if w is None or r is None or N[w].wire != 'b' or N[w].kind != 'W' or N[w].ctx not in clsn: continue
        def after(G, n, v): return {('END' if y == 'END' else N[y].wire) for y, g in G.succ(n) if admits(g, v)}
        if 'd' not in {('' if y == 'END' else N[y].wire) for y, _ in R.succ(r)}: continue
        for v in range(0, 11) if N[w].const is None else [N[w].const]:
            a, b = after(W, w, v), after(R, r, v)
            ncl += 1
            if a and ('d' in a) != ('d' in b):
                cx.violation('class|%d' % v, N[r].loc, N[r].fn, 'value class %d: the writer %s a number, the reader %s' % (v, 'writes' if 'd' in a else 'does not write', 'expects one' if 'd' in b else 'expects none'), '')
    cx.counts.update(value_classes_compared=ncl, same_dimension_checks=same_dim(cx, m))
    trip(cx, m, s, pairs, describe)
    cx.counts.update(items=len(N), item_pairs_matched=len(pairs), element_size_choices=sizes, start_states=len(ws) + len(rs), offsets_compared=nd, functions_analysed=len(s.visited))
    for w, r in sorted(pairs)[:10]: cx.sample('%s <-> %s' % (describe(w), describe(r)))

def uniq(s, sts):
    out, seen = [], set()
    for x in sts:
        k = s.keyfn(x)
        if k not in seen: seen.add(k); out.append(x)
    return out

def frz(l): return (tuple(sorted(l[0].items(), key=str)), l[1])

DIMARR = ('this.LastElem', 'this.MinElem', 'this.MaxElem', 'this.ElemType', 'this.WrBitMaps')
def same_dim(cx, m):
    """per-dimension arrays used in one key are subscripted alike"""
    X = sx.SX(m)
    n = 0
    for f in m.methods(CLS):
        for b, i in f.instrs():
            if i[0] == 'store':
                p = X.place(f, i[5])[0]
                d = sx.subscripts(p)
                if not (d and d[-1][0] == 'this.ElemType' and p == '%s[%s]' % d[-1]): continue
                e, own, what = X.val(f, i[4]), d[-1][1], d[-1][0]
            else: continue
            others = [(b_, ix) for b_, ix in sx.subscripts(e) if b_ in DIMARR or b_.startswith('*$')]
            blk = b
            for b2 in dominators(f, b):
                t = f.term(b2)
                if t[0] == 'switch' or t[0] == 'br' and t[4] is not None:
                    ce = X.val(f, t[4])
                    if 'this.ElemType[' in ce and b2 != b: others += [x for x in sx.subscripts(ce) if x[0] == 'this.ElemType']
            for b_, ix in others:
                n += 1
                if ix != own: cx.violation('dim|%s|%s' % (what, b_), i[3], f.short, 'the %s of dimension %s is computed with %s of dimension %s' % (what.replace('this.', ''), own, b_, ix), e)
    return n

def dominators(f, b):
    if not hasattr(dominators, 'c'): dominators.c = {}
    if f.name not in dominators.c:
        dom = {0: {0}}
        ch = True
        while ch:
            ch = False
            for x in f.rpo():
                if x == 0: continue
                ps = [dom[p] for p in f.pred()[x] if p in dom]
                if not ps: continue
                d = set.intersection(*ps) | {x}
                if dom.get(x) != d: dom[x] = d; ch = True
        dominators.c[f.name] = dom
    return dominators.c[f.name].get(b, ())

def trip(cx, m, s, pairs, describe):
    n = 0
    done = set()
    for w, r in sorted(pairs):
        k = (s.nodes[w].loc, s.nodes[r].loc)
        if k in done: continue
        done.add(k)
        tw, tr = loops.trip(m, s, s.nodes[w]), loops.trip(m, s, s.nodes[r])
        if isinstance(tw, int) and isinstance(tr, int):
            n += 1
            if tw != tr: cx.violation('trip|%r' % s.nodes[w], s.nodes[r].loc, s.nodes[r].fn, '%s is written %+d times relative to its count but read %+d times as %s' % (describe(w), tw, tr, describe(r)), '')
    cx.counts['loop_trip_counts_compared'] = n
