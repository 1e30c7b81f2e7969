"""C25: stream buffers and positions stay coherent."""
import btp, tp
from tp import TOP, isconst
RULE = ('On every path of every method of the buffered stream: bytes enter the buffer at the write count, at most as many as are free, only with no input loaded (the physical position having been set '
        'back to the logical one first), and the count grows by exactly that number; bytes leave it at the read count, at most as many as are loaded, only with no output pending, and the count grows '
        'alike; the position changes without a flush of pending output only to the position it already has, and inside the loaded input only uncompressed, by exactly the distance; every other change '
        'flushes, seeks and discards the input; a change of compression flushes and discards; the flush hands exactly the pending bytes to the file, raw or through the compressor, with the length in two '
        'header bytes, high first, and the fill reads it back the same way and never takes a length larger than the buffer it reads into; the destructor flushes')
EXPLANATION = ('trace-partitioned propagation over each stream method with all helpers inlined; the counters and the position are symbolic, their values are compared as linear forms, bounds are '
               'discharged from the branch conditions of the path; the effects assumed of a called method are the ones proved for it')
TECHNIQUE = 'static analysis: trace-partitioned abstract interpretation of the compiler IR with linear forms over the stream counters'
ASSUMPTIONS = ['zlib compress/uncompress respect the destination length they are given']
CLS = 'TBufferedFileStream'
T = ('arg', 0)

def lin(v, sign=1, out=None):
    """linear form over atoms (modular, widths ignored)"""
    out = {} if out is None else out
    if v[0] == 'c' and isinstance(v[1], int): out[1] = out.get(1, 0) + sign * v[1]
    elif v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] in ('add', 'sub') and len(v[1]) == 3:
        lin(v[1][1], sign, out); lin(v[1][2], sign if v[1][0] == 'add' else -sign, out)
    elif v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'trunc' and v[1][1] in ('i32', 'i64'): lin(v[1][2], sign, out)
    else: out[v] = out.get(v, 0) + sign
    return out
def norm(v): return {k: c for k, c in lin(v).items() if c}
def eq(a, b):
    if a == TOP or b == TOP: return False
    d = lin(a); lin(b, -1, d)
    return not any(d.values())
def add(a, b): return ('x', ('add', a, b))
def sub(a, b): return ('x', ('sub', a, b))

class S(tp.TP):
    def __init__(s, m, f, off, **kw):
        tp.TP.__init__(s, m, f, **kw)
        s.off = off
        s.namephi = s.namejoin = s.narrow = True
        s.on_call = s.calls
        s.maxdepth = 16
        s.events = True
    def value(s, st, i):
        v = tp.TP.value(s, st, i)
        if i[0] == 'load' and v == TOP:
            p = s.val(st, i[4])
            if p[0] == 'p':
                v = s.fresh(st, i[1])
                st.mem[(p[1], p[2])] = (s.size(i[2]), v)
        return v
    def now(s, st, n):
        o, z = s.off[n]
        return s.load(st, ('p', T, o), z)
    def settle(s, st):
        """counters known to be zero are written as zero, so that joining paths keep it"""
        for n in ('NrWritten', 'NrLoaded', 'NrRead'):
            v = s.now(st, n)
            if v != ('c', 0) and zero(st, v): tp.TP.store(s, st, ('p', T, s.off[n][0]), ('c', 0), s.off[n][1])
        return st.tag
    def put(s, st, n, v): s.store(st, ('p', T, s.off[n][0]), v, s.off[n][1])
    def ev(s, st, *e):
        if not s.track: st.tag = (st.tag or ()) + (e,)
    def buf(s, p):
        """index into BufPtr addressed by p, or None"""
        b, idx = p, ('c', 0)
        if p[0] == 'px' and p[3] == 1:
            b, idx = p[1], p[4]
            if p[2]: idx = add(idx, ('c', p[2]))
        if b[0] == 'p' and b[1][0] == 'obj' and b[1][1] == ('x', ('m', T, s.off['BufPtr'][0], 8)):
            return add(idx, ('c', b[2])) if b[2] else idx
        return None
    def cbuf(s, p):
        if p[0] == 'x': p = ('p', ('obj', p), 0)
        if p[0] == 'p' and p[1][0] == 'obj' and p[1][1] == ('x', ('m', T, s.off['CBufPtr'][0], 8)): return p[2]
        return None
    def calls(s, st, cn, args, i):
        f = s.m.fns.get(cn)
        n = f.mname if f else cn
        sc = f.dem if f else ''
        r = None
        if cn in ('compress', 'compress2', 'uncompress', 'uncompress2'):
            if args[1][0] == 'p':
                r0 = s.load(st, args[1], 8)
                if s.final and s.at_z: s.at_z(st, n, args, r0, i)
                new = s.fresh(st, i[1])
                ln = ('x', ('len', i[1]))
                s.ev(st, 'z', n, args[0], r0, args[2], args[3], ln)
                s.store(st, args[1], ln, 8)
                return new
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            if s.final and s.at_copy: s.at_copy(st, args[0], args[1], args[2], i)
            s.copied(st, args)
            return TOP if s.buf(args[0]) is not None or s.buf(args[1]) is not None else None
        if n == 'FlushBuffer':
            if s.final and s.at_flush: s.at_flush(st, i)
            v = s.fresh(st, i[1]) if i[1] >= 0 else None
            for k in ('NrWritten', 'NrLoaded', 'NrRead'): s.put(st, k, ('c', 0))
            s.put(st, 'PhysPosition', TOP)
            if s.events: s.ev(st, 'flush')
            return v or TOP
        if n == 'FillBuffer':
            if s.final and s.at_fill: s.at_fill(st, i)
            v = s.fresh(st, i[1]) if i[1] >= 0 else None
            for k in ('NrWritten', 'NrRead'): s.put(st, k, ('c', 0))
            s.put(st, 'NrLoaded', TOP); s.put(st, 'PhysPosition', TOP)
            if s.events: s.ev(st, 'fill')
            return v or TOP
        if 'TXFileStream::SetPosition' in sc or n == 'SetPosition':
            s.ev(st, 'seek', args[1], s.now(st, 'PhysPosition'), s.now(st, 'NrLoaded'), s.now(st, 'NrRead'))
            s.put(st, 'PhysPosition', args[1])
            return TOP
        if 'TXFileStream::Write' in sc:
            s.ev(st, 'write', args[1], args[2], s.hdr(st))
            v = s.fresh(st, i[1]); s.put(st, 'PhysPosition', TOP); return v
        if 'TXFileStream::Read' in sc:
            if s.final and s.at_read: s.at_read(st, args, i)
            v = s.fresh(st, i[1]); s.put(st, 'PhysPosition', TOP)
            s.ev(st, 'read', args[1], args[2], v)
            if s.cbuf(args[1]) == 0:
                b = ('obj', ('x', ('m', T, s.off['CBufPtr'][0], 8)))
                for k in range(3): st.mem[(b, k)] = (1, ('x', ('hdr', k)))
            return v
        return None
    at_copy = at_flush = at_fill = at_read = at_z = None
    def hdr(s, st):
        b = ('obj', ('x', ('m', T, s.off['CBufPtr'][0], 8)))
        return tuple(st.mem.get((b, k), (1, TOP))[1] for k in range(3))
    def copied(s, st, args):
        """the counter that has to follow the bytes"""
        if not s.track: return
        d, sr = s.buf(args[0]), s.buf(args[1])
        if d is not None: st.tag = (('pend', 'NrWritten', frozenset(norm(add(s.now(st, 'NrWritten'), args[2])).items())),)
        elif sr is not None: st.tag = (('pend', 'NrRead', frozenset(norm(add(s.now(st, 'NrRead'), args[2])).items())),)
    track = False
    def store(s, st, p, v, size):
        if s.track and st.tag and st.tag[0][0] == 'pend' and p[0] == 'p' and p[1] == T and p[2] == s.off[st.tag[0][1]][0]:
            if frozenset(norm(v).items()) == st.tag[0][2]: st.tag = None
        tp.TP.store(s, st, p, v, size)

def modes(off):
    for fc in (0, 1):
        for can in (0, 1):
            pr = {(T, off['FCompress'][0]): ('c', fc)}
            if 'FCanCompress' in off: pr[(T, off['FCanCompress'][0])] = ('c', can)
            elif not can: continue
            yield fc, can, pr

def fact(st, e, t): return (e, t) in st.facts
def zero(st, v):
    if v == ('c', 0): return True
    if v == TOP or isconst(v): return False
    for a, b in ((v, ('c', 0)), (('c', 0), v)):
        if fact(st, ('eq', a, b), True): return True
    return fact(st, ('ult', ('c', 0), v), False) or fact(st, ('ule', v, ('c', 0)), True) or fact(st, ('slt', ('c', 0), v), False) or fact(st, ('ule', ('c', 1), v), False)
def false(st, v):
    """a boolean member read as i8 is false"""
    if v == ('c', 0): return True
    for e, t in st.facts:
        if boolof(e) == v and not t: return True
        if e[0] == 'eq' and ('c', 0) in e[1:] and t and v in e[1:]: return True
    return False
def true(st, v):
    for e, t in st.facts:
        if boolof(e) == v and t: return True
        if e[0] == 'eq' and ('c', 0) in e[1:] and not t and v in e[1:]: return True
    return v[0] == 'c' and v[1] not in (0, )
def boolof(e):
    if isinstance(e, tuple) and e and e[0] == 'trunc': return e[2]
    return ('x', e)
def known(v, fs):
    """a selection whose condition is decided by the facts"""
    while v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'sel':
        c = v[1][1]; neg = False
        e = c[1] if c[0] == 'x' else c
        while isinstance(e, tuple) and e[0] == 'not': neg = not neg; e = e[1][1] if e[1][0] == 'x' else e[1]
        if (e, True) in fs: k = not neg
        elif (e, False) in fs: k = neg
        else: break
        v = v[1][2] if k else v[1][3]
    return v
def le(st, a, b, extra=frozenset()):
    if a == TOP or b == TOP: return False
    if eq(a, b): return True
    if isconst(a) and isconst(b): return a[1] <= b[1]
    fs = st.facts | extra
    for e, t in fs:
        if e[0] in ('ule', 'ult', 'sle', 'slt'): e = (e[0], known(e[1], fs), known(e[2], fs))
        if e[0] in ('ule', 'ult', 'sle', 'slt') and t and eq(e[1], a) and eq(e[2], b): return True
        if e[0] in ('ule', 'ult', 'sle', 'slt') and not t and eq(e[1], b) and eq(e[2], a): return True
        if e[0] in ('ule', 'ult', 'sle', 'slt') and eq(sub(e[2], e[1]), sub(b, a) if t else sub(a, b)): return True
        if e[0] in ('ule', 'ult', 'sle', 'slt') and t and eq(e[1], a) and isconst(e[2]) and isconst(b) and e[2][1] - (e[0] in ('ult', 'slt')) <= b[1]: return True
        if e[0] in ('ule', 'ult', 'sle', 'slt') and not t and eq(e[2], a) and isconst(e[1]) and isconst(b) and e[1][1] - (e[0] in ('ule', 'sle')) <= b[1]: return True
    if a[0] == 'x' and isinstance(a[1], tuple) and a[1][0] == 'sel':
        c = a[1][1]
        e = c[1] if c[0] == 'x' else c
        return le(st, a[1][2], b, extra | {(e, True)}) and le(st, a[1][3], b, extra | {(e, False)})
    if a[0] == 'x' and isinstance(a[1], tuple) and a[1][0] == 'fn' and a[1][1].startswith('llvm.umin'):
        return any(le(st, x, b, extra) for x in a[1][2:])
    return False

def run(cx):
    m = cx.variant('strm')
    off = {n: (o, z) for n, o, z, t in m.fields('gdlib::gmsstrm::' + CLS)}
    off.update({n: (o, z) for n, o, z, t in m.fields('gdlib::gmsstrm::TXFileStream')})
    for n in ('NrWritten', 'NrLoaded', 'NrRead', 'BufSize', 'CBufSize', 'BufPtr', 'CBufPtr', 'FCompress', 'PhysPosition'): cx.need(n in off, 'member %s of the stream not found' % n)
    meth = {}
    for f in m.fns.values():
        if not f.decl and f.scope.split('::')[-1] == CLS: meth.setdefault(f.sname, f)
    for n in ('Write', 'Read', 'SetPosition', 'GetPosition', 'FlushBuffer', 'FillBuffer', 'SetCompression'): cx.need(n in meth, 'method %s not found' % n)
    C = Ctx(cx, m, off, meth)
    C.transfer(); C.flush(); C.fill(); C.setpos(); C.getpos(); C.setcomp(); C.dtor(); C.ctor()

class Ctx:
    def __init__(s, cx, m, off, meth): s.cx, s.m, s.off, s.meth = cx, m, off, meth
    def bad(s, key, f, i, msg):
        w = str(i[3]) if i is not None and len(i) > 3 and i[3] else ''
        w = w[len(s.m.repo):] if w.startswith(s.m.repo) else w
        s.cx.violation(key, w if ':' in w else f.where, f.short, msg)
    # ---- bytes in and out of the buffer, in every method
    def transfer(s):
        for name, f in s.meth.items():
            if name in ('FlushBuffer', 'FillBuffer') or name.startswith('~') or name == CLS: continue
            t = S(s.m, f, s.off)
            t.track = True; t.events = False
            t.split = t.settle
            def copy(st, d, sr, n, i, t=t, f=f, name=name):
                di, si = t.buf(d), t.buf(sr)
                if di is not None:
                    s.cx.count('copies_into_the_buffer')
                    w = t.now(st, 'NrWritten')
                    if not eq(di, w): s.bad(name + ':into:place', f, i, 'bytes are put into the stream buffer at a place other than the number of bytes pending')
                    if not le(st, n, sub(t.now(st, 'BufSize'), w)): s.bad(name + ':into:room', f, i, 'bytes are put into the stream buffer without their number being limited to the room left')
                    if not zero(st, t.now(st, 'NrLoaded')): s.bad(name + ':into:loaded', f, i, 'bytes are put into the stream buffer while input may still be loaded in it')
                if si is not None:
                    s.cx.count('copies_out_of_the_buffer')
                    r = t.now(st, 'NrRead')
                    if not eq(si, r): s.bad(name + ':from:place', f, i, 'bytes are taken from the stream buffer at a place other than the number of bytes already taken')
                    if not le(st, n, sub(t.now(st, 'NrLoaded'), r)): s.bad(name + ':from:loaded', f, i, 'more bytes may be taken from the stream buffer than are loaded')
                    if not zero(st, t.now(st, 'NrWritten')): s.bad(name + ':from:pending', f, i, 'bytes are taken from the stream buffer while output may still be pending in it')
                if (di is not None or si is not None) and st.tag and st.tag[0][0] == 'pend': s.bad(name + ':count', f, i, 'the counter of the stream buffer does not grow by the number of bytes moved before the next bytes are moved')
            def need(st, i, t=t, f=f, name=name, what='the buffer is flushed or refilled'):
                if st.tag and st.tag[0][0] == 'pend': s.bad(name + ':count', f, i, '%s does not grow by the number of bytes moved before %s' % (st.tag[0][1], what))
            t.at_copy = copy
            t.at_flush = need
            t.at_fill = need
            def seekcheck(st, v, i, t=t, f=f, name=name):
                need(st, i, what='the method returns')
            t.on_ret = seekcheck
            t.run()
            s.seek_before(name, f)
            s.advance(name, f)
            s.single(name, f)
    def seek_before(s, name, f):
        """where loaded input is dropped in favour of output, the file is first set back to the logical position"""
        if name not in ('Write',): return
        t = S(s.m, f, s.off)
        def sp(st):
            return tuple(e for e in (st.tag or ()) if e[0] == 'seek')[-1:]
        t.split = lambda st: sp(st) or None
        def copy(st, d, sr, n, i):
            if t.buf(d) is None: return
            L0 = ('x', ('m', T, s.off['NrLoaded'][0], s.off['NrLoaded'][1]))
            R0 = ('x', ('m', T, s.off['NrRead'][0], s.off['NrRead'][1]))
            P0 = ('x', ('m', T, s.off['PhysPosition'][0], 8))
            if zero(st, L0): return
            sk = sp(st)
            s.cx.count('switches_from_reading_to_writing')
            if not sk or not eq(sk[0][1], add(sub(P0, L0), R0)): s.bad(name + ':seek', f, i, 'output replaces loaded input without the file having been set back to the position of the last byte taken')
        t.at_copy = copy
        t.events = False
        t.run()
    def advance(s, name, f):
        """in a loop, the caller's bytes advance by the number moved and the remaining number shrinks by it"""
        for h, body in f.loops().items():
            for b in body:
                for i in f.blocks[b]:
                    if i[0] != 'call' or 'llvm.memcpy' not in str(i[4]): continue
                    n = strip(f, i[5][2])
                    ups = [x for x in f.blocks[h] if x[0] == 'phi']
                    down = up = False
                    for x in ups:
                        for o, p in x[4]:
                            if p not in body: continue
                            d = f.idef(strip(f, o))
                            if d is None: continue
                            if d[0] == 'sub' and strip(f, d[4]) == ['v', x[1]] and strip(f, d[5]) == n: down = True
                            if d[0] == 'add' and ['v', x[1]] in (strip(f, d[4]), strip(f, d[5])) and n in (strip(f, d[4]), strip(f, d[5])): up = True
                            if d[0] == 'getelementptr' and d[4] == ['v', x[1]] and any(strip(f, v) == n for _, v in d[5][2]): up = True
                    if not ups: continue
                    s.cx.count('copy_loops')
                    if not up or not down:
                        # a loop of another shape (end pointer, running total): only judged if neither side moves
                        if not up and not down: s.bad(name + ':advance', f, i, 'the caller\'s bytes do not advance with the bytes moved')
                        elif not up and down: s.bad(name + ':advance', f, i, 'the place in the caller\'s bytes does not advance by the number of bytes moved')
    def single(s, name, f):
        """single bytes taken by subscript"""
        if name not in ('ReadCharacter',): return
        t = S(s.m, f, s.off); t.events = False; t.split = t.settle
        def ld(st, i):
            p = t.val(st, i[4])
            k = t.buf(p) if p[0] in ('p', 'px') else None
            if k is None: return
            s.cx.count('single_bytes_taken')
            r = t.now(st, 'NrRead')
            if not zero(st, t.now(st, 'NrWritten')): s.bad(name + ':pending', f, i, 'a byte is taken from the stream buffer while output may still be pending in it')
        base = t.value
        def value(st, i):
            if t.final and i[0] == 'load' and i[5] == 1: ld(st, i)
            return base(st, i)
        t.final = False
        t.value = value
        t.run()
    # ---- flush
    def flush(s):
        for fc, can, pr in modes(s.off): s.flush_(fc, can, pr)
    def flush_(s, fc, can, pr):
        f = s.meth['FlushBuffer']
        t = S(s.m, f, s.off, preset=pr)
        t.keyfacts = True
        t.split = lambda st: st.tag
        W0 = ('x', ('m', T, s.off['NrWritten'][0], 4))
        bufp = lambda p: t.buf(p if p[0] != 'x' else ('p', ('obj', p), 0))
        def ret(st, v, i):
            s.cx.count('paths_of_flush')
            ev = st.tag or ()
            wr = [e for e in ev if e[0] == 'write']
            zs = [e for e in ev if e[0] == 'z']
            if zero(st, W0):
                if not wr: return
            for n in ('NrWritten', 'NrLoaded', 'NrRead'):
                if t.now(st, n) != ('c', 0): s.bad('flush:reset:' + n, f, i, 'after a flush %s is not reset' % n)
            def is_buf(e): return bufp(e[1]) == ('c', 0) and eq(e[2], W0)
            comp = fc and can
            if not comp:
                if len(wr) != 1 or not is_buf(wr[0]): s.bad('flush:raw', f, i, 'an uncompressed flush does not write exactly the pending bytes of the buffer')
                return
            if not zs:
                if wr and not t.cbuf(wr[0][1]) == 0: s.bad('flush:mode', f, i, 'with compression on, bytes are written without a block header')
                return
            z = zs[0]
            if t.cbuf(z[2]) != 3 or bufp(z[4]) != ('c', 0) or not eq(z[5], W0): s.bad('flush:compress', f, i, 'the compressor is not given exactly the pending bytes of the buffer and the space behind the block header')
            C0 = ('x', ('m', T, s.off['CBufSize'][0], 4))
            ln = z[6]
            if len(wr) == 1:
                e = wr[0]
                if t.cbuf(e[1]) != 0 or not eq(e[2], add(ln, ('c', 3))): s.bad('flush:block', f, i, 'a compressed block is not written as header plus compressed length'); return
                s.header(f, i, e[3], ln, 1)
                if not any(k and e_[0] == 'ult' and eq(e_[1], ln) and eq(e_[2], W0) for e_, k in st.facts) and not le(st, ln, W0): s.bad('flush:larger', f, i, 'a compressed block may be longer than the bytes it stands for, and than its length field can hold')
            elif len(wr) == 2:
                if t.cbuf(wr[0][1]) != 0 or wr[0][2] != ('c', 3) or not is_buf(wr[1]): s.bad('flush:stored', f, i, 'a block stored uncompressed is not written as header plus pending bytes'); return
                s.header(f, i, wr[0][3], W0, 0)
            else: s.bad('flush:none', f, i, 'with compression on, pending bytes are not written as one block')
        t.on_ret = ret
        t.run()
    def header(s, f, i, h, ln, typ):
        if h[0] != ('c', typ): s.bad('flush:type%d' % typ, f, i, 'the block header of a %s block does not carry its type' % ('compressed' if typ else 'stored'))
        def hi(v):
            v = cut(v)
            return v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] in ('lshr', 'ashr') and v[1][2] == ('c', 8) and eq(v[1][1], ln) or \
                   v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] in ('udiv', 'sdiv') and v[1][2] == ('c', 256) and eq(v[1][1], ln)
        def lo(v):
            v = cut(v)
            return eq(v, ln) or v[0] == 'x' and isinstance(v[1], tuple) and (v[1][0] == 'and' and ('c', 255) in v[1][1:] and any(eq(y, ln) for y in v[1][1:]) or v[1][0] == 'urem' and v[1][2] == ('c', 256) and eq(v[1][1], ln))
        if not hi(h[1]) or not lo(h[2]): s.bad('flush:length%d' % typ, f, i, 'the block header of a %s block does not carry the length of what follows, high byte first' % ('compressed' if typ else 'stored'))
    # ---- fill
    def fill(s):
        for fc, can, pr in modes(s.off): s.fill_(fc, can, pr)
    def fill_(s, fc, can, pr):
        f = s.meth['FillBuffer']
        t = S(s.m, f, s.off, preset=pr)
        t.keyfacts = True
        t.split = lambda st: st.tag
        BS = ('x', ('m', T, s.off['BufSize'][0], 4)); CS = ('x', ('m', T, s.off['CBufSize'][0], 4))
        bufp = lambda p: t.buf(p if p[0] != 'x' else ('p', ('obj', p), 0))
        def length(v): return v is not None and is_len(v)
        def rd(st, a, i):
            s.cx.count('reads_from_the_file')
            if bufp(a[1]) is not None:
                if not le(st, a[2], BS): s.bad('fill:buffer', f, i, 'a length is read into the stream buffer without being limited to its size')
            elif t.cbuf(a[1]) == 3:
                if not le(st, a[2], CS): s.bad('fill:block', f, i, 'a block length taken from the file is used without being limited to the size of the block buffer')
        t.at_read = rd
        def z(st, n, args, cap, i):
            if n.startswith('uncompress') and not (bufp(args[0]) == ('c', 0) and le(st, cap, BS)): s.bad('fill:inflate', f, i, 'the decompressor may write more than the buffer holds')
        t.at_z = z
        def ret(st, v, i):
            s.cx.count('paths_of_fill')
            ev = st.tag or ()
            for n in ('NrRead', 'NrWritten'):
                if t.now(st, n) != ('c', 0): s.bad('fill:reset:' + n, f, i, 'after a fill %s is not zero' % n)
            rds = [e for e in ev if e[0] == 'read']
            zs = [e for e in ev if e[0] == 'z']
            L = t.now(st, 'NrLoaded')
            if not rds: return
            if not fc:
                if len(rds) != 1 or bufp(rds[0][1]) != ('c', 0) or not eq(rds[0][2], BS) or not eq(L, rds[0][3]): s.bad('fill:raw', f, i, 'an uncompressed fill does not load one buffer and count what was read')
                return
            if t.cbuf(rds[0][1]) != 0 or rds[0][2] != ('c', 3): s.bad('fill:header', f, i, 'with compression on, a fill does not start with the block header'); return
            if len(rds) == 1:
                if L != ('c', 0): s.bad('fill:short', f, i, 'a fill that got no block still counts loaded bytes')
                return
            ln = rds[1][2]
            if not is_len(ln): s.bad('fill:length', f, i, 'the block length is not composed from the two header bytes, high byte first'); return
            ty = ('x', ('hdr', 0))
            if zs:
                if not true(st, ty) and not any(e[0] == 'eq' and ty in e[1:] and (('c', 1) in e[1:]) == k for e, k in st.facts): s.bad('fill:type', f, i, 'a stored block is decompressed')
                if t.cbuf(rds[1][1]) != 3 or t.cbuf(zs[0][4]) != 3 or not is_len(zs[0][5]) or bufp(zs[0][2]) != ('c', 0): s.bad('fill:inflate', f, i, 'the block read is not what the decompressor is given')
                elif L != ('c', 0) and not eq(L, zs[0][6]): s.bad('fill:count', f, i, 'the number of bytes decompressed is not the number counted as loaded')
            else:
                if true(st, ty) and L != ('c', 0): s.bad('fill:type', f, i, 'a compressed block is taken as it is')
                if not true(st, ty) and bufp(rds[1][1]) != ('c', 0): s.bad('fill:stored', f, i, 'a stored block is not read into the buffer')
                elif L != ('c', 0) and not eq(L, rds[1][3]): s.bad('fill:count', f, i, 'the number of bytes read is not the number counted as loaded')
        t.on_ret = ret
        t.run()
    # ---- position
    def setpos(s):
        for fc, can, pr in modes(s.off): s.setpos_(fc, can, pr)
    def setpos_(s, fc, can, pr):
        f = s.meth['SetPosition']
        t = S(s.m, f, s.off, preset=pr)
        t.keyfacts = True
        t.split = lambda st: st.tag
        g = lambda n: ('x', ('m', T, s.off[n][0], s.off[n][1]))
        P = ('x', '$1')
        def ret(st, v, i):
            s.cx.count('paths_of_set_position')
            ev = [e[0] for e in st.tag or ()]
            flushed = 'flush' in ev
            sk = [e for e in st.tag or () if e[0] == 'seek']
            W0, L0, R0, P0 = g('NrWritten'), g('NrLoaded'), g('NrRead'), g('PhysPosition')
            if not flushed and not zero(st, W0):
                ok = any(k and e[0] == 'eq' and {0: eq(e[1], P) and eq(e[2], add(P0, W0)), 1: eq(e[2], P) and eq(e[1], add(P0, W0))}.get(0) or k and e[0] == 'eq' and eq(e[2], P) and eq(e[1], add(P0, W0)) for e, k in st.facts)
                if sk or not ok or fc: s.bad('setpos:pending', f, i, 'the position changes while output is pending without a flush')
                return
            if sk:
                if not eq(sk[-1][1], P): s.bad('setpos:seek', f, i, 'the file is set to another position than the one asked for')
                if t.now(st, 'NrLoaded') != ('c', 0) or t.now(st, 'NrRead') != ('c', 0): s.bad('setpos:discard', f, i, 'after setting the file position the input loaded before is not discarded')
                return
            # a move inside the loaded input
            if flushed: 
                s.bad('setpos:flushed', f, i, 'after a flush the file is not set to the position asked for'); return
            start = sub(P0, L0)
            if not eq(t.now(st, 'NrRead'), sub(P, start)): s.bad('setpos:inside', f, i, 'a move inside the loaded input does not set the read count to the distance from its start')
            if fc: s.bad('setpos:compressed', f, i, 'a position is looked up in loaded input although it was decompressed')
            if not le(st, start, P): s.bad('setpos:before', f, i, 'a position before the loaded input is taken as inside it')
            if not any((e[0] in ('slt', 'ult') and k and eq(e[1], P) and eq(e[2], P0)) or (e[0] in ('sle', 'ule') and not k and eq(e[1], P0) and eq(e[2], P)) or (e[0] in ('sle', 'ule') and k and eq(e[1], P) and eq(e[2], P0)) or (e[0] in ('slt', 'ult') and not k and eq(e[1], P0) and eq(e[2], P)) for e, k in st.facts):
                s.bad('setpos:behind', f, i, 'a position behind the loaded input is taken as inside it')
        t.on_ret = ret
        t.run()
    def getpos(s):
        for fc, can, pr in modes(s.off): s.getpos_(fc, can, pr)
    def getpos_(s, fc, can, pr):
        f = s.meth['GetPosition']
        t = S(s.m, f, s.off, preset=pr)
        t.keyfacts = True
        t.split = lambda st: st.tag
        g = lambda n: ('x', ('m', T, s.off[n][0], s.off[n][1]))
        def ret(st, v, i):
            s.cx.count('paths_of_get_position')
            ev = [e[0] for e in st.tag or ()]
            P = t.now(st, 'PhysPosition'); W0 = g('NrWritten')
            if v is None or v == TOP: return
            if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'def': return
            if zero(st, W0) and 'flush' not in ev:
                if not eq(v, add(sub(g('PhysPosition'), g('NrLoaded')), g('NrRead'))): s.bad('getpos:read', f, i, 'the position while reading is not the file position less the loaded bytes not yet taken')
            elif 'flush' not in ev:
                if not eq(v, add(g('PhysPosition'), W0)): s.bad('getpos:write', f, i, 'the position while writing is not the file position plus the pending bytes')
                elif fc: s.bad('getpos:compressed', f, i, 'with compression on the position is computed without writing the pending block')
        t.keyx = lambda v: v[0] == 'x'
        t.on_ret = ret
        t.run()
    def setcomp(s):
        for fc, can, pr in modes(s.off):
            for v in (0, 1): s.setcomp_(fc, v, pr)
    def setcomp_(s, fc, V, pr):
        f = s.meth['SetCompression']
        t = S(s.m, f, s.off, preset=pr)
        t.argv = {1: ('c', V)}
        W0 = ('x', ('m', T, s.off['NrWritten'][0], 4))
        t.keyfacts = True
        t.split = lambda st: st.tag
        def ret(st, v, i):
            s.cx.count('paths_of_set_compression')
            fl = any(e[0] == 'flush' for e in st.tag or ())
            if fc != V and not fl and not zero(st, W0): s.bad('setcomp:pending', f, i, 'compression is switched while output is pending without a flush')
            if fc != V and not fl:
                for n in ('NrLoaded', 'NrRead'):
                    if t.now(st, n) != ('c', 0): s.bad('setcomp:discard:' + n, f, i, 'compression is switched without discarding the input loaded before')
            cv = t.now(st, 'FCompress')
            if not isconst(cv) or bool(cv[1]) != bool(V): s.bad('setcomp:value', f, i, 'the compression mode is not set to the one asked for')
        t.on_ret = ret
        t.run()
    def dtor(s):
        fs = [f for f in s.m.fns.values() if not f.decl and f.scope.split('::')[-1] == CLS and f.sname == '~' + CLS and len(f.blocks) > 1]
        for f in fs[:1]:
            t = S(s.m, f, s.off)
            W0 = ('x', ('m', T, s.off['NrWritten'][0], 4))
            t.keyfacts = True
            t.split = lambda st: st.tag
            def ret(st, v, i):
                s.cx.count('paths_of_destructor')
                if not any(e[0] == 'flush' for e in st.tag or ()) and not zero(st, W0): s.bad('dtor:flush', f, i, 'the stream is destroyed with output pending')
            t.on_ret = ret
            t.run()
    def ctor(s):
        fs = [f for f in s.m.fns.values() if not f.decl and f.scope.split('::')[-1] == CLS and f.sname == CLS]
        for f in fs[:1]:
            t = S(s.m, f, s.off)
            sizes = []
            oc = t.calls
            def calls(st, cn, args, i):
                if cn == 'malloc' and t.final: sizes.append(args[0])
                return oc(st, cn, args, i)
            t.on_call = calls
            def ret(st, v, i):
                s.cx.count('paths_of_stream_constructor')
                bs, cs = t.now(st, 'BufSize'), t.now(st, 'CBufSize')
                if isconst(bs) and not 0 < bs[1] <= 65535: s.bad('ctor:size', f, i, 'the buffer holds %d bytes, more than the two length bytes of a block header can say' % bs[1])
                if isconst(bs) and isconst(cs) and cs[1] - 3 < bs[1]: s.bad('ctor:cbuf', f, i, 'the block buffer is smaller than the largest block')
                for z in sizes:
                    if isconst(z) and isconst(cs) and z[1] < cs[1] + 3: s.bad('ctor:alloc', f, i, 'the block buffer is allocated smaller than its stated size plus header')
                for n in ('NrLoaded', 'NrRead', 'NrWritten'):
                    if t.now(st, n) != ('c', 0): s.bad('ctor:zero:' + n, f, i, '%s is not zero in a new stream' % n)
            t.on_ret = ret
            t.run()

def cut(v):
    while v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] in ('trunc',): v = v[1][2]
    if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'and' and ('c', 255) in v[1][1:]:
        o = [y for y in v[1][1:] if y != ('c', 255)]
        if o and o[0][0] == 'x' and isinstance(o[0][1], tuple) and o[0][1][0] in ('lshr', 'ashr'): return o[0]
    return v
def is_len(v):
    """hdr1 * 256 + hdr2"""
    while v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'trunc': v = v[1][2]
    if v[0] != 'x' or not isinstance(v[1], tuple) or v[1][0] not in ('add', 'or'): return False
    ps = v[1][1:]
    h1 = [p for p in ps if p == ('x', ('shl', ('x', ('hdr', 1)), ('c', 8))) or p[0] == 'x' and isinstance(p[1], tuple) and p[1][0] == 'mul' and ('x', ('hdr', 1)) in p[1] and ('c', 256) in p[1]]
    return len(h1) == 1 and ('x', ('hdr', 2)) in ps
def strip(f, o):
    while o and o[0] == 'v':
        d = f.idef(o)
        if d is not None and d[0] in ('zext', 'sext', 'trunc', 'freeze'): o = d[4]
        else: break
    return o
