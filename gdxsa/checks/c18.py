import btp, tp, ir
from btp import bytes_of, compose
RULE = ('(1) In the class of the stream used for GDX files, each of the four number readers reads exactly its width once and returns the bytes unchanged where a byte-order mark of the stream is '
        'zero and fully reversed where it is not; the marks used for 2, 4 and 8 byte numbers are the ones the constructor derives from the pattern of that width. (2) On opening an existing file the '
        'constructor reads size and pattern of the three widths in order and sets each mark: native if the pattern matches, swapped if the reversed pattern matches, bad otherwise; on creating a file it '
        'writes the sizes and native patterns in the same order. Every number writer writes the bytes of its argument unchanged. (3) Opening a file for reading goes on only after the combined test of '
        'the marks, which is non-zero exactly for bad marks. (4) No other code reads more than one byte from a stream into storage of a multi-byte number, and no code calls the readers of the base class.')
EXPLANATION = 'abstract interpretation of the stream methods over symbolic bytes, virtual calls resolved through the vtable, plus a storage-type rule at every raw read in the library'
TECHNIQUE = 'static analysis: trace-partitioned abstract interpretation of the compiler IR with symbolic bytes; typed call-site rule for raw reads'
CLS = 'TMiBufferedStream'
PAT = {2: 0x1234, 4: 0x12345678, 8: ('f', 0x400921FB54442D18)}

class Bytes(btp.BTP):
    """events: sequence of raw reads and writes, part of the partition"""
    def __init__(s, m, f, vt, members, **kw):
        btp.BTP.__init__(s, m, f, vt, **kw)
        s.order = members
        s.split = s.tagof
        s.on_call = s.oc
        s.maxpart = 4000
    def tagof(s, st):
        ev = st.tag[0] if st.tag else ()
        fs = frozenset(x for x in st.facts if s.relevant(x))
        mm = tuple(sorted((k[1], v[1]) for k, v in st.mem.items() if k[0] == ('arg', 0) and k[1] in s.order))
        return (ev, fs, mm)
    def relevant(s, x):
        if isinstance(x, tuple):
            if x and x[0] in ('in', 'm'): return True
            return any(s.relevant(y) for y in x)
        return False
    def ev(s, st, e):
        t = st.tag or ((), frozenset(), ())
        st.tag = (t[0] + (e,), t[1], t[2])
    def oc(s, st, cn, args, i):
        f = s.m.fns.get(cn)
        if not f: return None
        n = f.mname; sc = f.dem
        if 'gmsstrm' not in sc: return None
        if n == 'Read':
            z = args[2]
            sym = ('x', ('in', i[1]))
            s.ev(st, ('R', i[1], z[1] if tp.isconst(z) else None))
            if tp.isconst(z) and args[1][0] == 'p':
                for k in range(z[1]): st.mem[(args[1][1], args[1][2] + k)] = (1, ('by', sym, k, z[1]) if z[1] > 1 else sym)
            elif args[1][0] == 'p': s.clobber(st, args[1][1])
            return ('x', ('nread', i[1]))
        if n == 'Write':
            z = args[2]
            v = None
            if tp.isconst(z) and args[1][0] == 'p': v = s.load(st, args[1], z[1])
            s.ev(st, ('W', z[1] if tp.isconst(z) else None, v))
            return ('x', ('nwritten', i[1]))
        if n == 'SetPosition':
            s.ev(st, ('S',)); return tp.TOP
        if n == 'GetPosition': return ('x', ('pos', i[1]))
        return None

def run(cx):
    m = cx.variant('strm')
    vt = btp.vtable(m, CLS)
    cx.need(vt, 'no vtable of %s' % CLS)
    fields = {o: n for n, o, z, t in m.fields('gdlib::gmsstrm::' + CLS)}
    sizes = {o: z for n, o, z, t in m.fields('gdlib::gmsstrm::' + CLS)}
    ofs = set(fields)
    mark = {}
    for meth, w in (('ReadWord', 2), ('ReadInteger', 4), ('ReadDouble', 8), ('ReadInt64', 8)):
        fn = [m.fns[x] for x in vt.values() if m.fns[x].mname == meth]
        cx.need(fn, 'no virtual %s' % meth)
        f = fn[0]
        if f.scope.split('::')[-1] != CLS:
            cx.violation('%s:virtual' % meth, f.where, f.short, '%s of a GDX file stream is the reader of %s, which applies no byte-order correction' % (meth, f.scope)); continue
        reader(cx, m, vt, f, meth, w, ofs, fields, mark)
    for meth, w in (('WriteWord', 2), ('WriteInteger', 4), ('WriteDouble', 8), ('WriteInt64', 8)):
        for f in btp.named(m, 'TXStream', meth) + btp.named(m, CLS, meth): writer(cx, m, vt, f, meth, w)
    if len(mark) == 4 and mark['ReadInt64'] not in (mark['ReadInteger'], mark['ReadDouble']):
        cx.violation('ReadInt64:mark', '', CLS + '::ReadInt64', 'ReadInt64 is corrected by the mark %s, which belongs to another width' % fields[mark['ReadInt64']])
    ctor(cx, m, vt, ofs, fields, mark)
    good(cx, m, vt, mark, fields)
    opened(cx)
    raw(cx)

def reader(cx, m, vt, f, meth, w, ofs, fields, mark):
    t = Bytes(m, f, vt, ofs)
    seen = {}
    def ret(st, v, i):
        cx.count('paths_of_number_readers')
        ev = st.tag[0] if st.tag else ()
        rd = [e for e in ev if e[0] == 'R']
        if len(rd) != 1 or rd[0][2] != w or any(e[0] != 'R' for e in ev):
            cx.violation('%s:width' % meth, f.where, f.short, '%s reads %s bytes instead of exactly %d' % (meth, '+'.join(str(e[2]) for e in rd) or 'no', w)); return
        sym = ('x', ('in', rd[0][1]))
        nat = [('by', sym, k, w) for k in range(w)]
        if v is None or v == tp.TOP or tp.mentions(v, 'def'):
            cx.violation('%s:value' % meth, f.where, f.short, '%s returns on one path a value that is not the bytes it read' % meth); return
        bs = bytes_of(v, w)
        if bs == nat: k = 0
        elif bs == nat[::-1]: k = 1
        else:
            cx.violation('%s:bytes' % meth, f.where, f.short, '%s returns the bytes it read neither unchanged nor fully reversed (%s)' % (meth, ' '.join(str(b[2]) if b[0] == 'by' else '?' for b in bs))); return
        ms = {}
        for e, tr in st.facts:
            o = marktest(e)
            if o is not None: ms[o] = ms.get(o, set()) | {not tr if e[0] == 'eq' else tr}
        for o, vs in ms.items():
            if vs == {bool(k)}: seen.setdefault(o, set()).add(k)
            else: seen.setdefault(o, set()).add('wrong')
        if not ms: seen.setdefault(None, set()).add(k)
    t.on_ret = ret
    t.run()
    if cx.viol: 
        if any(v['key'].startswith(meth) for v in cx.viol): return
    ok = [o for o, s_ in seen.items() if s_ == {0, 1}]
    if not ok:
        cx.violation('%s:select' % meth, f.where, f.short, '%s does not return reversed bytes exactly when a byte-order mark is set (%s)' % (meth, {fields.get(o, o): sorted(map(str, s_)) for o, s_ in seen.items()})); return
    mark[meth] = ok[0]
    cx.sample('%s: %d bytes, reversed iff %s' % (meth, w, fields[ok[0]]))
def marktest(e):
    if isinstance(e, tuple) and e[0] == 'eq':
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            if b == ('c', 0) and a[0] == 'x' and isinstance(a[1], tuple) and a[1][0] == 'm' and a[1][1] == ('arg', 0): return a[1][2]
    if isinstance(e, tuple) and e[0] == 'm' and e[1] == ('arg', 0): return e[2]
    return None

def writer(cx, m, vt, f, meth, w):
    t = Bytes(m, f, vt, set())
    def ret(st, v, i):
        cx.count('paths_of_number_writers')
        ws = [e for e in (st.tag[0] if st.tag else ()) if e[0] == 'W']
        if len(ws) != 1 or ws[0][1] != w or ws[0][2] != ('x', '$1'):
            cx.violation('%s:bytes' % meth, f.where, f.short, '%s does not write exactly the %d bytes of its argument in their native order' % (meth, w))
    t.on_ret = ret
    t.run()

def ctor(cx, m, vt, ofs, fields, mark):
    fs = [f for f in m.fns.values() if not f.decl and f.scope.split('::')[-1] == CLS and f.sname == CLS]
    cx.need(fs, 'no constructor of %s' % CLS)
    f = fs[0]
    modearg = len(f.args) - 1
    io = [o for o, n in fields.items() if n == 'FLastIOResult']
    for mode, name in ((0xFFFF, 'create'), (0, 'read'), (2, 'append')):
        n = [0]
        t = Bytes(m, f, vt, ofs)
        t.argv = {modearg: ('c', tp.wrap(mode, 16))}
        def ret(st, v, i):
            ev = st.tag[0] if st.tag else ()
            cx.count('paths_of_constructor')
            fail = any(tr is False and e[0] == 'eq' and ('c', 0) in e[1:] and any(x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'm' and fields.get(x[1][2]) == 'FLastIOResult' for x in e[1:]) for e, tr in st.facts)
            if fail and not ev: return
            n[0] += 1
            if mode == 0xFFFF:
                exp = []
                for w in (2, 4, 8):
                    p = PAT[w]
                    exp += [('W', 1, [('c', w)]), ('W', w, bytes_of(('c', p), w))]
                got = [(e[0], e[1], bytes_of(e[2], e[1]) if e[2] is not None and e[1] else None) for e in ev]
                if got != exp: cx.violation('ctor:create', f.where, f.short, 'a new file does not start with the sizes and native patterns of the 2, 4 and 8 byte numbers', str(ev)[:300])
                return
            pos = 0
            for w, meth in ((2, 'ReadWord'), (4, 'ReadInteger'), (8, 'ReadDouble')):
                if meth not in mark: return
                o = mark[meth]
                c = st.mem.get((('arg', 0), o))
                c = c[1] if c else None
                if pos >= len(ev) or ev[pos][0] != 'R' or ev[pos][2] != 1:
                    cx.violation('ctor:%s:seq%d' % (name, w), f.where, f.short, 'opening a file does not read the size of the %d byte pattern where the writer puts it' % w); return
                sz = ('x', ('in', ev[pos][1])); pos += 1
                if pos < len(ev) and ev[pos][0] == 'R' and ev[pos][2] == w:
                    sym = ('x', ('in', ev[pos][1])); pos += 1
                    eqs = dict(patfacts(st.facts, sym, w))
                    want = 0 if eqs.get('n') else 1 if eqs.get('n') is False and eqs.get('r') else 'bad' if eqs.get('n') is False and eqs.get('r') is False else None
                    if want is None:
                        cx.violation('ctor:%s:pattern%d' % (name, w), f.where, f.short, 'on one path the byte-order mark %s is set without comparing the %d byte pattern, as read and reversed, with the expected one' % (fields[o], w)); return
                    okv = c in (('c', 254), ('c', 255)) if want == 'bad' else c == ('c', want)
                    if not okv:
                        cx.violation('ctor:%s:mark%d' % (name, w), f.where, f.short, 'byte-order mark %s is %s where the %d byte pattern %s' % (fields[o], c[1] if c and tp.isconst(c) else 'unknown', w, {0: 'matches as read', 1: 'matches reversed', 'bad': 'does not match'}[want])); return
                    if not any(tr and e[0] == 'eq' and sz in e[1:] and ('c', w) in e[1:] for e, tr in st.facts) and not any(not tr and e[0] == 'not' for e, tr in st.facts):
                        cx.violation('ctor:%s:size%d' % (name, w), f.where, f.short, 'the %d byte pattern is read without the size read before being %d' % (w, w)); return
                else:
                    if pos < len(ev) and ev[pos][0] == 'S': pos += 1
                    if c not in (('c', 254), ('c', 255)):
                        cx.violation('ctor:%s:bad%d' % (name, w), f.where, f.short, 'byte-order mark %s is not marked bad where the size of the %d byte pattern is wrong' % (fields[o], w)); return
        t.on_ret = ret
        t.run()
        if not n[0]: cx.violation('ctor:%s:none' % name, f.where, f.short, 'the constructor never reaches the patterns of a file opened for %s' % name)
def patfacts(facts, sym, w):
    nat = [('by', sym, k, w) for k in range(w)]
    pat = bytes_of(('c', PAT[w]), w)
    for e, tr in facts:
        if e[0] in ('eq', 'foeq', 'fueq', 'fune', 'fone'):
            t = tr if e[0] in ('eq', 'foeq', 'fueq') else not tr
            for a, b in ((e[1], e[2]), (e[2], e[1])):
                ba = bytes_of(a, w); bb = bytes_of(b, w)
                if ba in (nat, nat[::-1]) and bb == pat: yield ('n' if ba == nat else 'r', t)
                elif ba in (nat, nat[::-1]) and bb == pat[::-1]: yield ('r' if ba == nat else 'n', t)

def good(cx, m, vt, mark, fields):
    fs = btp.named(m, CLS, 'GoodByteOrder')
    if not fs or len(mark) < 4: return
    f = fs[0]
    os_ = [mark['ReadWord'], mark['ReadInteger'], mark['ReadDouble']]
    for a in (0, 1, 254, 255):
        for b in (0, 1, 254, 255):
            for c in (0, 1, 254, 255):
                vals = (a, b, c)
                t = btp.BTP(m, f, vt, preset={(('arg', 0), o): ('c', tp.wrap(v, 8)) for o, v in zip(os_, vals)})
                res = []
                t.on_ret = lambda st, v, i: res.append(v)
                t.run()
                cx.count('mark_combinations')
                bad = any(v >= 254 for v in vals)
                for v in res:
                    if v == tp.TOP or not tp.isconst(v): cx.count('undecided_mark_combinations'); continue
                    if bool(v[1]) != bad:
                        cx.violation('good:%s' % ('accepts' if bad else 'refuses'), f.where, f.short, 'the byte-order test %s a file whose marks are %s (word, integer, double)' % ('accepts' if bad else 'refuses', vals)); return

def opened(cx):
    """opening for reading continues only where the byte-order test said 0"""
    m = cx.module()
    fs = m.find('gdx::TGXFileObj', 'gdxOpenReadXX')
    fs = fs if isinstance(fs, list) else [fs] if fs else []
    if not fs: return
    f = fs[0]
    hits = []
    for bi, b in enumerate(f.blocks):
        for i in b:
            if i[0] in ('call', 'invoke') and any(g.mname == 'GoodByteOrder' for g in m.resolve(f, i)): hits.append((bi, i))
    if not hits:
        reach, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g.name in reach or g.decl: continue
            reach.add(g.name)
            for _, i in g.calls():
                for h in m.resolve(g, i):
                    if h.mname == 'GoodByteOrder': return
                    if h.in_repo: todo.append(h)
        cx.violation('open:test', f.where, f.short, 'a file is opened for reading without the byte-order test'); return
    for bi, i in hits:
        cx.count('byte_order_tests')
        for b2, blk in enumerate(f.blocks):
            t = blk[-1]
            if t[0] != 'br' or len(t[5]) < 2: continue
            d = f.idef(t[4])
            neg = None
            if d and d[0] == 'icmp' and d[4] in ('ne', 'eq') and ['v', i[1]] in (d[5], d[6]): neg = t[5][0] if d[4] == 'ne' else t[5][1]
            if neg is None: continue
            seen, todo = set(), [neg]
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                for j in f.blocks[x]:
                    if j[0] in ('call', 'invoke') and any(g.scope.startswith('gdlib::gmsstrm') and g.mname.startswith('Read') for g in m.resolve(f, j)):
                        cx.violation('open:refuse', where(m, f, j), f.short, 'a file whose byte-order marks are bad is read all the same'); return
                todo += f.succ()[x]

# ---- raw reads
BASE = ('ReadDouble', 'ReadInteger', 'ReadWord', 'ReadInt64')
def raw(cx):
    m = cx.module()
    target = {}
    # functions reading raw bytes into one of their pointer arguments: name -> (pointer arg, size arg)
    for n, f in m.fns.items():
        if f.mname == 'Read' and 'gmsstrm::T' in f.dem and 'Stream' in f.dem.split('Read')[0]: target[n] = (1, 2)
        if f.mname == 'p3FileRead': target[n] = (1, 2)
    layer = ('TXFileStream', 'TBufferedFileStream')
    slots = {}
    exempt = set()
    ord_ = [f for f in m.fns.values() if f.scope.split('::')[-1] == CLS and not f.decl]
    # whatever only the verified readers and the constructor reach has been followed above
    verified = {f.name for f in ord_ if f.mname in BASE or f.mname == CLS or f.mname == 'DetermineByteOrder'}
    callers = {}
    for f in m.fns.values():
        if f.decl: continue
        for b in f.blocks:
            for i in b:
                if i[0] in ('call', 'invoke'):
                    c = m.callee_name(i)
                    if c: callers.setdefault(c, []).append((f, i))
    ch = True
    while ch:
        ch = False
        for n, f in m.fns.items():
            if n in verified or f.decl or 'gmsstrm' not in f.dem or n not in callers: continue
            if all(g.name in verified for g, _ in callers[n]): verified.add(n); ch = True
    for f in m.fns.values():
        if f.decl or not f.in_repo: continue
        for b in f.blocks:
            for i in b:
                if i[0] not in ('call', 'invoke'): continue
                c = m.callee_name(i)
                if c:
                    g = m.fns.get(c)
                    if g and g.scope.split('::')[-1] == 'TXStream' and g.mname in BASE:
                        cx.violation('raw:%s:%s' % (f.short, g.mname), where(m, f, i), f.short, '%s is called non-virtually on the base class, around the byte-order correction' % g.mname)
                names = [x.name for x in m.resolve(f, i)]
                if not any(x in target for x in names): continue
                cx.count('raw_read_sites')
                if f.name in verified or f.scope.split('::')[-1] in layer or f.scope.split('::')[-1] in ('TXStream',) and f.mname in BASE + ('ReadValue', 'ReadByte', 'ReadChar', 'ReadBool'): continue
                judge(cx, m, f, i, i[5][1], i[5][2], callers, 0)
def judge(cx, m, f, i, p, z, callers, depth):
    if z[0] == 'c' and z[1] <= 1: return
    o = p
    while True:
        if o[0] != 'v': break
        d = f.idef(o)
        if d is None:
            # a parameter: judged at the callers
            if depth < 3:
                for g, ci in callers.get(f.name, []):
                    if o[1] < len(ci[5]):
                        zz = z
                        if z[0] == 'v' and f.idef(z) is None and z[1] < len(ci[5]): zz = ci[5][z[1]]
                        judge(cx, m, g, ci, ci[5][o[1]], zz, callers, depth + 1)
            return
        if d[0] == 'getelementptr' and d[4] == ['v', 0] and f.args and f.args[0][0] == 'this' and not d[5][2]:
            t = next((ty for n, o_, z_, ty in m.fields(f.scope) if o_ <= d[5][1] < o_ + z_), '')
            if any(x in t.replace('unsigned', '') for x in ('int', 'short', 'long', 'double')) and 'char' not in t: bad(cx, m, f, i, t)
            return
        if d[0] == 'getelementptr':
            if d[5][1] or d[5][2]:
                t = str(d[5][0])
                if t in ('i16', 'i32', 'i64', 'double'): bad(cx, m, f, i, t)
            o = d[4]; continue
        if d[0] in ('bitcast', 'addrspacecast'): o = d[4]; continue
        if d[0] == 'alloca':
            t = elem(str(d[4]) if not isinstance(d[4], list) else str(d[4]))
            if any(x in t for x in ('i16', 'i32', 'i64', 'double', 'float')) and 'i8' not in t and 'class' not in t and 'struct' not in t: bad(cx, m, f, i, t)
            return
        return
def elem(t): return t
def bad(cx, m, f, i, t):
    cx.violation('raw:%s:%s' % (f.short, t), where(m, f, i), f.short, 'a number of several bytes (%s) is read straight from the stream, around the byte-order correction' % t)
def where(m, f, i):
    l = str(i[3])
    if ':' not in l: return '%s:%s' % (f.relfile, l)
    return l[len(m.repo):] if l.startswith(m.repo) else l
