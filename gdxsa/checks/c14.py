"""C14: I/O failures are recorded, kept and surfaced."""
import re
import btp, tp
from tp import TOP, isconst
RULE = ('A failing open, read, write, lseek or close makes the p3File function that issued it return a non-zero code with a zero byte count; the stream method that '
        'called it, or that got a short write, leaves the code in the recorded result if none was recorded before, and a recorded one is never replaced or cleared '
        'except by the query that returns it; a failure recorded while the file is opened is returned through ErrNr with result 0; gdxClose returns a failure of any '
        'write, seek, flush or close it causes, and nothing is left for the destructor to write or close')
EXPLANATION = ('abstract fault injection: per system call, per stream method and per operation, trace-partitioned constant propagation over all paths with one call made to '
               'fail and every other value unknown; the value of the recorded result and of the return is checked on every path through that call')
TECHNIQUE = 'static analysis: trace-partitioned constant propagation of a failing result over the compiler IR'
ASSUMPTIONS = ['POSIX build: open/read/write/lseek/close/fstat report failure by a negative result and set errno to a non-zero value']
SYS = {'read': 1, 'write': 1, 'pread': 1, 'pwrite': 1, 'lseek': 0, 'lseek64': 0, 'open': 0, 'open64': 0, 'close': 0, 'fstat': 0, 'fsync': 0}
OLD, NEW, ERRNO = 77, 5, 28
T = ('arg', 0)

class F(tp.TP):
    """one call site fails; the tag says that it was passed"""
    def __init__(s, m, f, site, **kw):
        tp.TP.__init__(s, m, f, **kw)
        s.site = site
        s.on_call = s.calls
        s.maxdepth = 10
    def calls(s, st, cn, args, i):
        if cn == '__errno_location': return ('p', ('errno',), 0)
        return s.hook(s, st, cn, args, i)
    hook = staticmethod(lambda t, st, cn, args, i: None)

def wh(f, i):
    w = str(i[3]) if i is not None and len(i) > 3 and i[3] else ''
    return w if ':' in w else f.where
def failed(st, v):
    if isconst(v): return v[1] != 0
    if v == ('x', ('errno',)): return True
    if v[0] == 'x' and v[1][0] == 'sel':
        d = dict(st.facts)
        if v[1][1][1] in d: return failed(st, v[1][2 if d[v[1][1][1]] else 3])
    return any(isinstance(e, tuple) and e[0] == 'eq' and v in e and ('c', 0) in e and not tr for e, tr in st.facts)
def sites(f):
    for b in f.blocks:
        for i in b:
            if i[0] in ('call', 'invoke'): yield i
def short(m, i):
    cn = m.callee_name(i) or ''
    g = m.fns.get(cn)
    return (g.mname if g else cn) or cn
def p3name(cn):
    k = re.match(r'_ZN3rtl7p3utils\d+(p3File[A-Za-z]+)E', cn)
    return k.group(1) if k else None

def run(cx):
    m = cx.variant('strm')
    cx.need(any(f.mname == 'p3FileWrite' for f in m.fns.values()), 'the file functions were not found')
    system(cx, m); streams(cx, m); opens(cx, m); closing(cx, m)

def passed(cx, t, f, what):
    if t.over: cx.violation('budget|%s|%s' % (f.sname, what), f.where, f.sname, 'analysis budget exceeded', '')

# ---- the p3File functions
def system(cx, m):
    n = 0
    for f in m.fns.values():
        if f.decl or '_ZN3rtl7p3utils' not in f.name: continue
        for i in sites(f):
            cn = m.callee_name(i) or ''
            if cn not in SYS: continue
            if cn == 'close' and any((m.callee_name(j) or '') in ('open', 'open64') for j in sites(f)): continue  # giving up what was just opened
            n += 1
            for ok in (False, True):
                t = F(m, f, i, preset={(('errno',), 0): ('x', ('errno',))})
                t.keyfacts = True
                def hook(t, st, cn, args, j, i=i, ok=ok):
                    if j is i:
                        if not ok: st.tag = 'hit'; return ('c', -1)
                        if SYS[cn]: st.tag = 'hit'; return ('c', 42)
                    return None
                def ret(st, v, j, f=f, i=i, ok=ok, t=t, cn=cn):
                    if st.tag != 'hit': return
                    cx.count('system call outcomes')
                    if not ok and not failed(st, v):
                        cx.violation('sys|%s|%s' % (f.sname, cn), wh(f, i), f.sname, 'a failing %s() does not make the function return an error' % cn, 'returns %r' % (v,))
                    if SYS[cn]:
                        c = t.load(st, ('p', ('arg', 3), 0), 4)
                        if c != ('c', 42 if ok else 0):
                            cx.violation('syscount|%s|%s|%d' % (f.sname, cn, ok), wh(f, i), f.sname, 'the byte count after a %s %s() is not %s' % ('successful' if ok else 'failing', cn, 'its result' if ok else '0'), '%r' % (c,))
                        if ok and v != ('c', 0):
                            cx.violation('sysok|%s|%s' % (f.sname, cn), wh(f, i), f.sname, 'a successful %s() is reported as an error' % cn, '%r' % (v,))
                t.hook, t.on_ret = hook, ret
                t.run()
                passed(cx, t, f, cn)
    cx.count('system call sites', n)

# ---- the stream methods
CLS = ('TXFileStream', 'TBufferedFileStream', 'TMiBufferedStream')
def offs(m):
    o = {}
    for c in CLS:
        for n, off, size, *_ in m.fields('gdlib::gmsstrm::' + c):
            o[n] = (off, size)
    return o
def streams(cx, m):
    o = offs(m)
    cx.need('FLastIOResult' in o, 'the member holding the recorded result was not found')
    L, LZ = o['FLastIOResult']
    only_true = 'FCanCompress' in o and all(stored_true(f, o['FCanCompress'][0]) for f in m.fns.values() if not f.decl and any(f.scope.endswith('::' + c) for c in CLS))
    for f in m.fns.values():
        if f.decl or not any(f.scope.endswith('::' + c) for c in CLS) or f.sname.startswith('~'): continue
        ss = [(i, p3name(m.callee_name(i) or '')) for i in sites(f)]
        ss = [(i, p) for i, p in ss if p in ('p3FileOpen', 'p3FileRead', 'p3FileWrite', 'p3FileSetPointer', 'p3FileClose')]
        cx.count('stream methods')
        ctor = f.sname == f.scope.split('::')[-1]
        for i, p in ss:
            cx.count('file call sites in stream methods')
            kinds = ['fail'] + (['short'] if p == 'p3FileWrite' else [])
            for kind in kinds:
                for old in ((0,) if ctor else (0, OLD)):
                    t = F(m, f, i, preset={} if ctor else {(T, L): ('c', old)})
                    if p == 'p3FileWrite' and f.sname == 'Write': t.argv = {2: ('c', 100)}
                    def hook(t, st, cn, args, j, i=i, kind=kind):
                        q = p3name(cn)
                        if j is i:
                            st.tag, first = 'hit', st.tag != 'hit'
                            if q in ('p3FileRead', 'p3FileWrite'): t.store(st, args[3], ('c', 60 if kind == 'short' and first else 0), 4)
                            return ('c', NEW if kind == 'fail' else 0)
                        if q in ('p3FileRead', 'p3FileWrite'):
                            t.store(st, args[3], args[2], 4)
                            return ('c', 0)
                        if q: return ('c', 0)
                        return None
                    def ret(st, v, j, f=f, i=i, t=t, old=old, kind=kind, p=p):
                        if st.tag != 'hit': return
                        cx.count('failing file calls followed to the return')
                        c = t.load(st, ('p', T, L), LZ)
                        if old and c != ('c', old):
                            cx.violation('kept|%s|%s' % (f.sname, p), wh(f, i), f.sname, 'a failure recorded earlier does not survive a later failing %s' % p, '%r' % (c,))
                        elif not old and not (isconst(c) and (c[1] == NEW or kind == 'short' and c[1] != 0)):
                            cx.violation('rec|%s|%s|%s' % (f.sname, p, kind), wh(f, i), f.sname, 'the result of a %s %s is not recorded' % ('failing' if kind == 'fail' else 'short', p), '%r' % (c,))
                    t.hook, t.on_ret = hook, ret
                    t.run()
                    passed(cx, t, f, p)
        # what was recorded stays
        if ctor or not touches(m, f, L): continue
        pre = {(T, L): ('c', OLD)}
        if only_true: pre[(T, o['FCanCompress'][0])] = ('c', 1)
        t = F(m, f, None, preset=pre)
        t.hook = lambda t, st, cn, args, j: TOP if m.fns.get(cn) and any(m.fns[cn].scope.endswith('::' + c) for c in CLS) else None
        def ret(st, v, j, f=f, t=t):
            cx.count('exits of methods writing the recorded result')
            c = t.load(st, ('p', T, L), LZ)
            if c == ('c', OLD): return
            if c == ('c', 0) and v == ('c', OLD): return
            cx.violation('lost|%s' % f.sname, f.where, f.sname, 'a recorded failure is replaced or cleared without being returned', 'recorded result at the exit: %r' % (c,))
        t.on_ret = ret
        t.run()
        passed(cx, t, f, 'keep')

def stored_true(f, off):
    """the member is only ever set to true"""
    ps = {i[1] for b in f.blocks for i in b if i[0] == 'getelementptr' and i[4] == ['v', 0] and i[5][1] == off and not i[5][2]}
    return all(i[4] in (['c', 1, 8], ['c', 1, 1], ['c', -1, 1]) for b in f.blocks for i in b if i[0] == 'store' and i[5][0] == 'v' and i[5][1] in ps)
def touches(m, f, L):
    for b in f.blocks:
        for i in b:
            if i[0] == 'getelementptr' and i[4] == ['v', 0] and i[5][1] == L and not i[5][2]: return True
    return False

# ---- opening
def opens(cx, m):
    o = offs(m)
    for f in m.fns.values():
        if f.decl or not f.scope.endswith('TGXFileObj') or not f.sname.startswith('gdxOpen'): continue
        for i in sites(f):
            cn = m.callee_name(i) or ''
            g = m.fns.get(cn)
            if not g: continue
            ctor = g.sname in CLS and g.scope.endswith('::' + g.sname)
            sub = g.scope.endswith('TGXFileObj') and g.sname in ('gdxOpenReadXX', 'gdxOpenWriteEx')
            if not ctor and not sub: continue
            cx.count('opening sites')
            t = F(m, f, i)
            e = errarg(f)
            def hook(t, st, cn, args, j, i=i, ctor=ctor):
                if j is not i: return None
                st.tag = 'hit'
                if ctor:
                    b = args[0] if args[0][0] == 'p' else ('p', ('obj', args[0]), 0)
                    t.store(st, ('p', b[1], b[2] + o['FLastIOResult'][0]), ('c', 13), o['FLastIOResult'][1])
                    if 'FileIsOpen' in o: t.store(st, ('p', b[1], b[2] + o['FileIsOpen'][0]), ('c', 0), 1)
                    return TOP
                t.store(st, args[-1], ('c', 13), 4)
                return ('c', 0)
            def ret(st, v, j, f=f, i=i, t=t, e=e):
                if st.tag != 'hit': return
                cx.count('exits after a failing open')
                c = t.load(st, ('p', ('arg', e), 0), 4)
                if not (isconst(c) and c[1]): cx.violation('open|%s' % f.sname, wh(f, i), f.sname, 'the failure of opening the file is not returned through ErrNr', '%r' % (c,))
                if v != ('c', 0): cx.violation('openret|%s' % f.sname, wh(f, i), f.sname, 'opening returns success although the file could not be opened', '%r' % (v,))
            t.hook, t.on_ret = hook, ret
            t.run()
            passed(cx, t, f, 'open')
def errarg(f): return len(f.args) - 1

# ---- closing and the last-error query
def closing(cx, m):
    o = offs(m)
    obj = {n: (off, size) for n, off, size, *_ in m.fields('gdx::TGXFileObj')}
    cx.need('FFile' in obj, 'the member holding the stream was not found')
    B = ('stream',)
    ff = ('p', B, 0)
    L, LZ = o['FLastIOResult']
    vt = btp.vtable(m, 'TMiBufferedStream')
    def virt(t, st, i):
        c = t.val(st, i[4])
        if c[0] == 'x' and c[1][0] == 'm' and c[1][1] == ('obj', ('x', ('m', B, 0, 8))): return vt.get(c[1][2], '?')
        return None
    for f in m.fns.values():
        if f.decl or not f.scope.endswith('TGXFileObj') or f.sname not in ('gdxClose', 'gdxGetLastError'): continue
        # every failing call leaves a code behind; what was recorded before the call is there as well
        t = F(m, f, None, preset={(T, obj['FFile'][0]): ff, (B, o['FileIsOpen'][0]): ('c', 1), (B, L): ('c', ERRNO), (B, o['NrWritten'][0]): TOP}, maxpart=10)
        def fail(t, st):
            st.tag = 'hit'
            t.store(st, ('p', B, L), ('c', ERRNO), LZ)
        def hook(t, st, cn, args, i):
            if not cn: cn = virt(t, st, i) or ''
            g = m.fns.get(cn)
            if not cn or not args: return None
            if p3name(cn) == 'p3FileClose': st.tag = 'hit'; return ('c', ERRNO)
            if not g or not any(g.scope.endswith('::' + c) for c in CLS): return None
            if args[0] != ff: return None
            n = g.sname
            if n.startswith('~'):
                w = t.load(st, ('p', B, o['NrWritten'][0]), o['NrWritten'][1])
                c = t.load(st, ('p', B, o['FileIsOpen'][0]), o['FileIsOpen'][1])
                r = t.load(st, ('p', B, L), LZ)
                st.tag = 'hit'
                if t.final:
                    cx.count('stream destructions')
                    if w != ('c', 0): cx.violation('late-flush|%s' % f.sname, wh(f, i), f.sname, 'the last buffered bytes are written by the destructor, after the result of the session was taken', 'pending bytes: %r' % (w,))
                    if c != ('c', 0): cx.violation('late-close|%s' % f.sname, wh(f, i), f.sname, 'the file is closed by the destructor, after the result of the session was taken', 'open flag: %r' % (c,))
                    if r != ('c', 0): cx.violation('unasked|%s' % f.sname, wh(f, i), f.sname, 'the stream is destroyed with a recorded failure that was not asked for', 'recorded result: %r' % (r,))
                return TOP
            if n == 'FlushBuffer':
                t.store(st, ('p', B, o['NrWritten'][0]), ('c', 0), 4); fail(t, st)
            elif n == 'Write':
                t.store(st, ('p', B, o['NrWritten'][0]), TOP, 4); fail(t, st)
            elif n in ('SetPosition', 'Read', 'FillBuffer'): fail(t, st)
            return t.fresh(st, i[1]) if i[1] >= 0 else TOP
        def ret(st, v, j):
            if f.sname == 'gdxClose' and st.tag != 'hit': return
            cx.count('exits after a recorded failure')
            if not (isconst(v) and v[1] != 0): cx.violation('surface|%s' % f.sname, wh(f, j), f.sname, 'a recorded failure is not returned', 'returns %r' % (v,))
        t.hook, t.on_ret = hook, ret
        t.run()
        cx.count('fault propagations')
        passed(cx, t, f, 'close')
