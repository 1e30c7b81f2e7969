"""Trace-partitioned propagation with memory kept byte by byte, for the stream layer.
A byte is a constant or ('by', value, k, n): byte k of the n bytes of value.  Loading composes bytes again, so a value that was
copied, cut or turned round byte by byte is still recognised.  Virtual calls on a stream are resolved through the vtable of the class."""
import tp
from tp import TOP, isconst, wrap

def bytes_of(v, n):
    if isconst(v):
        x = v[1]
        if isinstance(x, tuple): x = x[1]
        return [('c', (x >> (8 * k)) & 255) for k in range(n)]
    if v == TOP: return [TOP] * n
    if v[0] == 'by' and n == 1: return [v]
    if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'cat' and len(v[1]) == n + 1: return list(v[1][1:])
    return [('by', v, k, n) for k in range(n)]
def compose(bs):
    if any(b == TOP for b in bs): return TOP
    n = len(bs)
    if all(isconst(b) for b in bs): return ('c', wrap(sum((b[1] & 255) << (8 * k) for k, b in enumerate(bs)), 8 * n))
    b = bs[0]
    if n == 1: return b
    if b[0] == 'by' and b[2] == 0 and b[3] == n and all(x[0] == 'by' and x[1] == b[1] and x[2] == k for k, x in enumerate(bs)): return b[1]
    return ('x', ('cat',) + tuple(bs))

class BTP(tp.TP):
    def __init__(s, m, f, vt=None, **kw):
        tp.TP.__init__(s, m, f, **kw)
        s.vt = vt or {}
    def load(s, st, p, size):
        if p[0] in ('x', 'c'): p = ('p', ('obj', p), 0)
        if p[0] != 'p': return TOP if p[0] != 'px' or tp.has_top(p) else ('x', ('m?', p, size))
        if (p[1], p[2]) in s.preset and not any(k[0] == p[1] and (k[1] is None or p[2] <= k[1] < p[2] + size) for k in st.mem if not isinstance(k[1], tuple)): return s.preset[(p[1], p[2])]
        bs = []
        for k in range(size):
            c = st.mem.get((p[1], p[2] + k))
            if c is not None: bs.append(c[1]); continue
            if (p[1], None) in st.mem: bs.append(TOP); continue
            if any(b == p[1] and isinstance(o, tuple) and o[1] <= p[2] + k < o[2] for b, o in st.mem): bs.append(TOP); continue
            bs.append(None)
        if all(b is None for b in bs):
            if p[1][0] == 'g':
                v = s.gload(p[1][1], p[2], size)
                if v is not None: return v
            return ('x', ('m', p[1], p[2], size))
        if any(b is None for b in bs): return TOP
        return compose(bs)
    def store(s, st, p, v, size):
        if p[0] in ('x', 'c'): p = ('p', ('obj', p), 0)
        if p[0] == 'p':
            for k, b in enumerate(bytes_of(v, size)): st.mem[(p[1], p[2] + k)] = (1, b)
        else: tp.TP.store(s, st, p, v, size)
    def call(s, st, i):
        cn = s.m.callee_name(i) or ''
        args = [s.val(st, a) for a in i[5]]
        if not cn:
            c = s.val(st, i[4])
            # ('x', ('m', ('obj', ('x', ('m', this, 0, 8))), off, 8))
            if c[0] == 'x' and isinstance(c[1], tuple) and c[1][0] == 'm' and c[1][1][0] == 'obj':
                cn = s.vt.get(c[1][2], '')
            elif c[0] == 'x' and isinstance(c[1], tuple) and c[1][0] == 'm' and c[1][1][0] == 'g' and c[1][1][1].startswith('_ZTV'): cn = s.vt.get(c[1][2] - 16, '')
            elif c[0] == 'p' and c[1][0] == 'g': cn = c[1][1]
        if s.on_call:
            r = s.on_call(st, cn, args, i)
            if r is not None: return r
        if cn.startswith('llvm.memcpy') or cn.startswith('llvm.memmove'):
            d, sr, n = args[0], args[1], args[2]
            if isconst(n) and d[0] == 'p' and n[1] <= 4096:
                if s.on_store: s.on_store(st, d, ('copy', sr, n[1]), i)
                bs = [s.load(st, ('p', sr[1], sr[2] + k), 1) if sr[0] == 'p' else TOP for k in range(n[1])]
                for k, b in enumerate(bs):
                    st.mem[(d[1], d[2] + k)] = (1, b)
                return TOP
            if d[0] == 'p': s.clobber(st, d[1])
            return TOP
        if cn.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            if d[0] == 'p' and isconst(n) and isconst(v) and n[1] <= 4096:
                for k in range(n[1]): st.mem[(d[1], d[2] + k)] = (1, ('c', v[1] & 255))
            elif d[0] == 'p': s.clobber(st, d[1])
            return TOP
        if cn.startswith('llvm.bswap'):
            n = tp.ibits(i[2]) // 8
            return compose(list(reversed(bytes_of(args[0], n))))
        if cn.startswith('llvm.'): return tp.TP.call(s, st, i)
        for a in args:
            if a[0] == 'p' and a[1][0] in ('a', 'obj') and cn not in ('strlen', 'strcmp', 'memcmp'): s.clobber(st, a[1])
        return None

def vtable(m, cls):
    """byte offset from the address point -> mangled name of the function"""
    for n, g in m.globals.items():
        if n.startswith('_ZTV') and n.endswith('%d%sE' % (len(cls), cls)) and g.get('init'):
            out = []
            def walk(x):
                if x[0] in ('a', 'st'):
                    for y in x[1]: walk(y)
                else: out.append(x)
            walk(g['init'])
            return {8 * (k - 2): x[1] for k, x in enumerate(out) if k >= 2 and x[0] == 'g'}
    return {}
def named(m, cls, meth):
    """functions of the class with that name that have a body"""
    return [f for f in m.fns.values() if not f.decl and f.scope.split('::')[-1] == cls and f.sname == meth]
