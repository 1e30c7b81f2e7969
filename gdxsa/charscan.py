"""Product of a scanning function with a ghost automaton over the characters of its string argument.
The characters are unknown bytes; the branch conditions on a path restrict which bytes a character can still be (the 256 values are a
finite domain, so the restriction is computed exactly).  The ghost state is the set of character classes that may have been passed over;
it is part of the partition key, so every path through the loop is distinguished by what it may have accepted."""
import tp
from tp import TOP

def ev(e, env, w=8):
    """value of an expression over the character symbols in env, or None"""
    if e in env: return env[e]
    if not isinstance(e, tuple): return None
    k = e[0]
    if k == 'c': return e[1] if isinstance(e[1], int) else None
    if k == 'x': return ev(e[1], env)
    a = [ev(x, env) if isinstance(x, tuple) else None for x in e[1:]]
    if k == 'not': return None if a[0] is None else int(not a[0])
    if k == 'and' and 0 in a[:2]: return 0
    if k == 'or' and any(x == 1 for x in a[:2]) and is_bool(e): return 1
    if k == 'cast':
        x = ev(e[3], env)
        if x is None: return None
        f, t = e[1], e[2]
        n = x & ((1 << f[1]) - 1)
        if f[0] == 's' and n >> (f[1] - 1): n -= 1 << f[1]
        return tp.wrap(n, t)
    if len(a) < 2 or a[0] is None or a[1] is None: return None
    x, y = a[0], a[1]
    if k == 'eq': return int(x == y)
    if k == 'slt': return int(x < y)
    if k == 'sle': return int(x <= y)
    W = 1 << 64
    if k == 'ult': return int(x % W < y % W) if not (x < 0 and y >= 0 or y < 0 and x >= 0) or True else None
    if k == 'ule': return int(x % W <= y % W)
    if k == 'add': return x + y
    if k == 'sub': return x - y
    if k == 'and': return x & y
    if k == 'or': return x | y
    if k == 'xor': return x ^ y
    if k == 'mul': return x * y
    return None
def is_bool(e): return True

class Scan(tp.TP):
    """classes: name -> set of byte values; arg: number of the string parameter"""
    def __init__(s, m, f, arg, classes, **kw):
        kw.setdefault('maxpart', 40)
        tp.TP.__init__(s, m, f, **kw)
        s.arg, s.classes = arg, classes
        s.cls = {v: n for n, vs in classes.items() for v in vs}
        s.memo = {}
        s.split = s.ghost
        s.offsets = set()
        s.strange = []
        s.namephi = True
    # ghost: (seen classes, ((symbol, place, possible values or written classes), ...))
    def value(s, st, i):
        if i[0] == 'load' and i[5] == 1:
            p = s.val(st, i[4])
            if s.onstr(p):
                s.offsets.add(p[2] if p[0] == 'p' else None)
                if st.tag is None: st.tag = (frozenset(), ())
                k = None if p[0] == 'px' and tp.has_top(p) else (p[1:] if p[0] == 'p' else p)
                w = [x for x in st.tag[1] if x[1] == k and k is not None and x[3] is not None]
                if w and len(w[0][3]) == 1 and isinstance(w[0][3], frozenset) and next(iter(w[0][3])) in range(256): return ('c', tp.wrap(next(iter(w[0][3])), 8))
                v = s.fresh(st, i[1])
                st.tag = (st.tag[0], tuple(sorted(st.tag[1] + ((i[1], k, frozenset(range(256)), None),), key=str)))
                return v
        if i[0] in ('sext', 'zext', 'trunc'):
            v = s.val(st, i[4])
            if v[0] == 'x':
                n = tp.ibits(s.otype(i[4]))
                return s.mk(('cast', ('s' if i[0] == 'sext' else 'u', n), tp.ibits(i[2]), v)) if v != TOP else TOP
        return tp.TP.value(s, st, i)
    def onstr(s, p):
        b = p
        while b[0] == 'px': b = b[1]
        return b[0] == 'p' and b[1] == ('arg', s.arg)
    def fresh(s, st, n):
        if st.tag is not None:
            seen, pend = st.tag
            for x in pend:
                if x[0] == n: seen = seen | s.fin(x)
            st.tag = (seen, tuple(x for x in pend if x[0] != n))
        return tp.TP.fresh(s, st, n)
    
    def fin(s, x):
        vs = x[3] if x[3] is not None else x[2]
        return frozenset((s.pos(x), s.cls.get(v, 'other')) for v in vs)
    def pos(s, x): return 'first' if x[1] and len(x[1]) == 2 and x[1][1] == 0 else 'later'
    def ghost(s, st):
        if st.tag is None: return None
        seen, pend = st.tag
        out = []
        for n, k, poss, wr in pend:
            e = ('def', n)
            rel = frozenset(x for x in st.facts if tp.mentions(x, e))
            key = (n, rel, poss)
            if key not in s.memo:
                ok = set()
                for v in poss:
                    env = {e: tp.wrap(v, 8)}
                    if all((lambda r: r is None or bool(r) == t)(ev(x, env)) for x, t in rel): ok.add(v)
                s.memo[key] = frozenset(ok)
            ok = s.memo[key]
            if len(ok) == 1:
                c = ('c', tp.wrap(next(iter(ok)), 8))
                for q, v in list(st.env.items()):
                    if v == ('x', e): st.env[q] = c
                for q, (z, v) in list(st.mem.items()):
                    if v == ('x', e): st.mem[q] = (z, c)
            out.append((n, k, ok, wr))
        return (seen, tuple(out))
    def store(s, st, p, v, size):
        if size == 1 and s.onstr(p):
            k = None if p[0] == 'px' and tp.has_top(p) else (p[1:] if p[0] == 'p' else p)
            if st.tag is None: st.tag = (frozenset(), ())
            if v[0] == 'c': vs = frozenset([v[1] & 255])
            else:
                vs = None
                for x in st.tag[1]:
                    if v == ('x', ('def', x[0])): vs = x[2]
                if vs is None: vs = frozenset(range(1, 256))
            hit = False
            pend = []
            for x in st.tag[1]:
                if k is not None and x[1] == k: x = (x[0], x[1], x[2], vs); hit = True
                pend.append(x)
            seen = st.tag[0]
            if not hit: seen = seen | frozenset((('later', s.cls.get(c, 'other')) for c in vs))
            st.tag = (seen, tuple(pend))
            return
        tp.TP.store(s, st, p, v, size)
    def passed(s, st, extra=()):
        """classes that may have been passed over when the function returns in this state"""
        t = s.ghost_with(st, extra)
        if t is None: return frozenset()
        seen = t[0]
        for x in t[1]: seen = seen | s.fin(x)
        return seen
    def ghost_with(s, st, extra):
        st2 = st.copy(); st2.facts = st.facts | frozenset(extra)
        return s.ghost(st2)
