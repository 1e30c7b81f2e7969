"""What the methods of a string table do to the chains of equal hash, the count, the sort order: trace-partitioned propagation with
events.  An event is ('slot', string, bucket): the chain of the string's hash now starts with the bucket; ('next', bucket, value);
('nr', bucket, value); ('str', bucket, text); ('copy', to, from)."""
import tp
from tp import TOP, isconst
from checks.c26 import form
T = ('arg', 0)

def slots(m):
    """byte offsets of Hash and EntryEqual in the table of virtual functions"""
    out = {}
    for n, g in m.globals.items():
        if not n.startswith('_ZTV') or not g.get('init'): continue
        flat = []
        def walk(x):
            if x[0] in ('a', 'st'):
                for y in x[1]: walk(y)
            else: flat.append(x)
        walk(g['init'])
        for k, x in enumerate(flat):
            f = m.fns.get(x[1]) if x[0] == 'g' else None
            if f and f.sname in ('Hash', 'EntryEqual', 'Compare') and 'HashList' in f.scope: out[8 * (k - 2)] = f.sname
    return out

def mentions(e, x):
    if e == x: return True
    return isinstance(e, tuple) and any(mentions(y, x) for y in e)

class HL(tp.TP):
    def __init__(s, m, f, vt, cls, buck):
        s.off = {n: o for n, o, z, t in m.fields(cls)}
        s.bo = {n: o for n, o, z, t in m.fields(buck)}
        tp.TP.__init__(s, m, f, preset={(T, 0): ('p', ('vt',), 0)}, budget=20000, maxpart=600)
        s.vt = vt
        s.cursors = {i[1] for b, i in f.instrs() if i[0] == 'phi' and i[2] == 'ptr' and 'next' in chain(m, f, vt, ['v', i[1]], s.bo)}
        s.opaque = {x for x in s.cursors if f.defs()[x][0] in f.loops()}
        s.maxdepth = 24
        s.keyfacts = s.namephi = True
        s.admit = s.relevant
        s.on_call = s.calls
        s.news = set()
    def relevant(s, e):
        if not isinstance(e, tuple): return False
        if e and (e[0] in ('same', 'hash') or e[0] == 'def' and e[1] in s.cursors): return True
        if e and e[0] == 'm' and len(e) == 4 and e[1] == T and e[2] in (s.off['PHashTable'], s.off['SortMap'], s.off['FSorted'], s.off['ReHashCnt']): return True
        return any(s.relevant(x) for x in e if isinstance(x, tuple))
    def mem(s, n, z=None): return ('x', ('m', T, s.off[n], z or (8 if n in ('PHashTable', 'SortMap') else 1 if n in ('FSorted', 'OneBased') else 4)))
    def now(s, st, n): return s.load(st, ('p', T, s.off[n]), 8 if n in ('PHashTable', 'SortMap') else 1 if n in ('FSorted', 'OneBased') else 4)
    def event(s, st, *e): st.tag = ((st.tag or ()) + (e,))[-12:]
    def virtual(s, st, i):
        if i[4][0] != 'v':
            g = s.m.fns.get(s.m.callee_name(i) or '')
            return g.sname if g and g.sname in ('Hash', 'EntryEqual') else None
        p = s.val(st, i[4])
        if p[0] == 'x' and isinstance(p[1], tuple) and p[1][0] == 'm' and p[1][1] == ('vt',): return s.vt.get(p[1][2])
        return None
    def calls(s, st, cn, args, i):
        v = s.virtual(st, i)
        if v == 'Hash': return ('x', ('hash', args[1]))
        if v == 'EntryEqual': return ('x', ('same', args[1], args[2]))
        g = s.m.fns.get(cn)
        nm = g.sname if g else ''
        if nm == 'HashAll':
            st.mem[(T, s.off['PHashTable'])] = (8, ('p', ('nn', 'table'), 0))
            st.mem[(T, s.off['ReHashCnt'])] = (4, ('x', ('rehash',)))
            st.mem[(T, s.off['HashTableSize'])] = (4, ('x', ('tsize',)))
            return TOP
        if nm == 'GetBytes' or cn in ('_Znwm', '_Znam', 'malloc'):
            if isconst(args[-1]): s.event(st, 'alloc', args[-1][1], i[1])
            return ('p', ('nn', 'mem', i[1]), 0)
        if cn in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free') or nm == 'clear': return TOP
        if cn.startswith('llvm.memcpy') or cn.startswith('llvm.memmove') or cn in ('memcpy', 'strcpy', 'memmove', 'strncpy'):
            s.event(st, 'copy', args[0], args[1])
            return TOP
        if nm == 'assignPCharToBuf':
            s.event(st, 'copy', args[-2] if len(args) > 3 else args[2], args[0])
            return TOP
        return None
    def base(s, p): return ('x', p) if False else p
    def bucket(s, p):
        """the bucket an address lies in, as a value, with the offset"""
        if p[0] in ('x', 'c'): return p, 0
        if p[0] == 'p':
            if p[1][0] == 'obj': return p[1][1], p[2]
            if p[1][0] == 'nn': return ('p', p[1], 0), p[2]
        return None
    def hashidx(s, p):
        if p[0] == 'px' and p[3] == 8 and p[2] == 0 and p[4][0] == 'x' and isinstance(p[4][1], tuple) and p[4][1][0] == 'hash': return p[4][1][1]
        return None
    def store(s, st, p, v, size):
        a = s.hashidx(p)
        if a is not None: s.event(st, 'slot', a, v)
        else:
            b = s.bucket(p)
            if b and p != ('p', T, 0):
                n = next((k for k, o in s.bo.items() if o == b[1]), None)
                if n == 'NextBucket' and size == 8: s.event(st, 'next', b[0], v)
                elif n == 'StrNr' and size == 4: s.event(st, 'nr', b[0], v)
                elif n == 'StrP' and size == 8: s.event(st, 'str', b[0], v)
        tp.TP.store(s, st, p, v, size)
    def load(s, st, p, size):
        a = s.hashidx(p)
        if a is not None:
            # the start of a chain: what was stored last on this path, or what it was
            for e in reversed(st.tag or ()):
                if e[0] == 'slot' and e[1] == a: return e[2]
            return ('x', ('head', a))
        return tp.TP.load(s, st, p, size)
    def store_clobber(s): pass

def known(st, e, b): return (e, b) in st.facts
def isnull(st, v): return v == ('c', 0) or any(t and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and set(e[1:]) == {v, ('c', 0)} for e, t in st.facts)
def notnull(st, v): return v[0] == 'p' or any(not t and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and set(e[1:]) == {v, ('c', 0)} for e, t in st.facts)

def chain(m, f, vt, o, bo, seen=None):
    """where the elements of a chain come from: {'head', 'next', other...}"""
    seen = seen if seen is not None else set()
    out = set()
    d = f.idef(o) if o[0] == 'v' else None
    if d is None: return {'other'} if o[0] != 'n' else {'null'}
    if d[1] in seen: return set()
    seen.add(d[1])
    if d[0] == 'phi':
        for x, _ in d[4]: out |= chain(m, f, vt, x, bo, seen)
        return out
    if d[0] == 'select': return chain(m, f, vt, d[5], bo, seen) | chain(m, f, vt, d[6], bo, seen)
    if d[0] == 'load':
        a = f.idef(d[4])
        if a is not None and a[0] == 'getelementptr':
            if not a[5][2] and a[5][1] == bo['NextBucket']:
                return {'next'} | chain(m, f, vt, a[4], bo, seen)
            if len(a[5][2]) == 1 and a[5][2][0][0] == 8: return {'head'}
        return {'other'}
    return {'other'}
