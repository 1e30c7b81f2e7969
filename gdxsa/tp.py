"""Trace-partitioned constant and copy propagation over one (inlined) function.
A partition is a block together with the constant values of its integer phis (so loops with a constant trip count are followed
iteration by iteration; beyond MAXPART partitions per block the phis are widened to unknown).  Values are constants, addresses
(object, offset) or expression names; memory maps cells to values; facts are the branch conditions that hold on every path of the
partition.  Joins keep what agrees.  Nothing is executed and no path is handed to a solver."""
import struct, heapq
MAXPART = 64
TOP = ('top',)

def isconst(v): return v[0] == 'c'
def wrap(n, bits):
    if bits <= 0 or bits > 64: return n
    n &= (1 << bits) - 1
    return n - (1 << bits) if bits > 1 and n >> (bits - 1) else (-n if bits == 1 and False else n)
def ibits(t):
    return int(t[1:]) if t and t[0] == 'i' and t[1:].isdigit() else 64

class St:
    __slots__ = ('env', 'mem', 'facts', 'tag', 'seen')
    def __init__(s): s.env, s.mem, s.facts, s.tag, s.seen = {}, {}, frozenset(), None, frozenset()
    def copy(s):
        r = St(); r.env = dict(s.env); r.mem = dict(s.mem); r.facts = s.facts; r.tag = s.tag; r.seen = s.seen
        return r

def join(a, b, name=False):
    """(joined, changed relative to a)"""
    ch = False
    r = St(); r.tag = a.tag
    r.facts = a.facts & b.facts
    r.seen = a.seen | b.seen
    if len(r.seen) != len(a.seen): ch = True
    if len(r.facts) != len(a.facts): ch = True
    r.env = {}
    conf = []
    for k, v in a.env.items():
        w = b.env.get(k)
        if w == v: r.env[k] = v
        elif not name: ch = True
        else:
            if v != ('x', ('def', k)): ch = True
            conf.append(k)
    r.mem = {}
    for k, v in a.mem.items():
        w = b.mem.get(k)
        if w == v: r.mem[k] = v
        else:
            if v != (v[0], TOP): ch = True
            r.mem[k] = (v[0], TOP)
    for k, w in b.mem.items():
        if k not in a.mem: r.mem[k] = (w[0], TOP); ch = True
    for k in conf:
        # values that differ get the name of their instruction; nothing said about an earlier value of that name survives
        e = ('def', k)
        n = len(r.facts)
        r.facts = frozenset(x for x in r.facts if not mentions(x, e))
        for q in [q for q, v in r.env.items() if mentions(v, e)]: del r.env[q]; ch = True
        for q, (z, v) in list(r.mem.items()):
            if mentions(v, e): r.mem[q] = (z, TOP); ch = True
            if mentions(q, e): r.mem.pop(q, None); ch = True
        if len(r.facts) != n: ch = True
    for k in conf:
        r.env[k] = ('x', ('def', k))
        r.seen = r.seen | {k}
    if len(r.seen) != len(a.seen): ch = True
    return r, ch

class TP:
    opaque = None       # phis that always get a name of their own
    admit = None        # which facts to keep
    prepart = None      # limit on partitions of a block as long as the trace has no tag
    halt = False        # set by a hook: what follows on this path is not looked at
    def __init__(s, m, f, preset=None, split=None, budget=60000, maxpart=MAXPART):
        s.maxpart = maxpart
        s.m, s.f = m, f
        s.preset = preset or {}          # (base, off) -> value of memory on entry
        s.split = split
        s.budget = budget
        s.steps = 0
        s.on_store = s.on_call = s.on_ret = s.on_call_result = None
        s.argv = {}
        s.keyfacts = False               # keep paths with different facts apart (loop-free functions)
        s.namejoin = False               # name values on which joining paths differ
        s.narrow = False
        s.namephi = False                # give phis of unknown value a name
        s.keyx = None                    # further phi values that separate partitions
        s.members = sorted((o, max(z, 1)) for n, o, z, t in m.fields(f.scope)) if f.scope and f.args and f.args[0][0] == 'this' else []
        s.over = False
        s.maxdepth = 8
    # ---- values
    def val(s, st, o):
        k = o[0]
        if k == 'c': return ('c', o[1])
        if k in ('f', 'd'): return ('c', ('f', int(o[1]) & ((1 << 64) - 1)))
        if k in ('n', 'z'): return ('c', 0)
        if k == 'g': return ('p', ('g', o[1]), 0)
        if k == 'e':
            if o[1] == 'gep':
                b = s.val(st, o[2])
                return s.gep(st, b, o[3])
            return ('x', 'const:' + str(o)[:60])
        if k == 'v':
            if o[1] in st.env: return st.env[o[1]]
            if o[1] < len(s.f.args):
                n = o[1]
                if n in s.argv: return s.argv[n]
                if s.f.args[n][1] == 'ptr': return ('p', ('arg', n), 0)
                return ('x', '$%d' % n)
            return TOP
        return TOP
    def gep(s, st, b, g):
        off, vs = g[1], g[2]
        if b[0] == 'x': b = ('p', ('obj', b), 0)
        for sc, x in vs:
            v = s.val(st, x)
            if isconst(v) and isinstance(v[1], int): off += sc * v[1]
            else:
                return ('px', b, off, sc, v) if b[0] in ('p', 'px') else TOP
        if b[0] == 'p': return ('p', b[1], b[2] + off)
        if b[0] == 'px': return ('px', b, off, 0, ('c', 0))
        if b == TOP: return TOP
        return ('p', ('obj', b), off)
    def load(s, st, p, size):
        if p[0] == 'x' or p[0] == 'c': p = ('p', ('obj', p), 0)
        if p[0] == 'p':
            k = (p[1], p[2])
            if k in st.mem:
                z, v = st.mem[k]
                if z == size: return v
                if isconst(v) and isinstance(v[1], int) and size < z: return ('c', wrap(v[1], size * 8))
                return TOP
            if (p[1], None) in st.mem: return TOP
            for (b, o), (z, v) in st.mem.items():
                if b == p[1] and isinstance(o, tuple):
                    if o[1] < p[2] + size and p[2] < o[2]: return TOP
                elif b == p[1] and o < p[2] + size and p[2] < o + z: return TOP
            if k in s.preset: return s.preset[k]
            if p[1][0] == 'g':
                v = s.gload(p[1][1], p[2], size)
                if v is not None: return v
            return ('x', ('m', p[1], p[2], size))
        if p[0] == 'px' and not has_top(p): return ('x', ('m?', p, size))
        return TOP
    def gload(s, g, off, size):
        gd = s.m.globals.get(g)
        if not gd or not gd.get('const') or not gd.get('init'): return None
        i = gd['init']
        def leafs(x):
            if x[0] == 'a' or x[0] == 'st':
                out = []
                for y in x[1]: out += leafs(y)
                return out
            if x[0] == 's':
                t = x[1]
                t = t if isinstance(t, list) else [ord(ch) for ch in t]
                return [('c', b, 1) for b in t]
            if x[0] == 'c': return [('c', x[1], max(1, (x[2] if len(x) > 2 else 64) // 8))]
            if x[0] in ('f', 'd'): return [('c', ('f', int(x[1]) & ((1 << 64) - 1)), 8)]
            return [('?', None, 0)]
        try: ls = leafs(i)
        except Exception: return None
        o = 0
        for t, v, z in ls:
            if t == '?' or z == 0: return None
            if o == off and z == size: return ('c', v)
            o += z
        return None
    def store(s, st, p, v, size):
        if p[0] == 'x' or p[0] == 'c': p = ('p', ('obj', p), 0)
        if p[0] == 'p':
            for k in [k for k, (z, _) in st.mem.items() if k[0] == p[1] and isinstance(k[1], int) and k[1] < p[2] + size and p[2] < k[1] + z and k[1] != p[2]]:
                st.mem[k] = (st.mem[k][0], TOP)
            st.mem[(p[1], p[2])] = (size, v)
        elif p[0] == 'px':
            b = p
            while b[0] == 'px': b = b[1]
            if b[0] == 'p':
                r = s.extent(b[1], b[2] + (p[2] if p[1] is b else 0))
                if r: s.clobber_range(st, b[1], *r)
                else: s.clobber(st, b[1], b[2])
    def extent(s, base, off):
        """the member of the session a subscripted store stays in (that it does is what the range checks decide)"""
        if base != ('arg', 0) or not s.members: return None
        for o, z in s.members:
            if o <= off < o + z: return o, o + z
        return None
    def clobber_range(s, st, base, lo, hi):
        for k in [k for k in st.mem if k[0] == base and isinstance(k[1], int) and lo <= k[1] < hi]: del st.mem[k]
        st.mem[(base, ('r', lo, hi))] = (0, TOP)
    def clobber(s, st, base, off=None):
        for k in [k for k in st.mem if k[0] == base]: st.mem[k] = (st.mem[k][0], TOP)
        st.mem[(base, None)] = (0, TOP)
    def size(s, t):
        if t == 'ptr' or t == 'double': return 8
        if t == 'float': return 4
        if t and t[0] == 'i' and t[1:].isdigit(): return max(1, int(t[1:]) // 8)
        return 8
    def binop(s, op, a, b, t):
        n = ibits(t)
        if isconst(a) and isconst(b) and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            u = (1 << n) - 1
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << (y & 63), 'lshr': lambda: (x & u) >> (y & 63), 'ashr': lambda: x >> (y & 63),
                     'sdiv': lambda: int(x / y) if abs(x) < 2**52 else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), 'udiv': lambda: (x & u) // (y & u),
                     'srem': lambda: x - y * int(x / y), 'urem': lambda: (x & u) % (y & u)}[op]()
            except (KeyError, ZeroDivisionError): return TOP
            if n == 1: return ('c', r & 1 and -1 if False else (r & 1))
            return ('c', wrap(r, n))
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and op == 'sub': return ('c', a[2] - b[2])
        if a[0] == 'p' and isconst(b) and isinstance(b[1], int) and op in ('add', 'sub'): return ('p', a[1], a[2] + (b[1] if op == 'add' else -b[1]))
        if isconst(b) and b[1] == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if isconst(a) and a[1] == 0 and op in ('add', 'or', 'xor'): return b
        if op == 'and' and (a == ('c', 0) or b == ('c', 0)): return ('c', 0)
        if a == TOP or b == TOP: return TOP
        if op in ('add', 'mul', 'and', 'or', 'xor') and str(b) < str(a): a, b = b, a
        return s.mk((op, a, b))
    def mk(s, e):
        if depth(e) > s.maxdepth: return TOP
        return ('x', e)
    def cmp(s, p, a, b, t):
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]: a, b, t = ('c', a[2]), ('c', b[2]), 'i64'
        elif a[0] == 'p' and b[0] == 'p' and a[1][0] == 'a' and b[1][0] == 'a' and p in ('eq', 'ne'): return ('c', 1 if p == 'ne' else 0)
        if isconst(a) and isconst(b):
            x, y = a[1], b[1]
            if isinstance(x, int) and isinstance(y, int):
                n = ibits(t); u = (1 << n) - 1
                if p[0] == 'u': x &= u; y &= u
                r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}.get(p)
                return TOP if r is None else ('c', 1 if r else 0)
        if a == b and a != TOP and p in ('eq', 'sle', 'sge', 'ule', 'uge'): return ('c', 1)
        if a == b and a != TOP and p in ('ne', 'slt', 'sgt', 'ult', 'ugt'): return ('c', 0)
        if a[0] == 'p' and b == ('c', 0) and p in ('eq', 'ne') and a[1][0] in ('a', 'arg', 'g', 'stream', 'nn'): return ('c', 1 if p == 'ne' else 0)
        if a == TOP or b == TOP: return TOP
        neg = False
        if p == 'ne': p, neg = 'eq', True
        if p in ('sgt', 'sge', 'ugt', 'uge'): p, a, b = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[p], b, a
        if p == 'eq' and str(b) < str(a): a, b = b, a
        e = s.mk((p, a, b))
        if e == TOP: return e
        return s.mk(('not', e)) if neg else e
    def fcmp(s, p, a, b):
        if isconst(a) and isconst(b):
            x, y = fl(a[1]), fl(b[1])
            if x is not None and y is not None:
                un = x != x or y != y
                q = p[1:] if p not in ('ord', 'uno', 'true', 'false') else p
                if p == 'ord': r = not un
                elif p == 'uno': r = un
                elif p in ('true', 'false'): r = p == 'true'
                elif un: r = p[0] == 'u'
                else: r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]
                return ('c', 1 if r else 0)
        if a == TOP or b == TOP: return TOP
        return s.mk(('f' + p, a, b))
    # ---- run
    def run(s):
        f = s.f
        st = St()
        s.states = {}
        work = []
        s.parts = {}
        def push(b, pb, st):
            # phis
            new = st
            vals = {}
            key = []
            for i in f.blocks[b]:
                if i[0] != 'phi': break
                v = TOP
                for o, p in i[4]:
                    if p == pb: v = s.val(st, o)
                if v[0] == 'x' and i[2] in ('i1', 'i8') and st.facts:
                    # a truth value that was tested on this path
                    a = s.assume(v, True)
                    if len(a) == 1 and isinstance(a[0][0], tuple) and a[0][0] and a[0][0][0] in ('eq', 'slt', 'sle', 'ult', 'ule'):
                        if a[0] in st.facts: v = ('c', 1)
                        elif (a[0][0], not a[0][1]) in st.facts: v = ('c', 0)
                vals[i[1]] = v
                if i[1] not in s.widephi and (isconst(v) or v[0] == 'p' or s.keyx and s.keyx(v)): key.append((i[1], v))
            if vals:
                new = st.copy()
                for k, v in vals.items():
                    if v == TOP: new.env.pop(k, None)
                    else: new.env[k] = v
            if 1:
                for k in s.livephi[b]:
                    v = new.env.get(k)
                    if v is not None and (isconst(v) or v[0] == 'p' or s.keyx and s.keyx(v)) and k not in s.widephi: key.append((k, v))
            if s.split: new.tag = s.split(new)
            k = (b, tuple(key), new.tag, new.facts) if (s.keyfacts(new) if callable(s.keyfacts) else s.keyfacts) else (b, tuple(key), new.tag)
            if k in s.states:
                j, ch = join(s.states[k], new, s.namejoin)
                if not ch: return
                s.states[k] = j
            else:
                pk = b if s.prepart is None or new.tag is not None else (b, None)
                s.parts[pk] = s.parts.get(pk, 0) + 1
                if s.parts[pk] > (s.maxpart if pk == b else s.prepart) and key:
                    ws = [q for q, _ in key if q not in s.widephi]
                    if ws:
                        w = min(ws, key=lambda q: (f.defs()[q][0] not in heads, order.get(f.defs()[q][0], 0)))
                        s.widephi.add(w)
                        s.parts[pk] = 0
                        return push(b, pb, st)
                s.states[k] = new
            if k not in inq:
                inq.add(k); s.tick += 1; heapq.heappush(work, (order.get(k[0], 0), s.tick, k))
        s.widephi = set()
        heads = set(f.loops())
        s.tick = 0
        s.livephi = live_phis(f)
        inq = set()
        order = {b: n for n, b in enumerate(f.rpo())}
        push(f.rpo()[0], None, st)
        hooks = (s.on_store, s.on_call, s.on_ret)
        s.final = False
        s.on_store = s.on_ret = None
        while work:
            k = heapq.heappop(work)[2]; inq.discard(k)
            s.steps += 1
            if s.steps > s.budget: s.over = True; break
            s.block(k, push)
        if s.narrow and not s.over:
            # once more from the loop heads, which keep their states: what was joined inside a loop before its head settled is dropped
            first = f.rpo()[0]
            s.states = {k: v for k, v in s.states.items() if k[0] in heads or k[0] == first}
            for k in s.states:
                inq.add(k); s.tick += 1; heapq.heappush(work, (order.get(k[0], 0), s.tick, k))
            while work:
                k = heapq.heappop(work)[2]; inq.discard(k)
                s.steps += 1
                if s.steps > 2 * s.budget: s.over = True; break
                s.block(k, push)
        s.on_store, s.on_call, s.on_ret = hooks
        s.final = True
        for k in sorted(s.states, key=lambda k: (order.get(k[0], 0), str(k[1]))): s.block(k, None)
        return s
    def block(s, k, push):
        cur = s.states[k].copy()
        b = k[0]
        s.cur = k
        if s.namephi:
            for i in s.f.blocks[b]:
                if i[0] != 'phi': break
                if i[1] not in cur.env: cur.env[i[1]] = s.fresh(cur, i[1])
        if s.opaque:
            for i in s.f.blocks[b]:
                if i[0] != 'phi': break
                if i[1] in s.opaque: cur.env[i[1]] = s.fresh(cur, i[1])
        for i in s.f.blocks[b]:
            if i[0] == 'phi': continue
            nx = s.exec(cur, i, b)
            if s.halt: s.halt = False; break
            if nx is None or push is None: continue
            for y, add in nx:
                t = cur
                if add and s.admit: add = [x for x in add if s.admit(x[0])]
                if add:
                    if s.contradict(cur.facts, add): continue
                    t = cur.copy(); t.facts = cur.facts | frozenset(add)
                push(y, b, t)
    def contradict(s, facts, add):
        return any((e, not t) in facts for e, t in add)
    def exec(s, st, i, b):
        op = i[0]
        f = s.f
        if op == 'br':
            if not i[4] or len(i[5]) < 2: return [(i[5][0], None)]
            c = s.val(st, i[4])
            if isconst(c): return [(i[5][0] if c[1] else i[5][1], None)]
            if c == TOP: return [(i[5][0], None), (i[5][1], None)]
            return [(i[5][0], s.assume(c, True)), (i[5][1], s.assume(c, False))]
        if op == 'switch':
            v = s.val(st, i[4])
            if isconst(v) and isinstance(v[1], int):
                for cv, y in i[6]:
                    cc = cv if isinstance(cv, int) else cv[1]
                    if cc == v[1]: return [(y, None)]
                return [(i[5], None)]
            out = [(i[5], [(('eq', v, ('c', cv if isinstance(cv, int) else cv[1])), False) for cv, _ in i[6]] if v != TOP else None)]
            for cv, y in i[6]:
                cc = cv if isinstance(cv, int) else cv[1]
                out.append((y, [(('eq', v, ('c', cc)), True)] if v != TOP else None))
            return out
        if op == 'ret':
            if s.on_ret: s.on_ret(st, s.val(st, i[4]) if len(i) > 4 and i[4] else None, i)
            return []
        if op == 'unreachable' or op == 'resume': return []
        if op == 'store':
            p, v = s.val(st, i[5]), s.val(st, i[4])
            z = i[6]
            if s.on_store: s.on_store(st, p, v, i)
            s.store(st, p, v, z)
            return None
        if op in ('call', 'invoke'):
            r = s.call(st, i)
            if i[1] >= 0:
                if r is None: r = s.fresh(st, i[1])
                if r == TOP: st.env.pop(i[1], None)
                else: st.env[i[1]] = r
            if op == 'invoke': return [(i[6][0], None)]
            return None
        v = s.value(st, i)
        if v == TOP and op in ('load', 'extractvalue', 'extractelement', 'fptosi'): v = s.fresh(st, i[1])
        if v is None or v == TOP: st.env.pop(i[1], None)
        else: st.env[i[1]] = v
        return None
    def fresh(s, st, n):
        """an opaque name for the result of instruction n; what was known about its previous result is forgotten"""
        e = ('def', n)
        if n in st.seen:
            todo, done = [e], {n}
            while todo:
                e2 = todo.pop()
                st.facts = frozenset(x for x in st.facts if not mentions(x, e2))
                for k in [k for k, v in st.env.items() if mentions(v, e2)]:
                    if s.namejoin and k not in done:
                        # a value computed from the previous result goes on under its own name
                        done.add(k); st.env[k] = TOP; todo.append(('def', k))
                    elif st.env[k] != TOP: del st.env[k]
                for k, (z, v) in list(st.mem.items()):
                    if mentions(v, e2): st.mem[k] = (z, TOP)
                for k in [k for k in st.mem if mentions(k, e2)]: del st.mem[k]
            for k in done:
                if k != n: st.env[k] = ('x', ('def', k)); st.seen = st.seen | {k}
        else: st.seen = st.seen | {n}
        return ('x', e)
    def otype(s, o):
        if o[0] == 'c': return 'i%d' % o[2] if len(o) > 2 else 'i64'
        if o[0] == 'v':
            d = s.f.idef(o)
            if d is not None: return d[2]
            if o[1] < len(s.f.args): return s.f.args[o[1]][1]
        return 'ptr'
    def assume(s, c, truth):
        e = c[1] if c[0] == 'x' else c
        if isinstance(e, tuple) and e and e[0] == 'not': return s.assume(e[1], not truth)
        if isinstance(e, tuple) and e and e[0] == 'and' and truth: return s.assume(e[1], True) + s.assume(e[2], True)
        if isinstance(e, tuple) and e and e[0] == 'or' and not truth: return s.assume(e[1], False) + s.assume(e[2], False)
        if isinstance(e, tuple) and e and e[0] == 'xor' and (('c', 1) in e[1:] or ('c', -1) in e[1:]):
            return s.assume(e[1] if isconst(e[2]) else e[2], not truth)
        if isinstance(e, tuple) and e and e[0] == 'sel' and isconst(e[2]) and isconst(e[3]) and bool(e[2][1]) != bool(e[3][1]):
            return s.assume(e[1], truth == bool(e[2][1]))
        return [(e, truth)]
    def value(s, st, i):
        op = i[0]
        if op == 'alloca': return ('p', ('a', i[1]), 0)
        if op == 'load': return s.load(st, s.val(st, i[4]), s.size(i[2]))
        if op == 'getelementptr': return s.gep(st, s.val(st, i[4]), i[5])
        if op in ('sext', 'zext', 'trunc'):
            v = s.val(st, i[4])
            if isconst(v) and isinstance(v[1], int):
                n = ibits(s.otype(i[4])); m_ = ibits(i[2])
                if op == 'zext': return ('c', v[1] & ((1 << n) - 1))
                if op == 'trunc':
                    return ('c', (v[1] & 1) if m_ == 1 else wrap(v[1], m_))
                return ('c', (-1 if v[1] & 1 else 0) if n == 1 else v[1])
            if v == TOP or op != 'trunc': return v
            return s.mk((op, i[2], v))
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = s.val(st, i[4])
            if op == 'bitcast' and isconst(v):
                if isinstance(v[1], tuple) and i[2] == 'i64': return ('c', wrap(v[1][1], 64))
                if isinstance(v[1], int) and i[2] == 'double': return ('c', ('f', v[1] & ((1 << 64) - 1)))
            return v
        if op == 'icmp': return s.cmp(i[4], s.val(st, i[5]), s.val(st, i[6]), s.otype(i[5]))
        if op == 'fcmp': return s.fcmp(i[4], s.val(st, i[5]), s.val(st, i[6]))
        if op == 'select':
            c = s.val(st, i[4])
            if isconst(c): return s.val(st, i[5] if c[1] else i[6])
            a, b = s.val(st, i[5]), s.val(st, i[6])
            if a == b: return a
            if c == TOP or a == TOP or b == TOP: return TOP
            if i[2] == 'i1':
                if b == ('c', 0): return s.mk(('and', c, a)) if a not in (('c', 1), ('c', -1)) else c
                if a in (('c', 1), ('c', -1)): return s.mk(('or', c, b)) if b != ('c', 0) else c
            return s.mk(('sel', c, a, b))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            return s.binop(op, s.val(st, i[4]), s.val(st, i[5]), i[2])
        vs = [s.val(st, o) for o in i[4:] if isinstance(o, list) and o and isinstance(o[0], str) and o[0] in ('c', 'v', 'f', 'd', 'n', 'g', 'e')]
        if any(v == TOP for v in vs): return TOP
        return s.mk((op,) + tuple(vs))
    def call(s, st, i):
        cn = s.m.callee_name(i) or ''
        args = [s.val(st, a) for a in i[5]]
        if s.on_call:
            r = s.on_call(st, cn, args, i)
            if r is not None: return r
        if cn.startswith('llvm.'):
            if cn.startswith('llvm.memcpy') or cn.startswith('llvm.memmove'):
                d, sr, n = args[0], args[1], args[2]
                if isconst(n) and d[0] == 'p' and n[1] <= 4096:
                    if s.on_store: s.on_store(st, d, ('copy', sr, n[1]), i)
                    if sr[0] == 'p':
                        cells = []
                        o = 0
                        while o < n[1]:
                            z = 8 if n[1] - o >= 8 else 4 if n[1] - o >= 4 else 1
                            k = (sr[1], sr[2] + o)
                            if k in st.mem and st.mem[k][0] and st.mem[k][0] <= n[1] - o: z = st.mem[k][0]
                            cells.append((o, z, s.load(st, ('p', sr[1], sr[2] + o), z)))
                            o += z
                        for o, z, v in cells: s.store(st, ('p', d[1], d[2] + o), v, z)
                        return TOP
                if d[0] == 'p': s.clobber(st, d[1])
                return TOP
            if cn.startswith('llvm.memset'):
                d, v, n = args[0], args[1], args[2]
                if d[0] == 'p' and isconst(n) and v == ('c', 0) and n[1] <= 4096:
                    for k in [k for k in st.mem if k[0] == d[1] and isinstance(k[1], int) and d[2] <= k[1] < d[2] + n[1]]: st.mem[k] = (st.mem[k][0], ('c', 0))
                    for o in range(0, n[1] - 7, 8):
                        if (d[1], d[2] + o) not in st.mem: st.mem[(d[1], d[2] + o)] = (8, ('c', 0))
                elif d[0] == 'p': s.clobber(st, d[1])
                return TOP
            if cn.startswith('llvm.bswap') and isconst(args[0]) and isinstance(args[0][1], int):
                n = ibits(i[2]) // 8
                return ('c', wrap(int.from_bytes((args[0][1] & ((1 << 8 * n) - 1)).to_bytes(n, 'little'), 'big'), 8 * n))
            if cn.startswith('llvm.fabs'):
                if isconst(args[0]) and isinstance(args[0][1], tuple): return ('c', ('f', args[0][1][1] & ~(1 << 63)))
            if cn.startswith('llvm.expect'): return args[0]
            if cn.startswith('llvm.is.fpclass') and isconst(args[0]) and isinstance(args[0][1], tuple) and isconst(args[1]):
                return ('c', 1 if fpclass(args[0][1][1]) & args[1][1] else 0)
            if any(a == TOP for a in args): return TOP
            return s.mk(('fn', cn.split('.p0')[0]) + tuple(args)) if i[1] >= 0 else TOP
        for a in args:
            if a[0] == 'p' and a[1][0] in ('a', 'obj') and cn not in ('strlen', 'strcmp', 'memcmp'): s.clobber(st, a[1])
        return None

def operands(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'v' and isinstance(x[1], int): yield x[1]
        else:
            for y in x: yield from operands(y)
def live_phis(f):
    """block -> phis defined elsewhere whose value, or a value computed from it, is still used there or later"""
    root = {}
    for b in f.rpo():
        for i in f.blocks[b]:
            if i[0] == 'phi': root[i[1]] = frozenset([i[1]])
    for b in f.rpo():
        for i in f.blocks[b]:
            if i[0] in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'shl', 'or', 'and', 'xor', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem', 'getelementptr', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                r = frozenset().union(*[root[x] for x in operands(i[4:]) if x in root])
                if r and len(r) <= 2: root[i[1]] = r
    use, dfn = {}, {}
    for b in f.rpo():
        u, d = set(), set()
        for i in f.blocks[b]:
            if i[0] != 'phi': u |= {x for x in operands(i[4:]) if x in root and x not in d}
            if i[1] in root: d.add(i[1])
        use[b], dfn[b] = u, d
    out = {b: set() for b in use}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.rpo()):
            o = set()
            for y in f.succ()[b]:
                if y not in out: continue
                o |= out[y]
                for i in f.blocks[y]:
                    if i[0] != 'phi': break
                    o |= {v[1] for v, p in i[4] if p == b and v[0] == 'v' and v[1] in root}
            n = use[b] | (o - dfn[b])
            if n != out[b]: out[b] = n; ch = True
    own = {b: {i[1] for i in f.blocks[b] if i[0] == 'phi'} for b in out}
    return {b: sorted(frozenset().union(*[root[v] for v in x]) - own[b]) for b, x in out.items()}
def mentions(x, e):
    if x == e: return True
    return isinstance(x, tuple) and any(mentions(y, e) for y in x)
def has_top(x): return mentions(x, TOP)
def depth(e):
    if isinstance(e, tuple): return 1 + max((depth(x) for x in e), default=0)
    return 0
def fl(x):
    if isinstance(x, tuple) and x[0] == 'f': return struct.unpack('<d', struct.pack('<Q', x[1]))[0]
    return None
def bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def fpclass(b):
    sgn, ex, fr = b >> 63, (b >> 52) & 2047, b & ((1 << 52) - 1)
    if ex == 2047: return (4 if sgn else 512) if fr == 0 else (2 if fr >> 51 else 1)
    if ex == 0: return (32 if sgn else 64) if fr == 0 else (16 if sgn else 128)
    return 8 if sgn else 256
