"""Abstract interpreter over the exported IR: a forward dataflow analysis with disjunctive states.

Values: python int (constant), NULL, ('p', region, off) pointer, ('s', n) unknown value number n,
('f', bits) float constant, ('fn', name), ('agg', (..)), ('alt', frozenset) alternatives (memory only).
Memory is tracked for the analysed object (region 0), stack slots and constant globals; everything else is unknown.
States are merged per partition key at every join; loops are iterated to a fixpoint.
"""
import re
from collections import deque

NULL = ('n',)
DANG = ('d',)
WORD = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

class St:
    __slots__ = ('mem', 'facts', 'mon')
    def __init__(s, mem=None, facts=None, mon=()):
        s.mem = mem if mem is not None else {}
        s.facts = facts if facts is not None else {}
        s.mon = mon
    def copy(s):
        return St(dict(s.mem), dict(s.facts), s.mon)

def wrap(v, bits):
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1): v -= 1 << bits
    return v

class Interp:
    on_phi = None
    STD_INLINE = re.compile(r'^(std::(initializer_list|array|optional|_Optional|_Head_base|pair|tuple|tuple_element|reference_wrapper|remove_reference|is_)|'
                            r'.*\bstd::(move|forward|get|addressof|__addressof|min|max|swap|exchange|begin|end|size|data|__get_helper|as_const)<|std::_(Optional|Construct|Destroy)|'
                            r'(constexpr )?(decltype|auto|bool|void|int|double|long|unsigned char|char|std::remove_reference<.*>::type&&) ?.*std::(move|forward|get|min|max|exchange|swap|begin|end|size|data)<)')
    UP = re.compile(r'^std::unique_ptr<(.*)>::(.*)$')

    def __init__(s, m, keyf=None):
        s.m = m
        s.regs, s.regd = {}, []
        s.symt, s.symd = {}, []
        s._ment = {}
        s.paths = {}
        s.reg(('R0',))
        s.reports = {}
        s.keyf = keyf or (lambda st: ())
        s.steps = 0
        s._live = {}
        s._cls = {}
        s._size = {}
        s.mod_writes = None
        s.maxdepth = 14
        s.cap = 40
        s.gmem = {}
        s.members = None
        s.retnull = {}
        s.visited = set()
        s.active = []
        s._iids = {}

    # ---- interning -----------------------------------------------------------
    def reg(s, d):
        r = s.regs.get(d)
        if r is None:
            r = s.regs[d] = len(s.regd); s.regd.append(d)
        return r
    def sym(s, d):
        r = s.symt.get(d)
        if r is None:
            r = s.symt[d] = len(s.symd); s.symd.append(d)
        return ('s', r)
    def pid(s, d):
        r = s.paths.get(d)
        if r is None:
            r = s.paths[d] = len(s.paths)
        return r

    # ---- hooks (override) ------------------------------------------------------
    def on_call(s, fn, i, callee, args, st, opaque): pass
    def on_store(s, fn, i, p, v, st): pass
    def on_load(s, fn, i, p, v, st): pass
    def on_branch(s, fn, b, st): pass
    def on_destroy(s, v, st, cls): pass
    def opaque_result(s, fn, i, callee, args, st): return None

    def report(s, kind, fn, i, msg, st=None):
        k = (kind, i[3], msg)
        if k not in s.reports:
            s.reports[k] = (fn.short, list(s.active))
    # ---- facts -----------------------------------------------------------------
    def R(s, v, st):
        if v.__class__ is tuple and v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None:
                if f[0] == '=': return f[1]
            else:
                d = s.symd[v[1]]
                if d[0] == 'op':
                    if d[1] == 'zext' and d[3] == 'i1':
                        x = s.R(d[2], st)
                        if x.__class__ is int: return x & 1
                    elif d[1] == 'not':
                        x = s.R(d[2], st)
                        if x.__class__ is int: return 1 - (x & 1)
                elif d[0] == 'cmp' and st.facts:
                    nd = s.symt.get(('cmp', s.NEG.get(d[1]), d[2], d[3]))
                    if nd is not None:
                        f = st.facts.get(nd)
                        if f is not None and f[0] == '=': return 1 - f[1]
                    if d[1] in ('eq', 'ne') and d[2].__class__ is tuple and d[2][0] == 's' and d[3].__class__ is int:
                        f = st.facts.get(d[2][1])
                        if f is not None:
                            r = None
                            if f[0] == '=' and f[1].__class__ is int: r = int(f[1] == d[3])
                            elif f[0] == 'i' and (d[3] in f[3] or (f[1] is not None and d[3] < f[1]) or (f[2] is not None and d[3] > f[2])): r = 0
                            if r is not None: return r if d[1] == 'eq' else 1 - r
        return v
    def fresh(s, d, st):
        """value number for a (re-)created unknown; older incarnations lose their identity"""
        v = s.sym(d)
        n = v[1]
        if st is not None:
            old = None
            for k, x in st.mem.items():
                if x == v:
                    if old is None: old = []
                    old.append(k)
            if old:
                ov = s.sym(('old', d))
                for k in old: st.mem[k] = ov
            if st.facts:
                dead = [k for k in st.facts if k == n or s.mentions(k, n)]
                for k in dead: del st.facts[k]
        return v
    def mentions(s, k, n):
        m = s._ment.get(k)
        if m is None: m = s._mset(k)
        return n in m
    def _mset(s, k):
        m = s._ment.get(k)
        if m is None:
            d = s.symd[k]
            m = set()
            if d[0] in ('cmp', 'op'):
                for x in d[1:]:
                    if x.__class__ is tuple and len(x) == 2 and x[0] == 's':
                        m.add(x[1]); m |= s._mset(x[1])
            m = s._ment[k] = frozenset(m)
        return m

    def rng(s, v, st):
        if v.__class__ is int: return v, v
        if v.__class__ is tuple and v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None and f[0] == 'i': return f[1], f[2]
            d = s.symd[v[1]]
            if d[0] == 'op' and d[1] in ('zext', 'sext'):
                return s.rng(d[2], st) if d[1] == 'sext' else (0, None)
        return None, None

    def assume(s, v, val, st):
        """restrict st to executions where boolean value v == val; False if impossible"""
        v = s.R(v, st)
        if v.__class__ is int: return (v & 1) == val
        if v.__class__ is not tuple or v[0] != 's': return True
        st.facts[v[1]] = ('=', val)
        d = s.symd[v[1]]
        if d[0] == 'cmp':
            return s.assume_cmp(d[1], d[2], d[3], val, st)
        if d[0] == 'op':
            if d[1] == 'not': return s.assume(d[2], 1 - val, st)
            if d[1] in ('zext', 'trunc', 'sext') : return s.assume(d[2], val, st)
        return True
    settleoffs = ()
    def settle(s, st):
        """make what a branch decided about a flag of the object explicit in the object's memory"""
        for o in s.settleoffs:
            v = st.mem.get((0, o))
            if v.__class__ is tuple and v[0] == 's':
                r = s.R(v, st)
                if r.__class__ is int: st.mem[(0, o)] = r
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    SWP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
    def assume_cmp(s, pred, a, b, val, st):
        if pred not in s.NEG: return True
        if not val: pred = s.NEG[pred]
        a, b = s.R(a, st), s.R(b, st)
        for _ in range(2):
            if a.__class__ is tuple and a[0] == 's':
                if not s.refine(a, pred, b, st): return False
            a, b, pred = b, a, s.SWP[pred]
        return True
    def refine(s, a, pred, b, st):
        n = a[1]
        if pred == 'eq':
            if b.__class__ is int:
                lo, hi = s.rng(a, st)
                if (lo is not None and b < lo) or (hi is not None and b > hi): return False
                f = st.facts.get(n)
                if f and f[0] == 'i' and b in f[3]: return False
                st.facts[n] = ('=', b)
                d = s.symd[n]
                if d[0] == 'op' and d[1] in ('zext', 'sext', 'trunc'):
                    x = s.R(d[2], st)
                    if x.__class__ is tuple and x[0] == 's': return s.refine(x, 'eq', b, st)
                    if x.__class__ is int and d[1] != 'trunc' and x != b and (x & 0xff) != (b & 0xff): return False
            elif b == NULL or (b.__class__ is tuple and b[0] == 'p'):
                f = st.facts.get(n)
                if f and f[0] == 'nn' and b == NULL: return False
                st.facts[n] = ('=', b)
            return True
        if pred == 'ne':
            if b.__class__ is int:
                f = st.facts.get(n)
                lo, hi, ne = (f[1], f[2], f[3]) if f and f[0] == 'i' else (None, None, frozenset())
                if lo is not None and lo == b: lo += 1
                if hi is not None and hi == b: hi -= 1
                if lo is not None and hi is not None and lo > hi: return False
                st.facts[n] = ('i', lo, hi, ne | {b} if len(ne) < 24 else ne)
                d = s.symd[n]
                if d[0] == 'op' and d[1] in ('zext', 'sext'):
                    x = s.R(d[2], st)
                    if x.__class__ is tuple and x[0] == 's': return s.refine(x, 'ne', b, st)
            elif b == NULL:
                st.facts[n] = ('nn',)
            return True
        if b.__class__ is int and pred[0] == 's':
            f = st.facts.get(n)
            lo, hi, ne = (f[1], f[2], f[3]) if f and f[0] == 'i' else (None, None, frozenset())
            if pred == 'slt': hi = b - 1 if hi is None else min(hi, b - 1)
            elif pred == 'sle': hi = b if hi is None else min(hi, b)
            elif pred == 'sgt': lo = b + 1 if lo is None else max(lo, b + 1)
            elif pred == 'sge': lo = b if lo is None else max(lo, b)
            if lo is not None and hi is not None:
                if lo > hi: return False
                if lo == hi:
                    st.facts[n] = ('=', lo); return True
            st.facts[n] = ('i', lo, hi, ne)
        return True

    def cmp(s, pred, a, b, ty, st):
        bits = WORD.get(ty, 64)
        if a.__class__ is int and b.__class__ is int:
            if pred[0] == 'u':
                mk = (1 << bits) - 1; a &= mk; b &= mk
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            q = pred[1:]
            return int(a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b)
        ta = a[0] if a.__class__ is tuple else 'i'
        tb = b[0] if b.__class__ is tuple else 'i'
        if pred in ('eq', 'ne'):
            r = None
            if ta == 's' and a == b: r = 1
            elif ta == 'd' and tb == 'n' or ta == 'n' and tb == 'd': r = 0
            elif ta in 'np' and tb in 'np':
                if ta == 'n' and tb == 'n': r = 1
                elif ta != tb: r = 0
                elif a[1] == b[1] and a[2].__class__ is int and b[2].__class__ is int: r = int(a[2] == b[2])
                elif a[1] != b[1] and s.regd[a[1]][0] in ('R0', 'a', 'new') and s.regd[b[1]][0] in ('R0', 'a', 'new'): r = 0
            elif ta in ('fn', 'g') and tb == 'n' or tb in ('fn', 'g') and ta == 'n': r = 0
            elif ta == 's' and tb == 'n':
                f = st.facts.get(a[1])
                if f and f[0] == 'nn': r = 0
            elif tb == 's' and ta == 'n':
                f = st.facts.get(b[1])
                if f and f[0] == 'nn': r = 0
            if r is not None: return r if pred == 'eq' else 1 - r
            # boolean comparisons against 0/1
            if b.__class__ is int and ta == 's':
                d = s.symd[a[1]]
                if d[0] == 'op' and d[1] == 'zext' and d[3] == 'i1' and b == 0:
                    x = s.R(d[2], st)
                    if pred == 'ne': return x
                    return s.bnot(x, st)
                if ty == 'i1':
                    want = (pred == 'eq') == (b != 0)
                    return a if want else s.bnot(a, st)
                f = st.facts.get(a[1])
                if f and f[0] == 'i':
                    if b in f[3] or (f[1] is not None and b < f[1]) or (f[2] is not None and b > f[2]):
                        return int(pred == 'ne')
        elif pred[0] == 's':
            la, ha = s.rng(a, st); lb, hb = s.rng(b, st)
            q = pred[1:]
            if q in ('gt', 'ge'):
                la, ha, lb, hb = lb, hb, la, ha; q = {'gt': 'lt', 'ge': 'le'}[q]
            if ha is not None and lb is not None and (ha < lb or (q == 'le' and ha <= lb)): return 1
            if la is not None and hb is not None and (la > hb or (q == 'lt' and la >= hb)): return 0
            if a == b: return int(q == 'le')
        v = s.sym(('cmp', pred, a, b))
        return s.R(v, st)
    def bnot(s, x, st):
        x = s.R(x, st)
        if x.__class__ is int: return 1 - (x & 1)
        d = s.symd[x[1]] if x[0] == 's' else ('?',)
        if d[0] == 'op' and d[1] == 'not': return s.R(d[2], st)
        if d[0] == 'cmp' and d[1] in s.NEG:
            return s.R(s.sym(('cmp', s.NEG[d[1]], d[2], d[3])), st)
        return s.R(s.sym(('op', 'not', x)), st)

    # ---- operands ---------------------------------------------------------------
    def ev(s, o, env, st):
        t = o[0]
        if t == 'v':
            v = env.get(o[1])
            if v is None: v = s.sym(('undef', o[1]))
            if v.__class__ is tuple and v[0] == 's':
                f = st.facts.get(v[1])
                if f is not None and f[0] == '=': return f[1]
            return v
        if t == 'c': return o[1] & 1 if o[2] == 1 else o[1]
        if t == 'n': return NULL
        if t == 'g':
            return ('fn', o[1]) if o[1] in s.m.fns else ('p', s.reg(('g', o[1])), 0)
        if t == 'e':
            if o[1] == 'gep': return s.gep(s.ev(o[2], env, st), o[3], env, st)
            return s.sym(('ce', str(o)))
        if t == 'f': return ('f', o[1])
        if t == 'z': return ('agg0',)
        if t == 'a' : return s.sym(('ca', str(o)))
        return s.sym(('u', str(o)[:80]))
    def gep(s, base, g, env, st):
        off, var = g[1], False
        for sc, o in g[2]:
            x = s.ev(o, env, st)
            if x.__class__ is int: off += sc * x
            else: var = True
        if base.__class__ is tuple:
            if base[0] == 'p':
                bo = base[2]
                if bo.__class__ is int:
                    return ('p', base[1], ('x', bo + off)) if var else ('p', base[1], bo + off)
                return ('p', base[1], ('x', bo[1] + off))
            if base[0] == 's':
                return ('p', s.reg(('d', base[1])), ('x', off) if var else off)
            if base[0] in ('n', 'd'): return base
        return s.sym(('gep', str(base), off))

    # ---- memory -------------------------------------------------------------------
    def tracked(s, r):
        k = s.regd[r][0]
        return k in ('R0', 'a', 'g', 'arg')
    def member_end(s, off):
        for n, o, z, t in s.members or ():
            if o <= off < o + z: return o + z
        return off + 8
    def kill(s, r, lo, hi, st):
        mem = st.mem
        dead = [k for k in mem if k[0] == r and k[1].__class__ is int and k[1] >= lo and (hi is None or k[1] < hi)]
        for k in dead: del mem[k]
        z = mem.get((r, 'z'))
        if z:
            nz = set()
            for a, b in z:
                if hi is not None and (b <= lo or a >= hi): nz.add((a, b))
                else:
                    if a < lo: nz.add((a, lo))
                    if hi is not None and b > hi: nz.add((hi, b))
            mem[(r, 'z')] = frozenset(nz)
    def loadv(s, r, off, ty, st, uid):
        k = (r, off)
        v = st.mem.get(k)
        if v is not None: return v
        z = st.mem.get((r, 'z'))
        if z:
            for a, b in z:
                if a <= off < b: return NULL if ty == 'ptr' else 0
        d = s.regd[r]
        if d[0] == 'g':
            v = s.gmem.get((d[1], off))
            if v is not None: return v
            for a, b in s.gmem.get((d[1], 'z'), ()):
                if a <= off < b: return NULL if ty == 'ptr' else 0
            v = s.const_global(d[1], off, ty)
            if v is not None: return v
            if d[1].startswith('_ZGV'): return 0
        v = s.sym(('L', r, off))
        st.mem[k] = v
        return v
    def const_global(s, g, off, ty):
        gd = s.m.globals.get(g)
        if not gd or not gd.get('const') or 'init' not in gd: return None
        init = gd['init']
        mt = re.match(r'^\[(\d+) x (i\d+)\]$', gd['type'])
        if mt and ty == mt.group(2):
            w = int(mt.group(2)[1:]) // 8
            if off % w: return None
            k = off // w
            if init[0] == 's' and w == 1 and k < len(init[1]): return wrap(init[1][k], 8)
            if init[0] == 'a' and k < len(init[1]) and init[1][k][0] == 'c': return init[1][k][1]
            if init[0] == 'z': return 0
        if off == 0 and init[0] == 'c': return init[1]
        return None

    def deref_ok(s, p, fn, i, st, what):
        if p.__class__ is tuple:
            if p == NULL:
                s.bad_deref(fn, i, what, 'absent', st); return False
            if p == DANG:
                s.bad_deref(fn, i, what, 'released', st); return False
            if p[0] == 'p':
                d = s.regd[p[1]]
                if d[0] == 'd' and d[1] not in st.facts: st.facts[d[1]] = ('nn',)
            elif p[0] == 's' and p[1] not in st.facts: st.facts[p[1]] = ('nn',)
        return True
    def bad_deref(s, fn, i, what, how, st):
        s.report('deref', fn, i, '%s through %s pointer' % (what, how), st)

    # ---- liveness -------------------------------------------------------------------
    def live(s, fn):
        L = s._live.get(fn.name)
        if L is None:
            n = len(fn.blocks)
            use, dfn, phiu = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
            def ops(x, out):
                if x.__class__ is list:
                    if len(x) == 2 and x[0] == 'v' and x[1].__class__ is int: out.add(x[1])
                    else:
                        for y in x:
                            if y.__class__ is list: ops(y, out)
            for b in range(n):
                for i in fn.blocks[b]:
                    if i[0] == 'phi':
                        for o, pb in i[4]:
                            if o[0] == 'v': phiu[pb].add(o[1])
                            elif o[0] == 'e': ops(o, phiu[pb])
                        dfn[b].add(i[1])
                        continue
                    u = set(); ops(i[4:], u)
                    use[b] |= (u - dfn[b])
                    if i[1] >= 0: dfn[b].add(i[1])
            li = [set() for _ in range(n)]
            ch = True
            succ = fn.succ()
            order = list(reversed(fn.rpo()))
            while ch:
                ch = False
                for b in order:
                    o = set(phiu[b])
                    for x in succ[b]: o |= li[x]
                    ni = use[b] | (o - dfn[b])
                    if ni != li[b]: li[b] = ni; ch = True
            # exclude phi defs of the block itself (handled on edges) but keep them in the entry environment
            phis = [[i for i in fn.blocks[b] if i[0] == 'phi'] for b in range(n)]
            keep = [frozenset(li[b] | {p[1] for p in phis[b]}) for b in range(n)]
            heads = {h for (_, h) in fn.back()}
            kinds = {}
            for b in range(n):
                for p in phis[b]: kinds[p[1]] = ('phi', p[2], b in heads)
                for i in fn.blocks[b]:
                    if i[0] in ('call', 'invoke', 'load', 'select', 'icmp', 'xor', 'and', 'or', 'zext', 'trunc') and i[1] >= 0: kinds[i[1]] = (i[0], i[2], False)
            flags = [[v for v in keep[b] if v in kinds and kinds[v][1] in ('i1', 'i8', 'i32', 'ptr')] for b in range(n)]
            for x in flags: x.sort()
            L = s._live[fn.name] = (keep, phis, heads, kinds, flags)
        return L

    # ---- joins -------------------------------------------------------------------------
    def nonnull(s, v, st):
        if v.__class__ is not tuple: return False
        if v[0] == 'p': return True
        if v[0] != 's': return False
        f = st.facts.get(v[1])
        return f is not None and (f[0] == 'nn' or f[0] == '=' and f[1].__class__ is tuple and f[1][0] == 'p')
    def jval(s, a, b, uid):
        if a == b: return a
        A = a[1] if a.__class__ is tuple and a[0] == 'alt' else frozenset((a,))
        B = b[1] if b.__class__ is tuple and b[0] == 'alt' else frozenset((b,))
        u = A | B
        if len(u) <= 5 and all(x.__class__ is int or x[0] in ('n', 'd', 'p') for x in u):
            return ('alt', u)
        return uid
    def join(s, o, n, fnid, blk):
        """join state n into o; returns (state, changed)"""
        oe, os_ = o; ne, ns = n
        changed = False
        env = {}
        newj, nnj = set(), []
        for k, v in oe.items():
            w = ne.get(k)
            if v == w: env[k] = v
            elif w is None: env[k] = v
            elif v.__class__ is tuple and v[0] == 'p' and w.__class__ is tuple and w[0] == 'p' and v[1] == w[1]:
                a = v[2] if v[2].__class__ is int else v[2][1]
                b = w[2] if w[2].__class__ is int else w[2][1]
                o = min(a, b)
                if v[2].__class__ is not int and o < a: o = 0
                env[k] = j = ('p', v[1], ('x', o))
                if j != v: changed = True
            else:
                j = s.sym(('J', fnid, blk, k))
                if v != j: changed = True; newj.add(j[1])
                nnj.append((j[1], v, w))
                env[k] = j
        for k, w in ne.items():
            if k not in oe: env[k] = w; changed = True
        mem = {}
        om, nm = os_.mem, ns.mem
        for k, v in om.items():
            w = nm.get(k)
            if v == w: mem[k] = v
            elif k[1] == 'z':
                x = v & (w or frozenset())
                mem[k] = x
                if x != v: changed = True
            else:
                if w is None:
                    if k[0] == 0:
                        w = s.sym(('L', k[0], k[1]))
                    else:
                        z = nm.get((k[0], 'z'))
                        if z and any(a <= k[1] < b for a, b in z): w = 0
                        else:
                            changed = True; continue
                if k[0] == 0:
                    rv, rw = s.R(v, os_), s.R(w, ns)
                    if rv == rw:
                        mem[k] = rv
                        if rv != v: changed = True
                        continue
                j = s.jval(v, w, None)
                if j is None:
                    j = s.sym(('JM', fnid, blk, k))
                    if j != v: newj.add(j[1])
                    nnj.append((j[1], v, w))
                if j != v: changed = True
                mem[k] = j
        for k, w in nm.items():
            if k not in om:
                if k[0] == 0 and k[1] != 'z':
                    v = s.sym(('L', k[0], k[1]))
                    if w != v:
                        j = s.jval(v, w, None) or s.sym(('JM', fnid, blk, k))
                        mem[k] = j; changed = True
        facts = {}
        for j, v, w in nnj:
            if s.nonnull(v, os_) and s.nonnull(w, ns): facts[j] = ('nn',)
        of, nf = os_.facts, ns.facts
        for k, f in of.items():
            g = nf.get(k)
            if k in facts and f == facts[k]: continue
            if newj and (k in newj or not newj.isdisjoint(s._mset(k))): changed = True
            elif g == f: facts[k] = f
            else:
                changed = True
                h = s.jfact(f, g)
                if h: facts[k] = h
        return (env, St(mem, facts, os_.mon)), changed
    def jfact(s, f, g):
        if g is None: return None
        def iv(x):
            if x[0] == '=' and x[1].__class__ is int: return x[1], x[1], frozenset()
            if x[0] == 'i': return x[1:]
            return None
        if f[0] == 'nn' or g[0] == 'nn':
            nn = lambda x: x[0] == 'nn' or (x[0] == '=' and x[1].__class__ is tuple and x[1][0] == 'p')
            return ('nn',) if nn(f) and nn(g) else None
        a, b = iv(f), iv(g)
        if not a or not b: return None
        # widening: keep only bounds that agree
        lo = a[0] if a[0] == b[0] else (a[0] if a[0] is not None and b[0] is not None and b[0] > a[0] else None)
        hi = a[1] if a[1] == b[1] else (a[1] if a[1] is not None and b[1] is not None and b[1] < a[1] else None)
        ne = frozenset(x for x in a[2] if x in b[2] or (b[0] is not None and x < b[0]) or (b[1] is not None and x > b[1]))
        if lo is None and hi is None and not ne: return None
        return ('i', lo, hi, ne)

    # ---- function execution ---------------------------------------------------------------
    def run(s, fn, args, st, path=0, depth=0):
        """abstractly execute fn; returns [(ret, state)]"""
        s.visited.add(fn.name)
        keep, phis, heads, kinds, flags = s.live(fn)
        fpath = path
        order = {b: n for n, b in enumerate(fn.rpo())}
        ins = {0: {}}
        env0 = {n: a for n, a in enumerate(args)}
        work = {}                      # block -> set of keys pending
        store = {}                     # (block) -> {key: (env, st)}
        loops = fn.loops()
        unk = set()                    # loop headers whose exit test was not decided
        rets = {}
        s.active.append(fn.short)
        def arrive(b, env, st):
            L = flags[b]
            widen = b in unk
            lf = []
            for v in L:
                x = env.get(v)
                if x.__class__ is tuple and x[0] == 's':
                    f = st.facts.get(x[1])
                    x = f[1] if f is not None and f[0] == '=' else None
                if x.__class__ is int:
                    k = kinds[v]
                    if k[0] == 'phi' and k[2] and k[1] not in ('i1', 'i8') and (widen or any(h in unk for h in heads)): continue
                    if not (-2 <= x <= 64): continue
                    lf.append((v, x))
                elif x == NULL: lf.append((v, 'n'))
                elif x == DANG: lf.append((v, 'd'))
                elif x.__class__ is tuple and x[0] == 'p' and kinds[v][0] == 'phi' and kinds[v][2] and x[2].__class__ is int and not (widen or any(h in unk for h in heads)):
                    lf.append((v, x))
            d = store.setdefault(b, {})
            base = (st.mon, s.keyf(st))
            key = (base, tuple(lf))
            if key not in d and len(d) >= s.cap:
                key = (base, None)
            o = d.get(key)
            if o is None:
                d[key] = (env, st)
            else:
                nv, ch = s.join(o, (env, st), (fpath, fn.name), b)
                if not ch: return
                d[key] = nv
            work.setdefault(b, set()).add(key)
        def edge(b, succ, env, st):
            ne = {}
            K = keep[succ]
            ph = phis[succ]
            vals = []
            for p in ph:
                for o, pb in p[4]:
                    if pb == b:
                        vals.append((p[1], s.ev(o, env, st), p)); break
            pids = {p[1] for p in ph}
            for k in K:
                if k not in pids:
                    x = env.get(k)
                    if x is not None: ne[k] = x
            isback = (b, succ) in fn.back()
            for pv, x, p in vals:
                if isback and p[2] not in ('i1', 'i8', 'ptr') and succ in unk and x.__class__ is int:
                    x = s.sym(('J', (fpath, fn.name), succ, pv))
                ne[pv] = x
                if not isback and s.on_phi is not None and succ in heads: s.on_phi(fn, p, x, st)
            arrive(succ, ne, st)
        arrive(0, env0, st)
        guard = 0
        while work:
            b = min(work, key=lambda x: order[x])
            keys = work[b]
            key = keys.pop()
            if not keys: del work[b]
            env, st0 = store[b][key]
            guard += 1
            if guard > 20000:
                from pipeline import AnalysisError
                raise AnalysisError('no fixpoint in %s' % fn.short)
            stack = [(0, dict(env), st0.copy())]
            blk = fn.blocks[b]
            while stack:
                idx, env, st = stack.pop()
                n = len(blk)
                dead = False
                while idx < n:
                    i = blk[idx]
                    op = i[0]
                    s.steps += 1
                    if op == 'phi': idx += 1; continue
                    if op == 'load':
                        p = s.ev(i[4], env, st)
                        if not s.deref_ok(p, fn, i, st, 'read'): dead = True; break
                        if p.__class__ is tuple and p[0] == 'p' and s.tracked(p[1]) and p[2].__class__ is int:
                            v = s.loadv(p[1], p[2], i[2], st, None)
                            if v.__class__ is tuple and v[0] == 's':
                                v = s.R(v, st)
                            if v.__class__ is tuple and v[0] == 'alt':
                                for a in sorted(v[1], key=str)[1:]:
                                    e2, s2 = dict(env), st.copy()
                                    s2.mem[(p[1], p[2])] = a
                                    e2[i[1]] = a
                                    stack.append((idx + 1, e2, s2))
                                a = sorted(v[1], key=str)[0]
                                st.mem[(p[1], p[2])] = a
                                v = a
                        else:
                            v = s.load_untracked(fn, i, p, st, fpath)
                        s.on_load(fn, i, p, v, st)
                        env[i[1]] = v
                    elif op == 'store':
                        v, p = s.ev(i[4], env, st), s.ev(i[5], env, st)
                        if not s.deref_ok(p, fn, i, st, 'write'): dead = True; break
                        s.on_store(fn, i, p, v, st)
                        s.do_store(p, v, i[6], st)
                    elif op == 'getelementptr':
                        env[i[1]] = s.gep(s.ev(i[4], env, st), i[5], env, st)
                    elif op in ('call', 'invoke'):
                        res = s.do_call(fn, i, env, st, fpath, depth)
                        if not res: dead = True; break
                        for r, s2 in res[1:]:
                            e2 = dict(env)
                            if i[1] >= 0: e2[i[1]] = r if r is not None else s.sym(('cr', fpath, fn.name, i[1]))
                            stack.append((idx + 1, e2, s2))
                        r, st = res[0]
                        if i[1] >= 0: env[i[1]] = r if r is not None else s.sym(('cr', fpath, fn.name, i[1]))
                        if op == 'invoke' and idx == n - 1:
                            pass
                    elif op == 'br':
                        if i[4] is None: edge(b, i[5][0], env, st)
                        else:
                            c = s.ev(i[4], env, st)
                            if c.__class__ is int:
                                edge(b, i[5][0] if c & 1 else i[5][1], env, st)
                            else:
                                for h, body in loops.items():
                                    if b in body and (i[5][0] not in body) != (i[5][1] not in body): unk.add(h)
                                s2 = st.copy()
                                if s.assume(c, 1, st): s.settle(st); edge(b, i[5][0], env, st)
                                if s.assume(c, 0, s2): s.settle(s2); edge(b, i[5][1], env, s2)
                        s.on_branch(fn, b, st)
                    elif op == 'switch':
                        c = s.ev(i[4], env, st)
                        if c.__class__ is int:
                            for cv, tb in i[6]:
                                if cv == c: edge(b, tb, env, st); break
                            else: edge(b, i[5], env, st)
                        else:
                            ok = st
                            for cv, tb in i[6]:
                                s2 = st.copy()
                                if c.__class__ is not tuple or c[0] != 's' or s.refine(c, 'eq', cv, s2): edge(b, tb, env, s2)
                            s2 = st.copy(); live_ = True
                            if c.__class__ is tuple and c[0] == 's':
                                for cv, tb in i[6]:
                                    if not s.refine(c, 'ne', cv, s2): live_ = False; break
                            if live_: edge(b, i[5], env, s2)
                    elif op == 'ret':
                        r = s.ev(i[4], env, st) if len(i) > 4 else None
                        rk = r if r.__class__ is int or r == NULL or r is None else ('v' if not (r.__class__ is tuple and r[0] == 'p') else r)
                        k = (rk, st.mon, s.keyf(st))
                        s.drop_frame(fpath, fn, st)
                        o = rets.get(k)
                        if o is None: rets[k] = (r, st)
                        else:
                            (e, s3), _ = s.join(({0: o[0]} if o[0] is not None else {}, o[1]), ({0: r} if r is not None else {}, st), (fpath, fn.name), 'ret')
                            rets[k] = (e.get(0), s3)
                    elif op == 'icmp':
                        a, c = s.ev(i[5], env, st), s.ev(i[6], env, st)
                        env[i[1]] = s.cmp(i[4], a, c, i[7], st)
                    elif op == 'alloca':
                        r = s.reg(('a', fpath, fn.name, i[1]))
                        for k in [k for k in st.mem if k[0] == r]: del st.mem[k]
                        env[i[1]] = ('p', r, 0)
                    elif op == 'select':
                        c = s.ev(i[4], env, st)
                        if c.__class__ is int:
                            env[i[1]] = s.ev(i[5] if c & 1 else i[6], env, st)
                        else:
                            s2, e2 = st.copy(), dict(env)
                            t = s.assume(c, 1, st)
                            f = s.assume(c, 0, s2)
                            if f:
                                e2[i[1]] = s.ev(i[6], e2, s2)
                                stack.append((idx + 1, e2, s2))
                            if not t: dead = True; break
                            env[i[1]] = s.ev(i[5], env, st)
                    else:
                        if i[1] >= 0: env[i[1]] = s.arith(fn, i, op, env, st, fpath)
                        elif op in ('unreachable', 'resume'): dead = True; break
                    idx += 1
                if not dead and blk[-1][0] == 'invoke':
                    edge(b, blk[-1][6][0], env, st)
        s.active.pop()
        return list(rets.values())

    def drop_frame(s, fpath, fn, st):
        dead = [k for k in st.mem if s.regd[k[0]][0] == 'a' and s.regd[k[0]][1] == fpath and s.regd[k[0]][2] == fn.name]
        for k in dead: del st.mem[k]

    def load_untracked(s, fn, i, p, st, fpath):
        return s.fresh(('ld', fpath, fn.name, i[1]), st)

    def do_store(s, p, v, size, st):
        if not (p.__class__ is tuple and p[0] == 'p') or not s.tracked(p[1]): return
        r, off = p[1], p[2]
        if off.__class__ is int:
            st.mem[(r, off)] = v
        else:
            o = off[1]
            s.kill(r, o, s.member_end(o) if r == 0 else None, st)

    def arith(s, fn, i, op, env, st, fpath):
        ty = i[2]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            a = s.ev(i[4], env, st)
            src = i[5] if len(i) > 5 else ''
            if a.__class__ is int:
                if op == 'zext': return a & ((1 << WORD.get(src, 64)) - 1)
                if op == 'sext': return -a if src == 'i1' else a
                if op == 'trunc': return wrap(a, WORD.get(ty, 64)) if ty != 'i1' else a & 1
                if op in ('freeze', 'bitcast'): return a
            if op in ('freeze', 'bitcast'): return a
            if a.__class__ is tuple and a[0] == 's':
                d = s.symd[a[1]]
                if op == 'trunc' and d[0] == 'op' and d[1] in ('zext', 'sext') and d[3] == ty: return s.R(d[2], st)
            return s.R(s.sym(('op', op, a, src, ty)), st)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'srem', 'udiv', 'urem'):
            a, b = s.ev(i[4], env, st), s.ev(i[5], env, st)
            bits = WORD.get(ty, 64)
            if a.__class__ is int and b.__class__ is int:
                try:
                    mk = (1 << bits) - 1
                    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                         'shl': lambda: a << b, 'ashr': lambda: a >> b, 'lshr': lambda: (a & mk) >> b, 'sdiv': lambda: int(a / b), 'srem': lambda: a - int(a / b) * b,
                         'udiv': lambda: (a & mk) // (b & mk), 'urem': lambda: (a & mk) % (b & mk)}[op]()
                    return wrap(r, bits) if bits > 1 else r & 1
                except (ZeroDivisionError, ValueError, OverflowError):
                    pass
            if ty == 'i1':
                if op == 'xor' and b.__class__ is int: return s.bnot(a, st) if b & 1 else a
                if op == 'and':
                    if a == 0 or b == 0: return 0
                    if a == 1: return b
                    if b == 1: return a
                if op == 'or':
                    if a == 1 or b == 1: return 1
                    if a == 0: return b
                    if b == 0: return a
            if op == 'and' and (a == 0 or b == 0): return 0
            return s.R(s.sym(('op', op, a, b, ty)), st)
        if op == 'extractvalue':
            a = s.ev(i[4], env, st)
            if a.__class__ is tuple and a[0] == 'agg' and len(i[5]) == 1: return a[1][i[5][0]]
            return s.R(s.sym(('op', 'ev', a, tuple(i[5]))), st)
        if op == 'insertvalue':
            a, b = s.ev(i[4], env, st), s.ev(i[5], env, st)
            if len(i[6]) == 1:
                el = list(a[1]) if a.__class__ is tuple and a[0] == 'agg' else [s.sym(('undef', -1))] * 8
                el[i[6][0]] = b
                return ('agg', tuple(el))
        if op == 'fcmp':
            a, b = s.ev(i[5], env, st), s.ev(i[6], env, st)
            return s.R(s.sym(('cmp', 'f' + i[4], a, b)), st)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            return s.sym(('op', op) + tuple(s.ev(o, env, st) for o in i[4:]))
        return s.fresh(('ar', fpath, fn.name, i[1]), st)

    # ---- calls ---------------------------------------------------------------------------
    def nins(s, f):
        n = s._size.get(f.name)
        if n is None:
            n = s._size[f.name] = sum(len(b) for b in f.blocks)
        return n
    def classify(s, f):
        c = s._cls.get(f.name)
        if c is None:
            c = s._cls[f.name] = s.classify0(f)
        return c
    def classify0(s, f):
        d, n = f.dem, f.name
        if n.startswith('llvm.'):
            for k in ('memcpy', 'memmove', 'memset'):
                if n.startswith('llvm.' + k): return k
            if n.startswith('llvm.type.test') or n.startswith('llvm.public.type.test'): return 'true'
            if n.startswith('llvm.expect'): return 'id'
            return 'nop'
        if n in ('__cxa_guard_acquire',): return 'true'
        if n in ('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'): return 'nop'
        if n in ('memcpy', 'memmove', 'memset'): return n
        if d.startswith('operator new'): return 'new'
        if d.startswith('operator delete') or n == 'free': return 'delete'
        if d.startswith('std::unique_ptr<') or re.match(r'^std::(__uniq_ptr_impl|__uniq_ptr_data)<', d):
            meth = d[d.rindex('>::') + 3:] if '>::' in d else ''
            if d.startswith('std::unique_ptr<'):
                if meth.startswith('operator bool'): return 'up_bool'
                if meth.startswith('get()') or meth.startswith('operator->') : return 'up_get'
                if meth.startswith('operator*'): return 'up_get'
                if meth.startswith('operator[]'): return 'up_idx'
                if meth.startswith('release'): return 'up_release'
                if meth.startswith('reset'): return 'up_reset'
                if meth.startswith('operator=(std::nullptr_t') or meth.startswith('operator=(decltype(nullptr)'): return 'up_null'
                if 'operator=' in meth or '::operator=' in d: return 'up_move'
                if meth.startswith('~'): return 'up_dtor'
                if meth.startswith('unique_ptr'):
                    na = len(f.args)
                    if na == 1: return 'up_ctor0'
                    sg = f.sig
                    if '&&' in d: return 'up_ctorm'
                    if 'nullptr' in d: return 'up_ctor0'
                    return 'up_ctorp'
            if re.search(r'::operator=<|::operator=\(', d): return 'up_move'
            if re.search(r'::unique_ptr<', d): return 'up_ctorm' if '&&' in d else ('up_ctor0' if len(f.args) == 1 or 'nullptr' in d else 'up_ctorp')
            if re.search(r'::reset<', d): return 'up_reset'
        if re.search(r'\bstd::make_unique<', d) or 'std::_MakeUniq<' in d and 'make_unique' in d: return 'make_unique'
        if re.search(r'\bbool std::operator(==|!=)<.*nullptr', d) and 'unique_ptr' in d: return 'up_eqnull' if 'operator==' in d else 'up_nenull'
        if f.decl: return 'opaque'
        if f.in_repo: return 'repo'
        if s.STD_INLINE.match(d) and s.nins(f) <= 60: return 'inline'
        if '::begin(' in d and 'initializer_list' in d or '::end(' in d and 'initializer_list' in d: return 'inline'
        return 'opaque'

    def has_r0(s, v, st):
        if v.__class__ is tuple and v[0] == 'p':
            if v[1] == 0: return True
            if s.regd[v[1]][0] == 'a':
                r = v[1]
                for k, x in st.mem.items():
                    if k[0] == r and x.__class__ is tuple and x[0] == 'p' and (x[1] == 0): return True
        return False
    def should_inline(s, f, args, st, depth):
        if depth >= s.maxdepth or f.short in s.active and s.active.count(f.short) > 1: return False
        if f.scope.startswith('gdx::TGXFileObj') or f.scope.startswith('gdx::TgxModeSet') or 'operator()' in f.sname and any(s.has_r0(a, st) for a in args): return True
        isthis = bool(f.args) and (f.args[0][0] == 'this' or len(f.args) > 1 and f.args[1][0] == 'this')
        if isthis:
            a = args[1 if f.args[0][0] != 'this' else 0]
            if a.__class__ is tuple and a[0] == 'p' and s.regd[a[1]][0] in ('R0', 'g') and s.nins(f) <= 60 and not f.loops(): return True
            if a.__class__ is tuple and a[0] == 'p' and s.regd[a[1]][0] == 'a' and s.nins(f) <= 60 and any(s.has_r0(x, st) for x in args): return True
            return False
        if any(s.has_r0(a, st) for a in args): return True
        if s.nins(f) <= 80 and not f.loops(): return True
        return False

    def do_call(s, fn, i, env, st, fpath, depth):
        args = [s.ev(a, env, st) for a in i[5]]
        tg = s.m.resolve(fn, i)
        if not tg:
            s.on_call(fn, i, None, args, st, True)
            s.havoc_args(None, args, st)
            return [(s.fresh(('cr', fpath, fn.name, i[1]), st) if i[1] >= 0 else None, st)]
        if len(tg) > 1:
            out = []
            for t in tg:
                s2 = st.copy()
                out += s.call1(fn, i, t, args, s2, fpath, depth)
            return out
        return s.call1(fn, i, tg[0], args, st, fpath, depth)

    def newreg(s, d, st):
        r = s.reg(d)
        old = None
        for k, x in list(st.mem.items()):
            if x.__class__ is tuple and x[0] == 'p' and x[1] == r:
                if old is None: old = s.reg(('old',) + d)
                st.mem[k] = ('p', old, x[2])
            elif x.__class__ is tuple and x[0] == 'alt':
                u = frozenset((('p', s.reg(('old',) + d), y[2]) if y.__class__ is tuple and y[0] == 'p' and y[1] == r else y) for y in x[1])
                if u != x[1]: st.mem[k] = ('alt', u)
        return ('p', r, 0)

    def getslot(s, p, st):
        """current value(s) of a pointer-sized slot -> list of (value, state)"""
        if not (p.__class__ is tuple and p[0] == 'p') or not s.tracked(p[1]) or p[2].__class__ is not int:
            return [(None, st)]
        v = s.R(s.loadv(p[1], p[2], 'ptr', st, None), st)
        if v.__class__ is int: v = NULL if v == 0 else v
        if v.__class__ is tuple and v[0] == 'alt':
            out = []
            for a in sorted(v[1], key=str):
                s2 = st.copy(); s2.mem[(p[1], p[2])] = a
                out.append((a, s2))
            return out
        return [(v, st)]
    def destroy(s, v, st, cls, fn, i):
        if v is None or v == NULL: return
        if v == DANG:
            s.report('deref', fn, i, 'release of an already released object', st)
            return
        s.on_destroy(v, st, cls)
        if v[0] == 'p':
            r = v[1]
            for k, x in list(st.mem.items()):
                if x.__class__ is tuple and x[0] == 'p' and x[1] == r: st.mem[k] = DANG
                elif x.__class__ is tuple and x[0] == 'alt' and any(y.__class__ is tuple and y[0] == 'p' and y[1] == r for y in x[1]):
                    u = frozenset(DANG if y.__class__ is tuple and y[0] == 'p' and y[1] == r else y for y in x[1])
                    st.mem[k] = ('alt', u) if len(u) > 1 else next(iter(u))
    def slotset(s, p, v, st):
        if p.__class__ is tuple and p[0] == 'p' and s.tracked(p[1]) and p[2].__class__ is int:
            st.mem[(p[1], p[2])] = v
    def upclass(s, d):
        m = re.search(r'unique_ptr<([^,]*(?:<.*?>)?[^,]*?)(, std::default_delete|>)', d)
        return m.group(1) if m else ''

    def call1(s, fn, i, f, args, st, fpath, depth):
        c = s.classify(f)
        rid = i[1]
        fr = lambda: (s.fresh(('cr', fpath, fn.name, rid), st) if rid >= 0 else None)
        if c == 'nop':
            return [(fr(), st)]
        if c == 'true': return [(1, st)]
        if c == 'id': return [(args[0], st)]
        if c in ('memcpy', 'memmove', 'memset'):
            s.on_call(fn, i, f, args, st, True)
            d = args[0]
            if not s.deref_ok(d, fn, i, st, 'write'): return []
            if d.__class__ is tuple and d[0] == 'p' and s.tracked(d[1]):
                n = args[2] if args[2].__class__ is int else None
                o = d[2] if d[2].__class__ is int else d[2][1]
                hi = o + n if n is not None and d[2].__class__ is int else (s.member_end(o) if d[1] == 0 else None)
                src = args[1]
                cp = []
                if c != 'memset' and n is not None and d[2].__class__ is int and src.__class__ is tuple and src[0] == 'p' and s.tracked(src[1]) and src[2].__class__ is int:
                    cp = [(k[1] - src[2], v) for k, v in st.mem.items() if k[0] == src[1] and k[1].__class__ is int and src[2] <= k[1] < src[2] + n]
                    g = s.regd[src[1]]
                    if g[0] == 'g' and not cp:
                        mt = re.match(r'^\[(\d+) x (i\d+)\]$', s.m.globals.get(g[1], {}).get('type', ''))
                        if mt and n <= 256:
                            w = int(mt.group(2)[1:]) // 8
                            for q in range(0, n, w):
                                v = s.const_global(g[1], src[2] + q, mt.group(2))
                                if v is not None: cp.append((q, v))
                s.kill(d[1], o, hi, st)
                for q, v in cp: st.mem[(d[1], o + q)] = v
                if c == 'memset' and args[1] == 0 and n is not None and d[2].__class__ is int:
                    st.mem[(d[1], 'z')] = (st.mem.get((d[1], 'z')) or frozenset()) | {(o, o + n)}
            return [(args[0] if rid >= 0 else None, st)]
        if c == 'new':
            s.on_call(fn, i, f, args, st, True)
            return [(s.newreg(('new', fpath, fn.name, rid), st), st)]
        if c == 'delete':
            s.on_call(fn, i, f, args, st, True)
            if args[0] not in (NULL, DANG) and args[0].__class__ is tuple and args[0][0] == 'p' and s.regd[args[0][1]][0] != 'a':
                s.destroy(args[0], st, '', fn, i)
            elif args[0] == DANG:
                s.destroy(args[0], st, '', fn, i)
            return [(None, st)]
        if c.startswith('up_'):
            s.on_call(fn, i, f, args, st, False)
            sret = bool(f.args) and f.args[0][2]
            p = args[0]
            if c == 'up_bool':
                out = []
                for v, s2 in s.getslot(p, st):
                    if v is None: out.append((s.fresh(('cr', fpath, fn.name, rid), s2), s2))
                    else: out.append((s.cmp('ne', v, NULL, 'ptr', s2), s2))
                return out
            if c in ('up_eqnull', 'up_nenull'):
                return [((s.fresh(('cr', fpath, fn.name, rid), s2) if v is None else s.cmp('eq' if c == 'up_eqnull' else 'ne', v, NULL, 'ptr', s2)), s2) for v, s2 in s.getslot(p, st)]
            if c in ('up_get', 'up_idx'):
                out = []
                for v, s2 in s.getslot(p, st):
                    if v is None:
                        v = s.fresh(('cr', fpath, fn.name, rid), s2)
                    elif c == 'up_idx':
                        if v in (NULL, DANG):
                            s.deref_ok(v, fn, i, s2, 'element access'); continue
                        if v[0] == 'p': v = ('p', v[1], ('x', 0))
                    out.append((v, s2))
                return out
            cls = s.upclass(f.dem)
            out = []
            if c in ('up_null', 'up_reset', 'up_dtor'):
                nv = args[1] if c == 'up_reset' and len(args) > 1 else NULL
                for v, s2 in s.getslot(p, st):
                    s.slotset(p, nv, s2)
                    s.destroy(v, s2, cls, fn, i)
                    out.append((args[0] if rid >= 0 else None, s2))
                return out
            if c == 'up_release':
                for v, s2 in s.getslot(p, st):
                    s.slotset(p, NULL, s2); out.append((v if v is not None else s.fresh(('cr', fpath, fn.name, rid), s2), s2))
                return out
            if c in ('up_move', 'up_ctorm'):
                q = args[1]
                for w, s2 in s.getslot(q, st):
                    s.slotset(q, NULL, s2)
                    if c == 'up_ctorm':
                        s.slotset(p, w if w is not None else s.fresh(('mv', fpath, fn.name, len(s.symd)), s2), s2)
                        out.append((args[0] if rid >= 0 else None, s2))
                    else:
                        for v, s3 in s.getslot(p, s2):
                            s.slotset(p, w if w is not None else s.sym(('mv', fpath, fn.name)), s3)
                            s.destroy(v, s3, cls, fn, i)
                            out.append((args[0] if rid >= 0 else None, s3))
                return out
            if c == 'up_ctor0':
                s.slotset(p, NULL, st); return [(None, st)]
            if c == 'up_ctorp':
                s.slotset(p, args[1], st); return [(None, st)]
        if c == 'make_unique':
            s.on_call(fn, i, f, args, st, False)
            v = s.newreg(('new', fpath, fn.name, i[3] + ':' + str(fn.blocks and id(i) % 100000)), st)
            s.slotset(args[0], v, st)
            return [(None, st)]
        if c == 'inline' or (c == 'repo' and s.should_inline(f, args, st, depth)):
            s.on_call(fn, i, f, args, st, False)
            if f.short in s.active and s.active.count(f.short) > 1:
                s.havoc_args(f, args, st); return [(fr(), st)]
            np = s.pid((fpath, fn.name, i[1] if i[1] >= 0 else s.iid(fn, i), f.name))
            return s.run(f, args, st, np, depth + 1)
        # opaque
        ti = 1 if f.args and f.args[0][2] else 0
        if len(f.args) > ti and f.args[ti][0] == 'this' and not f.sname.startswith('operator bool'):
            if not s.deref_ok(args[ti], fn, i, st, 'call of %s' % (f.short if f.in_repo else f.dem[:60])): return []
        r = s.on_call(fn, i, f, args, st, True)
        s.havoc_args(f, args, st)
        x = s.opaque_result(fn, i, f, args, st)
        if x is not None: return x
        if i[7] or f.d['noret']: return []
        if rid >= 0 and i[2] == 'ptr':
            v = fr()
            if not s.may_return_null(f): st.facts[v[1]] = ('nn',)
            return [(v, st)]
        return [(fr(), st)]

    def iid(s, fn, i):
        d = s._iids.get(fn.name)
        if d is None:
            d = s._iids[fn.name] = {id(x): -2 - n for n, x in enumerate(x for b in fn.blocks for x in b)}
        return d[id(i)]
    def const_method(s, f):
        return f.dem.endswith(' const')
    def may_return_null(s, f):
        """can the function return a literal null (directly or through callees)?"""
        x = s.retnull.get(f.name)
        if x is None:
            s.retnull[f.name] = False
            x = False
            if not f.decl:
                for b in f.blocks:
                    t = b[-1]
                    if t[0] == 'ret' and len(t) > 4 and s._nullop(f, t[4], set()): x = True
            s.retnull[f.name] = x
        return x
    def _nullop(s, f, o, seen):
        if o[0] == 'n': return True
        d = f.idef(o)
        if d is None or d[1] in seen: return False
        seen.add(d[1])
        if d[0] == 'phi': return any(s._nullop(f, x, seen) for x, _ in d[4])
        if d[0] == 'select': return s._nullop(f, d[5], seen) or s._nullop(f, d[6], seen)
        if d[0] in ('call', 'invoke'):
            return any(s.may_return_null(t) for t in s.m.resolve(f, d) if not t.decl)
        return False

    def havoc_args(s, f, args, st):
        ti = -1
        if f is not None and f.args:
            k = 1 if f.args[0][2] else 0
            if len(f.args) > k and f.args[k][0] == 'this': ti = k
        for n, a in enumerate(args):
            if n == ti and a.__class__ is tuple and a[0] == 'p' and a[1] == 0 and f is not None and not s.const_method(f):
                o = a[2] if a[2].__class__ is int else a[2][1]
                z = s.m.types.get(f.scope, {}).get('size')
                s.kill(0, o, o + z if z and a[2].__class__ is int else s.member_end(o), st)
            if a.__class__ is tuple and a[0] == 'p' and a[2].__class__ is int:
                k = s.regd[a[1]][0]
                if k == 'a' or k == 'arg':
                    if n == ti or (f is not None and not f.in_repo and f.dem.startswith('std::')): continue
                    for q in [q for q in st.mem if q[0] == a[1] and q[1] != 'z' and q[1] >= a[2]]:
                        x = st.mem[q]
                        if x.__class__ is tuple and x[0] == 'p' and x[1] == 0: continue
                        del st.mem[q]
                    st.mem.pop((a[1], 'z'), None)
                elif k == 'R0' and n != ti and f is not None and not (f is not None and f.dem.startswith('std::')):
                    st.mem.pop((0, a[2]), None)
                    st.mem[(0, a[2])] = s.fresh(('hv', a[2]), None)
