"""Event graphs: the order, type and provenance of everything an operation reads from or writes to the GDX file.

An operation is abstractly executed (ai.Interp); every call of a stream primitive becomes a node, every feasible succession of two
such calls an edge.  A node carries the wire type, the constant written or expected, and the attribute (record or object field, table)
the value is taken from or ends up in."""
import re
from session import Session, CLS
from ai import NULL, DANG, St
from pipeline import AnalysisError

STREAM = 'gdlib::gmsstrm::TXStream'
WIRE = {'WriteString': 's', 'WriteDouble': 'd', 'WriteInteger': 'i', 'WriteInt64': 'l', 'WriteByte': 'b', 'WriteWord': 'w', 'WriteBool': 'b', 'WriteChar': 'c', 'WritePChar': 'p', 'Write': 'raw',
        'WriteGmsInteger': 'gi', 'WriteGmsDouble': 'gd',
        'ReadString': 's', 'ReadSString': 's', 'ReadDouble': 'd', 'ReadInteger': 'i', 'ReadInt64': 'l', 'ReadByte': 'b', 'ReadWord': 'w', 'ReadBool': 'b', 'ReadChar': 'c', 'ReadPChar': 'p', 'Read': 'raw',
        'ReadGmsInteger': 'gi', 'ReadGmsDouble': 'gd'}
CTRL = {'SetPosition', 'GetPosition', 'SetCompression', 'FlushBuffer'}

class Node:
    __slots__ = ('id', 'kind', 'wire', 'const', 'labels', 'ctx', 'loc', 'fn', 'arg', 'api', 'tested', 'stack', 'argd')
    def __repr__(s):
        return '%s%s%s%s' % (s.kind, ':' + s.wire if s.wire else '', '=%r' % (s.const,) if s.const is not None else '', '{%s}' % ','.join(sorted(s.labels)) if s.labels else '')

class Ev(Session):
    plain = False        # True: no events wanted (exploration of session states)
    def __init__(s, m):
        s.nodes, s.nodeof, s.edgs, s.evsym, s.exits = [], {}, {}, {}, {}
        s.flabel, s.slabel, s.rprov, s.gstr = {}, {}, {}, {}
        s.on = False
        s.version = None
        s.rlabel, s.evnode, s.pstack, s.vals = {}, {}, [], {}
        s.letters = s.reachl = frozenset()
        super().__init__(m)
        s.on = True
        s.streams = {c for c in m.types if STREAM in m.bases(c)} | {STREAM}
        s.letters = {f.name for f in m.fns.values() if f.scope in s.streams and (f.sname.split('<')[0] in WIRE or f.sname in CTRL)}
        if len(s.letters) < 20: raise AnalysisError('stream primitives not found')
        s.reachl = s._reach()
        for n, f in m.fns.items():
            if f.decl or not (n.startswith('__cxx_global_var_init') or n.startswith('_GLOBAL__sub_I')): continue
            for _, c in f.calls():
                gs = [a[1] for a in c[5] if a[0] == 'g']
                if len(gs) >= 2 and m.globals.get(gs[0], {}).get('type', '').find('basic_string') >= 0:
                    t = s.cstring(gs[1])
                    if t is not None: s.gstr[gs[0]] = t
    def cstring(s, g):
        gd = s.m.globals.get(g)
        if gd and gd.get('const') and gd.get('init', [''])[0] == 's':
            b = bytes(x & 255 for x in gd['init'][1])
            return b.split(b'\0')[0].decode('latin1')
        return None
    def _reach(s):
        rev = {}
        for f in s.m.fns.values():
            if f.decl: continue
            for _, i in f.calls():
                for t in s.m.resolve(f, i): rev.setdefault(t.name, set()).add(f.name)
        seen, work = set(), list(s.letters)
        while work:
            n = work.pop()
            for c in rev.get(n, ()):
                if c not in seen and c not in s.letters: seen.add(c); work.append(c)
        return {n for n in seen if not (s.m.fns[n].scope in s.streams and s.m.fns[n].sname in (s.m.fns[n].scope.split('::')[-1], '~' + s.m.fns[n].scope.split('::')[-1]))}
    def should_inline(s, f, args, st, depth):
        if s.plain: return super().should_inline(f, args, st, depth)
        if f.name in s.letters: return False
        if f.name in s.reachl and f.in_repo and depth < s.maxdepth and s.active.count(f.short) < 2: return True
        if getattr(s, '_nocb', False) and False: return False
        return super().should_inline(f, args, st, depth)
    # ---- labels ------------------------------------------------------------------
    def fieldname(s, sty, off):
        cls = re.sub(r'^%(struct|class|union)\.', '', sty).strip('"')
        cls = re.sub(r'\.\d+$', '', cls)
        best = None
        for n, o, z, t in s.m.fields(cls):
            if o <= off < o + max(z, 1): best = n
        if best is None:
            for c in s.m.types:
                if c.endswith('::' + cls.split('::')[-1]):
                    for n, o, z, t in s.m.fields(c):
                        if o <= off < o + max(z, 1): return '%s.%s' % (c.split('::')[-1], n)
            return None
        return '%s.%s' % (cls.split('::')[-1], best)
    def gep(s, base, g, env, st):
        p = super().gep(base, g, env, st)
        if p.__class__ is tuple and p[0] == 'p' and g[3] and g[0].startswith('%') and p[1] != 0:
            o = p[2] if p[2].__class__ is int else p[2][1]
            if (p[1], o) not in s.flabel and 'std::' not in g[0]:
                n = s.fieldname(g[0], g[1])
                if n: s.flabel[(p[1], o)] = n
        return p
    def plabel(s, p):
        if p.__class__ is tuple and p[0] == 'p':
            o = p[2] if p[2].__class__ is int else p[2][1]
            if p[1] == 0:
                n = max((x for x in s.byoff if x <= o), default=None)
                return 'this.' + s.byoff[n] if n is not None else None
            d = s.regd[p[1]]
            if d[0] == 'own': return 'this.' + s.byoff[d[1]]
            l = s.flabel.get((p[1], o)) or s.rlabel.get(p[1])
            if l: return l
            if d[0] == 'd': return s.slabel.get(d[1])
            if d[0] == 'arg': return 'arg%d' % d[1]
            if d[0] == 'a': return None
        elif p.__class__ is tuple and p[0] == 's': return s.slabel.get(p[1])
        return None
    def base(s, v):
        """strip casts and comparisons with constants: the underlying unknown"""
        while v.__class__ is tuple and v[0] == 's':
            d = s.symd[v[1]]
            if d[0] == 'op' and d[1] in ('zext', 'sext', 'trunc', 'not', 'freeze'): v = d[2]
            elif d[0] == 'cmp' and d[3].__class__ is int and d[1] in ('ne', 'eq'): v = d[2]
            else: break
        return v
    def provs(s, v):
        """provenance of a value: set of ('ev',node) / ('str',text) / ('lab',label)"""
        out = set()
        if v.__class__ is tuple:
            if v[0] == 's':
                b = s.base(v)
                if b.__class__ is tuple and b[0] == 's':
                    if b[1] in s.evsym: out.add(('ev', s.evsym[b[1]]))
                    if b[1] in s.slabel: out.add(('lab', s.slabel[b[1]]))
                    out |= s.rprov.get(('s', b[1]), set())
                    d = s.symd[b[1]]
                    if d[0] == 'L' and d[1] == 0: out.add(('lab', s.plabel(('p', 0, d[2]))))
                    if d[0] == 'op' and d[1] == 'ev': out |= s.provs(d[2])
            elif v[0] == 'p':
                d = s.regd[v[1]]
                if d[0] == 'g':
                    t = s.cstring(d[1])
                    if t is None: t = s.gstr.get(d[1])
                    if t is not None: out.add(('str', t))
                l = s.plabel(v)
                if l: out.add(('lab', l))
                out |= s.rprov.get(('r', v[1]), set())
            elif v[0] == 'agg':
                for x in v[1]: out |= s.provs(x)
        return out
    def load_untracked(s, fn, i, p, st, fpath):
        l = s.plabel(p)
        if l and i[2] == 'ptr' and p.__class__ is tuple and p[0] == 'p' and s.regd[p[1]][0] in ('d', 'own'):
            pass
        v = s.fresh(('ld', fpath, fn.name, i[1]), st)
        if l: s.slabel[v[1]] = l
        elif p.__class__ is tuple and p[0] == 'p' and s.regd[p[1]][0] == 'a':
            r = s.rprov.get(('r', p[1]))
            if r: s.rprov.setdefault(('s', v[1]), set()).update(r)
        return v
    def loadv(s, r, off, ty, st, uid):
        v = super().loadv(r, off, ty, st, uid)
        if r != 0 and v.__class__ is tuple and v[0] == 's' and s.symd[v[1]][0] == 'L' and s.symd[v[1]][1] == r:
            p = s.rprov.get(('r', r))
            if p:
                s.rprov.setdefault(v, set()).update(p)
                e = [x for q, x in p if q == 'ev']
                if len(e) == 1: s.evsym[v[1]] = e[0]; s.evnode.setdefault(e[0], set()).add(v[1])
        return v
    def getslot(s, p, st):
        if p.__class__ is tuple and p[0] == 'p' and not s.tracked(p[1]) and p[2].__class__ is int and s.regd[p[1]][0] == 'd':
            v = s.sym(('op', 'ub', ('s', s.regd[p[1]][1]), p[2]))
            l = s.plabel(p)
            if l: s.slabel[v[1]] = l
            return [(s.R(v, st), st)]
        if p.__class__ is tuple and p[0] == 'p' and p[2].__class__ is int and s.regd[p[1]][0] == 'new':
            l = s.plabel(p)
            if l:
                v = s.sym(('newub', p[1], p[2]))
                s.slabel[v[1]] = l
                return [(s.R(v, st), st)]
        return super().getslot(p, st)
    def on_store(s, fn, i, p, v, st):
        if not s.on: return
        l = s.plabel(p)
        if l:
            b = s.base(v)
            if b.__class__ is tuple and b[0] == 's' and b[1] in s.evsym: s.nodes[s.evsym[b[1]]].labels.add(l)
        elif p.__class__ is tuple and p[0] == 'p' and s.regd[p[1]][0] == 'a' and p[2].__class__ is not int:
            pr = s.provs(v)
            if pr: s.rprov.setdefault(('r', p[1]), set()).update(pr)
    def assume_cmp(s, pred, a, b, val, st):
        for x, y in ((a, b), (b, a)):
            if x.__class__ is tuple and x[0] == 's' and y.__class__ is int:
                q = s.base(x)
                if q.__class__ is tuple and q[0] == 's' and q[1] in s.evsym:
                    s.nodes[s.evsym[q[1]]].tested.add((pred, y))
        return super().assume_cmp(pred, a, b, val, st)
    @staticmethod
    def thisarg(f, args):
        ti = 1 if f.args and f.args[0][2] else 0
        if len(args) <= ti: return None
        if f.decl:
            d = f.dem.split('(')[0]
            return args[ti] if re.match(r'^std::', d) and '::' in d[5:] and not re.match(r'^std::(operator|__cxx11::operator)', d) else None
        return args[ti] if len(f.args) > ti and f.args[ti][0] == 'this' else None
    def slotset(s, p, v, st):
        super().slotset(p, v, st)
        if p.__class__ is tuple and p[0] == 'p' and p[1] == 0 and p[2] in s.byoff and v.__class__ is tuple and v[0] == 'p' and s.regd[v[1]][0] == 'new':
            s.rlabel[v[1]] = 'this.' + s.byoff[p[2]]
    def newreg(s, d, st):
        p = super().newreg(d, st)
        for k in [k for k in st.facts if s.symd[k][0] == 'newub' and s.symd[k][1] == p[1]]: del st.facts[k]
        return p
    def do_store(s, p, v, size, st):
        if s.version is not None and p == ('p', 0, s.fld.get('VersionRead')) and v.__class__ is not int: v = s.version
        super().do_store(p, v, size, st)
    # ---- events -------------------------------------------------------------------
    def mknode(s, fn, i, f, kind, wire, const, labels, argd, st):
        ctx = (s.pstack[-1] if s.pstack else 0, id(i))
        cur = st.mon[0] if st.mon else None
        prev = s.nodes[cur] if cur is not None else None
        n = 0
        if prev is not None and prev.ctx == ctx:
            n = min(st.mon[1] + 1, 16 if argd and argd[0] in ('c', 'ev', 'this') else 0)
        key = (ctx, kind, wire, const if kind == 'W' else None, argd, min(n, 16))
        k = s.nodeof.get(key)
        if k is None:
            x = Node()
            x.id, x.kind, x.wire, x.const, x.labels, x.ctx, x.loc, x.fn, x.tested, x.argd = len(s.nodes), kind, wire, const, set(labels), ctx, i[3], fn.short, set(), argd
            x.api = s.curapi.sname if s.curapi else ''
            x.stack = tuple(s.active)
            k = s.nodeof[key] = x.id
            s.nodes.append(x)
        else: s.nodes[k].labels |= set(labels)
        g = None
        if cur is not None:
            g = s.guard(cur, st)
        s.edgs.setdefault((s.curapi.sname if s.curapi else '', cur), set()).add((k, g))
        st.mon = (k, min(n, 16))
        return k
    def guard(s, nid, st):
        """what is known about the value read by node nid at this point"""
        for y in sorted(s.evnode.get(nid, ())):
            g = s.guard1(y, st)
            if g is not None: return g
        return None
    def guard1(s, y, st):
        f = st.facts.get(y)
        if f is None:
            for pred in ('ne', 'eq'):
                c = s.symt.get(('cmp', pred, ('s', y), 0))
                if c is not None and c in st.facts and st.facts[c][0] == '=':
                    t = st.facts[c][1] & 1
                    return ('ne', 0) if t == (pred == 'ne') else ('=', 0)
            for q, f2 in st.facts.items():
                d = s.symd[q]
                if d[0] == 'op' and d[1] in ('zext', 'sext') and d[2] == ('s', y):
                    if f2[0] == '=' and f2[1].__class__ is int: return ('=', f2[1])
                    if f2[0] == 'i': return ('i', f2[1], f2[2], tuple(sorted(f2[3])))
            return None
        if f[0] == '=' and f[1].__class__ is int: return ('=', f[1])
        if f[0] == 'i': return ('i', f[1], f[2], tuple(sorted(f[3])))
        return None
    def on_call(s, fn, i, callee, args, st, opaque):
        super().on_call(fn, i, callee, args, st, opaque)
        if not s.on or callee is None: return
        if callee.name in s.letters:
            if callee.scope not in s.streams: return
            nm = callee.sname.split('<')[0]
            if fn.scope in s.streams and False: return
            sret = bool(callee.args) and callee.args[0][2]
            va = args[(2 if sret else 1):]
            if nm in CTRL:
                x = va[0] if va else None
                x = s.R(x, st) if x is not None else None
                s.mknode(fn, i, callee, nm, '', None, (), s.desc(x), st)
            elif nm.startswith('Write'):
                w = WIRE[nm]
                const, labs = None, set()
                pr = set()
                for a in va: pr |= s.provs(a)
                for t, x in pr:
                    if t == 'str': const = x
                    elif t == 'lab': labs.add(x)
                x = s.R(va[0], st) if va else None
                if w != 's' and x.__class__ is int: const = x
                if const.__class__ is int and w == 'b': const &= 255
                if const is not None and w != 's': labs = set()
                if w == 's' and labs: const = None
                if w == 'raw' and len(va) > 1 and va[1] == 1: w = 'b'
                k = s.mknode(fn, i, callee, 'W', w, const, labs, s.desc(x), st)
                if w != 's' and va:
                    for y in (va[0], s.base(va[0])):
                        if y.__class__ is tuple and y[0] == 's': s.evnode.setdefault(k, set()).add(y[1])
                    s.vals.setdefault(k, set()).add(va[0])
                s.at_write(k, va, st)
            else:
                w = WIRE[nm]
                if w == 'raw' and len(va) > 1 and va[1] == 1: w = 'b'
                k = s.mknode(fn, i, callee, 'R', w, None, (), None, st)
                if sret:
                    s.rprov[('r', args[0][1])] = {('ev', k)}
                    l = s.plabel(args[0])
                    if l: s.nodes[k].labels.add(l)
                for a in va:
                    if a.__class__ is tuple and a[0] == 'p': s.rprov[('r', a[1])] = {('ev', k)}
            return
        if opaque or callee.decl or not callee.in_repo: s.flow(fn, i, callee, args, st)
    def flow(s, fn, i, f, args, st):
        """opaque call: events whose value is passed on get the label of the receiver or the text compared with"""
        th = s.thisarg(f, args)
        pr = [s.provs(a) for a in args]
        allp = set().union(*pr) if pr else set()
        evs = {x for t, x in allp if t == 'ev'}
        strs = {x for t, x in allp if t == 'str'}
        if re.match(r'^(llvm\.)?(mem(cpy|move)|strn?cpy)', f.name):
            l = s.plabel(args[0])
            for q, x in pr[1]:
                if q == 'ev':
                    if l: s.nodes[x].labels.add(l)
                    elif args[0].__class__ is tuple and args[0][0] == 'p': s.rprov.setdefault(('r', args[0][1]), set()).add((q, x))
            return
        if f.in_repo and th is not None:
            l = s.plabel(th)
            if l:
                for a, q in zip(args, pr):
                    if a is not th:
                        for t, x in q:
                            if t == 'ev': s.nodes[x].labels.add(l)
        elif th is not None and not f.in_repo:
            l = s.plabel(th)
            if l and not f.dem.endswith('const'):
                for a, q in zip(args, pr):
                    if a is not th:
                        for t, x in q:
                            if t == 'ev': s.nodes[x].labels.add(l)
        elif f.in_repo and th is None:
            l = None
            for a in args:
                if a.__class__ is tuple and a[0] == 'p' and not l: l = s.plabel(a)
            if l:
                for e in evs: s.nodes[e].labels.add(l)
        if len(evs) == 1 and len(strs) == 1 and re.search(r'operator==|operator!=|sameText|compare|strcmp|equal', f.dem):
            for e in evs: s.nodes[e].const = next(iter(strs))
        # std:: string functions propagate provenance into their object / result
        if not f.in_repo or f.decl:
            for a in args[:1]:
                if a.__class__ is tuple and a[0] == 'p' and s.regd[a[1]][0] == 'a' and not f.dem.endswith(' const'):
                    x = set().union(*pr[1:]) if len(pr) > 1 else set()
                    if x: s.rprov.setdefault(('r', a[1]), set()).update(x)
    def opaque_result(s, fn, i, f, args, st):
        if not s.on or i[1] < 0: return None
        if f.name in s.letters and f.scope in s.streams:
            nm = f.sname.split('<')[0]
            if st.mon and (nm.startswith('Read') or nm == 'GetPosition') and i[2] != 'ptr':
                v = s.fresh(('evr', st.mon[0]), st)
                s.evsym[v[1]] = st.mon[0]; s.evnode.setdefault(st.mon[0], set()).add(v[1])
                return [(v, st)]
            return None
        if f.name == 'llvm.x': return None
        th = s.thisarg(f, args)
        pr = set()
        if not f.in_repo or f.decl:
            for a in args: pr |= s.provs(a)
        elif th is not None:
            l = s.plabel(th)
            if l: pr.add(('lab', l))
        if pr:
            v = s.fresh(('crp', fn.name, i[1], tuple(s.active)), st)
            s.rprov[v] = set(pr)
            if i[2] == 'ptr' and not s.may_return_null(f): st.facts[v[1]] = ('nn',)
            return [(v, st)]
        return None
    def at_write(s, k, va, st): pass
    def desc(s, x):
        """identity of a control argument"""
        if x is None: return None
        if x.__class__ is int: return ('c', x)
        if x.__class__ is tuple and x[0] == 's':
            b = s.base(x)
            if b[0] == 's':
                if b[1] in s.evsym: return ('ev', s.evsym[b[1]])
                d = s.symd[b[1]]
                if d[0] == 'L' and d[1] == 0: return ('this', s.byoff.get(d[2], d[2]))
                if b[1] in s.slabel: return ('lab', s.slabel[b[1]])
        return ('?',)
    def run(s, fn, args, st, path=0, depth=0):
        s.pstack.append(path)
        try: return super().run(fn, args, st, path, depth)
        finally: s.pstack.pop()
    # ---- linear forms ---------------------------------------------------------------
    def atom(s, v):
        """name of an unknown: object field, record field, argument, event"""
        if v.__class__ is tuple and v[0] == 's':
            n = v[1]
            if n in s.evsym: return ('ev', s.evsym[n])
            d = s.symd[n]
            if d[0] == 'L' and d[1] == 0: return ('f', s.plabel(('p', 0, d[2])))
            if n in s.slabel: return ('f', s.slabel[n])
            if d[0] == 'arg': return ('a', d[1])
        return v
    def lin(s, v):
        """({atom: coefficient}, constant)"""
        if v.__class__ is int: return {}, v
        if v.__class__ is tuple and v[0] == 's':
            d = s.symd[v[1]]
            if d[0] == 'op':
                if d[1] in ('sext', 'zext', 'trunc'): return s.lin(d[2])
                if d[1] in ('add', 'sub'):
                    a, ca = s.lin(d[2]); b, cb = s.lin(d[3])
                    k = 1 if d[1] == 'add' else -1
                    out = dict(a)
                    for x, c in b.items():
                        out[x] = out.get(x, 0) + k * c
                        if out[x] == 0: del out[x]
                    return out, ca + k * cb
        return {s.atom(v): 1}, 0
    # ---- running --------------------------------------------------------------------
    def runop(s, f, st, args=None):
        s.curapi, s.cures = f, None
        out = s.run(f, args or s.args_for(f), st)
        for r, e in out:
            rc = r if r.__class__ is int else 'v'
            s.exits.setdefault(f.sname, set()).add((e.mon[0] if e.mon else None, rc, s.guard(e.mon[0], e) if e.mon else None))
        return out

def admits(g, c):
    """can a value c have passed the test described by guard g"""
    if g is None or c.__class__ is not int: return True
    if g[0] == '=': return g[1] == c
    if g[0] == 'ne': return g[1] != c
    return not ((g[1] is not None and c < g[1]) or (g[2] is not None and c > g[2]) or c in g[3])

def compatible(g, c, gw):
    """reader guard g against a written constant c or what the writer knows (gw) about the value"""
    if c.__class__ is int: return admits(g, c)
    if g is None or gw is None: return True
    if gw[0] == '=': return admits(g, gw[1])
    if g[0] == '=':
        return admits(gw, g[1])
    lo = [x for x in (g[1] if g[0] == 'i' else None, gw[1] if gw[0] == 'i' else None) if x is not None]
    hi = [x for x in (g[2] if g[0] == 'i' else None, gw[2] if gw[0] == 'i' else None) if x is not None]
    if lo and hi:
        a, b = max(lo), min(hi)
        ne = set(g[3] if g[0] == 'i' else (g[1],)) | set(gw[3] if gw[0] == 'i' else (gw[1],))
        return any(x not in ne for x in range(a, min(b, a + 300) + 1))
    return True

class Graph:
    """part of an event graph: nodes reachable from start without passing a stop node; epsilon nodes are skipped"""
    def __init__(s, ev, api, isstop, iseps, okrc=None):
        s.ev, s.api, s.isstop, s.iseps = ev, api, isstop, iseps
        s.fin = {}
        for n, rc, g in ev.exits.get(api, ()):
            if okrc is None or rc == okrc or okrc == 'pos' and rc not in (0, -1): s.fin.setdefault(n, []).append(g)
    def succ(s, n):
        """[(node|'END', guard)] after node n (None = start of the operation)"""
        out, seen, work = set(), set(), [(n, None, True)]
        while work:
            x, g, first = work.pop()
            if (x, g) in seen: continue
            seen.add((x, g))
            for y, g2 in s.ev.edgs.get((s.api, x), ()):
                gg = g2 if first else g
                nd = s.ev.nodes[y]
                if s.isstop(nd): out.add(('END', gg))
                elif s.iseps(nd): work.append((y, gg, False))
                else: out.add((y, gg))
            if x in s.fin:
                for g2 in s.fin[x]: out.add(('END', g2 if first else g))
        return out

def include(ev, W, wstart, R, rstart, match, limit=20000):
    """every sequence W can produce is one R accepts?  -> (mismatches, pairs, steps)"""
    bad, pairs, seen = [], set(), set()
    work = [(wstart, frozenset((rstart,)))]
    while work:
        cfg = work.pop()
        if cfg in seen: continue
        seen.add(cfg)
        if len(seen) > limit: raise AnalysisError('comparison of reader and writer does not end')
        w, rs = cfg
        c = ev.nodes[w].const if w is not None and w != wstart else None
        for w2, gw in W.succ(w):
            nxt, exp = set(), set()
            for r in rs:
                for r2, g in R.succ(r):
                    if r != rstart and not compatible(g, c, gw): continue
                    if w2 == 'END':
                        if r2 == 'END': nxt.add('END')
                        else: exp.add(r2)
                    elif r2 == 'END': exp.add('END')
                    elif match(ev.nodes[w2], ev.nodes[r2]): nxt.add(r2)
                    else: exp.add(r2)
            if not nxt: bad.append((w, w2, exp, rs)); continue
            if w2 != 'END':
                for r in nxt: pairs.add((w2, r))
                work.append((w2, frozenset(nxt)))
    return bad, pairs, len(seen)
