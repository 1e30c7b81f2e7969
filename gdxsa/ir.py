"""In-memory model of the exported module."""
import re
from functools import lru_cache

class Fn:
    __slots__ = ('name', 'd', 'dem', 'decl', 'blocks', 'args', 'file', 'line', 'scope', 'sname', 'sig', 'm', '_succ', '_pred', '_rpo', '_back', '_defs', 'dbg', 'ret', '_loops','_short')
    def __init__(s, m, name, d):
        s.m, s.name, s.d = m, name, d
        s.dem, s.decl = d['dem'], d['decl']
        s.args, s.ret = d['args'], d['ret']
        s.file, s.line = d.get('file', ''), d.get('line', 0)
        s.scope, s.sname, s.sig = d.get('scope', ''), d.get('sname', ''), d.get('sig', [])
        s._succ = s._pred = s._rpo = s._back = s._defs = s._loops = None
        s.dbg = {}
        s.blocks = []
        for b in d.get('blocks', []):
            out = []
            for i in b:
                if i[0] == 'dbg':
                    s.dbg.setdefault(i[1], (i[2], i[3], i[4]))
                else:
                    out.append(i)
            s.blocks.append(out)
        s._short = None
    @property
    def relfile(s):
        f = s.file
        return f[len(s.m.repo):] if f.startswith(s.m.repo) else f
    @property
    def in_repo(s):
        return s.file.startswith(s.m.repo) and not s.decl
    @property
    def where(s):
        return '%s:%d' % (s.relfile, s.line)
    @property
    def short(s):
        if s._short is None:
            s._short = (s.scope + '::' + s.sname) if s.sname else s.dem
        return s._short
    @property
    def mname(s):
        """unqualified name, also of functions without debug information"""
        if s.sname: return s.sname if s.sname.startswith('operator') else s.sname.split('<')[0]
        d = s.dem
        k = d.find('operator')
        if k >= 0 and (k == 0 or not (d[k - 1].isalnum() or d[k - 1] == '_')):
            e = d.find('(', k + 10 if d.startswith('operator()', k) else k)
            return d[k:e] if e > 0 else d[k:]
        depth, last = 0, 0
        for n, ch in enumerate(d):
            if ch in '<[{': depth += 1
            elif ch in '>]}': depth -= 1
            elif ch == '(' and depth == 0: return d[last:n].split('<')[0]
            elif depth == 0 and (ch == ':' or ch == ' '): last = n + 1
        return d
    def term(s, b):
        return s.blocks[b][-1]
    def succ(s):
        if s._succ is None:
            out = []
            for b in s.blocks:
                t = b[-1]
                if t[0] == 'br': out.append(list(t[5]))
                elif t[0] == 'switch': out.append([t[5]] + [x[1] for x in t[6]])
                elif t[0] == 'invoke': out.append([t[6][0]])
                else: out.append([])
            s._succ = out
        return s._succ
    def pred(s):
        if s._pred is None:
            p = [[] for _ in s.blocks]
            for i, ss in enumerate(s.succ()):
                for x in ss:
                    if i not in p[x]: p[x].append(i)
            s._pred = p
        return s._pred
    def rpo(s):
        if s._rpo is None:
            if not s.blocks:
                s._rpo, s._back = [], set()
                return s._rpo
            seen, order, onst, back = set(), [], set(), set()
            succ = s.succ()
            st = [(0, iter(succ[0]))]
            seen.add(0); onst.add(0)
            while st:
                b, it = st[-1]
                for x in it:
                    if x in onst: back.add((b, x))
                    if x not in seen:
                        seen.add(x); onst.add(x); st.append((x, iter(succ[x]))); break
                else:
                    st.pop(); onst.discard(b); order.append(b)
            order.reverse()
            s._rpo, s._back = order, back
        return s._rpo
    def back(s):
        s.rpo(); return s._back
    def defs(s):
        if s._defs is None:
            d = {}
            for bi, b in enumerate(s.blocks):
                for ii, i in enumerate(b):
                    if i[1] >= 0: d[i[1]] = (bi, ii, i)
            s._defs = d
        return s._defs
    def idef(s, op):
        """defining instruction of an operand, or None (argument/constant)"""
        if op and op[0] == 'v':
            x = s.defs().get(op[1])
            return x[2] if x else None
        return None
    def instrs(s):
        for bi in s.rpo():
            for i in s.blocks[bi]:
                yield bi, i
    def calls(s):
        for bi, i in s.instrs():
            if i[0] in ('call', 'invoke'):
                yield bi, i
    def loops(s):
        """header -> set of blocks of the natural loop"""
        if s._loops is None:
            L = {}
            for (u, h) in s.back():
                body = L.setdefault(h, {h})
                st = [u]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += s.pred()[x]
            s._loops = L
        return s._loops
    def __repr__(s): return '<Fn %s>' % s.short

class Module:
    def __init__(s, d, repo='/repo/'):
        s.repo = repo
        s.d = d
        s.globals, s.structs, s.types = d['globals'], d['structs'], d['types']
        s.fns = {n: Fn(s, n, f) for n, f in d['functions'].items()}
        s.bydem = {}
        for f in s.fns.values():
            s.bydem.setdefault(f.dem, f)
        s._vt = None
        s._callers = None
    def callee_name(s, i):
        c = i[4]
        if c[0] == 'g': return c[1]
        if c[0] == 'e' and c[1] in ('bitcast',): return c[2][1] if c[2][0] == 'g' else None
        return None
    def callee(s, i):
        n = s.callee_name(i)
        return s.fns.get(n) if n else None
    def methods(s, cls):
        return [f for f in s.fns.values() if f.scope == cls and not f.decl]
    def find(s, scope, name):
        return [f for f in s.fns.values() if f.scope == scope and f.sname == name and not f.decl]
    # ---- virtual dispatch -------------------------------------------------
    def vtables(s):
        """class name -> list of slot functions (after the address point)"""
        if s._vt is None:
            vt = {}
            for g, gd in s.globals.items():
                if g.startswith('_ZTV') and 'init' in gd and gd['init'][0] == 'a':
                    arr = gd['init'][1][0]
                    if arr[0] != 'a': continue
                    slots = [x[1] if x[0] == 'g' else None for x in arr[1]][2:]
                    vt[gd['dem'].replace('vtable for ', '')] = slots
            s._vt = vt
        return s._vt
    def bases(s, cls, seen=None):
        seen = seen if seen is not None else set()
        if cls in seen: return seen
        seen.add(cls)
        for b, _ in s.types.get(cls, {}).get('bases', []):
            s.bases(b, seen)
        return seen
    def derived(s, cls):
        return [c for c in s.vtables() if c in s.types and cls in s.bases(c)]
    def virtual_targets(s, cls, slot):
        out = set()
        for c in s.derived(cls):
            sl = s.vtables()[c]
            if slot < len(sl) and sl[slot]: out.add(sl[slot])
        return out
    # ---- types ------------------------------------------------------------
    def fields(s, cls):
        """flattened [(path, offset, size, type)] of scalar-ish members, bases included"""
        out = []
        t = s.types.get(cls)
        if not t: return out
        for b, off in t.get('bases', []):
            out += [(p, o + off, z, ty) for p, o, z, ty in s.fields(b)]
        for n, off, size, ty, line in t.get('members', []):
            out.append((n, off, size, ty))
        return out

def load(d, repo='/repo/'):
    return Module(d, repo)

def _resolve(m, f, i):
    """Possible callees of a call instruction (direct, or virtual through class hierarchy analysis); [] if unknown."""
    n = m.callee_name(i)
    if n:
        return [m.fns[n]] if n in m.fns else []
    ld = f.idef(i[4])
    if not ld or ld[0] != 'load': return []
    g = f.idef(ld[4])
    slot, vt = 0, ld[4]
    if g and g[0] == 'getelementptr':
        if g[5][2]: return []
        slot, vt = g[5][1] // 8, g[4]
    if vt[0] != 'v': return []
    vdef = f.idef(vt)
    if not vdef or vdef[0] != 'load': return []
    key = vt[1]
    for _, c in f.calls():
        if m.callee_name(c) in ('llvm.type.test', 'llvm.public.type.test') and c[5][0] == ['v', key] and c[5][1][0] == 'm' and len(c[5][1]) > 1:
            ts = c[5][1][1]
            g = m.globals.get(ts)
            cls = g['dem'].replace('typeinfo name for ', '') if g else m.ztsname(ts)
            return [m.fns[t] for t in sorted(m.virtual_targets_zts(ts, slot)) if t in m.fns]
    return []

def _zts(s, ts):
    return ts

def _vt_mangled(s):
    """mangled type string (_ZTS..) -> slots, and hierarchy from typeinfo globals"""
    if not hasattr(s, '_vtm'):
        vt, ti = {}, {}
        for g, gd in s.globals.items():
            if g.startswith('_ZTV') and 'init' in gd and gd['init'][0] == 'a':
                arr = gd['init'][1][0]
                if arr[0] != 'a': continue
                vt[g[4:]] = [x[1] if x[0] == 'g' else None for x in arr[1]][2:]
            if g.startswith('_ZTI') and 'init' in gd and gd['init'][0] == 'a':
                bs = set()
                def walk(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str) and x[1].startswith('_ZTI'): bs.add(x[1][4:])
                        else:
                            for y in x: walk(y)
                walk(gd['init'][1][2:])
                ti[g[4:]] = bs
        def anc(c, seen):
            if c in seen: return seen
            seen.add(c)
            for b in ti.get(c, ()): anc(b, seen)
            return seen
        s._vtm = vt
        s._anc = {c: anc(c, set()) for c in vt}
    return s._vtm

def _virtual_targets_zts(s, ts, slot):
    vt = _vt_mangled(s)
    base = ts[4:]
    out = set()
    for c, sl in vt.items():
        if base in s._anc[c] and slot < len(sl) and sl[slot] and sl[slot] != '__cxa_pure_virtual': out.add(sl[slot])
    return out
Module.virtual_targets_zts = _virtual_targets_zts
Module.ztsname = _zts
_rc = {}
def _res(m, f, i):
    k = (id(f), id(i))
    r = _rc.get(k)
    if r is None:
        r = _rc[k] = _resolve(m, f, i)
    return r
Module.resolve = _res
