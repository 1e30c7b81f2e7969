"""Constant strings flowing into calls: literals, global std::string objects initialised from literals, temporaries, parameters."""
import re
class StrConst:
    def __init__(s, m):
        s.m = m
        s.gstr = {}
        for n, f in m.fns.items():
            if f.decl or not (n.startswith('__cxx_global_var_init') or n.startswith('_GLOBAL__sub')): continue
            for _, i in f.calls():
                gs = [a[1] for a in i[5] if a[0] == 'g']
                if len(gs) >= 2:
                    t = s.lit(gs[1])
                    if t is not None: s.gstr[gs[0]] = t
        s.callers = {}
        for f in m.fns.values():
            if f.decl: continue
            for _, i in f.calls():
                for t in m.resolve(f, i): s.callers.setdefault(t.name, []).append((f, i))
    def lit(s, g):
        gd = s.m.globals.get(g)
        if gd and gd.get('const') and gd.get('init', [''])[0] == 's':
            t = gd['init'][1]
            if isinstance(t, list): t = ''.join(map(chr, t))
            return t.rstrip('\0')
        return None
    def literals(s, f):
        out = set()
        def walk(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'g' and isinstance(o[1], str):
                    t = s.lit(o[1]) if s.lit(o[1]) is not None else s.gstr.get(o[1])
                    if t: out.add(t)
                else:
                    for x in o: walk(x)
        for _, i in f.instrs(): walk(i[4:])
        return out
    def arg_values(s, f, o, scope=None, seen=None):
        """(constant strings, descriptions of unknown sources) operand o may hold"""
        seen = seen if seen is not None else set()
        if (f.name, str(o)) in seen: return set(), set()
        seen.add((f.name, str(o)))
        if o[0] == 'g':
            t = s.lit(o[1])
            if t is None: t = s.gstr.get(o[1])
            return ({t}, set()) if t is not None else (set(), {'global %s' % o[1]})
        if o[0] == 'e':
            for x in o[2:]:
                if isinstance(x, list) and x and x[0] in ('g', 'e'): return s.arg_values(f, x, scope, seen)
        if o[0] != 'v': return set(), {'value in %s' % f.short}
        d = f.idef(o)
        vals, unk = set(), set()
        def add(r):
            vals.update(r[0]); unk.update(r[1])
        if d is None:
            for c, i in s.callers.get(f.name, []):
                if scope is not None and c.name not in scope: continue
                if o[1] < len(i[5]): add(s.arg_values(c, i[5][o[1]], scope, seen))
            return vals, unk
        if d[0] in ('call', 'invoke'):
            c = s.m.callee(d)
            if c is not None and c.mname in ('c_str', 'data', 'operator std::basic_string_view', 'operator') and d[5]: return s.arg_values(f, d[5][0], scope, seen)
            return set(), {'result of %s' % (c.mname if c else 'a call')}
        if d[0] == 'phi':
            for v, _ in d[4]: add(s.arg_values(f, v, scope, seen))
            return vals, unk
        if d[0] == 'select':
            for v in d[5:7]: add(s.arg_values(f, v, scope, seen))
            return vals, unk
        if d[0] in ('getelementptr',): return s.arg_values(f, d[4], scope, seen)
        if d[0] == 'load':
            g = d[4]
            if g[0] == 'g':
                gd = s.m.globals.get(g[1])
                if gd and gd.get('const') and gd.get('init', [''])[0] == 'g': return s.arg_values(f, gd['init'], scope, seen)
        if d[0] == 'alloca':
            found = False
            for _, i in f.calls():
                c = s.m.callee(i)
                if c is None or not i[5] or i[5][0] != o: continue
                n = c.mname
                if n == 'basic_string' and len(i[5]) > 1 or n.startswith('operator""') or n == 'operator=' :
                    found = True; add(s.arg_values(f, i[5][1], scope, seen))
            if found: return vals, unk
        return set(), {'%s in %s' % (d[0], f.short)}
