"""C12: no public operation modifies, or freezes on first use, anything outside the object."""
import effects, re
from checks.c07 import dominators
RULE = ('For every function reachable from a public operation (methods of the GDX object and the exported C functions): no store, '
        'atomic update, memory-writing intrinsic or call that writes through a pointer argument has a non-constant variable of static '
        'or thread storage duration (global, class static, function-local static) as its target. The one-time initialisation of a '
        'function-local static is exempt only if it uses nothing but constants: neither arguments nor memory of the object.')
EXPLANATION = ('Whole-program call graph with virtual dispatch resolved over the class hierarchy; flow-insensitive roots of every '
               'pointer; interprocedural write summaries; every write site whose root may be a modifiable static is a violation.')
TECHNIQUE = 'interprocedural effect analysis (write roots) over LLVM IR, whole program'
ASSUMPTIONS = ['functions of the C and C++ runtime and of zlib keep no state visible through the GDX interface',
               'registration of the error callback and stack-checking hooks of the C loader is outside the object by design']

def roots_public(m):
    out = []
    for f in m.fns.values():
        if f.decl or not f.in_repo: continue
        if f.scope.endswith('TGXFileObj') and (f.sname.startswith('gdx') or 'TGXFileObj' in f.sname): out.append(f)
        elif not f.scope.strip(':') and f.sname.lower().startswith(('c__gdx', 'gdx')) and (f.sig[1:2] or [''])[0] == 'TGXFileRec*': out.append(f)
    return out

def reach(m, rs):
    seen, st = {f.name: None for f in rs}, list(rs)
    while st:
        f = st.pop()
        refs = []
        for _, i in f.instrs():
            if i[0] in ('call', 'invoke'):
                refs += [t for t in m.resolve(f, i)]
                for a in i[5]:
                    if a and a[0] == 'g' and a[1] in m.fns: refs.append(m.fns[a[1]])
        for t in refs:
            if t.decl or t.name in seen: continue
            seen[t.name] = f.name; st.append(t)
    return seen

def path(m, seen, n):
    p = []
    while n is not None and len(p) < 12:
        p.append(m.fns[n].short); n = seen[n]
    return ' <- '.join(p)

def guard_regions(m, f):
    """global -> set of blocks of its one-time initialisation"""
    reg = {}
    for bi, i in f.calls():
        if m.callee_name(i) != '__cxa_guard_acquire': continue
        g = i[5][0]
        while g[0] == 'e': g = g[2]
        gv = g[1]
        rel = [b for b, c in f.calls() if m.callee_name(c) == '__cxa_guard_release' and c[5][0] == i[5][0]]
        t = f.term(bi)
        if t[0] != 'br' or len(t[5]) < 2: continue
        blocks, st = set(), list(t[5])
        # blocks between the acquire and its release: those that reach a release and are dominated by a successor of the acquire
        succ, pred = f.succ(), f.pred()
        back, w = set(rel), list(rel)
        while w:
            b = w.pop()
            for p in pred[b]:
                if p not in back and p != bi: back.add(p); w.append(p)
        fwd, w = set(), [x for x in t[5] if x in back]
        while w:
            b = w.pop()
            if b in fwd: continue
            fwd.add(b)
            if b not in rel: w += [x for x in succ[b] if x in back]
        reg[gv] = fwd
    return reg

def run(cx):
    m = cx.module()
    E = effects.Effects(m)
    pub = roots_public(m)
    cx.need(len(pub) > 90, 'public operations not found')
    seen = reach(m, pub)
    sites = 0; guards = 0
    def mutable(r):
        if r[0] != 'g' or r[1] != ':': return None
        g = m.globals.get(r[2:])
        if not g or g['const'] or g['decl']: return None
        if g.get('ditype', '').startswith('const '): return None   # declared const: set up before main or under its guard only
        if r[2:].startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS', '__')): return None
        return r[2:]
    for n in seen:
        f = m.fns[n]
        if n.startswith(('_ZTW', '_ZTH', '__tls_init', '__cxx_global')): continue
        R = E.roots.get(n, {})
        slotcall = None
        regs = guard_regions(m, f)
        for gv, blocks in regs.items():
            guards += 1
            var = gv.replace('_ZGV', '_Z', 1)
            args = set(x[1] if isinstance(x, (list, tuple)) and False else x for x in f.d.get('argids', range(len(f.args))))
            for b in blocks:
                for i in f.blocks[b]:
                    bad = dep_on_input(m, f, i, blocks, args, E)
                    if bad:
                        cx.violation('guard:%s:%s' % (f.short, var), loc(f, i), f.short,
                                     'the one-time initialisation of static %s depends on %s: the first caller decides for every object' % (gname(m, var), bad),
                                     path(m, seen, n))
        for bi, i in f.instrs():
            tg = set()
            if i[0] == 'store': tg = set(E.oproots(f, i[5], R)); sites += 1
            elif i[0] in ('atomicrmw', 'cmpxchg'): tg = set(E.oproots(f, i[4], R)); sites += 1
            elif i[0] in ('call', 'invoke'):
                cn = m.callee_name(i) or ''
                args = [E.oproots(f, a, R) for a in i[5]]
                if cn.startswith('llvm.mem') or effects.MEMW.match(cn):
                    k = 1 if cn == 'read' else 0
                    tg = set(args[k]) if len(args) > k else set(); sites += 1
                elif cn and effects.PURE.match(cn): pass
                else:
                    for t in m.resolve(f, i):
                        if t.decl:
                            if effects.PURE.match(t.name) or t.dem.endswith(' const'): continue
                            # a call of an undefined (runtime library) function: its object argument is modified
                            if args: tg |= set(args[0])
                        else:
                            for wr in E.w[t.name]:
                                if wr[0] == 'a' and int(wr[1:]) < len(args): tg |= set(args[int(wr[1:])])
                    sites += 1
            for r in tg:
                g = mutable(r)
                if not g: continue
                if m.globals[g].get('tls') and 'stream' in m.globals[g].get('ditype', '') and i[0] in ('call', 'invoke') \
                        and all(t.mname.startswith('operator<<') for t in m.resolve(f, i)): continue   # write-only trace output of this thread
                if any(bi in b for gv, b in regs.items() if gv.replace('_ZGV', '_Z', 1) == g): continue
                cx.violation('write:%s:%s' % (f.short, gname(m, g)), loc(f, i), f.short,
                             'modifies %s, which is shared by all GDX objects' % gname(m, g), path(m, seen, n))
    cx.counts.update(public_operations=len(pub), functions_reachable=len(seen), write_sites=sites, static_initialisations=guards)

def gname(m, g):
    return m.globals.get(g, {}).get('dem', g)

def loc(f, i):
    return str(i[3])

def dep_on_input(m, f, i, blocks, args, E):
    """an operand that is an argument, or is loaded from memory that is not a constant or local temporary"""
    def ops(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'v' and isinstance(x[1], int): yield x[1]
            elif x and x[0] == 'v': return
            else:
                for y in x: yield from ops(y)
    if i[0] in ('br', 'switch', 'landingpad', 'resume'): return None
    for v in ops(i[4:]):
        if v in args:
            return "an argument of the call" if not (f.args and f.args[0][0] == 'this' and v == list(f.d.get('argids', range(len(f.args))))[0]) else 'the object'
        d = f.defs().get(v)
        if d and d[0] not in blocks and d[2][0] not in ('alloca',): 
            r = E.roots.get(f.name, {}).get(v, frozenset())
            if d[2][0] in ('getelementptr', 'bitcast') and all(x[0] in 'lg' for x in r): continue
            return 'a value computed at run time'
    return None
