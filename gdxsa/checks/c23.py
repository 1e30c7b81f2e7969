from ambient import Watch, Reach, ambient_kind, stream_classes, PROC
from session import CLS
from strconst import StrConst
TECHNIQUE = 'call-graph effect analysis from every public operation; constant-string resolution of environment names; typestate fixpoint for the conditions under which a program is started'
RULE = ('The external functions reachable from any public operation contain no clock, random, host or directory function and no file function outside the stream classes; every environment query names one of the two '
        'documented variables; process creation is reachable only through closing, and on feasible paths only from a writing session with conversion enabled, with a command naming the converter.')
EXPLANATION = 'Whole-program call graph with class-hierarchy resolution of virtual calls; abstract interpretation of closing from each reachable session state.'
ASSUMPTIONS = ['standard library functions have no ambient effects other than the listed ones', 'results of character comparison do not depend on a locale set by the host program', 'POSIX branch of the conditional code']
DOC = {'GDXCOMPRESS', 'GDXCONVERT'}

class W23(Watch):
    def watch(s, fn, i, f, args, st, opaque):
        k = s.cures
        if k is None or k.__class__ is not tuple: return
        if (f.decl and f.name in PROC) or (opaque and not f.decl and any(kd == 'process' for kd, _ in s.rch.cached(f.name))):
            on = None
            o = s.fld.get('AutoConvert')
            if o is not None: on = s.nonzero(s.loadv(0, o, 'i32', st, None), st)
            s.report('proc', fn, i, repr((s.curapi.sname, k[1], on)), st)
    def nonzero(s, v, st):
        v = s.R(v, st)
        if v.__class__ is int: return v != 0
        if v.__class__ is tuple and v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None:
                if f[0] == '=' and f[1].__class__ is int: return f[1] != 0
                if f[0] == 'i': return 0 in f[3] or (f[1] is not None and f[1] > 0) or (f[2] is not None and f[2] < 0)
            for pred in ('ne', 'eq'):
                c = s.symt.get(('cmp', pred, v, 0))
                if c is not None and c in st.facts and st.facts[c][0] == '=':
                    return bool(st.facts[c][1] & 1) == (pred == 'ne')
        return False

def run(cx):
    m = cx.module()
    rch = Reach(m)
    pub = [f.name for f in m.methods(CLS) if f.d.get('access') == 3 or f.sname in ('TGXFileObj', '~TGXFileObj')]
    pub += [f.name for f in m.fns.values() if not f.decl and f.relfile == 'generated/gdxcclib.cpp']
    cx.need(len(pub) > 150, 'public operations not found (%d)' % len(pub))
    # everything reachable
    seen, work = set(pub), list(pub)
    while work:
        x = work.pop()
        for y in rch.callees.get(x, ()):
            if y not in seen and y in m.fns: seen.add(y); work.append(y)
    S = rch.streams
    def via(x):
        p = rch.path(sorted(pub), {x})
        return [m.fns[q] for q in p]
    next_ = 0
    SC = StrConst(m)
    envs, procs = set(), []
    for n in sorted(seen):
        f = m.fns[n]
        if f.decl: continue
        for _, i in f.calls():
            for t in m.resolve(f, i):
                k = ambient_kind(t) if t.decl else None
                if k is None: continue
                next_ += 1
                chain = lambda: ' > '.join(x.short for x in via(n))
                if k in ('clock', 'otherfile'):
                    cx.violation('%s|%s|%s' % (k, f.short, t.mname), i[3], f.short, 'a public operation consults %s' % t.mname, chain())
                elif k == 'file':
                    # file functions are called by the streams only
                    if f.scope in S: continue
                    bad = [c for c in callers_outside(m, rch, n, S, seen)]
                    for c in bad:
                        cx.violation('file|%s|%s' % (c.short, t.mname), c.where, c.short, 'a public operation accesses files outside the file stream (through %s)' % f.short, chain())
                elif k == 'environment':
                    names, unknown = SC.arg_values(f, i[5][0], seen)
                    envs |= names
                    if t.name != 'getenv' and t.name != 'secure_getenv': cx.violation('env|set|%s' % f.short, i[3], f.short, 'a public operation changes the environment', chain())
                    for x in sorted(names - DOC): cx.violation('env|%s' % x, i[3], f.short, 'a public operation consults the environment variable %s' % x, chain())
                    for u in sorted(unknown): cx.violation('env|?|%s' % u, i[3], f.short, 'a public operation consults an environment variable whose name is not one of the documented constants (%s)' % u, chain())
                elif k == 'process':
                    procs.append((f, i, t))
    cx.need(next_ >= 5, 'too few external accesses found')
    # ---- conditions for starting a program ---------------------------------------------------
    s = W23(m)
    s.explore()
    nproc = 0
    for (kind, loc, msg), (fn, stack, api, k) in sorted(s.reports.items(), key=str):
        if kind != 'proc': continue
        op, status, on = eval(msg)
        nproc += 1
        h = 'calls leading there: %s' % ' -> '.join(s.history(k))
        if op != 'gdxClose': cx.violation('proc|op|%s' % op, loc, fn, '%s starts a program' % op, h)
        elif status != 2: cx.violation('proc|status', loc, fn, 'closing starts a program although the session did not write a file', h)
        if on is False: cx.violation('proc|enabled', loc, fn, '%s starts a program without conversion being enabled' % op, h)
    reachp = {f.name for f, i, t in procs}
    from_close = rch.path([s.api['gdxClose'].name], reachp)
    if procs:
        lits = set()
        for x in from_close + [n for n in seen if not m.fns[n].decl and m.fns[n].scope not in S and rch.callees.get(n, set()) & reachp]:
            lits |= SC.literals(m.fns[x])
        if not any(l.startswith('gdxcopy') for l in lits): cx.violation('proc|name', procs[0][1][3], procs[0][0].short, 'the program started on closing is not the documented converter', str(sorted(lits))[:300])
    # every other public operation: no process at all
    for n in pub:
        f = m.fns[n]
        if f.scope == CLS and f.sname in s.api and f.sname != 'gdxClose':
            p = rch.path([n], reachp, stop=frozenset())
            if p and s.api['gdxClose'].name not in p: cx.violation('proc|reach|%s' % f.sname, f.where, f.short, 'a program can be started from %s' % f.sname, ' > '.join(m.fns[x].short for x in p))
    cx.counts.update(public_operations=len(pub), functions_reachable=len(seen), external_accesses=next_, environment_variables=sorted(envs), process_call_paths=nproc, session_states=len(s.states))
    cx.counts['environment_variables'] = len(envs)
    cx.sample('environment variables consulted: %s' % sorted(envs))

def callers_outside(m, rch, n, S, seen):
    """functions outside the stream classes from which file function wrapper n is reached without entering a stream method"""
    back = {}
    for x in seen:
        for y in rch.callees.get(x, ()): back.setdefault(y, set()).add(x)
    out, vis, work = [], {n}, [n]
    while work:
        x = work.pop()
        for c in sorted(back.get(x, ())):
            f = m.fns[c]
            if c in vis or f.scope in S: continue
            vis.add(c)
            if f.scope == CLS or f.relfile.startswith('src/gxfile') or f.relfile.startswith('generated/'): out.append(f)
            else: work.append(c)
    return out
