"""Session analysis: fixpoint of the abstract states a GDX object can be in after any sequence of public calls.

State = values of the phase fields plus, for every owned table / raw pointer of the object, one of
absent / present / released.  Every public operation is abstractly executed from every reachable state with
unknown arguments and an unknown file; joins happen per state key, so correlations between phase and tables
survive.  No program code is run."""
import re
from ai import Interp, St, NULL, DANG
from pipeline import AnalysisError

CLS = 'gdx::TGXFileObj'

class Session(Interp):
    def __init__(s, m):
        super().__init__(m)
        s.members = m.fields(CLS)
        if not s.members: raise AnalysisError('class %s not found' % CLS)
        s.fld = {n: o for n, o, z, t in s.members}
        s.byoff = {o: n for n, o, z, t in s.members}
        s.modeoffs = [o for n, o, z, t in s.members if t == 'gdx::TgxFileMode']
        s.statusoffs = [o for n, o, z, t in s.members if z == 1 and t.startswith(CLS + '::<anon') or t == 'gdx::TFileStatus']
        s.upoffs = [o for n, o, z, t in s.members if t.startswith('std::unique_ptr<')]
        s.rawoffs = [o for n, o, z, t in s.members if t.endswith('*') and t != 'fn*']
        s.rawcls = {o: t.rstrip('*').strip() for n, o, z, t in s.members if t.endswith('*') and t != 'fn*'}
        if len(s.modeoffs) < 1 or not s.statusoffs or len(s.upoffs) < 5:
            raise AnalysisError('phase fields of %s not recognised' % CLS)
        s.booloffs = [o for n, o, z, t in s.members if t == 'bool' and n in s.flag_names()]
        s.loose = {o for n, o, z, t in s.members if n in ('MapSetText', 'ErrorList', 'CurFilter', 'fmode_AftReg')} | set(s.booloffs)
        s.keyoffs = [o for o in s.modeoffs + s.statusoffs + s.booloffs if o not in s.loose]
        s.keep = s.modeoffs + s.statusoffs + s.booloffs + s.upoffs + s.rawoffs
        s.ptrset = set(s.upoffs) | set(s.rawoffs)
        s.tight = [o for o in s.upoffs + s.rawoffs if o not in s.loose]
        s.owner = {}
        s.settleoffs = tuple(s.booloffs)
        s._owns = {}
        s.keyf = s.inkey
        s.modenames = s._enum('gdx::TgxFileMode')
        s.stattype = [t for n, o, z, t in s.members if o in s.statusoffs][0]
        s.statnames = s._enum(s.stattype)
        s.apis = [f for f in m.methods(CLS) if f.d.get('access') == 3 and ('c__' + f.sname.lower()) in m.fns]
        if len(s.apis) < 80: raise AnalysisError('only %d exported operations of %s found' % (len(s.apis), CLS))
        s.api = {}
        for f in s.apis: s.api.setdefault(f.sname, f)
        s.curapi = None
        s.cures = None
        s.globals_init()
    def flag_names(s):
        return ('ReadUniverse',)
    def _enum(s, name):
        t = s.m.types.get(name, {}).get('enum', {})
        return {v: k for k, v in t.items()}
    def globals_init(s):
        for n, f in sorted(s.m.fns.items()):
            if n.startswith('__cxx_global_var_init') and not f.decl:
                for ret, st in Interp.run(s, f, [], St()):
                    for k, v in st.mem.items():
                        d = s.regd[k[0]]
                        if d[0] == 'g': s.gmem[(d[1], k[1])] = v
        s.reports.clear()

    # ---- keys ---------------------------------------------------------------------
    def cl(s, v):
        if v == NULL: return 'n'
        if v == DANG: return 'd'
        if v.__class__ is tuple and v[0] == 'alt': return frozenset(s.cl(x) for x in v[1])
        if v.__class__ is int: return 'n' if v == 0 else v
        if v.__class__ is tuple and v[0] == 'p' and s.regd[v[1]][0] == 'sing': return 's'
        return 'v'
    def inkey(s, st):
        mem, facts = st.mem, st.facts
        out = [s.keyfn(st)]
        for o in s.booloffs:
            v = mem.get((0, o))
            if v.__class__ is tuple and v[0] == 's': v = s.R(v, st)
            out.append(v if v.__class__ is int else 'u')
        return tuple(out)
    def keyfn(s, st):
        mem = st.mem
        out = []
        for o in s.keyoffs:
            v = mem.get((0, o))
            if v.__class__ is tuple and v[0] == 's':
                v = s.R(v, st)
                if v.__class__ is not int: v = 'u'
            out.append(v if v.__class__ is int or v.__class__ is str else ('u' if v is None else s.cl(v)))
        for o in s.tight:
            v = mem.get((0, o))
            out.append('u' if v is None else s.cl(v))
        return tuple(out)

    # ---- ownership: destroying an object of class A releases objects of class B ------------
    def on_destroy(s, v, st, cls):
        for o in s.rawoffs:
            rc = s.rawcls[o]
            cur = st.mem.get((0, o))
            if cur is None or cur == NULL or cur == DANG: continue
            if v.__class__ is tuple and v[0] == 'p' and cur.__class__ is tuple and cur[0] == 'p' and v[1] == cur[1]: continue
            if cls and s.releases(cls, rc):
                if cur.__class__ is tuple and cur[0] == 'alt':
                    u = frozenset(NULL if x == NULL else DANG for x in cur[1])
                    st.mem[(0, o)] = ('alt', u) if len(u) > 1 else next(iter(u))
                else: st.mem[(0, o)] = DANG
    def releases(s, cls, rc):
        k = (cls, rc)
        if k in s._owns: return s._owns[k]
        s._owns[k] = False
        seen, work = set(), []
        for f in s.m.fns.values():
            if f.sname.startswith('~') and (f.scope == cls): work.append(f)
        tail = rc.split('::')[-1]
        while work:
            f = work.pop()
            if f.name in seen: continue
            seen.add(f.name)
            for _, c in f.calls():
                for t in s.m.resolve(f, c):
                    if t.sname == '~' + tail and t.scope == rc:
                        s._owns[k] = True; return True
                    if t.name not in seen: work.append(t)
        return False
    def maybe_dang(s, st, rc, ptr):
        for o in s.rawoffs:
            if s.rawcls[o] != rc: continue
            cur = st.mem.get((0, o))
            if cur is None or cur in (NULL, DANG): continue
            if cur == ptr: st.mem[(0, o)] = DANG; continue
            if ptr.__class__ is tuple and ptr[0] == 'p' and cur.__class__ is tuple and cur[0] == 'p' and s.regd[ptr[1]][0] == 'new' and s.regd[cur[1]][0] == 'new' and ptr[1] != cur[1]: continue
            alt = set(cur[1]) if cur[0] == 'alt' else {cur}
            alt.add(DANG)
            st.mem[(0, o)] = ('alt', frozenset(alt))
    def on_call(s, fn, i, callee, args, st, opaque):
        if callee is not None and callee.sname.startswith('~') and args:
            for o in s.rawoffs:
                if callee.scope == s.rawcls[o]:
                    s.maybe_dang(st, callee.scope, args[0]); break

    # ---- states ---------------------------------------------------------------------
    def canon(s, st, alts=True):
        """canonical session state(s) at an API boundary"""
        mem = {}
        for o in s.keep:
            v = s.R(s.loadv(0, o, 'ptr' if o in s.ptrset else 'i8', st, None), st)
            if o in s.ptrset:
                v = s.cptr(v, o, st)
            elif o in s.loose and not (v.__class__ is int or v.__class__ is tuple and v[0] == 'alt'):
                v = ('alt', frozenset((0, 1) if o in s.booloffs else s.modenames))
            mem[(0, o)] = v
        return St(mem, {}, ())
    def cptr(s, v, o, st):
        if v.__class__ is int: v = NULL if v == 0 else v
        if v in (NULL, DANG): return v
        if v.__class__ is tuple and v[0] == 'alt':
            u = frozenset(s.cptr(x, o, st) for x in v[1])
            return ('alt', u) if len(u) > 1 else next(iter(u))
        if v.__class__ is tuple and v[0] == 'p':
            return ('p', s.reg(('own', o)), 0)
        if v.__class__ is tuple and v[0] == 's':
            f = st.facts.get(v[1])
            if f and f[0] == 'nn': return ('p', s.reg(('own', o)), 0)
            d = s.symd[v[1]]
            return ('alt', frozenset((NULL, ('p', s.reg(('own', o)), 0)))) if d[0] not in ('cr', 'ld', 'L') else ('p', s.reg(('own', o)), 0)
        return ('p', s.reg(('own', o)), 0)
    def split(s, st):
        """expand alternatives so that every state has one key"""
        out = [st]
        for o in s.keep:
            if o in s.loose: continue
            nxt = []
            for x in out:
                v = x.mem[(0, o)]
                if v.__class__ is tuple and v[0] == 'alt':
                    for a in sorted(v[1], key=str):
                        y = x.copy(); y.mem[(0, o)] = a; nxt.append(y)
                elif o in s.modeoffs and v.__class__ is not int:
                    for a in sorted(s.modenames): 
                        y = x.copy(); y.mem[(0, o)] = a; nxt.append(y)
                elif o in s.booloffs and v.__class__ is not int:
                    for a in (0, 1):
                        y = x.copy(); y.mem[(0, o)] = a; nxt.append(y)
                elif o in s.statusoffs and v.__class__ is not int:
                    for a in sorted(s.statnames):
                        y = x.copy(); y.mem[(0, o)] = a; nxt.append(y)
                else: nxt.append(x)
            out = nxt
        return out
    def initial(s):
        ctor = [f for f in s.m.methods(CLS) if f.sname == 'TGXFileObj']
        if not ctor: raise AnalysisError('constructor not found')
        out = []
        s.curapi = ctor[0]
        for r, st in s.run(ctor[0], [('p', 0, 0)] + s.args_for(ctor[0])[1:], St()):
            out += s.split(s.canon(st))
        return out
    def args_for(s, f):
        out = []
        for n, (an, ty, *_) in enumerate(f.args):
            if an == 'this': out.append(('p', 0, 0))
            elif ty == 'ptr': out.append(('p', s.reg(('arg', n, an)), 0))
            else: out.append(s.sym(('arg', n, an)))
        return out
    def begin(s, f, st):
        """hook: state at API entry"""
        return st
    def end(s, f, st0, ret, st):
        """hook: state at API exit"""
    def one(s, k, f):
        """abstractly run one public operation from one session state"""
        st = s.states[k][0]
        s.curapi, s.cures = f, k
        out = []
        for r, e in s.run(f, s.args_for(f), s.begin(f, st.copy())):
            rec = s.end(f, st, r, e)
            rc = r if r.__class__ is int else ('n' if r == NULL else 'v')
            for x in s.split(s.canon(e)):
                out.append((s.keyfn(x), x.mem, rc, rec))
        return out
    def chunk(s, job):
        s.reports = {}
        n0 = s.steps
        res = [(k, f, s.one(k, s.m.fns[f])) for k, f in job]
        return res, s.reports, s.steps - n0, s.visited
    def explore(s, limit=400, procs=8):
        import multiprocessing as mp
        seen = s.states = {}
        s.edges, s.records, s.waves = {}, {}, 0
        for o in s.keep: s.reg(('own', o))
        work = []
        def add(st, src):
            k = s.keyfn(st)
            if k not in seen:
                seen[k] = (st, src); work.append(k)
            else:
                old = seen[k][0]
                ch = False
                for o in s.loose:
                    a, b = old.mem[(0, o)], st.mem[(0, o)]
                    u = (a[1] if a.__class__ is tuple and a[0] == 'alt' else frozenset((a,))) | (b[1] if b.__class__ is tuple and b[0] == 'alt' else frozenset((b,)))
                    j = ('alt', u) if len(u) > 1 else a
                    if j != old.mem[(0, o)]: old.mem[(0, o)] = j; ch = True
                if ch and k not in work: work.append(k)
        for st in s.initial(): add(st, None)
        ctx = mp.get_context('fork')
        global _S
        _S = s
        while work:
            if len(seen) > limit: raise AnalysisError('session state space exceeds %d states' % limit)
            s.waves += 1
            pairs = [(k, f.name) for k in work for f in s.apis]
            work.clear()
            n = max(1, len(pairs) // (procs * 6))
            jobs = [pairs[q::max(1, len(pairs) // n)] for q in range(max(1, len(pairs) // n))]
            with ctx.Pool(procs) as pool:
                results = pool.map(_chunk, jobs, chunksize=1)
            for res, reps, steps, vis in results:
                s.steps += steps
                s.visited |= vis
                for rk, rv in reps.items(): s.reports.setdefault(rk, rv)
            allres = [x for res, *_ in results for x in res]
            order = {p: n for n, p in enumerate(pairs)}
            allres.sort(key=lambda x: order[(x[0], x[1])])
            for k, fname, outs in allres:
                sn = s.m.fns[fname].sname
                # results of an earlier visit of the same state are superseded
                for e in [e for e in s.edges if e[0] == k and e[1] == sn]: del s.edges[e]
                s.records[(k, sn)] = [(rc, k2, rec) for k2, _, rc, rec in outs]
                for k2, mem, rc, rec in outs:
                    s.edges.setdefault((k, sn, rc), set()).add(k2)
                    add(St(mem, {}, ()), (k, sn))
        return seen
    def history(s, k):
        h = []
        while s.states_src(k) is not None:
            k, a = s.states_src(k); h.append(a)
        return list(reversed(h))
    def states_src(s, k):
        return s.states[k][1]
    def pretty(s, k):
        n = len(s.keyoffs)
        parts = []
        if k is None: return ''
        for o, v in zip(s.keyoffs, k): parts.append('%s=%s' % (s.byoff[o], s.modenames.get(v, v) if o in s.modeoffs else v))
        ab = [s.byoff[o] for o, v in zip(s.tight, k[n:]) if v == 'v']
        dg = [s.byoff[o] for o, v in zip(s.tight, k[n:]) if v == 'd']
        return ' '.join(parts) + ' present={%s}' % ','.join(ab) + (' released={%s}' % ','.join(dg) if dg else '')
    def report(s, kind, fn, i, msg, st=None):
        k = (kind, i[3], msg)
        if k not in s.reports:
            s.reports[k] = (fn.short, list(s.active), s.curapi.sname if s.curapi else '', s.cures)

_S = None
def _chunk(job):
    return _S.chunk(job)
