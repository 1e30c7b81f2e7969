"""Interprocedural effect summaries (flow-insensitive, by fixpoint over the call graph).

For each function: roots of every pointer value (which argument, global or fresh object it is derived from), the set of roots
it may write through (directly or in callees), the roots its result is derived from, and the external functions it may reach."""
import re

PURE = re.compile(r'^(str(len|nlen|cmp|ncmp|casecmp|chr|rchr|str)|mem(cmp|chr)|llvm\.(dbg|lifetime|type|assume|expect|eh|public|invariant|fabs|u?min|u?max|[us]min|[us]max|is\.|ctpop|ctlz|bswap|ceil|floor|trap|stacksave|stackrestore|va_|umul|smul|uadd|sadd|usub|ssub|fmuladd|memset_|load).*|'
                  r'__gxx_personality_v0|_Unwind_Resume|__cxa_.*|_ZSt9terminatev|_Zn[wa].*|_Zd[la].*|_ZSt\d+__throw.*|abort|exit|free|malloc|to(upper|lower)|is[a-z]+|getenv|abs|log10?|pow|floor|ceil|fabs)$')
MEMW = re.compile(r'^(llvm\.mem(cpy|move|set).*|mem(cpy|move|set)|str(n?cpy|n?cat)|snprintf|sprintf|vsnprintf|fread|gzread|read)$')

class Effects:
    def __init__(s, m, extra_fns=None):
        s.m = m
        s.roots, s.w, s.ret, s.ext = {}, {}, {}, {}
        s.fns = [f for f in m.fns.values() if not f.decl]
        for f in s.fns: s.w[f.name], s.ret[f.name] = set(), set()
        s.callers = {}
        for f in s.fns:
            for _, i in f.calls():
                for t in m.resolve(f, i): s.callers.setdefault(t.name, set()).add(f.name)
        work = {f.name for f in s.fns}
        rounds = 0
        while work:
            rounds += 1
            nxt = set()
            for n in work:
                f = m.fns[n]
                w0, r0 = len(s.w[n]), len(s.ret[n])
                s.one(f)
                if len(s.w[n]) != w0 or len(s.ret[n]) != r0: nxt |= s.callers.get(n, set())
            work = nxt
            if rounds > 40: break
    def oproots(s, f, o, R):
        t = o[0]
        if t == 'v':
            return R.get(o[1], frozenset())
        if t == 'g':
            return frozenset(('g:' + o[1],)) if o[1] not in s.m.fns else frozenset()
        if t == 'e':
            out = frozenset()
            for x in o[2:]:
                if isinstance(x, list) and x and isinstance(x[0], str): out |= s.oproots(f, x, R)
            return out
        return frozenset()
    def one(s, f):
        m = s.m
        R = s.roots.get(f.name)
        first = R is None
        if first:
            R = s.roots[f.name] = {}
            for n, a in enumerate(f.args): R[n_arg(f, n)] = frozenset(('a%d' % n,))
        W, RET = s.w[f.name], s.ret[f.name]
        slot = {}
        ch = True
        while ch:
            ch = False
            for bi, i in f.instrs():
                op, d = i[0], i[1]
                new = None
                if op in ('getelementptr',): new = s.oproots(f, i[4], R)
                elif op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze', 'extractvalue'): new = s.oproots(f, i[4], R)
                elif op == 'phi':
                    new = frozenset()
                    for o, b in i[4]: new |= s.oproots(f, o, R)
                elif op == 'select':
                    new = s.oproots(f, i[5], R) | s.oproots(f, i[6], R)
                elif op == 'alloca':
                    new = frozenset(('l%d' % d,))
                elif op == 'load':
                    pr = s.oproots(f, i[4], R)
                    if i[2] == 'ptr':
                        new = frozenset()
                        for r in pr:
                            if r[0] == 'l': new |= slot.get(r, frozenset())
                            else: new |= {r}
                elif op == 'store':
                    pr = s.oproots(f, i[5], R)
                    vr = s.oproots(f, i[4], R)
                    for r in pr:
                        if r[0] == 'l':
                            if vr and not vr <= slot.get(r, frozenset()):
                                slot[r] = slot.get(r, frozenset()) | vr; ch = True
                        else: W.add(r)
                elif op in ('call', 'invoke'):
                    cn = m.callee_name(i) or ''
                    args = [s.oproots(f, a, R) for a in i[5]]
                    def expand(rs):
                        out = set(rs)
                        for r in rs:
                            if r[0] == 'l': out |= slot.get(r, frozenset())
                        return out
                    new = frozenset()
                    if cn.startswith('llvm.mem') or MEMW.match(cn):
                        wi = 1 if cn in ('read',) else 0
                        for r in (args[wi] if len(args) > wi else ()):
                            if r[0] != 'l': W.add(r)
                        if len(args) > 1 and 'set' not in cn:
                            for r in args[0]:
                                if r[0] == 'l':
                                    vr = frozenset(expand(args[1]))
                                    if not vr <= slot.get(r, frozenset()): slot[r] = slot.get(r, frozenset()) | vr; ch = True
                        new = args[0] if args else frozenset()
                    elif cn and PURE.match(cn): 
                        new = args[0] if args and i[2] == 'ptr' and not cn.startswith('_Zn') else frozenset()
                    else:
                        tg = m.resolve(f, i)
                        if not tg:
                            # unknown target (callback): no write to memory of this object
                            pass
                        for t in tg:
                            if t.decl:
                                if PURE.match(t.name): continue
                                cm = t.dem.endswith(' const')
                                for n, rs in enumerate(args):
                                    if cm or (n > 0 and t.dem.startswith('std::')) or (n == 1 and 'operator<<' in t.dem): continue
                                    for r in expand(rs):
                                        if r[0] != 'l': W.add(r)
                                if i[2] == 'ptr' and args: new |= args[0]
                            else:
                                for wr in list(s.w[t.name]):
                                    if wr[0] == 'a':
                                        n = int(wr[1:])
                                        if n < len(args):
                                            for r in expand(args[n]):
                                                if r[0] != 'l': W.add(r)
                                    else: W.add(wr)
                                for rr in s.ret[t.name]:
                                    if rr[0] == 'a':
                                        n = int(rr[1:])
                                        if n < len(args): new |= frozenset(expand(args[n])) if True else frozenset()
                                    else: new |= {rr}
                                # sret / out parameters: whatever the callee got may end up in a local passed to it
                                for n, rs in enumerate(args):
                                    if 'a%d' % n in s.w[t.name]:
                                        for r in rs:
                                            if r[0] == 'l':
                                                vr = frozenset(x for q, a2 in enumerate(args) if q != n for x in expand(a2) if x != r)
                                                if vr and not vr <= slot.get(r, frozenset()): slot[r] = slot.get(r, frozenset()) | vr; ch = True
                    if i[2] != 'ptr' and not i[2].startswith(('{', '%')): new = None
                elif op == 'ret':
                    if len(i) > 4 and i[4]:
                        for r in s.oproots(f, i[4], R):
                            if r[0] in 'ag': RET.add(r)
                if new is not None and d >= 0:
                    old = R.get(d, frozenset())
                    if not new <= old:
                        R[d] = old | new; ch = True
    def writes_arg(s, f, n): return ('a%d' % n) in s.w.get(f.name, ())
    def mutates_this(s, f):
        if f.decl: return not f.dem.endswith(' const')
        n = next((k for k, a in enumerate(f.args) if a[0] == 'this'), None)
        return n is not None and s.writes_arg(f, n)

def n_arg(f, n):
    return f.d['argids'][n] if 'argids' in f.d else n
