"""Which members of a class a function reads or writes (scalars by direct access; members whose address is passed on count as both)."""
class Fields:
    def __init__(s, m, cls):
        s.m, s.cls = m, cls
        s.mem = sorted((o, o + max(z, 1), n, t) for n, o, z, t in m.fields(cls))
        s.rd, s.wr, s.addr = {}, {}, {}
        for f in m.fns.values():
            if not f.decl and f.args: s.one(f)
    def name(s, off):
        for a, b, n, t in s.mem:
            if a <= off < b: return n
        return None
    def thisargs(s, f):
        out = set()
        for n, a in enumerate(f.args):
            if a[0] == 'this' and f.scope == s.cls: out.add(n)
            elif n < len(f.sig) - 1 and f.sig and len(f.sig) == len(f.args) + 1 and f.sig[n + 1].rstrip(' const').rstrip('*&') == s.cls: out.add(n)
        return out
    def one(s, f):
        base = {n: 0 for n in s.thisargs(f)}
        # lambdas capture this: pointer loaded from closure is not tracked here
        if not base: return
        off = dict(base)
        for bi, i in f.instrs():
            op = i[0]
            if op == 'getelementptr' and i[4][0] == 'v' and i[4][1] in off:
                off[i[1]] = off[i[4][1]] + i[5][1]
        R, W, A = set(), set(), set()
        def nm(o):
            if o[0] == 'v' and o[1] in off and o[1] not in base: return s.name(off[o[1]])
            if o[0] == 'v' and o[1] in base: return s.name(0)
            return None
        for bi, i in f.instrs():
            op = i[0]
            if op == 'load':
                n = nm(i[4])
                if n: R.add(n)
            elif op == 'store':
                n = nm(i[5])
                if n: W.add(n)
                if i[4][0] == 'v' and i[4][1] in off and i[4][1] not in base: A.add(s.name(off[i[4][1]]))
            elif op in ('call', 'invoke'):
                for a in i[5]:
                    if a[0] == 'v' and a[1] in off and a[1] not in base: A.add(s.name(off[a[1]]))
        s.rd[f.name], s.wr[f.name], s.addr[f.name] = R, W, A
    def reach(s, starts):
        seen, work = set(), [f.name for f in starts]
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            f = s.m.fns[n]
            if f.decl: continue
            for _, i in f.calls():
                for t in s.m.resolve(f, i):
                    if t.name not in seen: work.append(t.name)
        return seen
    def reads(s, starts):
        out = set()
        for n in s.reach(starts): out |= s.rd.get(n, set()) | s.addr.get(n, set())
        return out
    def writes(s, starts):
        out = set()
        for n in s.reach(starts): out |= s.wr.get(n, set()) | s.addr.get(n, set())
        return out
