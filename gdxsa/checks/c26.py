"""C26: mapped and filtered reads deliver only accepted elements."""
import itertools
import btp, tp
from tp import TOP, isconst
from checks.c25 import lin
from checks.c15 import wh
RULE = ('On every path of the two reading ways (sorting when the reading starts, and record by record) from the reading of a record to its delivery, the conditions passed imply for every dimension that the '
        'key delivered is what the action of the dimension accepts: the element itself (unmapped), its user number found non-negative (mapped), its user number found in the filter of that dimension (filtered), or its '
        'user number or a new one given to that element (newly numbered). A record is delivered or recorded as an error before the next one is read; keys marked in the error are ones that were not accepted, and at least one is.')
EXPLANATION = ('trace-partitioned propagation with the full path condition over sequences of one to three records, elements symbolic, dimensions 1 to 3, every combination of actions for one and two dimensions, '
               'every first changed dimension; user number, filter membership and new number are uninterpreted functions of the element')
TECHNIQUE = 'static analysis: path-condition (trace-partitioned) abstract interpretation of the compiler IR'
ASSUMPTIONS = ['element numbers in a file are at least 1', 'TIntegerMapping returns what was stored (C20)', 'loops over the dimensions treat dimensions above 3 like the ones analysed', 'sequences of more than three records behave like the ones analysed']
T = ('arg', 0)
NR = {'u': -2, 'e': -1, 's': 0, 'f': 7}          # as given by the caller
ACT = {'u': 'dm_unmapped', 'e': 'dm_expand', 's': 'dm_strict', 'f': 'dm_filter'}

def form(v):
    if v == TOP: return None
    out = {}
    for k, c in lin(v).items():
        if isinstance(k, tuple) and k[0] == 'x' and isinstance(k[1], tuple) and k[1][0] == 'mul' and len(k[1]) == 3 and isconst(k[1][1]) and isinstance(k[1][1][1], int):
            for q, z in (form(k[1][2]) or {}).items(): out[q] = out.get(q, 0) + c * z * k[1][1][1]
        else: out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}
def key(n, k): return ('x', ('key', n, k))

class R(tp.TP):
    """st.tag = (record number, status)"""
    def __init__(s, m, f, off, acts, sched, preset, cx, out):
        p = {(T, off['TraceLevel'][0]): ('c', 0), (T, off['FFile'][0]): ('p', ('stream',), 0), **preset}
        tp.TP.__init__(s, m, f, preset=p, budget=60000, maxpart=4000)
        s.off, s.acts, s.sched, s.cx, s.out = off, acts, sched, cx, out
        s.d = len(acts)
        s.maxdepth = 16
        s.prepart = 12
        s.members = sorted(off.values())
        s.keyfacts = lambda st: st.tag is not None
        s.on_call = s.calls
    def store(s, st, p, v, size):
        tp.TP.store(s, st, p, s.canon(v) if v[0] == 'x' else v, size)
    def last(s, k): return ('p', T, s.off['LastElem'][0] + 4 * k)
    def srcrec(s, st):
        """number of the record that gave the current key, per dimension"""
        n = st.tag[0]
        return [max(r for r in range(n + 1) if s.sched[r] - 1 <= k) for k in range(s.d)]
    def calls(s, st, cn, args, i):
        g = s.m.fns.get(cn)
        nm = g.mname if g else ''
        if cn.startswith(('llvm.memcpy', 'llvm.memmove')) and isconst(args[2]) and args[2][1] <= 80 and args[2][1] % 4 == 0 and args[0][0] == args[1][0] == 'p' and T in (args[0][1], args[1][1]):
            vs = [s.load(st, ('p', args[1][1], args[1][2] + o), 4) for o in range(0, args[2][1], 4)]
            for n, v in enumerate(vs): s.store(st, ('p', args[0][1], args[0][2] + 4 * n), v, 4)
            return TOP
        if cn.startswith('llvm.abs'):
            f = form(args[0])
            if f and len(f) == 1 and s.least(next(iter(f))) is not None and abs(next(iter(f.values()))) == 1: return next(iter(f))
        if nm == 'DoRead':
            n = 0 if st.tag is None else st.tag[0] + 1
            if st.tag is not None and st.tag[1] == 'read' and s.final: s.bad(i, 'dropped', 'a record is neither delivered nor recorded as an error before the next one is read')
            if n >= len(s.sched): s.halt = True; return ('c', 0)
            st.tag = (n, 'read')
            a = s.sched[n]
            for k in range(a - 1, s.d): s.store(st, s.last(k), key(n, k), 4)
            if len(args) > 2 and args[2][0] == 'p': s.store(st, args[2], ('c', a), 4)
            return ('c', 1)
        if nm == 'GetUserMap': return ('x', ('um', s.canon(args[1])))
        if nm == 'InFilter': return ('x', ('in', args[0], args[1]))
        if nm == 'NewUsrUel': return ('x', ('new', s.canon(args[1])))
        if nm == 'GetMapping': return ('x', ('exp', s.canon(args[1])))
        if nm == 'SetMapping':
            if s.final: s.mapped(st, args[1], args[2], i)
            return TOP
        if nm == 'FindFilter': return ('p', ('nn', 'filter', args[1][1] if isconst(args[1]) else '?'), 0)
        if nm == 'GetObject': return ('p', ('nn', 'slot'), 0)
        if nm == 'ResultWillBeSorted': return ('c', 0)
        if nm == 'AddItem':
            if st.tag is not None: s.deliver(st, args[1], i); st.tag = (st.tag[0], 'done')
            return TOP
        if nm in ('AddToErrorListDomErrs', 'AddToErrorList'):
            if st.tag is not None:
                if s.final: s.errors(st, args[1], i)
                st.tag = (st.tag[0], 'done')
            return TOP
        if args and args[0][0] == 'p' and args[0][1] == ('stream',): return s.fresh(st, i[1]) if i[1] >= 0 else TOP
        if cn.startswith('_Zn') and i[1] >= 0: return ('p', ('nn', i[1]), 0)
        return None
    def canon(s, v):
        f = form(v)
        if f and len(f) == 1 and next(iter(f.values())) == 1 and next(iter(f)) != 1: return next(iter(f))
        return v
    def gave_up(s, st, j):
        """the reading ends although the record at hand was neither delivered nor recorded"""
        if st.tag is None or st.tag[1] != 'read' or s.impossible(st): return
        for e, b in st.facts:
            if isinstance(e, tuple) and len(e) == 3 and e[0] in ('slt', 'sle', 'ult', 'ule'):
                small, big = (e[1], e[2]) if b else (e[2], e[1])
                if big[0] == 'x' and isinstance(big[1], tuple) and big[1][0] == 'key' and not isconst(small): return       # found to exceed the number of elements
        s.bad(j, 'abort', 'the reading ends although the elements of the record at hand are valid')
    def bad(s, i, k, msg, detail=''): s.out(k, i, msg, detail)
    # facts
    def nonneg(s, st, v):
        for e, b in st.facts:
            if not isinstance(e, tuple) or len(e) != 3: continue
            if e[0] == 'slt' and e[1] == v and isconst(e[2]) and e[2][1] <= 0 and not b and e[2][1] == 0: return True
            if e[0] == 'sle' and e[1] == ('c', 0) and e[2] == v and b: return True
            if e[0] == 'slt' and isconst(e[1]) and isinstance(e[1][1], int) and e[1][1] >= -1 and e[2] == v and b: return True
            if e[0] == 'sle' and e[1] == v and e[2] == ('c', -1) and not b: return True
        return False
    def neg(s, st, v):
        for e, b in st.facts:
            if not isinstance(e, tuple) or len(e) != 3: continue
            if e[0] == 'slt' and e[1] == v and e[2] == ('c', 0) and b: return True
            if e[0] == 'sle' and e[1] == ('c', 0) and e[2] == v and not b: return True
            if e[0] == 'sle' and e[1] == v and e[2] == ('c', -1) and b: return True
            if e[0] == 'slt' and e[1] == ('c', -1) and e[2] == v and not b: return True
        return False
    def isin(s, st, k, v, want): return any(e == ('in', ('p', ('nn', 'filter', s.fnr(k)), 0), v) and b == want for e, b in st.facts)
    def fnr(s, k): return NR['f'] + k
    def assume(s, c, truth): return [x for x in tp.TP.assume(s, c, truth) if s.relevant(x[0])]
    def contradict(s, facts, add):
        if tp.TP.contradict(s, facts, add): return True
        cs = []
        for e, b in facts | frozenset(add):
            if not isinstance(e, tuple) or len(e) != 3 or e[0] not in ('slt', 'sle', 'eq') or e[0] == 'eq' and not b: continue
            x, y = form(e[1]), form(e[2])
            if x is None or y is None: continue
            strict = e[0] == 'slt'
            if e[0] != 'eq' and not b: x, y, strict = y, x, not strict
            for u, v in ((x, y), (y, x)) if e[0] == 'eq' else ((x, y),):
                d = dict(u)
                for q, c in v.items(): d[q] = d.get(q, 0) - c
                c0 = d.pop(1, 0) + strict
                cs.append(({q: c for q, c in d.items() if c}, c0))           # sum <= -c0
        iv = {}
        def bounds(q): return iv.get(q) or (s.least(q), None)
        for e, b in facts | frozenset(add):
            if b and isinstance(e, tuple) and e[0] == 'in': iv[e[2]] = (0, None)      # what InFilter promises, see below
        for _ in range(2):
            for d, c0 in cs:
                if len(d) == 1:
                    (q, c), = d.items()
                    lo, hi = bounds(q)
                    if c == 1: hi = -c0 if hi is None else min(hi, -c0)
                    elif c == -1: lo = c0 if lo is None else max(lo, c0)
                    iv[q] = (lo, hi)
                    if lo is not None and hi is not None and lo > hi: return True
                else:
                    t = c0
                    for q, c in d.items():
                        z = bounds(q)[0 if c > 0 else 1]
                        if z is None: break
                        t += c * z
                    else:
                        if t > 0: return True
        return False
    def least(s, q):
        if not (isinstance(q, tuple) and q[0] == 'x' and isinstance(q[1], tuple)): return None
        if q[1][0] in ('key', 'new'): return 1
        if q[1][0] == 'm' and q[1][1] == T and s.prev(q[1][2]): return 0
        return None
    def prev(s, o): return s.off['PrevElem'][0] <= o < sum(s.off['PrevElem'])
    def relevant(s, e):
        if not isinstance(e, tuple): return False
        if e and e[0] in ('key', 'um', 'in', 'new', 'exp'): return True
        if e and e[0] == 'm' and len(e) == 4 and e[1] == T and isinstance(e[2], int) and s.prev(e[2]): return True
        return any(s.relevant(x) for x in e if isinstance(x, tuple))
    def impossible(s, st): return s.contradict(st.facts, ())
    def accepted(s, st, k, v, el):
        a = s.acts[k]
        if a == 'u': return form(v) == form(el)
        um = ('x', ('um', el))
        if a == 's': return v == um and s.nonneg(st, um)
        if a == 'f': return v == um and s.isin(st, k, um, True)
        ex = ('x', ('exp', el))
        return v == um and s.nonneg(st, um) or v == ex and s.nonneg(st, ex) or v == ('x', ('new', el)) or s.same_new(st, v, el)
    def same_new(s, st, v, el):
        """the new number of an equal element of another dimension"""
        if not (v[0] == 'x' and v[1][0] == 'new'): return False
        o = v[1][1]
        for e, b in st.facts:
            if b and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq':
                x, y = form(e[1]), form(e[2])
                if x is None or y is None: continue
                if (x, y) in (({o: 1}, {el: 1}), ({el: 1}, {o: 1}), ({o: -1}, {el: -1}), ({el: -1}, {o: -1})): return True
        return False
    def els(s, st): return [key(n, k) for k, n in enumerate(s.srcrec(st))]
    def deliver(s, st, p, i):
        if not s.final or s.impossible(st): return
        s.cx.count('deliveries of a record')
        if st.tag[1] != 'read': s.bad(i, 'twice', 'a record is delivered although it was delivered or recorded as an error before')
        for k, el in enumerate(s.els(st)):
            v = s.load(st, ('p', p[1], p[2] + 4 * k), 4) if p[0] == 'p' else TOP
            if not s.accepted(st, k, v, el):
                s.bad(i, 'accept|%s' % s.acts[k], 'a record is delivered with a key that was not accepted by the action of its dimension (%s)' % ACT[s.acts[k]][3:],
                      'dimension %d of %d, actions %s, first changed dimensions of the records %s, key delivered %s' % (k + 1, s.d, s.acts, s.sched[:st.tag[0] + 1], v))
    def mapped(s, st, en, v, i):
        el = s.canon(en)
        if s.impossible(st) or st.tag is None: return
        um = ('x', ('um', el))
        if v == ('x', ('new', el)) or v == um and s.nonneg(st, um): return
        s.bad(i, 'remember', 'a user number is remembered for an element that does not have it', '%s -> %s' % (el, v))
    def errors(s, st, p, i):
        if s.impossible(st): return
        s.cx.count('records recorded as an error')
        n = 0
        for k, el in enumerate(s.els(st)):
            v = s.load(st, ('p', p[1], p[2] + 4 * k), 4) if p[0] == 'p' else TOP
            f = form(v)
            um = ('x', ('um', el))
            if f == {el: 1}: continue
            if f == {el: -1}:
                n += 1
                if not (s.acts[k] == 's' and s.neg(st, um) or s.acts[k] == 'f' and s.isin(st, k, um, False)):
                    s.bad(i, 'mark', 'a key that was accepted is marked as offending', 'dimension %d of %d, actions %s' % (k + 1, s.d, s.acts))
            else: s.bad(i, 'errkey', 'a record recorded as an error does not have the keys that were read', 'dimension %d of %d, actions %s: %s' % (k + 1, s.d, s.acts, v))
        if not n: s.bad(i, 'unmarked', 'no key is marked in a record recorded as an error', 'actions %s' % (s.acts,))

def run(cx):
    m = cx.variant('maps')
    off = {n: (o, z) for n, o, z, t in m.fields('gdx::TGXFileObj')}
    for k in ('FCurrentDim', 'LastElem', 'PrevElem', 'DomainList', 'TraceLevel', 'FFile', 'fmode', 'CurSyPtr', 'ReadUniverse', 'NameList', 'UELTable'): cx.need(k in off, 'member %s not found' % k)
    fs = {f.sname: f for f in m.fns.values() if not f.decl and f.scope.endswith('TGXFileObj')}
    dire, srt = fs.get('gdxDataReadMap'), fs.get('gdxDataReadFilteredStart')
    cx.need(dire and srt, 'the reading operations were not found')
    todo = [(a, s) for a in 'usfe' for s in ((1, 1),)]
    todo += [(''.join(a), s) for a in itertools.product('usfe', repeat=2) for s in ((1, 2), (1, 1))]
    todo += [(a, s) for a in ('ff', 'sf', 'fs', 'ef', 'ee', 'fe') for s in ((1, 2, 2), (1, 2, 1))] + [(a, s) for a in ('fff', 'sfe', 'efs') for s in ((1, 3), (1, 2))]
    flt = [f for f in m.fns.values() if not f.decl and f.mname == 'InFilter' and f.scope.endswith('TDFilter')]
    for f in flt:
        for x in (-1, -2, -1 << 31):
            t = tp.TP(m, f, budget=2000)
            t.argv = {1: ('c', x)}
            def ret(st, v, j):
                cx.count('negative numbers put to a filter')
                if v != ('c', 0): cx.violation('filter|negative', wh(f, j), f.short, 'a filter can accept the number %d of an element without a user number' % x, '')
            t.on_ret = ret
            t.run()
    for acts, sched in todo:
        direct(cx, m, dire, off, acts, sched)
        sorting(cx, m, srt, off, acts, sched)

def reporter(cx, f, way):
    def out(k, i, msg, detail): cx.violation('%s|%s' % (way, k), wh(f, i), f.short, msg, detail)
    return out

def direct(cx, m, f, off, acts, sched):
    """record by record: every call delivers one; what it finds from the calls before is the keys delivered then"""
    d = len(acts)
    E = cx.__dict__.setdefault('_enum', enums(m))
    base, z = off['DomainList']
    el = z // 20
    pre = {(T, off['FCurrentDim'][0]): ('c', d), (T, off['fmode'][0]): ('c', E['fr_mapr_data'])}
    for k, a in enumerate(acts):
        pre[(T, base + el * k)] = ('p', ('nn', 'filter', NR['f'] + k), 0)
        pre[(T, base + el * k + 8)] = ('c', E[ACT[a]])
    # one call; rejected records before the delivered one are in the same call
    t = R(m, f, off, acts, sched, pre, cx, reporter(cx, f, 'direct'))
    def ret(st, v, j):
        if v == ('c', 0): t.gave_up(st, j)
        if v == ('c', 0) or st.tag is None: return
        t.deliver(st, ('p', ('arg', 2), 0), j)
    t.on_ret = ret
    t.run()
    over(cx, t, f)
    # a further call, whose record keeps the keys before its first changed dimension: they are the ones delivered before, wherever the caller had them put
    for a in range(2, d + 1):
        t = R(m, f, off, acts, (a,), {**pre, **{(T, off['LastElem'][0] + 4 * k): key(0, k) for k in range(a - 1)}}, cx, reporter(cx, f, 'direct'))
        t.srcrec = lambda st: [0] * d
        def ret2(st, v, j):
            if v == ('c', 0) or st.tag is None or t.impossible(st): return
            cx.count('deliveries of a record')
            for k in range(d):
                x = t.load(st, ('p', ('arg', 2), 4 * k), 4)
                if k < a - 1:
                    if x != ('x', ('m', T, off['PrevElem'][0] + 4 * k, 4)):
                        reporter(cx, f, 'direct')('kept', j, 'a key that did not change is not delivered', 'dimension %d of %d, first changed dimension %d: %s' % (k + 1, d, a, x))
                elif not t.accepted(st, k, x, key(0, k)):
                    reporter(cx, f, 'direct')('accept|%s' % acts[k], j, 'a record is delivered with a key that was not accepted by the action of its dimension (%s)' % ACT[acts[k]][3:], 'dimension %d of %d: %s' % (k + 1, d, x))
        t.on_ret = ret2
        t.run()
        over(cx, t, f)

def sorting(cx, m, f, off, acts, sched):
    d = len(acts)
    S = {n: o for n, o, z, t in m.fields('gdx::TgdxSymbRecord')}
    E = cx.__dict__.setdefault('_enum', enums(m))
    pre = {(('arg', 2), 4 * k): ('c', NR[a] + (k if a == 'f' else 0)) for k, a in enumerate(acts)}
    pre[(T, off['fmode'][0])] = ('c', E['fr_init'])
    pre[(('nn', 'slot'), 0)] = ('p', ('nn', 'sym'), 0)
    pre[(('nn', 'sym'), S['SDim'])] = ('c', d)
    pre[(('nn', 'sym'), S['SDataType'])] = ('c', 1)
    t = R(m, f, off, acts, sched, pre, cx, reporter(cx, f, 'sorted'))
    t.argv = {1: ('c', 3)}
    t.on_ret = lambda st, v, j: t.gave_up(st, j)
    t.run()
    over(cx, t, f)

def over(cx, t, f):
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the operation could not be enumerated', '')
    cx.count('reading histories analysed')

def enums(m):
    out = {}
    for n in ('gdx::TgxFileMode', 'gdx::TgdxDAction'):
        e = (m.types.get(n) or {}).get('enum') or {}
        for k, v in (e.items() if isinstance(e, dict) else ((x, q) if isinstance(x, str) else (q, x) for x, q in e)): out[k] = v
    return out
