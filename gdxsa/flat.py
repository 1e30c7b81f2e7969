"""Bound facts in the flat (fully inlined) module: linear terms over canonical expressions, facts of dominating branches."""
import re
import sx

class Lin:
    """sum of coef*atom + const"""
    __slots__ = ('t', 'c')
    def __init__(s, t=None, c=0): s.t = {k: v for k, v in (t or {}).items() if v}; s.c = c
    def __add__(s, o):
        t = dict(s.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + v
        return Lin(t, s.c + o.c)
    def scale(s, n): return Lin({k: v * n for k, v in s.t.items()}, s.c * n)
    def __sub__(s, o): return s + o.scale(-1)
    def key(s): return (tuple(sorted(s.t.items())), s.c)
    def __repr__(s):
        r = ' + '.join(('%s' % k if v == 1 else '%d*%s' % (v, k)) for k, v in sorted(s.t.items()))
        return (r + (' %+d' % s.c if s.c else '')) if r else str(s.c)

def idom(f):
    order = f.rpo(); num = {b: n for n, b in enumerate(order)}
    idm = {order[0]: order[0]} if order else {}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.pred()[b] if p in idm]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while num[a] > num[c]: a = idm[a]
                    while num[c] > num[a]: c = idm[c]
                n = a
            if idm.get(b) != n: idm[b] = n; ch = True
    return idm

class Flat:
    def __init__(s, m):
        s.m = m; s.S = sx.SX(m); s._lin = {}; s._id = {}; s._facts = {}
    def idom(s, f):
        if f.name not in s._id: s._id[f.name] = idom(f)
        return s._id[f.name]
    def dominates(s, f, a, b):
        d = s.idom(f)
        if b not in d: return False
        while b != a:
            n = d[b]
            if n == b: return False
            b = n
        return True
    def lin(s, f, o, depth=0):
        k = (f.name, str(o))
        if k in s._lin: return s._lin[k]
        s._lin[k] = Lin({s.S.val(f, o): 1})
        r = s._lin0(f, o, depth)
        s._lin[k] = r
        return r
    def _lin0(s, f, o, depth):
        if o[0] == 'c': return Lin(c=o[1])
        if o[0] == 'n': return Lin()
        d = f.idef(o)
        if d is None or depth > 40: return Lin({s.S.val(f, o): 1})
        op = d[0]
        if op in ('sext', 'zext', 'trunc', 'freeze'): return s.lin(f, d[4], depth + 1)
        if op == 'add': return s.lin(f, d[4], depth + 1) + s.lin(f, d[5], depth + 1)
        if op == 'sub': return s.lin(f, d[4], depth + 1) - s.lin(f, d[5], depth + 1)
        if op == 'mul' and d[5][0] == 'c': return s.lin(f, d[4], depth + 1).scale(d[5][1])
        if op == 'shl' and d[5][0] == 'c' and d[5][1] < 31: return s.lin(f, d[4], depth + 1).scale(1 << d[5][1])
        if op == 'xor' and d[5][0] == 'c' and d[5][1] == -1: return Lin(c=-1) - s.lin(f, d[4], depth + 1)
        return Lin({s.S.val(f, o): 1})
    # ---- facts: {terms: const} meaning sum(terms) + const <= 0; ('ne', terms): const; ('grown', path): 1 --------------------
    def cond(s, f, o, truth, depth=0, seen=()):
        """facts implied by condition o having the given truth value"""
        out = {}
        d = f.idef(o)
        if d is None or depth > 30: return out
        op = d[0]
        if op == 'freeze': return s.cond(f, d[4], truth, depth + 1, seen)
        if op == 'xor' and d[5][0] == 'c' and d[5][1] in (1, -1): return s.cond(f, d[4], not truth, depth + 1, seen)
        if op in ('zext', 'trunc', 'sext'): return s.cond(f, d[4], truth, depth + 1, seen)
        if op == 'and' and truth or op == 'or' and not truth:
            return both(s.cond(f, d[4], truth, depth + 1, seen), s.cond(f, d[5], truth, depth + 1, seen))
        if op == 'and' or op == 'or':
            return meet(s.cond(f, d[4], truth, depth + 1, seen), s.cond(f, d[5], truth, depth + 1, seen))
        if op == 'select' and d[2] == 'i1':
            alts = []
            for v, c in ((d[5], True), (d[6], False)):
                if v[0] == 'c':
                    if (v[1] != 0) != truth: continue
                    alts.append(s.cond(f, d[4], c, depth + 1, seen))
                else: alts.append(both(s.cond(f, d[4], c, depth + 1, seen), s.cond(f, v, truth, depth + 1, seen)))
            return meetall(alts)
        if op == 'phi' and d[2] == 'i1' and d[1] not in seen:
            alts = []
            pb = f.defs()[d[1]][0]
            for v, p in d[4]:
                if v[0] == 'c' and (v[1] != 0) != truth: continue
                e = s.edge_facts(f, p, pb)
                if e is None: continue
                if v[0] != 'c': e = both(e, s.cond(f, v, truth, depth + 1, seen + (d[1],)))
                alts.append(e)
            return meetall(alts)
        if op == 'phi' and d[1] not in seen: return out
        if op != 'icmp': return out
        p = d[4]
        # comparison of a phi/select of constants with a constant
        if not truth: p = NEG.get(p)
        w = f.idef(d[5])
        if w is not None and w[0] == 'phi' and d[6][0] == 'c' and w[1] not in seen and p in CMP and all(v[0] == 'c' for v, _ in w[4]):
            pb = f.defs()[w[1]][0]
            alts = [s.edge_facts(f, q, pb) for v, q in w[4] if CMP[p](v[1], d[6][1])]
            return meetall([a for a in alts if a is not None])
        a, b = s.lin(f, d[5]), s.lin(f, d[6])
        def le(l): put(out, l)
        if p in ('slt', 'ult'): le(a - b + Lin(c=1))
        elif p in ('sle', 'ule'): le(a - b)
        elif p in ('sgt', 'ugt'): le(b - a + Lin(c=1))
        elif p in ('sge', 'uge'): le(b - a)
        elif p == 'eq': le(a - b); le(b - a)
        elif p == 'ne':
            l = a - b
            t, c = l.key(); out[('ne', t, c)] = 0
            t, c = l.scale(-1).key(); out[('ne', t, c)] = 0
        if p in ('ult', 'ule') and (not b.t and b.c >= 0 or b.t): le(a.scale(-1))
        if p in ('ugt', 'uge') and (not a.t and a.c >= 0 or a.t): le(b.scale(-1))
        return out
    def alts(s, f, o, facts, depth=0):
        """[(Lin, facts)]: the values operand o can have, choices (phi of forward edges, select) resolved"""
        d = f.idef(o)
        while d is not None and d[0] in ('sext', 'zext', 'trunc', 'freeze'): o = d[4]; d = f.idef(o)
        if d is not None and depth < 4:
            if d[0] == 'select':
                return s.alts(f, d[5], both(facts, s.cond(f, d[4], True)), depth + 1) + s.alts(f, d[6], both(facts, s.cond(f, d[4], False)), depth + 1)
            if d[0] == 'phi':
                pb = f.defs()[d[1]][0]
                num = {b: n for n, b in enumerate(f.rpo())}
                if all(num.get(p, 10**9) < num[pb] for _, p in d[4]):
                    out = []
                    for v, p in d[4]:
                        e = s.edge_facts(f, p, pb)
                        out += s.alts(f, v, both(facts, e or {}), depth + 1)
                    return out
        return [(s.lin(f, o), facts)]
    def branch(s, f, p, y):
        """facts of taking the edge p -> y"""
        t = f.term(p)
        if t[0] == 'br' and t[4] and len(t[5]) == 2 and t[5][0] != t[5][1]:
            return s.cond(f, t[4], t[5][0] == y)
        if t[0] == 'switch':
            v = s.lin(f, t[4])
            alts = []
            if y == t[5]: return {}
            for cv, z in t[6]:
                if z != y: continue
                cc = Lin(c=cv if isinstance(cv, int) else cv[1])
                o = {}
                put(o, v - cc); put(o, cc - v)
                alts.append(o)
            return meetall(alts)
        return {}
    def edge_facts(s, f, p, y):
        st = s._facts.get(f.name)
        if st is None or p not in st['out'] or st['out'][p] is None: return None
        k = (p, y)
        if k not in st['br']: st['br'][k] = s.branch(f, p, y)
        return both(st['out'][p], st['br'][k])
    def block_gen(s, f, b): return {}
    def analyse(s, f):
        if f.name in s._facts and s._facts[f.name].get('done'): return
        st = s._facts[f.name] = {'in': {}, 'out': {}, 'br': {}}
        order = f.rpo()
        for rnd in range(8):
            ch = False
            if rnd: st['br'] = {}
            for b in order:
                if b == order[0]: i = {}
                else:
                    alts = []
                    for p in f.pred()[b]:
                        e = s.edge_facts(f, p, b)
                        if e is not None: alts.append(e)
                    i = meetall(alts)
                if st['in'].get(b) != i or b not in st['out']:
                    st['in'][b] = i
                    g = s.block_gen(f, b)
                    st['out'][b] = both(i, g) if g else i
                    ch = True
            if not ch: break
        st['done'] = True
    def facts(s, f, b):
        s.analyse(f)
        return s._facts[f.name]['in'].get(b) or {}

import operator
CMP = {'eq': operator.eq, 'ne': operator.ne, 'slt': operator.lt, 'sle': operator.le, 'sgt': operator.gt, 'sge': operator.ge}
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
def put(out, l):
    t, c = l.key()
    if not t: return
    # greater constant = stronger
    if t not in out or out[t] < c: out[t] = c
def both(a, b):
    if not b: return a
    if not a: return b
    r = dict(a)
    for k, v in b.items():
        if k not in r or r[k] < v: r[k] = v
    return r
def meet(a, b):
    if a is b: return a
    if len(b) < len(a): a, b = b, a
    r = {k: min(v, b[k]) for k, v in a.items() if k in b}
    # a table enlarged for the subscript on one path, large enough on the other
    for x, y in ((a, b), (b, a)):
        gr = {k[1] for k in x if k and k[0] == 'grown'}
        if not gr: continue
        for k, v in y.items():
            if k and k[0] not in ('ne', 'grown') and k not in r and any(c < 0 and t in gr for t, c in k): r[k] = v
    return r
def meetall(alts):
    if not alts: return {}
    r = alts[0]
    for x in alts[1:]: r = meet(r, x)
    return r
def show(fs):
    o = []
    for k, v in fs.items():
        if k and k[0] == 'ne': o.append('%r != 0' % Lin(dict(k[1]), k[2]))
        elif k and k[0] == 'grown': o.append('grown ' + k[1])
        else: o.append('%r <= 0' % Lin(dict(k), v))
    return o
