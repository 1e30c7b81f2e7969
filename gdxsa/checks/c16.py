"""C16: invalid names, labels and texts never enter a table."""
import tp
from tp import TOP, isconst, mentions
from checks.c15 import wh
RULE = ('Every string an operation puts into the symbol, element or domain table was accepted, on that path and unchanged since, by the validation its table calls for (names: not found among symbols or acronyms and a legal '
        'identifier; labels: trailing blanks removed, shorter than 64 and quotable; new spellings of a label also not in use; relaxed domains: legal identifier), and texts of the caller pass the cleaning routine before they are '
        'kept. The validations accept only strings of the documented form: the scanning loops, seen as automata over the 256 characters, accept no string with a control character, with both kinds of quotes, with a '
        'character foreign to identifiers or of 64 characters, and the cleaning routine leaves no control character and one kind of quote.')
EXPLANATION = 'path conditions at every insertion into a table, over every public operation with helpers inlined; product of the validating loops with the specification automaton, over all characters and loop states'
TECHNIQUE = 'static analysis: path-condition (trace-partitioned) abstract interpretation and product-automaton analysis of scanning loops on the compiler IR'
ASSUMPTIONS = ['strings are terminated', 'strings read from a file are not validated again (C24)']
T = ('arg', 0)
LIMIT = 64

# ---------------------------------------------------------------- the scanning loops
class Auto(tp.TP):
    """explores (block, loop variables, character at hand, specification state); the characters of the string argument are enumerated, positions after the first are symbolic"""
    def __init__(s, m, f, arg, step, start):
        tp.TP.__init__(s, m, f, budget=10**9)
        s.arg, s.step, s.start = arg, step, start
        s.maxdepth = 40
        s.final = True
        s.cur = None
    def pos(s, p):
        """position in the string, or None"""
        if p[0] == 'p' and p[1] == ('arg', s.arg): return ('c', p[2])
        if p[0] == 'px':
            b, off, sc, x = p[1:]
            q = s.pos(b)
            if q is None: return None
            if sc == 0: return q if off == 0 else ('x', ('add', q, ('c', off)))
            if q == ('c', 0) and off == 0 and sc == 1: return x
            return ('x', ('at', q, off, sc, x))
        return None
    def length(s, v):
        v = strip(v)
        if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'sub' and v[1][2] == ('p', ('arg', s.arg), 0) and s.pos(v[1][1]) is not None: return strip(s.pos(v[1][1]))
        return v
    def commit(s, spec, chars, gone):
        for p, c in sorted(chars, key=str):
            if gone(p): spec = s.step(spec, 'first' if p == ('c', 0) else 'later', c)
        return spec, frozenset((p, c) for p, c in chars if not gone(p))
    def explore(s, on_ret):
        f = s.f
        heads = f.loops()
        back = {(p, h) for h, body in heads.items() for p in body}
        seen = set()
        work = [(0, None, tp.St(), s.start, frozenset())]
        n = 0
        while work:
            b, pb, st, spec, chars = work.pop()
            st = st.copy()
            vals = {}
            for i in f.blocks[b]:
                if i[0] != 'phi': break
                for o, p in i[4]:
                    if p == pb: vals[i[1]] = (s.val(st, o), i[2])
            if (pb, b) in back:
                grown, moved = [], {}
                for x, (v, ty) in list(vals.items()):
                    if not (isconst(v) and ty in ('i1', 'i8')):
                        was = v
                        if ty not in ('ptr', 'i1', 'i8'): grown += s.grows(st, x, was)
                        nv = s.fresh(st, x)
                        at = s.pos(was) if ty == 'ptr' else was
                        if at is not None and at != TOP: moved[at] = nv
                        if ty == 'ptr' and s.pos(was) is not None: nv = ('px', ('p', ('arg', s.arg), 0), 0, 1, nv)
                        vals[x] = (nv, ty)
                # a character already read for the next round is known under its new place
                nxt = frozenset((moved[p], c) for p, c in chars if p in moved)
                spec, _ = s.commit(spec, frozenset((p, c) for p, c in chars if p not in moved), lambda p: True)
                chars = nxt
                keep = {x: v for x, (v, ty) in vals.items()}
                st.env = {k: v for k, v in st.env.items() if k in s.outer(b, heads)}
                st.facts = frozenset(grown)
                st.env.update(keep)
            else:
                for x, (v, ty) in vals.items():
                    if v == TOP: st.env.pop(x, None)
                    else: st.env[x] = v
            key = (b, tuple(sorted((k, v) for k, v in st.env.items())), st.facts, spec, chars)
            if key in seen: continue
            seen.add(key)
            n += 1
            if n > 500000: return False
            s.go(f.blocks[b], 0, b, st, spec, chars, work, on_ret)
        s.n = n
        return True
    def grows(s, st, x, was):
        """what is known of a counter after a step: at least 1 if it starts at 0 or more and is only increased; below the limit if it was below the limit less one"""
        me = ('x', ('def', x))
        d = next(i for blk in s.f.blocks for i in blk if i[1] == x)
        out = []
        def up(o):
            if o[0] == 'c': return o[1] >= 0
            j = s.f.idef(o)
            return j is not None and j[0] == 'add' and j[4] == ['v', x] and j[5][0] == 'c' and j[5][1] == 1
        if not all(up(o) for o, p in d[4]): return out
        out += [(('slt', ('c', 0), me), True), (('slt', me, ('c', 1)), False), (('sle', me, ('c', 0)), False), (('sle', ('c', 1), me), True), (('eq', me, ('c', 0)), False), (('eq', ('c', 0), me), False)]
        old = s.val(st, ['v', x])
        if isconst(old) and old[1] < LIMIT - 1 or any((lambda k: k and k[0] == old and k[1] <= LIMIT - 1)(below(e, b)) for e, b in st.facts): out.append((('slt', me, ('c', LIMIT)), True))
        return out
    def outer(s, h, heads):
        r = s.memo if hasattr(s, 'memo') else None
        if r is None: r = s.memo = {}
        if h not in r:
            ids = set()
            for b2, blk in enumerate(s.f.blocks):
                if b2 in heads[h]: continue
                ids |= {i[1] for i in blk}
            # used at or after the head
            todo, on = [h], {h}
            while todo:
                j = s.f.blocks[todo.pop()][-1]
                for y in (j[5] if j[0] == 'br' else [j[5]] + [y for _, y in j[6]] if j[0] == 'switch' else j[6] if j[0] == 'invoke' else []):
                    if y not in on: on.add(y); todo.append(y)
            used = set()
            def walk(o):
                if isinstance(o, (list, tuple)):
                    if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int): used.add(o[1])
                    else:
                        for x in o: walk(x)
            for b2 in on:
                for i in s.f.blocks[b2]: walk(i[4:])
            r[h] = ids & used
        return r[h]
    def go(s, blk, k, b, st, spec, chars, work, on_ret):
        while k < len(blk):
            i = blk[k]; k += 1
            if i[0] == 'phi': continue
            if i[0] == 'load' and i[5] == 1:
                p = s.pos(s.val(st, i[4]))
                if p is not None:
                    d = dict(chars)
                    if p in d:
                        st.env[i[1]] = ('c', tp.wrap(d[p], 8)); continue
                    for c in range(256):
                        t = st.copy(); t.env[i[1]] = ('c', tp.wrap(c, 8))
                        s.go(blk, k, b, t, spec, chars | {(p, c)}, work, on_ret)
                    return
            if i[0] == 'store' and i[6] == 1:
                p = s.pos(s.val(st, i[5]))
                if p is not None:
                    v = s.val(st, i[4])
                    d = dict(chars)
                    d[p] = v[1] & 255 if isconst(v) and isinstance(v[1], int) else -1
                    chars = frozenset(d.items())
                    continue
            if i[0] == 'ret':
                sp, _ = s.commit(spec, chars, lambda p: True)
                on_ret(st, s.val(st, i[4]) if len(i) > 4 and i[4] else None, sp, dict(chars), i)
                return
            nx = s.exec(st, i, b)
            if nx is None: continue
            for y, add in nx:
                t = st
                if add:
                    if s.contradict(st.facts, add): continue
                    t = st.copy(); t.facts = st.facts | frozenset(add)
                work.append((y, b, t, spec, chars))
            return

def below(e, b):
    """(value, limit): the fact says value < limit"""
    if not isinstance(e, tuple) or len(e) != 3: return None
    op, x, y = e
    if op in ('slt', 'ult', 'sle', 'ule'):
        le = op.endswith('le')
        if b and isconst(y) and isinstance(y[1], int): return x, y[1] + (1 if le else 0)
        if not b and isconst(x) and isinstance(x[1], int): return y, x[1] + (0 if le else 1)
    return None
def strip(v):
    while v[0] == 'x' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('trunc', 'cast'): v = v[1][-1]
    return v

LETTER = set(range(65, 91)) | set(range(97, 123))
IDENT = LETTER | set(range(48, 58)) | {95}
def ident_step(spec, at, c):
    if c == 0: return spec | {'end'}
    if c == -1: return spec | {'unknown'}
    if at == 'first': spec = spec | {'first'}
    return spec if c in (LETTER if at == 'first' else IDENT) else spec | {'bad'}
def quote_step(spec, at, c):
    if c == -1: return spec | {'unknown'}
    if c == 39: return spec | {'single'}
    if c == 34: return spec | {'double'}
    return spec | {'control'} if c < 32 else spec
def text_step(spec, at, c):
    return spec if c == 0 else quote_step(spec, at, c)

def quoted(cx, m, f):
    a = Auto(m, f, 0, quote_step, frozenset())
    def ret(st, v, spec, chars, i):
        cx.count('outcomes of validations')
        if v == ('c', 0): return
        if 'control' in spec: cx.violation('control|%s' % f.sname, wh(f, i), f.short, 'a label with a control character is accepted', '')
        if {'single', 'double'} <= spec: cx.violation('quotes|%s' % f.sname, wh(f, i), f.short, 'a label with both kinds of quotes is accepted', '')
        # everything up to the length was looked at
    if not a.explore(ret): cx.count('validations not understood')
    cx.count('validations')
def whole(cx, m, f):
    """every position below the length is visited: one loop from 0 by 1"""
    for h, body in f.loops().items():
        for i in f.blocks[h]:
            if i[0] != 'phi' or i[2] in ('i1', 'i8'): continue
            ini = [o for o, p in i[4] if p not in body]
            stp = [f.idef(o) for o, p in i[4] if p in body]
            if i[2] != 'ptr' and len(ini) == 1 and ini[0][0] == 'c' and stp and all(x is not None and x[0] == 'add' and x[5][0] == 'c' for x in stp):
                if any(x[5][1] != 1 for x in stp) or ini[0][1] not in (0, 1): cx.violation('visit|%s' % f.sname, f.where, f.short, 'not every character of the string is looked at', '')

def ident(cx, m, f):
    a = Auto(m, f, 0, ident_step, frozenset())
    def ret(st, v, spec, chars, i):
        cx.count('outcomes of validations')
        if v == ('c', 0): return
        if 'bad' in spec or 'first' not in spec: cx.violation('chars|%s' % f.sname, wh(f, i), f.short, 'a name that is no identifier is accepted', '')
        end = [p for p, c in chars.items() if c == 0]
        if 'end' not in spec: cx.violation('end|%s' % f.sname, wh(f, i), f.short, 'a name is accepted before its end was reached', '')
        elif not any(isconst(p) and p[1] < LIMIT for p in end):
            fs = list(st.facts)
            if v is not None and v[0] == 'x': fs += a.assume(v, True)
            if not any((lambda k: k and k[1] <= LIMIT and a.length(k[0]) in [strip(p) for p in end])(below(e, b)) for e, b in fs):
                cx.violation('length|%s' % f.sname, wh(f, i), f.short, 'a name of 64 or more characters is accepted', '%s' % (v,))
    if not a.explore(ret): cx.count('validations not understood')
    cx.count('validations')

def cleaning(cx, m, f):
    a = Auto(m, f, 0, text_step, frozenset())
    def ret(st, v, spec, chars, i):
        cx.count('outcomes of validations')
        if 'control' in spec: cx.violation('control|%s' % f.sname, wh(f, i), f.short, 'a control character is left in a text', '')
        if {'single', 'double'} <= spec: cx.violation('quotes|%s' % f.sname, wh(f, i), f.short, 'both kinds of quotes are left in a text', '')
        if 'unknown' in spec: cx.violation('unknown|%s' % f.sname, wh(f, i), f.short, 'a text is changed to unknown characters', '')
        if st is not None and chars and not any(c == 0 for c in chars.values()): cx.violation('end|%s' % f.sname, wh(f, i), f.short, 'the cleaning of a text stops before its end', '')
    if not a.explore(ret): cx.count('validations not understood')
    cx.count('validations')

def trimming(cx, m, f):
    """the length kept is the place after the last character that is no blank"""
    from checks.c17 import One
    got = {}
    for h, body in f.loops().items():
        idx = {i[1] for i in f.blocks[h] if i[0] == 'phi'}
        for c in range(1, 256):
            o = One(m, f, {0: c})
            rec = set()
            o.store = lambda st, p, v, size: rec.add((p, v))
            if o.outcomes(h, body) is None: return
            r = [v for p, v in rec if p == ('p', ('arg', 2), 0)]
            got[c] = None if not r else 'here' if all(v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'def' and v[1][1] in idx for v in r) else 'elsewhere'
        break
    if not any(got.values()):
        cx.count('validations not understood')
        return
    cx.count('validations')
    for c, g in got.items():
        cx.count('characters trimmed')
        if g == 'elsewhere' or (g == 'here') != (c > 32):
            cx.violation('trim|%s' % f.sname, f.where, f.short, 'the removal of trailing blanks takes the character %d for %s' % (c, 'a blank' if c > 32 else 'part of the label'), '')
            return

def acronym_texts(cx, m):
    off = {n: o for n, o, z, t in m.fields('gdx::TAcronym')}
    for f in m.fns.values():
        if f.decl or not f.scope.endswith('::TAcronym'): continue
        succ, clean, rets, src = {}, set(), set(), set()
        for b, blk in enumerate(f.blocks):
            j = blk[-1]
            succ[b] = j[5] if j[0] == 'br' else [j[5]] + [y for _, y in j[6]] if j[0] == 'switch' else j[6][:1] if j[0] == 'invoke' else []
            if j[0] == 'ret': rets.add(b)
            for i in blk:
                if i[0] not in ('call', 'invoke'): continue
                cn = m.callee_name(i)
                g = m.fns.get(cn)
                if g is not None and g.sname == 'MakeGoodExplText': clean.add(b)
                a = i[5]
                if len(a) >= 2 and a[0][0] == 'v' and a[1][0] == 'v' and 0 < a[1][1] < len(f.args) and f.args[a[1][1]][1] == 'ptr':
                    d = f.idef(a[0])
                    if d is not None and d[0] == 'getelementptr' and d[4] == ['v', 0] and d[5][1] == off['AcrText'] and not d[5][2] and f.args[a[1][1]][0] not in ('S',): src.add(b)
        for b in src:
            cx.count('texts of acronyms')
            todo, seen, bad = [b], {b}, False
            while todo:
                x = todo.pop()
                if x in clean: continue
                if x in rets: bad = True
                for y in succ[x]:
                    if y not in seen: seen.add(y); todo.append(y)
            if bad: cx.violation('text|AcronymList|%s' % f.sname, f.where, f.short, 'the text of an acronym is kept without having been cleaned', '')

# ---------------------------------------------------------------- the gates
INSERT = ('AddObject', 'StoreObject', 'Add', 'RenameEntry')
class G(tp.TP):
    def __init__(s, m, f, cx, tabs, sexpl):
        tp.TP.__init__(s, m, f, budget=60000, maxpart=200)
        s.cx, s.tabs, s.sexpl = cx, tabs, sexpl
        s.maxdepth, s.prepart = 30, 40
        s.keyfacts = True
        s.on_call = s.calls
        s.admit = s.relevant
        s.hits = 0
        s.namephi = True
        s.opaque = {i[1] for h in f.loops() for i in f.blocks[h] if i[0] == 'phi'}
        # only what can still reach an insertion matters
        goal = {b for b, i in f.instrs() if i[0] in ('call', 'invoke') and m.callee_name(i) in m.fns and m.fns[m.callee_name(i)].sname in INSERT}
        pred = {}
        for b, blk in enumerate(f.blocks):
            j = blk[-1]
            for y in (j[5] if j[0] == 'br' else [j[5]] + [y for _, y in j[6]] if j[0] == 'switch' else j[6] if j[0] == 'invoke' else []): pred.setdefault(y, set()).add(b)
        s.reach, todo = set(goal), list(goal)
        while todo:
            for b in pred.get(todo.pop(), ()):
                if b not in s.reach: s.reach.add(b); todo.append(b)
    def block(s, k, push):
        if k[0] in s.reach: tp.TP.block(s, k, push)
    def relevant(s, e):
        if not isinstance(e, tuple): return False
        if e and e[0] in ('V', 'tlen', 'strlen'): return True
        return any(s.relevant(x) for x in e if isinstance(x, tuple))
    def load(s, st, p, size):
        if p[0] == 'p' and p[1] == T and p[2] in s.tabs and size == 8: return ('x', ('tab', s.tabs[p[2]]))
        return tp.TP.load(s, st, p, size)
    def tab(s, v):
        if v[0] == 'p' and v[1][0] == 'obj' and v[2] == 0: v = v[1][1]
        if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'tab': return v[1][1]
        if v[0] == 'p' and v[1] == T and v[2] in s.tabs: return s.tabs[v[2]]
        return None
    def holds(s, st, *pat):
        return any(b and e == ('V',) + pat or (isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and not b and ('c', 0) in e[1:] and ('x', ('V',) + pat) in e[1:]) for e, b in st.facts)
    def notfound(s, st, tab, x):
        for e, b in st.facts:
            k = below(e, b)
            if k and k[1] <= (0 if tab == 'AcronymList' else 1) and k[0] == ('x', ('V', 'index', tab, x)): return True
            if b and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and ('c', -1) in e[1:] and ('x', ('V', 'index', tab, x)) in e[1:]: return True
        return False
    def calls(s, st, cn, args, i):
        g = s.m.fns.get(cn)
        n = g.sname if g else cn
        if n == 'strlen': return ('x', ('strlen', args[0]))
        if n == 'trimRight' and len(args) == 3:
            tp.TP.store(s, st, args[2], ('x', ('tlen', args[0])), 4)
            return ('x', ('trim', args[0]))
        if n == 'CanBeQuoted': return ('x', ('V', 'quoted', args[0], strip(args[1])))
        if n == 'IsGoodIdent': return ('x', ('V', 'ident', args[0]))
        if n in ('IndexOf', 'FindName') and g: return ('x', ('V', 'index', s.tab(args[0]), args[1]))
        if n == 'MakeGoodExplText':
            st.tag = tuple(sorted(set(st.tag or ()) | {('clean', args[0])}, key=str))
            return ('x', ('cleanlen', args[0]))
        if g and n in ('AddObject', 'StoreObject', 'Add', 'AddEntry', 'RenameEntry') and args:
            t = s.tab(args[0])
            if t and s.final:
                s.hits += 1
                s.insert(st, t, n, args, i)
            if n == 'RenameEntry': return None
            return ('x', ('V', 'added', t, args[1]))
        return None
    def insert(s, st, t, n, args, i):
        cx, f = s.cx, s.f
        x = args[2] if n == 'RenameEntry' else args[1]
        where = wh(f, i)
        cx.count('insertions judged')
        def bad(k, msg): cx.violation('%s|%s|%s' % (k, t, f.sname), where, f.short, msg, '%s' % (x,))
        if t == 'UELTable':
            if not (x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'trim'): bad('trim', 'a label enters the element table with its trailing blanks')
            ok = False
            for e, b in st.facts:
                for q in (y for y in ([e] if isinstance(e, tuple) and e[0] == 'V' else [z[1] for z in e[1:] if isinstance(z, tuple) and z[0] == 'x'] if isinstance(e, tuple) else []) if isinstance(y, tuple) and y[:2] == ('V', 'quoted')):
                    if q[2] != x or not s.holds(st, *q[1:]): continue
                    ln = q[3]
                    if not (ln == ('x', ('strlen', x)) or x[0] == 'x' and x[1][0] == 'trim' and ln == ('x', ('tlen', x[1][1]))): continue
                    if any((lambda k: k and k[1] <= LIMIT and strip(k[0]) == ln)(below(e2, b2)) for e2, b2 in st.facts): ok = True
            if not ok: bad('label', 'a label enters the element table without having been accepted as quotable and shorter than 64 characters')
            if n == 'RenameEntry' and not s.notfound(st, 'UELTable', x): bad('used', 'a label is given a spelling that may be in use')
        elif t == 'NameList':
            if not s.holds(st, 'ident', x): bad('ident', 'a name enters the symbol table without having been accepted as identifier')
            if not s.notfound(st, 'NameList', x): bad('dup', 'a name enters the symbol table although a symbol may have it')
            if not s.notfound(st, 'AcronymList', x): bad('acr', 'a name enters the symbol table although an acronym may have it')
            # the explanatory text of the record
            if len(args) > 3 and s.sexpl is not None: s.text(st, args[3], bad)
        elif t == 'DomainStrList':
            if not s.holds(st, 'ident', x): bad('ident', 'a relaxed domain is kept without having been accepted as identifier')
        elif t == 'SetTextList':
            if x[0] == 'p' and x[1][0] == 'g': return
            if ('clean', x) not in (st.tag or ()): bad('text', 'a set text is kept without having been cleaned')
    def text(s, st, rec, bad):
        if s.dirty and ('clean', s.at(rec)) not in (st.tag or ()): bad('text', 'an explanatory text of the caller is kept without having been cleaned')
    def at(s, rec):
        return s.gep(None, rec, [None, s.sexpl, []])

def users(m, f):
    """does the operation copy text of the caller into symbol records?"""
    return any(a[0] in ('AText', 'ExplTxt') for a in f.args)

def run(cx):
    m = cx.variant('gates')
    fs = {n: next((f for f in m.fns.values() if not f.decl and f.sname == n), None) for n in ('CanBeQuoted', 'IsGoodIdent', 'MakeGoodExplText')}
    for n, g in (('CanBeQuoted', quoted), ('IsGoodIdent', ident), ('MakeGoodExplText', cleaning)):
        if fs[n]:
            g(cx, m, fs[n]); whole(cx, m, fs[n])
    for f in m.fns.values():
        if not f.decl and f.sname == 'trimRight' and len(f.args) == 3 and f.args[2][1] == 'ptr': trimming(cx, m, f)
    acronym_texts(cx, cx.module())
    off = {n: o for n, o, z, t in m.fields('gdx::TGXFileObj')}
    tabs = {off[n]: n for n in ('UELTable', 'NameList', 'DomainStrList', 'AcronymList', 'SetTextList')}
    sexpl = next((o for n, o, z, t in m.fields('gdx::TgdxSymbRecord') if n == 'SExplTxt'), None)
    hits = 0
    for f in m.fns.values():
        if f.decl or f.scope != 'gdx::TGXFileObj' or not f.sname.startswith('gdx') or f.sname in ('gdxOpenReadXX',): continue
        names = {m.fns[c].sname for b, i in f.instrs() if i[0] in ('call', 'invoke') for c in [m.callee_name(i)] if c in m.fns}
        if not names & set(INSERT): continue
        cx.count('operations with insertions')
        t = G(m, f, cx, tabs, sexpl)
        t.dirty = users(m, f)
        t.run()
        hits += t.hits
        if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the operation could not be enumerated', '')
    cx.need(hits >= 8, 'too few insertions found')
