"""C20: user numbers and element numbers stay inverse to each other."""
import tp
from tp import TOP, isconst
from checks.c26 import form
from checks.c15 import wh
RULE = ('On every path of every operation: a user number is stored with an element if and only if the same element is stored with that number, unless the second was read from the first; it is stored only where '
        'the element was found without a number; the number is one above the highest in use, or was found unused, or found to belong to the same label. Registering a label under a given number succeeds only if the element ends with that '
        'number, and changes nothing otherwise. Elements enter the table without a number. The number table returns what was stored, "none" elsewhere, and knows the highest number stored.')
EXPLANATION = 'trace-partitioned propagation with path conditions on element slots, number table entries and label look-ups, over every operation and table method that stores a user number'
TECHNIQUE = 'static analysis: path-condition (trace-partitioned) abstract interpretation of the compiler IR; paired-update rule'
ASSUMPTIONS = ['a label look-up and the adding of the same label yield the same element (C17)', 'element numbers are at least 1', 'allocation does not fail']
T = ('arg', 0)

def neg(e, b):
    """the sign a comparison states: (value, True: negative / False: not negative)"""
    if isinstance(e, tuple) and len(e) == 3:
        op, x, y = e
        if op == 'slt' and y == ('c', 0) or op == 'sle' and y == ('c', -1): return x, b
        if op == 'sle' and x == ('c', 0) or op == 'slt' and x == ('c', -1): return y, not b
        if op == 'eq' and b and ('c', -1) in (x, y): return (y if x == ('c', -1) else x), True
    return None

def choice(e, b):
    """a fact, and what it says about a choice with a negative alternative"""
    out = [(e, b)]
    k = neg(e, b)
    if k and k[0][0] == 'x' and isinstance(k[0][1], tuple) and k[0][1][0] == 'sel':
        _, c, x, y = k[0][1]
        if isconst(x) and isinstance(x[1], int) and (x[1] < 0) != k[1]: arm, truth = y, False
        elif isconst(y) and isinstance(y[1], int) and (y[1] < 0) != k[1]: arm, truth = x, True
        else: return out
        if c[0] == 'x': 
            c = c[1]
            while isinstance(c, tuple) and c[0] == 'not' and c[1][0] == 'x': c, truth = c[1][1], not truth
            out.append((c, truth))
        out += choice(('slt', arm, ('c', 0)), k[1])
    return out

class U(tp.TP):
    """st.tag: tuple of events ('el', element, number) and ('nr', number, element)"""
    def __init__(s, m, f, cx, ueltab, usr):
        tp.TP.__init__(s, m, f, budget=30000, maxpart=400)
        s.cx, s.ueltab, s.usr = cx, ueltab, usr
        s.maxdepth, s.prepart = 30, 40
        s.keyfacts = True
        s.on_call = s.calls
        s.admit = s.relevant
    def table(s, v):
        if s.f.scope.endswith('TUELTable'): return v == ('p', T, 0)
        return v == ('x', ('m', T, s.ueltab, 8)) or v == ('p', ('obj', ('x', ('m', T, s.ueltab, 8))), 0)
    def numbers(s, v):
        b = T if s.f.scope.endswith('TUELTable') else ('obj', ('x', ('m', T, s.ueltab, 8)))
        return v == ('x', ('m', b, s.usr, 8)) or v == ('p', ('obj', ('x', ('m', b, s.usr, 8))), 0)
    def canon(s, v):
        f = form(v)
        return next(iter(f)) if f and len(f) == 1 and next(iter(f.values())) == 1 and next(iter(f)) != 1 else v
    def relevant(s, e):
        if not isinstance(e, tuple): return False
        if e and e[0] in ('slot', 'map', 'added', 'idx', 'hi'): return True
        return any(s.relevant(x) for x in e if isinstance(x, tuple))
    def assume(s, c, truth): return [y for x in tp.TP.assume(s, c, truth) if s.relevant(x[0]) for y in choice(*x)]
    def value(s, st, i):
        if i[0] == 'select':
            c, truth = s.val(st, i[4]), True
            if c[0] == 'x':
                c = c[1]
                while isinstance(c, tuple) and c[0] in ('not', 'xor') and c[-1][0] == 'x' and (c[0] == 'not' or c[1] in (('c', -1), ('c', 1))): c, truth = c[-1][1], not truth
                if (c, truth) in st.facts: return s.val(st, i[5])
                if (c, not truth) in st.facts: return s.val(st, i[6])
        return tp.TP.value(s, st, i)
    def known(s, st, v):
        c, truth = v, True
        if c is None or c[0] != 'x': return v
        c = c[1]
        while isinstance(c, tuple) and c[0] in ('not', 'xor', 'zext') and c[-1][0] == 'x' and (c[0] != 'xor' or c[1] in (('c', -1), ('c', 1))): c, truth = c[-1][1], truth == (c[0] == 'zext')
        for b in (True, False):
            if (c, b) in st.facts: return ('c', int(b == truth))
        return v
    def event(s, st, *e): st.tag = ((st.tag or ()) + (e,))[:6]
    def calls(s, st, cn, args, i):
        g = s.m.fns.get(cn)
        nm = g.mname if g else ''
        if nm == 'GetObject' and s.table(args[0]): return ('p', ('slot', s.canon(args[1])), 0)
        if nm == 'GetUserMap' and s.table(args[0]): return s.load(st, ('p', ('slot', s.canon(args[1])), 0), 4)
        if nm == 'SetUserMap' and s.table(args[0]):
            s.store(st, ('p', ('slot', s.canon(args[1])), 0), args[2], 4)
            return TOP
        if nm == 'GetMapping' and s.numbers(args[0]): return ('x', ('map', s.canon(args[1])))
        if nm == 'SetMapping' and s.numbers(args[0]):
            n, el = s.canon(args[1]), s.canon(args[2])
            s.event(st, 'nr', n, el)
            if s.final: s.free(st, n, el, i)
            return TOP
        if nm == 'GetHighestIndex' and s.numbers(args[0]): return ('x', ('hi',))
        if nm == 'IndexOf' and s.table(args[0]): return ('x', ('idx', args[1]))
        if nm == 'AddObject' and s.table(args[0]): return ('x', ('added', args[1]))
        if nm == 'ResetMapToUserStatus': return TOP
        return None
    def store(s, st, p, v, size):
        if p[0] == 'p' and p[1][0] == 'slot':
            v = s.canon(v)
            if not (isconst(v) and v[1] == -1):
                s.event(st, 'el', p[1][1], v)
                if s.final: s.unset(st, p[1][1], v)
        tp.TP.store(s, st, p, v, size)
    def sign(s, st, v):
        """-1: known negative, 1: known not negative"""
        for e, b in st.facts:
            k = neg(e, b)
            if k and k[0] == v: return -1 if k[1] else 1
        return 0
    def same(s, st, a, b):
        if a == b: return True
        return any(t and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and (e[1:] == (a, b) or e[1:] == (b, a)) for e, t in st.facts)
    def unset(s, st, el, n):
        s.cx.count('user numbers stored with an element')
        if el == ('x', ('map', n)): return                      # read from the other direction
        old = ('x', ('m', ('slot', el), 0, 4))
        if s.sign(st, old) != -1: s.cx.violation('second|%s' % s.f.sname, s.f.where, s.f.short, 'an element can be given a second user number', 'element %s, number %s' % (el, n))
    def free(s, st, n, el, i):
        s.cx.count('elements stored with a user number')
        if form(n) == {('x', ('hi',)): 1, 1: 1}: return
        mp = ('x', ('map', n))
        if s.sign(st, mp) == -1: return
        if el[0] == 'x' and el[1][0] == 'added' and s.same(st, mp, ('x', ('idx', el[1][1]))): return
        if s.same(st, mp, el): return
        s.cx.violation('taken|%s' % s.f.sname, wh(s.f, i), s.f.short, 'a user number can be given to a label although another one has it', 'number %s, element %s' % (n, el))
    def pairs(s, st, j):
        E = {(e[1], e[2]) for e in st.tag or () if e[0] == 'el' and e[1] != ('x', ('map', e[2]))}
        N = {(e[2], e[1]) for e in st.tag or () if e[0] == 'nr'}
        if E or N: s.cx.count('paths that record a user number')
        for a in E - N: s.cx.violation('oneway|el|%s' % s.f.sname, wh(s.f, j), s.f.short, 'a user number is stored with an element but not the element with the number', '%s' % (a,))
        for a in N - E: s.cx.violation('oneway|nr|%s' % s.f.sname, wh(s.f, j), s.f.short, 'an element is stored with a user number but not the number with the element', '%s' % (a,))

def run(cx):
    m = cx.variant('maps')
    off = {n: o for n, o, z, t in m.fields('gdx::TGXFileObj')}
    uo = {n: o for n, o, z, t in m.fields('gdx::TUELTable')}
    cx.need('UELTable' in off and 'UsrUel2Ent' in uo, 'tables not found')
    fs = [f for f in m.fns.values() if not f.decl and (f.scope.endswith('TGXFileObj') or f.scope.endswith('TUELTable'))]
    helpers = ('GetUserMap', 'SetUserMap', 'IndexOf', 'AddObject', 'StoreObject')
    done = 0
    for f in fs:
        if f.scope.endswith('TUELTable') and f.sname in helpers: continue
        hit = False
        for b, i in f.instrs():
            if i[0] not in ('call', 'invoke'): continue
            g = m.fns.get(m.callee_name(i) or '')
            if not g: continue
            if g.mname in ('AddObject', 'StoreObject') and g.scope.endswith('TUELTable'):
                cx.count('elements entering the table')
                v = i[5][-1]
                if not (v[0] == 'c' and v[1] == -1): cx.violation('enter|%s' % f.sname, str(i[3]), f.short, 'an element enters the table with a user number that is not recorded in the other direction', '')
            if g.mname == 'SetUserMap': hit = True
            if g.mname == 'GetObject' and g.scope.endswith('TXStrHashList<int>'): hit = True
            if g.mname == 'SetMapping' and held(f, i[5][0]): hit = True
        if hit:
            done += 1
            operation(cx, m, f, off['UELTable'], uo['UsrUel2Ent'])
    cx.need(done >= 3, 'too few operations that give user numbers were found')
    cx.counts['operations that touch user numbers'] = done
    numbers(cx, m)

def operations(m):
    out = []
    for f in m.fns.values():
        if f.decl or not (f.scope.endswith('TGXFileObj') or f.scope.endswith('TUELTable')): continue
        if f.scope.endswith('TUELTable') and f.sname in ('GetUserMap', 'SetUserMap', 'IndexOf', 'AddObject', 'StoreObject'): continue
        for b, i in f.instrs():
            g = m.fns.get(m.callee_name(i) or '') if i[0] in ('call', 'invoke') else None
            if g and (g.mname == 'SetUserMap' or g.mname == 'GetObject' and g.scope.endswith('TXStrHashList<int>') or g.mname == 'SetMapping' and held(f, i[5][0])):
                out.append(f)
                break
    return out

def held(f, o):
    """the table is reached through a pointer, not a member or local object"""
    for _ in range(8):
        d = f.idef(o) if o[0] == 'v' else None
        if d is None: return False
        if d[0] in ('gep', 'getelementptr', 'bitcast'): o = d[4]
        else: return d[0] != 'alloca'
    return True

def operation(cx, m, f, ueltab, usr):
    t = U(m, f, cx, ueltab, usr)
    reg = f.sname == 'gdxUELRegisterMap'
    def ret(st, v, j):
        t.pairs(st, j)
        if not reg: return
        ev = [e for e in st.tag or () if e[0] == 'el']
        v = t.known(st, v)
        if isconst(v) and v[1] == 0:
            cx.count('registrations refused')
            if ev: cx.violation('refused', wh(f, j), f.short, 'a refused registration changes the user number of an element', '')
        else:
            cx.count('registrations accepted')
            n = ('x', '$1')
            if any(s2 == n for _, _, s2 in ev): return
            # the label had the number before
            for e, b in st.facts:
                if b and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and n in e[1:]:
                    o = e[2] if e[1] == n else e[1]
                    if o[0] == 'x' and isinstance(o[1], tuple) and o[1][0] == 'm' and o[1][1][0] == 'slot': return
            cx.violation('accepted', wh(f, j), f.short, 'a registration is accepted although the label does not end with the user number given', 'returns %s, known: %s' % (v, sorted(map(str, st.facts))))
    t.on_ret = ret
    t.run()
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the operation could not be enumerated', '')

def numbers(cx, m):
    """the table of numbers"""
    off = {n: (o, z) for n, o, z, t in m.fields('gdx::TIntegerMapping')}
    for k in ('FCapacity', 'FHighestIndex', 'PMap'): cx.need(k in off, 'member %s not found' % k)
    fs = {f.sname: f for f in m.fns.values() if not f.decl and f.scope.endswith('TIntegerMapping')}
    mem = lambda n: ('x', ('m', T, off[n][0], off[n][1]))
    F, V = ('x', '$1'), ('x', '$2')
    def le(st, a, b, strict):
        """a < b or a <= b"""
        for e, t in st.facts:
            if not isinstance(e, tuple) or len(e) != 3 or e[0] not in ('slt', 'sle', 'ult', 'ule'): continue
            st_ = e[0][1:] == 'lt'
            x, y = e[1], e[2]
            if not t: x, y, st_ = y, x, not st_
            if (x, y) == (a, b) and (st_ or not strict): return True
        return False
    f = fs.get('SetMapping')
    if f:
        t = tp.TP(m, f, budget=4000)
        t.keyfacts = True
        def st_(st, p, v, i): pass
        orig = t.store
        def store(st, p, v, size):
            if p[0] == 'px' and v == V and p[-1] == F and p[-2] == 4: st.tag = 'kept'
            orig(st, p, v, size)
        t.store = store
        def ret(st, v, j):
            cx.count('paths of the number table')
            if st.tag != 'kept': cx.violation('table|store', wh(f, j), f.short, 'an entry of the number table is not stored under its number', '')
            h = t.load(st, ('p', T, off['FHighestIndex'][0]), 4)
            if h[0] == 'x' and isinstance(h[1], tuple) and h[1][0] == 'sel' and h[1][1][0] == 'x' and isinstance(h[1][1][1], tuple):
                # the larger of the two
                c, a, b = h[1][1][1], h[1][2], h[1][3]
                if c[0] in ('slt', 'sle') and {a, b} == {F, mem('FHighestIndex')} and (c[1], c[2]) == (b, a): h = F
            if not (h == F or h == mem('FHighestIndex') and le(st, F, mem('FHighestIndex'), False)): cx.violation('table|highest', wh(f, j), f.short, 'the highest number is not kept up to date', '%s' % (h,))
        t.on_ret = ret
        t.run()
    f = fs.get('GetMapping')
    if f:
        t = tp.TP(m, f, budget=4000)
        t.keyfacts = True
        def ret(st, v, j):
            cx.count('paths of the number table')
            if v == ('c', -1):
                if not (le(st, F, ('c', 0), True) or le(st, mem('FCapacity'), F, False) or le(st, F, ('c', -1), False)): cx.violation('table|lost', wh(f, j), f.short, 'an entry of the number table is not found', '')
            elif v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'm?' and v[1][1][0] == 'px' and v[1][1][-1] == F and v[1][1][-2] == 4:
                if not (le(st, ('c', 0), F, False) or le(st, ('c', -1), F, True)) or not le(st, F, mem('FCapacity'), True): cx.violation('table|range', wh(f, j), f.short, 'the number table is read outside its range', '')
            else: cx.violation('table|other', wh(f, j), f.short, 'a look-up in the number table does not return the entry of the number', '%s' % (v,))
        t.on_ret = ret
        t.run()
    f = fs.get('growMapping')
    if f:
        t = tp.TP(m, f, budget=4000)
        t.namephi = t.namejoin = True
        def calls(st, cn, args, i):
            if cn.startswith('llvm.memset'):
                if t.final:
                    cx.count('extensions of the number table')
                    new = t.load(st, ('p', T, off['FCapacity'][0]), off['FCapacity'][1])
                    want = form(('x', ('sub', new, mem('FCapacity')))) if new != TOP else None
                    n = form(args[2]) if args[2] != TOP else None
                    half = {k: c // 4 for k, c in n.items()} if n else None
                    if args[1] not in (('c', -1), ('c', 255)): cx.violation('table|fill', wh(f, i), f.short, 'new entries of the number table are not marked as unused', '')
                    elif args[0][0] != 'px' or args[0][-1] != mem('FCapacity'): cx.violation('table|fillfrom', wh(f, i), f.short, 'new entries of the number table are not marked as unused from the first one on', '%s' % (args[0],))
                    elif half is not None and want is not None and half != want and new == t.load(st, ('p', T, off['FCapacity'][0]), 8): cx.violation('table|filllen', wh(f, i), f.short, 'not all new entries of the number table are marked as unused', '%s %s' % (half, want))
                st.tag = 'filled'
                return TOP
            if cn in ('malloc', 'realloc') and i[1] >= 0: return ('p', ('nn', i[1]), 0)
            return None
        t.on_call = calls
        ok = []
        def ret(st, v, j):
            if st.tag == 'filled': ok.append(j)
        t.on_ret = ret
        t.run()
        if not ok: cx.violation('table|nofill', f.where, f.short, 'new entries of the number table are not marked as unused', '')
