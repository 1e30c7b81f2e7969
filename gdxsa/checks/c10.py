"""C10: special values keep their identity."""
import struct
import tp
RULE = ('In every operation, on every path: set/get/reset/query address slot k of the caller\'s array and slot k of the maps together; write map, '
        'its bit-pattern copy and read map are assigned the same slots; duplicates are refused before any slot changes; a class byte k written '
        'for a value is preceded by a successful comparison of that value with slot k of the bit-pattern map, or is the class of the value itself')
EXPLANATION = ('trace-partitioned constant and copy propagation over the inlined operations; the value maps are tracked slot by slot, caller '
               'arrays symbolically; the record writer is analysed once for each IEEE class of the value')
TECHNIQUE = 'abstract interpretation (trace-partitioned constant/copy propagation) over the compiler IR of the inlined public operations'
ASSUMPTIONS = ['caller arrays do not overlap the object']
CLS = 'gdx::TGXFileObj'
SLOTS = ['undefined', 'not available', 'plus infinity', 'minus infinity', 'epsilon']
PUB = [1e300, 2e300, 3e300, 4e300, 5e300, 0.0, 1.0, -1.0, 0.5, 2.0]

def fbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def same(v, x):
    """v is the double x, as a double or as its bit pattern"""
    if v[0] != 'c': return False
    b = v[1][1] if isinstance(v[1], tuple) else v[1]
    return b & (2**64 - 1) == fbits(x)

def run(cx):
    m = cx.flat()
    off = {n: o for n, o, z, t in m.fields(CLS)}
    for n in ('intlValueMapDbl', 'readIntlValueMapDbl', 'intlValueMapI64', 'Zvalacr'): cx.need(n in off, 'member %s of the session not found' % n)
    U, R, I = off['intlValueMapDbl'], off['readIntlValueMapDbl'], off['intlValueMapI64']
    T = ('arg', 0)
    ops = {f.sname: f for f in m.fns.values() if not f.decl and f.scope == CLS}
    def fn(n):
        cx.need(n in ops, 'operation %s not found' % n)
        return ops[n]
    def cell(t, st, o, k, base=T): return t.load(st, ('p', base, o + 8 * k), 8)
    def sym(o, k, base=T): return ('x', ('m', base, o + 8 * k, 8))
    def bad(op, key, msg, where=None):
        f = ops[op]
        cx.violation('%s:%s' % (op, key), where or '%s:%s' % (f.file, f.line), f.short, msg)
    def go(op, ret, **kw):
        t = tp.TP(m, fn(op), **kw)
        seen = []
        t.on_ret = lambda st, v, i: (seen.append(1), ret(t, st, v, i))
        t.run()
        cx.count('partitions_analysed', len(t.states))
        if t.over: bad(op, 'budget', 'the operation could not be followed to its end within the analysis budget')
        if not seen: bad(op, 'noreturn', 'no return of the operation is reached')
        return t
    def unchanged(op, t, st, which, when):
        for nm, o in which:
            for k in range(10):
                if cell(t, st, o, k) != sym(o, k): bad(op, 'changed:%s' % nm, '%s: slot %d of the %s is changed' % (when, k, nm))
    MAPS = [('write map', U), ('read map', R), ('bit-pattern map', I)]
    # --- set
    def ret(t, st, v, i):
        op = 'gdxSetSpecialValues'
        if v == ('c', 0): return unchanged(op, t, st, MAPS, 'when the values are refused')
        if v[0] != 'c': unchanged(op, t, st, [], '')
        cx.count('exits_checked')
        for nm, o in MAPS:
            for k in range(10):
                want = sym(0, k, ('arg', 1)) if k < 5 else sym(U, k)
                got = cell(t, st, o, k)
                if got != want and not (k >= 5 and got == sym(o, k)):
                    bad(op, 'slot:%s:%d' % (nm, k), 'slot %d (%s) of the %s does not receive element %d of the caller\'s array' % (k, SLOTS[k] if k < 5 else 'fixed', nm, k))
        for a in range(5):
            for b in range(a + 1, 5):
                x, y = sorted((sym(0, a, ('arg', 1)), sym(0, b, ('arg', 1))), key=str)
                if (('eq', x, y), False) not in st.facts:
                    bad(op, 'dup:%d:%d' % (a, b), 'values are accepted without comparing the bit patterns of %s and %s' % (SLOTS[a], SLOTS[b]))
                else: cx.count('pairs_compared')
    go('gdxSetSpecialValues', ret)
    # --- set for reading
    def ret(t, st, v, i):
        op = 'gdxSetReadSpecialValues'
        cx.count('exits_checked')
        unchanged(op, t, st, [MAPS[0], MAPS[2]], 'setting the values for reading')
        for k in range(10):
            want = sym(0, k, ('arg', 1)) if k < 5 else sym(R, k)
            if cell(t, st, R, k) != want: bad(op, 'slot:%d' % k, 'slot %d (%s) of the read map does not receive element %d of the caller\'s array' % (k, SLOTS[k] if k < 5 else 'fixed', k))
    go('gdxSetReadSpecialValues', ret)
    # --- get
    def ret(t, st, v, i):
        op = 'gdxGetSpecialValues'
        cx.count('exits_checked')
        unchanged(op, t, st, MAPS, 'querying the values')
        for k in range(5):
            if cell(t, st, 0, k, ('arg', 1)) != sym(U, k): bad(op, 'slot:%d' % k, 'element %d of the caller\'s array does not receive slot %d (%s) of the write map' % (k, k, SLOTS[k]))
    go('gdxGetSpecialValues', ret)
    # --- reset
    def ret(t, st, v, i):
        op = 'gdxResetSpecialValues'
        cx.count('exits_checked')
        for nm, o in MAPS:
            for k in range(10):
                if not same(cell(t, st, o, k), PUB[k]): bad(op, 'slot:%s:%d' % (nm, k), 'slot %d of the %s is not reset to its published value %g' % (k, nm, PUB[k]))
        if not same(t.load(st, ('p', T, off['Zvalacr']), 8), 10e300): bad(op, 'acr', 'the acronym base is not reset to its published value')
    go('gdxResetSpecialValues', ret)
    # --- query of one value
    def bitsof(e):
        return e
    def ret(t, st, v, i):
        op = 'gdxMapValue'
        cx.count('exits_checked')
        unchanged(op, t, st, MAPS, 'querying a value')
        r = t.load(st, ('p', ('arg', 2), 0), 4)
        X = ('x', '$1')
        def eq(k, truth):
            a, b = sorted((X, sym(I, k)), key=str)
            if (('eq', a, b), truth) in st.facts: return True
            if truth: return False
            return False
        if r[0] != 'c': bad(op, 'class', 'the class returned is not determined by the comparisons made'); return
        k = r[1]
        if 0 <= k < 5:
            if not eq(k, True): bad(op, 'slot:%d' % k, 'class %d (%s) is returned without the value being equal to slot %d of the bit-pattern map' % (k, SLOTS[k], k))
            if v == ('c', 0): bad(op, 'ret:%d' % k, 'a special value (%s) is reported as an ordinary one' % SLOTS[k])
        elif k == 5:
            for j in range(5):
                if not eq(j, False): bad(op, 'normal:%d' % j, 'a value is called ordinary without having been compared with slot %d (%s)' % (j, SLOTS[j]))
            if v != ('c', 0): bad(op, 'ret:normal', 'an ordinary value is reported as a special one')
        else: bad(op, 'class:%s' % k, 'class %s is not one of the published classes' % k)
        got.add(k)
    got = set()
    go('gdxMapValue', ret, split=lambda st: tuple(sorted(str(v) for k, (z, v) in st.mem.items() if k[0] == ('arg', 2) and z == 4)))
    for k in range(6):
        if k not in got: bad('gdxMapValue', 'missing:%d' % k, 'class %d is never returned' % k)
    # --- class byte of written values
    classes = [('NaN', 0x7ff8000000000000, {1}), ('negative NaN', 0xfff8000000000001, {1}), ('signalling NaN', 0x7ff0000000000001, {1}), ('plus infinity', 0x7ff0000000000000, {2}),
               ('minus infinity', 0xfff0000000000000, {3}), ('zero', 0, {5}), ('negative zero', 0x8000000000000000, {5}), ('an ordinary number', fbits(1234.5), {10}), ('a negative number', fbits(-7e-200), {10})]
    for op in ('gdxDataWriteRaw',):
        for nm, b, ok in classes:
            t = Vals(m, fn(op), b)
            found = set()
            def call(st, cn, args, i):
                if cn or not t.final or len(args) != 3 or args[2] != ('c', 1): return None
                ks = set()
                for e, truth in st.facts:
                    if isinstance(e, tuple) and e[0] == 'eq':
                        for x, y in ((e[1], e[2]), (e[2], e[1])):
                            if x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][1] == T and I <= x[1][2] < I + 88 and y == ('c', tp.wrap(b, 64)):
                                ks.add(((x[1][2] - I) // 8, truth))
                if not ks: return None
                v = t.load(st, args[1], 1)
                cx.count('class_bytes_checked')
                if v[0] != 'c': bad(op, 'classbyte', 'the class byte written for a value is not determined by the comparisons made', i[3]); return None
                k = v[1]
                if (k, True) in ks: found.add(k); return None
                if any(tr for _, tr in ks):
                    bad(op, 'match:%d' % k, 'a value equal to slot %s of the bit-pattern map is written with class byte %d' % (sorted(x for x, tr in ks if tr), k), i[3]); return None
                if k not in ok:
                    bad(op, 'class:%s:%d' % (nm, k), '%s equal to none of the slots is written with class byte %d' % (nm, k), i[3])
                missing = [j for j in range(5) if (j, False) not in ks]
                if missing: bad(op, 'skipped:%s' % nm, '%s is written as class %d without having been compared with slots %s' % (nm, k, missing), i[3])
                found.add(('own', k))
                return None
            t.on_call = call
            t.run()
            cx.count('partitions_analysed', len(t.states))
            for k in range(5):
                if k not in found: bad(op, 'unused:%d' % k, 'a value equal to slot %d (%s) is never written with that class byte' % (k, SLOTS[k]))
            if not any(isinstance(x, tuple) for x in found): bad(op, 'own:%s' % nm, '%s equal to none of the slots is never written' % nm)
    # --- read map applied
    op = 'gdxDataReadRaw'
    deliv = 0
    for k in range(11):
        t = tp.TP(m, fn(op), budget=60000, maxpart=14)
        hit = []
        def call(st, cn, args, i):
            if cn or len(args) != 3 or args[2] != ('c', 1) or args[1][0] != 'p' or args[1][1][0] != 'a': return None
            t.store(st, args[1], ('c', k), 1)
            return t.fresh(st, i[1]) if i[1] >= 0 else tp.TOP
        def store(st, p, v, i):
            if base_of(p) != ('arg', 2) or v[0] == 'copy': return
            for q in offs(v):
                for o, nm2 in ((U, 'write map'), (I, 'bit-pattern map')):
                    if o <= q < o + 88: bad(op, 'readfrom:%s' % nm2, 'a value delivered by a read comes from the %s' % nm2, i[3])
            slot = (v[1][2] - R) // 8 if v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'm' and v[1][1] == T and R <= v[1][2] < R + 88 else None
            dflt = [j for e, tr in st.facts if tr and isinstance(e, tuple) and e[0] == 'foeq' for a in e[1:] if a[0] == 'c' and isinstance(a[1], tuple)
                    for j in range(5) if a[1][1] == fbits(PUB[j])]
            if dflt:
                if slot is not None and slot != dflt[-1] and slot not in dflt: bad(op, 'default:%d' % dflt[-1], 'the default value %s is delivered as slot %d of the read map' % (SLOTS[dflt[-1]], slot), i[3])
                cx.count('default_values_checked')
                return
            if slot is not None:
                hit.append(slot)
                if slot != k and not (k == 10 and slot in (1, 2, 3)): bad(op, 'readslot:%d' % k, 'class byte %d read from the file selects slot %d of the read map' % (k, slot), i[3])
        t.on_call, t.on_store = call, store
        t.keyx = lambda v: any(o <= q < o + 88 for q in offs(v) for o in (U, R, I))
        t.run()
        cx.count('partitions_analysed', len(t.states))
        deliv += len(hit)
        if k < 10 and not hit: bad(op, 'readmiss:%d' % k, 'class byte %d read from the file does not select slot %d of the read map' % (k, k))
    cx.counts['read_map_applications'] = deliv
    # --- acronym remap: no other operation reads the write map for delivery
    writers = {}
    for n, f in sorted(ops.items()):
        w = set()
        for b in f.rpo():
            for i in f.blocks[b]:
                if i[0] == 'store':
                    o = direct_off(f, i[5])
                    if o is not None:
                        for nm2, x in MAPS:
                            if x <= o < x + 88: w.add(nm2)
        if w: writers[n] = w
    allowed = {'gdxSetSpecialValues', 'gdxSetReadSpecialValues', 'gdxResetSpecialValues'}
    for n, w in writers.items():
        if n in allowed: continue
        def ret(t, st, v, i):
            cx.count('exits_checked')
            for nm, o in MAPS:
                got = [cell(t, st, o, k) for k in range(10)]
                if all(g == sym(o, k) for k, g in enumerate(got)) or all(same(g, PUB[k]) for k, g in enumerate(got)): continue
                bad(n, 'writer:' + nm, 'this operation changes the %s other than by resetting it to the published values' % nm)
        go(n, ret, maxpart=24)
    cx.counts['operations_scanned_for_map_stores'] = len(ops)

def base_of(p):
    while p[0] == 'px': p = p[1]
    return p[1] if p[0] == 'p' else None
def offs(v):
    """offsets of members of the session read by expression v, when v is directly such a load"""
    if v[0] == 'x' and isinstance(v[1], tuple):
        if v[1][0] == 'm' and v[1][1] == ('arg', 0): yield v[1][2]
        elif v[1][0] == 'm?':
            px = v[1][1]
            if px[0] == 'px' and px[1][0] == 'p' and px[1][1] == ('arg', 0): yield px[1][2] + px[2]
        elif v[1][0] == 'sel':
            for x in v[1][2:]: yield from offs(x)
def direct_off(f, o, d=0):
    n = 0
    while o[0] == 'v' and d < 20:
        i = f.idef(o)
        if i is None: return n if o[1] == 0 else None
        if i[0] != 'getelementptr': return None
        n += i[5][1]
        o = i[4]; d += 1
    return None

class Vals(tp.TP):
    """the caller's values are all the double with the given bit pattern"""
    def __init__(s, m, f, b):
        tp.TP.__init__(s, m, f, budget=120000, maxpart=14)
        s.b = b
    def load(s, st, p, size):
        if size == 8 and base_of(p) == ('arg', 2): return ('c', ('f', s.b))
        return tp.TP.load(s, st, p, size)
    def value(s, st, i):
        v = tp.TP.value(s, st, i)
        if i[0] == 'load' and v is not None and v[0] == 'c' and isinstance(v[1], tuple) and i[2] == 'i64': return ('c', tp.wrap(v[1][1], 64))
        return v
