"""Trip counts of counted loops, relative to the bound they compare with."""
def op_int(o): return o[1] if o[0] == 'c' else None

def strip(f, o, n=0):
    """operand without casts, and the constant added to it"""
    off = 0
    while n < 20:
        n += 1
        d = f.idef(o)
        if d is None: break
        if d[0] in ('sext', 'zext', 'trunc', 'freeze'): o = d[4]; continue
        if d[0] in ('add', 'sub') and d[5][0] == 'c':
            off += d[5][1] if d[0] == 'add' else -d[5][1]; o = d[4]; continue
        if d[0] == 'add' and d[4][0] == 'c': off += d[4][1]; o = d[5]; continue
        break
    return o, off

def loop_trip(f, h):
    """trip count of the natural loop with header h minus its bound, when it is a counted loop; else None"""
    body = f.loops()[h]
    t = f.term(h)
    exits = [b for b in body if any(x not in body for x in f.succ()[b])]
    if t[0] != 'br' or t[4] is None or h not in exits: return None
    c = f.idef(t[4])
    if c is None or c[0] != 'icmp': return None
    into_true = t[5][0] in body
    pred = c[4]
    if not into_true: pred = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}.get(pred)
    a, b = c[5], c[6]
    for x, y, p in ((a, b, pred), (b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'ne': 'ne', 'eq': 'eq'}.get(pred))):
        o, off = strip(f, x)
        d = f.idef(o)
        if d is None or d[0] != 'phi' or f.defs()[d[1]][0] != h: continue
        init = step = None
        good = True
        for v, pb in d[4]:
            if pb in body:
                q, k = strip(f, v)
                if q == ['v', d[1]] and k != 0 and step in (None, k): step = k
                else: good = False
            elif init is None or init == v: init = v
            else: good = False
        if not good or step not in (1, -1) or init is None: continue
        if step == 1:
            i0 = op_int(init)
            if i0 is None:
                if op_int(y) is not None: return None
                from sx import SX
                X = SX(f.m)
                try: return None if X.val(f, strip(f, init)[0]) in X.val(f, y) else 'start'
                except Exception: return None
            _, boff = strip(f, y)
            if op_int(y) is not None: return None
            if p in ('slt', 'ult', 'ne'): return boff - i0 - off
            if p in ('sle', 'ule'): return boff - i0 - off + 1
        else:
            y0 = op_int(y)
            if y0 is None: return None
            _, ioff = strip(f, init)
            if op_int(init) is not None: return None
            if p in ('sgt', 'ugt', 'ne'): return ioff + off - y0
            if p in ('sge', 'uge'): return ioff + off - y0 + 1
    return None

def trip(m, s, node):
    """relative trip count of the innermost loop around an event, looking outwards through its callers"""
    # the event's own function first
    name = node.stack[-1]
    for f in m.fns.values():
        if f.decl or f.short != name: continue
        blk = None
        for bi, i in f.instrs():
            if id(i) == node.ctx[1]: blk = bi
        if blk is None: continue
        best = None
        for h, body in f.loops().items():
            if blk in body and (best is None or len(body) < len(f.loops()[best])): best = h
        if best is None: return None
        return loop_trip(f, best)
    return None

def const_count(f, h):
    """trip count of a counted loop with constant initial value, bound and step 1"""
    body = f.loops()[h]
    t = f.term(h)
    if t[0] != 'br' or t[4] is None: return None
    c = f.idef(t[4])
    if c is None or c[0] != 'icmp': return None
    pred = c[4] if t[5][0] in body else {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}.get(c[4])
    o, off = strip(f, c[5])
    b = op_int(c[6])
    d = f.idef(o)
    if b is None or d is None or d[0] != 'phi' or f.defs()[d[1]][0] != h: return None
    init = [op_int(v) for v, pb in d[4] if pb not in body]
    if len(init) != 1 or init[0] is None: return None
    for v, pb in d[4]:
        if pb in body and strip(f, v) != (['v', d[1]], 1) and strip(f, v) != (['v', d[1]], -1): return None
    lo = init[0] + off
    n = {'slt': b - lo, 'ult': b - lo, 'ne': b - lo, 'sle': b - lo + 1, 'ule': b - lo + 1, 'sgt': lo - b, 'sge': lo - b + 1}.get(pred)
    return n if n is not None and n >= 0 else None
