"""C08: numbers supplied by the caller are range-checked before they select anything."""
import re
import flat, sx
from flat import Lin

RULE = ('in the inlined body of every public operation, every address computed with a subscript taken from an int parameter or from an element of a caller-supplied int array '
        'is reached only over branches that establish 0 <= subscript and subscript < size of the very container addressed (count member of the same object, extent of the array, or length of the vector)')
EXPLANATION = ('The library is compiled with all helpers inlined into the public operations (LLVM inliner, SROA, GVN, jump threading), so that it does not matter where a check is written. A forward dataflow over each operation '
               'collects the linear inequalities established by the branches taken on every path to a block (intersection at joins; booleans merged by phi are resolved per incoming edge). For each address with a caller-controlled '
               'subscript the two bounds are derived from at most three of these facts plus the invariants stated under assumptions.')
TECHNIQUE = 'dataflow analysis of branch-established linear bounds over inlined LLVM IR'
ASSUMPTIONS = ['the count member of a container equals the number of slots that may be addressed (TXStrHashList: Buckets/FCount, TXList: FList/FCount, TIntegerMapping: PMap/FCapacity, TBooleanBitArray: PData/FHighIndex)',
               'FCurrentDim and SDim lie in 0..20 (C24 and the dimension checks of the start operations)']

COUNT = {'Buckets': 'FCount', 'FList': 'FCount', 'PMap': 'FCapacity'}
DIMS = re.compile(r'(\.FCurrentDim|\.SDim)$')

class B(flat.Flat):
    def __init__(s, m):
        super().__init__(m)
        s.one = {}
    def onebased(s, atom):
        """value of '(X.OneBased ? 1 : 0)'"""
        m_ = re.match(r'\((.*)\.OneBased(?: ne 0)?\)? \? 1 : 0\)$', atom) or re.match(r'\(*(.*)\.OneBased.*', atom)
        return m_.group(1).lstrip('(') if m_ else None
    def block_gen(s, f, b):
        out = {}
        for i in f.blocks[b]:
            if i[0] == 'store':
                p = s.S.place(f, i[5])[0]
                if p.endswith(('.FCapacity', '.FHighIndex')): out[('grown', p)] = 0
        return out

def prove(goal, facts, extra=()):
    """goal: Lin g, want g <= 0"""
    fl = [Lin(dict(k), v) for k, v in facts.items() if not (k and k[0] in ('ne', 'grown'))] + list(extra)
    def closed(l): return not l.t and l.c <= 0
    if closed(goal): return True
    front = [goal]
    for _ in range(3):
        nxt = []
        for g in front:
            for l in fl:
                if not any(g.t.get(k, 0) * v > 0 for k, v in l.t.items()): continue
                r = g - l
                if closed(r): return True
                if len(r.t) <= len(g.t) + 1: nxt.append(r)
        front = nxt[:400]
    # x >= 1 from x >= 0 and x != 0
    for k in facts:
        if k and k[0] == 'ne':
            l = Lin(dict(k[1]), k[2])
            # -l <= -1 if -l <= 0
            base = l.scale(-1)
            t, c = base.key()
            if t in facts and facts[t] >= c:
                r = goal - Lin(dict(t), c + 1)
                if closed(r): return True
    return False

def onebased_const(F, m):
    """objects whose numbering starts at one: path of the owner -> {0,1}"""
    one, zero = set(), set()
    S = F.S
    def owners(f, o):
        # the members the object at this address is stored in
        while o[0] == 'v':
            d = f.idef(o)
            if d is None or d[0] != 'getelementptr': break
            o = d[4]
        todo, vals, out = [o], [], []
        while todo and len(vals) < 20:
            o = todo.pop()
            if o[0] != 'v' or o in vals: continue
            vals.append(o)
            d = f.idef(o)
            if d is not None and d[0] == 'phi': todo += [x for x, _ in d[4]]
            if d is not None and d[0] == 'load': out.append('*' + S.place(f, d[4])[0])
        return out + ['*' + S.place(f, i[5])[0] for _, i in f.instrs() if i[0] == 'store' and i[4] in vals]
    for f in m.fns.values():
        if f.decl: continue
        for b, i in f.instrs():
            if i[0] == 'store' and i[4][0] == 'c':
                p = S.place(f, i[5])[0]
                if p.endswith('.OneBased'): (one if i[4][1] else zero).update([p[:-9]] + owners(f, i[5]))
    return one

def sources(F, f):
    """atoms that are caller-supplied numbers"""
    S = F.S
    ints, arrs = set(), set()
    for n in range(len(f.args)):
        t = S.argtype(f, n)
        if t is None: continue
        t = t.strip()
        if f.args[n][0] == 'this': continue
        if t in ('int', 'const int'): ints.add('$%d' % n)
        if re.fullmatch(r'(const int|int const) ?\*', t): arrs.add(n)
    return ints, arrs

def run(cx):
    m = cx.flat()
    F = B(m)
    S = F.S
    lib = cx.module()
    one = onebased_const(F, m)
    # classes whose constructor switches to one-based numbering
    import sx as sx_
    S2 = sx_.SX(lib)
    onecls = set()
    for f in lib.fns.values():
        if f.decl or not f.scope or f.sname != f.scope.split('::')[-1].split('<')[0]: continue
        for b, i in f.instrs():
            if i[0] == 'store' and i[4][0] == 'c' and i[4][1] != 0 and S2.place(f, i[5])[0].endswith('this.OneBased'): onecls.add(f.scope)
    nops = nobl = nskip = 0
    ops = [f for f in m.fns.values() if not f.decl and f.scope == 'gdx::TGXFileObj' and re.match(r'gdx[A-Z]', f.sname or '')]
    cx.need(len(ops) > 60, 'public operations not found in the inlined program')
    for f in sorted(ops, key=lambda f: f.short):
        ints, arrs = sources(F, f)
        if not ints and not arrs: continue
        nops += 1
        def is_src(a):
            if a in ints: return True
            k = re.match(r'\*\$(\d+)(\[.*\])?$', a)
            return bool(k) and int(k.group(1)) in arrs
        arrmap = None
        for b, i in f.instrs():
            if i[0] != 'getelementptr' or not i[5][2]: continue
            for sc, x in i[5][2]:
                idx = F.lin(f, x)
                shift = 0
                if len(idx.t) == 1 and not idx.c:
                    d = f.idef(x)
                    while d is not None and d[0] in ('sext', 'zext', 'trunc', 'freeze'): d = f.idef(d[4])
                    if d is not None and d[0] in ('ashr', 'lshr', 'sdiv') and d[5][0] == 'c':
                        shift, idx = 1, F.lin(f, d[4])
                facts = F.facts(f, b)
                srcs = [a for a in idx.t if is_src(a)]
                indirect = False
                base, bt = S.addr(f, i[4])
                if not srcs:
                    # induction variable limited by a caller-supplied number
                    lim = {a for k in facts if k and k[0] not in ('ne', 'grown') for a, c in k if is_src(a) and any(c2 * idx.t.get(a2, 0) > 0 for a2, c2 in k) and c < 0}
                    if not lim or not idx.t: continue
                    indirect = True
                if re.match(r'\*\$\d', base) or base.startswith(('%', 'strerror', 'loop')) and not bt: nskip += 1; continue
                if 'llvm.' in base or 'ostream' in base: continue
                size, growpath, owner = size_of(F, f, base, bt, facts, shift)
                if size is None:
                    nskip += 1; continue
                if indirect and not isinstance(size, int): continue
                lo = Lin(c=0); goal_idx = idx
                extra = []
                for a in list(goal_idx.t):
                    if '.OneBased' in a and ' ? 1 : 0' in a:
                        own = F.onebased(a)
                        v = is_one(S, f, own, one, onecls, a, F)
                        goal_idx = goal_idx - Lin({a: goal_idx.t[a]}, 0) + Lin(c=goal_idx.t[a] * v)
                for k in list(facts) + [goal_idx.key()[0]]:
                    if k and k[0] in ('ne', 'grown'): continue
                    for a, c in k:
                        if DIMS.search(a): extra.append(Lin({a: 1}, -20)); extra.append(Lin({a: -1}, 0))
                if isinstance(size, int): sz = Lin(c=size)
                else: sz = size
                low = prove(goal_idx.scale(-1), facts, extra)
                upg = [goal_idx - s_ + Lin(c=1) for s_ in (sz if isinstance(sz, list) else [sz])]
                up = any(prove(g, facts, extra) for g in upg) or any(('grown', g) in facts for g in growpath)
                nobl += 2 if not indirect else 1
                nm = ', '.join(pname(f, a) for a in srcs) or 'a loop bounded by a caller-supplied number'
                cx.sample('%s: %s[%r] at %s: bounds %s' % (f.sname, base, idx, i[3], 'derived' if low and up else 'MISSING'))
                for good, what in ((low or indirect, 'lower'), (up, 'upper')):
                    if good: continue
                    cx.violation('%s|%s|%s|%s' % (f.sname, nm, clean(base), what), loc_in_repo(f, b, i), f.short,
                                 '%s selects an entry of %s, but on some path no check establishes its %s bound' % (nm, clean(base), what),
                                 'subscript %r; facts established here:\n   %s' % (idx, '\n   '.join(z for z in flat.show(facts) if any(a in z for a in idx.t))))
    cx.counts.update(operations_with_numeric_parameters=nops, bound_obligations=nobl, addresses_outside_library_tables=nskip)
    cx.need(nobl >= 20, 'too few subscripts found: the inlined program has an unexpected shape')

def pname(f, a):
    k = re.match(r'\*?\$(\d+)', a)
    return 'parameter %s' % f.args[int(k.group(1))][0] if k else a

def clean(p): return re.sub(r'^\*+', '', re.sub(r'\[.*?\]', '[]', p)).replace('this.', '')

def loc_in_repo(f, b, i):
    if not i[3].startswith('/'): return i[3]
    for j in f.blocks[b]:
        if j[3] and not j[3].startswith('/'): return j[3]
    return f.where

def is_one(S, f, own, one, onecls, atom, F):
    if own is None: return 1
    if own in one: return 1
    # class of the owner
    for p, t in [(k[1], v[1]) for k, v in ()]: pass
    for (kind, fn, o), v in S.cache.items():
        if kind == 'a' and fn == f.name and v[0] == own and v[1] and S.canon_type(v[1]) in onecls: return 1
    # phi of owners: same class as a one-based path
    if own.startswith('phi'): return 0
    return 0

def size_of(F, f, base, bt, facts, shift):
    """(size, growth paths, owner): size an int, a Lin or a list of alternatives"""
    S = F.S
    # fixed extents
    for t in (bt,):
        if t:
            ct = S.canon_type(t)
            k = re.match(r'std::array<(.*), (\d+)(?:UL|ul)?>$', ct) or re.match(r'(.*?)\s*\[(\d+)\]', ct)
            if k: return int(k.group(2)), [], base
    if base.startswith('@'):
        g = base[1:]
        for n, gd in F.m.globals.items():
            if (gd.get('dem') or n) == g:
                k = re.search(r'array<.*, (\d+)', gd.get('ditype') or '') or re.search(r'\[(\d+)\]', gd.get('ditype') or '')
                if k: return int(k.group(1)), [], base
        return None, [], None
    k = re.match(r'\*(.*)\.(\w+)$', base)
    if k:
        owner, mem = k.groups()
        if mem in COUNT:
            sz = [Lin({owner + '.' + COUNT[mem]: 1})]
            # the vector's own length
            sz += vec_sizes(facts, owner + '.' + mem)
            return sz, [owner + '.' + COUNT[mem]], owner
        if mem == 'PData': return [Lin({owner + '.FHighIndex': 1}, 1)], [owner + '.FHighIndex'], owner
        v = vec_sizes(facts, owner + '.' + mem)
        st = container_type(S, f, owner + '.' + mem)
        if st and st.startswith('std::vector<'):
            return v or [Lin({'length of ' + owner + '.' + mem: 1})], [], owner
    return None, [], None

def container_type(S, f, path):
    for (kind, fn, o), v in S.cache.items():
        if kind == 'a' and fn == f.name and v[0] == path and v[1]: return S.canon_type(v[1])
    return None

def vec_sizes(facts, path):
    out = []
    for k in facts:
        if k and k[0] in ('ne', 'grown'): continue
        for a, c in k:
            if c < 0 and re.match(r'\(\(%s\._M_impl\._M_finish sub %s(\._M_impl\._M_start)?\) (sdiv|ashr|lshr|udiv) \d+\)$' % (re.escape(path), re.escape(path)), a): out.append(Lin({a: 1}))
    return out
