"""C09: text never overruns the buffers it is copied into."""
import re
import flat
from flat import Lin
from checks.c08 import prove, loc_in_repo

RULE = ('In the inlined body of every public operation, every write of characters (single character, block copy, string copy, formatted print) into a character buffer of the caller, into a character buffer kept in '
        'the object or in a local, or into a string allocated for the copy, is limited by the conditions passed or by the length given to the documented size of the caller buffer (64 for names and labels, 256 for '
        'texts), to the extent of the array, or to the size allocated; a block copied out of such a fixed buffer is limited alike.')
EXPLANATION = ('The library is compiled with all helpers inlined into the public operations. A forward dataflow collects the linear inequalities established by the branches on every path; the largest subscript or length of each '
               'character write is derived from them, from minima taken, and from the induction invariant of counting loops, and compared with the capacity of the destination.')
TECHNIQUE = 'dataflow analysis of branch-established linear bounds on character writes over inlined LLVM IR'
ASSUMPTIONS = ['rewriting characters of a text in place (up to its own terminator) stays inside it', 'strings of the tables and of the caller are terminated',
               'chunks of the string allocator are as large as requested', 'standard strings keep within their own storage']

# documented sizes of caller buffers: names and labels 64, everything else 256
SHORT = {'gdxAcronymGetInfo': ('AName',), 'gdxAcronymName': ('AName',), 'gdxSymbolInfo': ('SyId',), 'gdxUMUelGet': ('Uel',), 'gdxGetUEL': ('Uel',),
         'gdxDataReadStr': ('KeyStr',), 'gdxDataSliceUELS': ('KeyStr',)}

def wrap(alts, c): return None if alts is None else [(l + Lin(c=c), fs) for l, fs in alts]

class T(flat.Flat):
    _sel = {}
    def phi_bound(s, f, o):
        """upper bound of a counting loop variable: start, or one step beyond the limit tested on the way round"""
        d = f.idef(o)
        if d is None or d[0] != 'phi': return None
        me, pb, best = s.S.val(f, o), f.defs()[d[1]][0], None
        for v, p in d[4]:
            l = s.lin(f, v)
            if not l.t: c = l.c
            elif l.t == {me: 1} and l.c >= 0:
                e = s.edge_facts(f, p, pb)
                if e is None: continue
                k = e.get(((me, 1),))
                if k is None:
                    if l.c == 0: continue
                    # tested for inequality with a limit it can only reach
                    ks = [-t[2] for t in e if t and t[0] == 'ne' and t[1] == ((me, 1),) and t[2] <= 0] if l.c == 1 else []
                    if not ks: return None
                    c = min(ks)
                else: c = -k + l.c
            else: return None
            best = c if best is None else max(best, c)
        return best
    def all_alts(s, f, o, facts):
        """like alts; sums and minima of choices resolved too"""
        d = f.idef(o)
        while d is not None and d[0] in ('sext', 'zext', 'trunc', 'freeze'): o = d[4]; d = f.idef(o)
        if d is not None and d[0] == 'add' and d[5][0] == 'c':
            return wrap(s.all_alts(f, d[4], facts), d[5][1])
        if d is not None and d[0] == 'call' and d[4][0] == 'g' and re.match(r'llvm\.[us]min\.', d[4][1]):
            out = []
            for k in (0, 1):
                me, other = s.lin(f, d[5][k]), s.lin(f, d[5][1 - k])
                e = {}; flat.put(e, me - other)
                out += s.all_alts(f, d[5][k], flat.both(facts, e)) or [(me, flat.both(facts, e))]
            return out
        if d is not None and d[0] == 'sub':
            # distance of two positions in the same text
            a, z = f.idef(d[4]), f.idef(d[5])
            if a is not None and z is not None and a[0] == z[0] == 'ptrtoint':
                g = f.idef(a[4])
                if g is not None and g[0] == 'getelementptr' and len(g[5][2]) == 1 and g[5][2][0][0] == 1 and s.S.val(f, g[4]) == s.S.val(f, z[4]):
                    return wrap(s.all_alts(f, g[5][2][0][1], facts), g[5][1])
                return None
        if d is not None and d[0] == 'load':
            # std::min and std::max return references: the value chosen
            a = f.idef(d[4])
            if a is not None and a[0] == 'select':
                out = []
                for x, tr in ((a[5], True), (a[6], False)):
                    w = s.stored(f, x)
                    if w is None: break
                    out += s.all_alts(f, w, flat.both(facts, s.cond(f, a[4], tr))) or []
                else: return out
        return s.alts(f, o, facts)
    def sel_bounds(s, f):
        """constant upper bounds of values chosen by a comparison (minimum written out)"""
        if f.name not in s._sel:
            out = s._sel[f.name] = {}
            for b, i in f.instrs():
                if i[0] not in ('select', 'phi') or i[2] not in ('i32', 'i64') or i[1] < 0: continue
                o = ['v', i[1]]
                fs = s.facts(f, b)
                alts = [(s.lin(f, x), flat.both(fs, s.cond(f, i[4], tr))) for x, tr in ((i[5], True), (i[6], False))] if i[0] == 'select' else s.alts(f, o, fs)
                if not alts or len(alts) < 2: continue
                cs = []
                for l, fs in alts:
                    if not l.t: cs.append(l.c)
                    elif len(l.t) == 1 and list(l.t.values()) == [1] and tuple(sorted(l.t.items())) in fs: cs.append(l.c - fs[tuple(sorted(l.t.items()))])
                    else: break
                else: flat.put(out, s.lin(f, o) - Lin(c=max(cs)))
        return s._sel[f.name]
    def stored(s, f, p):
        """the one value ever stored into a local"""
        d = f.idef(p)
        if d is None or d[0] != 'alloca': return None
        vs = [i[4] for _, i in f.instrs() if i[0] == 'store' and i[5] == p]
        return vs[0] if len(vs) == 1 else None

def strlen_of(F, f, src):
    """atoms that are the length of the string at src"""
    d = f.idef(src)
    v = F.S.val(f, src)
    out = {'strlen(%s)' % v, v + '@8'}
    if d is not None and d[0] == 'load':
        p = F.S.place(f, d[4])[0]
        out |= {p + '@8', p.replace('._M_dataplus._M_p', '') + '._M_string_length', p + '._M_string_length'}
        out |= {re.sub(r'(@0)?$', '', p) + '@8'}
    return out

def run(cx):
    m = cx.flat()
    F = T(m); S = F.S
    ops = [f for f in m.fns.values() if not f.decl and f.scope == 'gdx::TGXFileObj' and re.match(r'gdx[A-Z]', f.sname or '')]
    cx.need(len(ops) > 60, 'public operations not found in the inlined program')
    bysize = {}
    for n, t in m.types.items():
        if t.get('size'): bysize.setdefault(t['size'], []).append((n, t))
    ncaller = nlocal = nheap = nskip = 0
    for f in sorted(ops, key=lambda f: f.short):
        charps = {}
        for n in range(len(f.args)):
            t = (S.argtype(f, n) or '').strip()
            if re.fullmatch(r'char ?\*( ?\*)?', t): charps[n] = 64 if f.args[n][0] in SHORT.get(f.sname, ()) else 256
        loads = None
        def cap(o):
            """(kind, capacity in characters as Lin, name) of the buffer at address o, or None"""
            base, bt = S.addr(f, o)
            k = re.match(r'\*\$(\d+)$', base) or re.match(r'\*\*\$(\d+)(\[[^\]]*\]|@\d+)*$', base)
            if k:
                n = int(k.group(1))
                if n in charps: return 'caller', Lin(c=charps[n]), 'the caller\'s buffer ' + f.args[n][0]
                return None
            if bt:
                ct = S.canon_type(bt)
                q = re.match(r'std::array<char, (\d+)', ct) or re.match(r'char\s*\[(\d+)\]$', ct)
                if q: return 'local', Lin(c=int(q.group(1))), base
                if ct.endswith('utils::sstring'): return 'local', Lin(c=256), base
            d = f.idef(o)
            while d is not None and d[0] == 'getelementptr' and not d[5][2] and d[5][1] == 0: o = d[4]; d = f.idef(o)
            if d is None: return None
            if d[0] == 'alloca':
                ty = d[4]
                if re.match(r'\[(\d+) x i8\]$', ty) or 'sstring' in ty or re.match(r'%"?(struct|class)\.std::array', ty) and chararr(m, ty, d[5]): return 'local', Lin(c=d[5]), 'local ' + re.sub(r'(\.i\d*)+$', '', d[7] or '')
                return None
            if d[0] in ('call', 'invoke') and d[4][0] == 'g' and d[4][1] in ('_Znam', 'malloc'): return 'heap', F.lin(f, d[5][0]), 'the string allocated for it'
            if d[0] == 'getelementptr' and not d[5][2]:
                e = f.idef(d[4])
                if e is not None and e[0] in ('call', 'invoke') and e[4][0] == 'g' and e[4][1] == '_Znwm' and e[5][0][0] == 'c':
                    for n, t in bysize.get(e[5][0][1], []):
                        for mb in t.get('members', []):
                            off, ty = member(mb)
                            if off == d[5][1] and ty:
                                ct = S.canon_type(ty)
                                q = re.match(r'std::array<char, (\d+)', ct)
                                if q: return 'local', Lin(c=int(q.group(1))), n
                                if ct.endswith('sstring'): return 'local', Lin(c=256), n
            return None
        def bounded(o, facts, lim):
            """operand o <= lim (Lin) on every path"""
            bad = None
            l0 = F.lin(f, o)
            by = bytes_in(F, f, o)
            if by: facts = flat.both(facts, by)
            if prove(l0 - lim, facts): return None
            facts = flat.both(facts, F.sel_bounds(f))
            if prove(l0 - lim, facts): return None
            # lengths that come from a function unknown here, or distances of pointers
            if any(a.startswith('&') or re.match(r'_?\w+\(', a) and not a.startswith('strlen(') for a in l0.t): return None
            alts = F.all_alts(f, o, facts)
            if alts is None: return None          # distance of two pointers: not a length seen here
            for l, fs in alts:
                fs = dict(fs)
                flat.put(fs, l0 - l); flat.put(fs, l - l0)
                for a in list(l.t):
                    if re.fullmatch(r'phi\d+', a):
                        pv = ['v', int(a[3:])]
                        c = F.phi_bound(f, pv) if f.idef(pv) is not None else None
                        if c is not None:
                            kk = ((a, 1),)
                            if kk not in fs or fs[kk] < -c: fs[kk] = -c
                            # ... and different from the limit
                            for t in fs:
                                if t and t[0] == 'ne' and t[1] == kk and t[2] == fs[kk]: fs[kk] += 1; break
                if not prove(l - lim, fs): bad = (l, fs)
            return bad
        def report(kind, name, b, i, what, bad):
            src = loc_in_repo(f, b, i)
            l, fs = bad
            cx.violation('%s|%s|%s' % (f.sname, name, what.split(' ')[0]), src, f.short, '%s into %s: no condition passed keeps it within %s' % (what, name, lims),
                         'subscript or length %r; facts established here:\n   %s' % (l, '\n   '.join(z for z in flat.show(fs) if any(a in z for a in l.t))))
        for b, i in f.instrs():
            obl = []          # (address, operand of largest subscript, addend, what)
            if i[0] == 'store' and i[7:] and i[7] == 'i8':
                d = f.idef(i[5])
                if d is None or d[0] != 'getelementptr' or len(d[5][2]) != 1 or d[5][2][0][0] != 1 or d[5][1] not in (0, -1, 1): continue
                obl.append((d[4], d[5][2][0][1], d[5][1] + 1, 'a character is written', i[4]))
            elif i[0] in ('call', 'invoke') and i[4][0] == 'g':
                nm, a = i[4][1], i[5]
                if re.match(r'llvm\.mem(cpy|move)\.|memcpy$|memmove$|__memcpy_chk$|strncpy$', nm):
                    obl.append((a[0], a[2], 0, 'characters are copied', None))
                    if 'strncpy' not in nm: obl.append((a[1], a[2], 0, 'characters are copied out of a buffer and', None))
                elif nm in ('snprintf', 'vsnprintf'): obl.append((a[0], a[1], 0, 'text is printed', None))
                elif nm in ('strcpy', 'stpcpy'): obl.append((a[0], None, 1, 'a string is copied', a[1]))
            for addr, x, add, what, v in obl:
                c = cap(addr)
                if c is None: nskip += 1; continue
                kind, lim, name = c
                if kind == 'local' and f.sname == 'gdxOpenReadXX': nskip += 1; continue   # text of the file: C24
                if kind == 'local' and '/rtl/' in '/' + i[3]: continue            # formatting of numbers: no text involved
                n_ = F.lin(f, x) if x is not None else Lin()
                if what.endswith('and') and (kind != 'local' or not any(re.match(r'strlen\(\(?\$|.*@8$|.*_M_string_length$', a) for a in n_.t)): continue
                if kind == 'heap' and not (lim.t and set(lim.t) & set(n_.t)): nskip += 1; continue
                facts = F.facts(f, b)
                if x is None:
                    at = strlen_of(F, f, v)
                    src = cap(v)
                    if src is not None and src[0] != 'caller' and prove(src[1] - lim, facts): continue
                    ls = [Lin({a: 1}) for a in at]
                    if v[0] == 'g': continue
                    bad = None if any(prove(l + Lin(c=1) - lim, facts) for l in ls) else (sorted(ls, key=repr)[0], facts)
                else:
                    if kind == 'local' and v is not None and not from_text(f, v): continue
                    if add and loads is None: loads = {(S.addr(f, e[4])[0], F.lin(f, e[5][2][0][1]).key()) for _, j in f.instrs() if j[0] == 'load' and j[2] == 'i8' for e in [f.idef(j[4])] if e is not None and e[0] == 'getelementptr' and len(e[5][2]) == 1}
                    if add and (S.addr(f, addr)[0], F.lin(f, x).key()) in loads: continue      # rewritten in place
                    bad = bounded(x, facts, lim - Lin(c=add))
                ncaller += kind == 'caller'; nlocal += kind == 'local'; nheap += kind == 'heap'
                lims = 'its %r characters' % lim if kind != 'heap' else 'the size allocated'
                cx.sample('%s: %s into %s (%r) at %s: %s' % (f.sname, what, name, lim, i[3], 'bounded' if not bad else 'NOT BOUNDED'))
                if bad: report(kind, name, b, i, what, bad)
    cx.counts.update(operations=len(ops), writes_into_caller_buffers=ncaller, writes_into_fixed_buffers=nlocal, writes_into_allocated_strings=nheap, other_writes=nskip)
    cx.need(ncaller >= 10, 'too few writes into caller buffers found: the inlined program has an unexpected shape')

def bytes_in(F, f, o):
    """facts x <= 255 for the bytes o is computed from"""
    out, todo, n = {}, [o], 0
    while todo and n < 40:
        o = todo.pop(); n += 1
        d = f.idef(o)
        if d is None: continue
        if d[0] == 'zext':
            e = f.idef(d[4])
            if e is not None and e[2] == 'i8': flat.put(out, F.lin(f, d[4]) - Lin(c=255))
        if d[0] in ('zext', 'sext', 'trunc', 'freeze'): todo.append(d[4])
        elif d[0] in ('add', 'sub'): todo += [d[4], d[5]]
        elif d[0] == 'select': todo += [d[5], d[6]]
        elif d[0] == 'phi': todo += [v for v, _ in d[4]]
    return out

def from_text(f, v):
    """the character written is a character read, or a terminator"""
    if v[0] == 'c': return v[1] == 0
    d = f.idef(v)
    n = 0
    while d is not None and d[0] in ('trunc', 'zext', 'sext', 'select', 'phi') and n < 5:
        if d[0] == 'select': d = f.idef(d[6]) if d[5][0] == 'c' else f.idef(d[5])
        elif d[0] == 'phi': d = f.idef(d[4][0][0])
        else: d = f.idef(d[4])
        n += 1
    return d is not None and d[0] == 'load'

def member(mb):
    if isinstance(mb, dict): return mb.get('off'), mb.get('type')
    offs = [x for x in mb if isinstance(x, int)]
    strs = [x for x in mb if isinstance(x, str)]
    return (offs[0] if offs else None), (strs[1] if len(strs) > 1 else None)

def chararr(m, ty, size):
    t = (m.structs or {}).get(ty.lstrip('%').strip('"'))
    return bool(t) and 'i8' in str(t) and ' x ' in str(t)
