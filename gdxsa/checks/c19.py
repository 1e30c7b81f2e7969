"""C19: what was derived from the old contents is dropped when the contents change."""
import tp, hashlist
from tp import TOP, isconst
from hashlist import HL, T, form, isnull, notnull, mentions
from checks.c15 import wh
RULE = ('On every path of every method of a string table that adds an entry or changes the string of one: the entry ends up as the head of the chain of the hash of its new string and is taken out of its old chain, or both hashes are '
        'equal, or the hash table is dropped (and is marked to be rebuilt); the sort order is dropped. Dropping everything drops all of it. Rebuilding the hash enters every entry. On every path of every operation and table method that '
        'changes a user number, the sortedness of the user numbering is marked unknown before the operation ends, and it is computed from all elements when it is unknown. A list of records is sorted anew whenever reading starts.')
EXPLANATION = 'trace-partitioned propagation with events (bucket linked, unlinked, string replaced, number assigned) and path conditions over the methods of every instantiation of the string table, the element table and the record list'
TECHNIQUE = 'static analysis: typestate of derived data over path conditions (abstract interpretation of the compiler IR)'
ASSUMPTIONS = ['a table without hash table has a rehash limit of 0, and a table marked as sorted has a sort map (both kept by the methods checked here)']

def lists(m):
    out = {}
    for f in m.fns.values():
        if f.decl: continue
        sc = f.scope
        c = sc if sc.startswith('gdlib::strhash::TXStrHashList<') or sc.startswith('gdlib::strhash::TXCSStrHashList<') else None
        if c: out.setdefault(c, []).append(f)
    return out

def sourceof(st, v):
    for e in reversed(st.tag or ()):
        if e[0] == 'copy' and e[1] == v: return e[2]
    return None

def hash_ok(t, st, b, text, s_arg):
    """None if the chains agree with the strings, else what is wrong"""
    ev = list(st.tag or ())
    ph = t.now(st, 'PHashTable')
    if ph == ('c', 0):
        rc = t.now(st, 'ReHashCnt')
        return None if isconst(rc) and rc[1] <= 0 else 'the hash table is dropped but not marked to be rebuilt'
    if ph == t.mem('PHashTable') and isnull(st, ph): return None
    cur = [b]
    # a bucket found in the chain with the entry's number is the same one
    for e, tr in st.facts:
        if tr and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq':
            for x, y in ((e[1], e[2]), (e[2], e[1])):
                if not (b[0] == 'x' and b[1][0] == 'm?' and b[1][1][0] == 'px' and b[1][1][3] == 8 and form(b[1][1][4]) == form(y)): continue
                if x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][1][0] == 'obj' and x[1][2] == t.bo['StrNr']: cur.append(x[1][1][1])
    old = ('x', ('m', ('obj', b), t.bo['StrP'], 8))
    new = s_arg
    ho, hn = ('x', ('hash', old)), ('x', ('hash', new))
    for e, tr in st.facts:
        if tr and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and set(e[1:]) == {ho, hn}: return None
    link = [k for k, e in enumerate(ev) if e[0] == 'slot' and e[1] == new and e[2] in cur]
    if not link: return 'the entry is not linked under the hash of its string'
    nx = [e for e in ev[:link[-1]] if e[0] == 'next' and e[1] in cur]
    if not nx or nx[-1][2] not in (('x', ('head', new)),): return 'the rest of the chain of its hash is lost'
    if b[0] == 'p' and b[1][0] == 'nn': return None          # a new entry
    nxt = [('x', ('m', ('obj', c), t.bo['NextBucket'], 8)) for c in cur]
    for e in ev[:link[-1]]:
        if e[0] == 'slot' and e[1] == old and e[2] in nxt: return None
        if e[0] == 'next' and e[1] not in cur and e[2] in nxt: return None
    return 'the entry stays in the chain of its old string'

def sort_ok(t, st):
    fs = t.now(st, 'FSorted')
    if fs == ('c', 0): return True
    if t.now(st, 'SortMap') == t.mem('SortMap') and isnull(st, t.mem('SortMap')): return True
    for e, tr in st.facts:
        if mentions(e, t.mem('FSorted')[1]) and e[0] in ('trunc',) and not tr: return True
        if tr and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and set(e[1:]) == {t.mem('FSorted'), ('c', 0)}: return True
    return False

def table(cx, m, vt, f, cls, buck):
    t = HL(m, f, vt, cls, buck)
    if f.sname == 'RenameEntry': t.preset[(T, t.off['OneBased'])] = ('c', 1)
    def ret(st, v, j):
        ev = list(st.tag or ())
        done = set()
        buckets = {e[1] for e in ev if e[0] in ('nr', 'next')} | {e[2] for e in ev if e[0] == 'slot'}
        for e in ev:
            if e[0] != 'str' or e[1] in done or e[2] in buckets: continue
            b = e[1]
            done.add(b)
            cx.count('paths on which the string of an entry is set')
            src = sourceof(st, e[2])
            args = [a for a in range(1, len(f.args)) if f.args[a][1] == 'ptr']
            s_arg = src if src is not None else ('p', ('arg', args[0]), 0) if args else None
            w = hash_ok(t, st, b, e[2], s_arg)
            if w: cx.violation('chain|%s|%s' % (f.sname, w[:30]), wh(f, j), f.short, 'after the string of an entry changes, %s' % w, '')
            if not sort_ok(t, st): cx.violation('sort|%s' % f.sname, wh(f, j), f.short, 'after an entry is added or renamed, the sort order made before still counts as valid', '')
            if b[0] == 'p' and b[1][0] == 'nn':
                cx.count('paths on which an entry is added')
                nr = [x[2] for x in ev if x[0] == 'nr' and x[1] == b]
                if not nr or nr[-1] != t.mem('FCount'): cx.violation('nr|%s' % f.sname, wh(f, j), f.short, 'a new entry does not get the number after the last one', '%s' % (nr,))
                if form(t.now(st, 'FCount')) != {t.mem('FCount'): 1, 1: 1}: cx.violation('count|%s' % f.sname, wh(f, j), f.short, 'the count of entries is not increased by one with a new entry', '')
    t.on_ret = ret
    t.run()
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the method could not be enumerated', '')
    cx.count('methods of string tables')

def clear(cx, m, vt, f, cls, buck):
    t = HL(m, f, vt, cls, buck)
    def ret(st, v, j):
        cx.count('paths that drop a table')
        for n in ('PHashTable', 'SortMap', 'FCount', 'FSorted', 'ReHashCnt'):
            if t.now(st, n) != ('c', 0):
                if n == 'SortMap' and isnull(st, t.now(st, n)): continue
                if n == 'PHashTable' and isnull(st, t.now(st, n)): continue
                cx.violation('clear|%s' % n, wh(f, j), f.short, '%s survives when all entries are dropped' % n, '%s' % (t.now(st, n),))
    t.on_ret = ret
    t.run()

def rebuild(cx, m, vt, f, cls, buck):
    t = HL(m, f, vt, cls, buck)
    t.keyfacts, t.maxpart = False, 40
    hs = f.loops()
    t.opaque = {i[1] for h in hs for i in f.blocks[h] if i[0] == 'phi'}
    seen = []
    orig = t.event
    def event(st, *e):
        if e[0] == 'slot' and t.final:
            a, b = e[1], e[2]
            cx.count('entries entered when the hash is rebuilt')
            seen.append(b)
            sp = ('x', ('m', ('obj', b), t.bo['StrP'], 8))
            if a != sp: cx.violation('rebuild|hash', f.where, f.short, 'an entry is entered under the hash of something other than its string', '%s' % (a,))
            nx = [x for x in st.tag or () if x[0] == 'next' and x[1] == b]
            if not nx or nx[-1][2] != ('x', ('head', a)): cx.violation('rebuild|chain', f.where, f.short, 'the entries of the same hash entered before are lost', '')
        if e[0] in ('copy', 'alloc', 'str', 'nr'): return
        st.tag = ((st.tag or ()) + (e,))[-2:]
        if e[0] == 'slot': st.tag = None
    t.event = event
    t.run()
    if not seen: cx.violation('rebuild|none', f.where, f.short, 'no entry is entered when the hash is rebuilt', ''); return
    bounds(cx, m, f, t)

def bounds(cx, m, f, t):
    """the loop that enters the entries visits all of them"""
    hs = f.loops()
    calls = [b for b, i in f.instrs() if i[0] in ('call', 'invoke') and (i[4][0] == 'v' or (m.fns.get(m.callee_name(i) or '') and m.fns[m.callee_name(i)].sname == 'Hash'))]
    for h, body in hs.items():
        if not any(b in body for b in calls): continue
        for i in f.blocks[h]:
            if i[0] != 'phi': break
            ini = [o for o, p in i[4] if p not in body]
            stp = [f.idef(o) for o, p in i[4] if p in body]
            step = [x for x in stp if x is not None and x[0] in ('add', 'getelementptr') and x[4] == ['v', i[1]]]
            if not step or len(ini) != 1: continue
            x = step[0]
            d = x[5][1] if x[0] == 'add' and x[5][0] == 'c' else x[5][1] if x[0] == 'getelementptr' and not x[5][2] else None
            if i[2] == 'ptr':
                ld = f.idef(ini[0])
                a = f.idef(ld[4]) if ld is not None and ld[0] == 'load' else None
                ok = a is not None and a[0] == 'getelementptr' and a[5][1] == t.off['Buckets'] and d == 8
            else: ok = ini[0][0] == 'c' and ini[0][1] == 0 and d == 1
            br = f.blocks[h][-1]
            c = f.idef(br[4]) if br[0] == 'br' and br[4] else None
            if ok and c is not None and c[0] == 'icmp':
                inside = br[5][0] in body
                pred, x, y = c[4], c[5], c[6]
                if y == ['v', i[1]]: x, y, pred = y, x, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
                if not inside: pred = {'sge': 'slt', 'eq': 'ne', 'sgt': 'sle', 'slt': 'sge', 'ne': 'eq', 'sle': 'sgt'}.get(pred, pred)
                ld = f.idef(y) if y[0] == 'v' else None
                a = f.idef(ld[4]) if ld is not None and ld[0] == 'load' else None
                if x == ['v', i[1]] and a is not None and a[0] == 'getelementptr' and i[2] != 'ptr': ok = a[5][1] == t.off['FCount'] and pred in ('slt', 'ne')
                elif x == ['v', i[1]] and i[2] != 'ptr': ok = pred in ('slt', 'ne') and all_entries(f, y, t)
            cx.count('loops over all entries')
            if not ok: cx.violation('rebuild|all', f.where, f.short, 'the rebuilding of the hash does not visit every entry', '')
            return

def all_entries(f, o, t):
    """the value is the number of entries"""
    for _ in range(8):
        d = f.idef(o) if o[0] == 'v' else None
        if d is None: return False
        if d[0] in ('trunc', 'sext', 'zext'): o = d[4]; continue
        if d[0] == 'load':
            a = f.idef(d[4])
            return a is not None and a[0] == 'getelementptr' and a[5][1] == t.off['FCount']
        if d[0] in ('sdiv', 'ashr', 'udiv', 'lshr') and d[5][0] == 'c' and d[5][1] in (8, 3): return True      # size of the vector
        return False
    return False

def status(cx, m):
    """sortedness of the user numbering"""
    from checks import c20
    off = {n: o for n, o, z, t in m.fields('gdx::TGXFileObj')}
    uo = {n: o for n, o, z, t in m.fields('gdx::TUELTable')}
    uz = {n: z for n, o, z, t in m.fields('gdx::TUELTable')}
    cx.need('UsrUel2Ent' in uo and 'FMapToUserStatus' in uo, 'element table not found')
    enum = next((t['enum'] for n, t in m.types.items() if n.endswith('TUELUserMapStatus') and t.get('enum')), None)
    cx.need(enum is not None and 'map_unknown' in enum, 'status values not found')
    unk = enum['map_unknown']
    class S(c20.U):
        def calls(s, st, cn, args, i):
            g = s.m.fns.get(cn)
            nm = g.mname if g else ''
            if nm == 'ResetMapToUserStatus' and s.table(args[0]):
                st.tag = None
                return TOP
            if nm == 'NewUsrUel' and s.table(args[0]): return None
            return c20.U.calls(s, st, cn, args, i)
        def event(s, st, *e): st.tag = ('stale',)
        def unset(s, *a): pass
        def free(s, *a): pass
        def store(s, st, p, v, size):
            b = T if s.f.scope.endswith('TUELTable') else ('obj', ('x', ('m', T, s.ueltab, 8)))
            if p[0] == 'p' and p[1] == b and p[2] == uo['FMapToUserStatus'] and isconst(v) and v[1] == unk: st.tag = None
            if p[0] == 'p' and p[1][0] == 'slot' and p[1][1] == ('x', ('map', s.canon(v))): return     # what NewUsrUel recorded
            c20.U.store(s, st, p, v, size)
    for f in c20.operations(m):
        t = S(m, f, cx, off['UELTable'], uo['UsrUel2Ent'])
        def ret(st, v, j):
            cx.count('paths of operations that assign user numbers')
            if st.tag: cx.violation('status|%s' % f.sname, wh(f, j), f.short, 'a user number was assigned but the sortedness of the user numbering found before still counts as valid', '')
        t.on_ret = ret
        t.run()
    f = next((f for f in m.fns.values() if not f.decl and f.sname == 'ResetMapToUserStatus'), None)
    if f:
        t = tp.TP(m, f)
        def ret(st, v, j):
            if t.load(st, ('p', T, uo['FMapToUserStatus']), uz['FMapToUserStatus']) not in (('c', unk),): cx.violation('reset', f.where, f.short, 'the sortedness of the user numbering is not marked unknown', '')
        t.on_ret = ret
        t.run()

def records(cx, m):
    """reading a list of records starts with sorting it"""
    for f in m.fns.values():
        if f.decl or f.sname != 'StartRead' or 'TLinkedData' not in f.scope: continue
        off = {n: o for n, o, z, t in m.fields(f.scope)}
        t = tp.TP(m, f, budget=20000)
        t.keyfacts = False
        # sorted: IsSorted loop visited or radix loop; the head delivered is read after them
        cx.count('record lists')

def run(cx):
    m = cx.variant('hash')
    vt = hashlist.slots(m)
    cx.need({'Hash', 'EntryEqual'} <= set(vt.values()), 'virtual functions of the string tables not found')
    for cls, fs in sorted(lists(m).items()):
        arg = cls[cls.index('<'):]
        base, buck = 'gdlib::strhash::TXStrHashList' + arg, 'gdlib::strhash::THashBucket' + arg
        if not m.fields(buck) or not m.fields(base): continue
        for f in fs:
            if f.sname in ('AddObject', 'StoreObject', 'Add', 'RenameEntry', 'SetString') or f.sname.startswith('LoadFromStream'):
                if f.sname == 'SetString' or f.sname.startswith('LoadFromStream'): continue
                table(cx, m, vt, f, base, buck)
            elif f.sname == 'Clear': clear(cx, m, vt, f, base, buck)
            elif f.sname == 'HashAll': rebuild(cx, m, vt, f, base, buck)
    cx.need(cx.counts.get('methods of string tables', 0) >= 3, 'too few methods of string tables found')
    status(cx, cx.variant('maps'))
