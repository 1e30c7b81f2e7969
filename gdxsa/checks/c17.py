"""C17: look-up of names ignores letter case, consistently."""
import tp, hashlist
from tp import TOP, isconst
from hashlist import HL, T, form, isnull, mentions, chain
from checks.c15 import wh
from checks.c19 import lists, rebuild
RULE = ('For every string table: characters the comparison treats alike change the hash alike, in every state of the hash and at every position; in the tables of symbols, elements and domains the comparison treats upper and lower case letters '
        'alike and everything else apart, in the table of texts every character apart. A look-up or an insertion walks the whole chain of the hash of the string given, answers with the number of an entry only if the comparison of its '
        'string with the one given says they are equal, and reports "none" or adds an entry only at the end of the chain. The acronym list is searched in full with the same comparison.')
EXPLANATION = 'transfer function of one iteration of the hash and comparison loops for each of the 256 characters with everything else symbolic; path conditions and chain provenance in every look-up and insertion'
TECHNIQUE = 'static analysis: loop transfer functions over the finite character domain and path-condition analysis of the chain walk, on the compiler IR'
ASSUMPTIONS = ['strcasecmp and strcmp behave as in the C locale', 'a session uses one table implementation per member, the one of the declared type']

def alike(a, b, fold):
    if not fold: return a == b
    f = lambda c: c ^ 32 if 97 <= c <= 122 else c
    return f(a) == f(b)

class One(tp.TP):
    """one iteration of a loop over strings: the characters at the current position are constants, everything else is a symbol"""
    def __init__(s, m, f, chars):
        tp.TP.__init__(s, m, f, budget=10**9)
        s.chars, s.maxdepth = chars, 40
        s.on_call = s.calls
    def base(s, p):
        while p[0] == 'px': p = p[1]
        return p[1] if p[0] == 'p' else None
    def load(s, st, p, size):
        b = s.base(p)
        if size == 1 and b and b[0] == 'arg' and b[1] in s.chars:
            c = s.chars[b[1]]
            return ('c', c - 256 if c > 127 else c)
        return tp.TP.load(s, st, p, size)
    def calls(s, st, cn, args, i):
        if cn in ('toupper', 'tolower') and isconst(args[0]):
            c = args[0][1]
            return ('c', c ^ 32 if (97 <= c <= 122 if cn == 'toupper' else 65 <= c <= 90) else c)
        return None
    def outcomes(s, head, body):
        """{(facts): (where it goes, what the loop variables or the result become)}"""
        f = s.f
        st = tp.St()
        s.states, s.cur, s.final, s.widephi = {}, None, True, set()
        for i in f.blocks[head]:
            if i[0] == 'phi':
                d = [o for o, p in i[4] if p not in body]
                src = strptr(f, ['v', i[1]])
                st.env[i[1]] = ('px', ('p', ('arg', src), 0), 0, 1, ('x', ('def', i[1]))) if i[2] == 'ptr' and src is not None else ('x', ('def', i[1]))
        out = set()
        work = [(head, None, st, 0)]
        n = 0
        while work:
            b, pb, st, k = work.pop()
            n += 1
            if n > 400: return None
            st = st.copy()
            if pb is not None:
                vals = {}
                for i in f.blocks[b]:
                    if i[0] != 'phi': break
                    for o, p in i[4]:
                        if p == pb: vals[i[1]] = s.val(st, o)
                if b == head:
                    out.add((st.facts, 'next', tuple(sorted((x, str(v)) for x, v in vals.items()))))
                    continue
                for x, v in vals.items():
                    if v == TOP: st.env.pop(x, None)
                    else: st.env[x] = v
            for i in f.blocks[b]:
                if i[0] == 'phi': continue
                if i[0] == 'ret':
                    out.add((st.facts, 'ret', str(s.val(st, i[4])) if len(i) > 4 and i[4] else ''))
                    break
                nx = s.exec(st, i, b)
                if nx is None: continue
                for y, add in nx:
                    t = st.copy()
                    if add:
                        if s.contradict(st.facts, add): continue
                        t.facts = st.facts | frozenset(add)
                    work.append((y, b, t, k + 1))
        return out

def strptr(f, o, seen=None):
    """the argument a pointer walks along, or None"""
    seen = seen or set()
    for _ in range(10):
        if o[0] != 'v': return None
        if o[1] < len(f.args): return o[1] if f.args[o[1]][1] == 'ptr' else None
        d = f.idef(o)
        if d is None or d[1] in seen: return None
        seen.add(d[1])
        if d[0] == 'getelementptr': o = d[4]
        elif d[0] == 'phi':
            r = {strptr(f, x, seen) for x, _ in d[4]} - {None}
            return r.pop() if len(r) == 1 else None
        else: return None
    return None

def loops_over(f, n):
    """loops in which characters of all n string arguments are read"""
    out = []
    for h, body in f.loops().items():
        a = {strptr(f, i[4]) for b in body for i in f.blocks[b] if i[0] == 'load' and i[2] == 'i8'} - {None, 0}
        if len(a) >= n: out.append((h, body, sorted(a)))
    return out

def compare(cx, m, f, fold, what):
    """the comparison treats exactly the same characters alike"""
    ext = {m.callee_name(i) for b, i in f.instrs() if i[0] in ('call', 'invoke')}
    ls = loops_over(f, 2)
    if 'strcasecmp' in ext or 'strcmp' in ext:
        cx.count('comparisons')
        if ('strcasecmp' in ext) != fold: cx.violation('compare|%s' % what, f.where, f.short, 'the %s are compared %s letter case' % (what, 'with regard to' if fold else 'without regard to'), '')
        return
    if not ls:
        cx.count('comparisons not understood')
        return
    cx.count('comparisons')
    h, body, args = ls[0]
    for a in range(1, 256):
        for b in {a, a ^ 32, a ^ 128, (a + 1) & 255 or 1, a | 1}:
            if not b: continue
            o = One(m, f, {args[0]: a, args[1]: b}).outcomes(h, body)
            if o is None: return
            kinds = {x[1] for x in o}
            cx.count('pairs of characters')
            if alike(a, b, fold) != ('next' in kinds):
                cx.violation('compare|%s' % what, f.where, f.short, 'the %s are compared so that the characters %d and %d count as %s' % (what, a, b, 'different' if alike(a, b, fold) else 'the same'), '')
                return

def hashing(cx, m, f, fold, what):
    ls = loops_over(f, 1)
    if not ls:
        cx.count('hashes not understood')
        return
    cx.count('hash functions')
    h, body, args = ls[0]
    for a in range(1, 256):
        if not fold or not 97 <= a <= 122: continue
        x, y = (One(m, f, {args[0]: c}).outcomes(h, body) for c in (a, a ^ 32))
        cx.count('characters hashed')
        if x != y or x is None:
            cx.violation('hash|%s' % what, f.where, f.short, 'the %s %r and %r count as the same but are hashed differently' % (what, chr(a ^ 32), chr(a)), '')
            return
    if not fold: cx.count('characters hashed', 255)

def lookup(cx, m, vt, f, base, buck):
    t = HL(m, f, vt, base, buck)
    key = next((a for a in range(1, len(f.args)) if f.args[a][1] == 'ptr'), None)
    if key is None: return
    S = ('p', ('arg', key), 0)
    uses = [i for b, i in f.instrs() if i[0] in ('call', 'invoke') and i[4][0] == 'v']
    for c in t.cursors:
        k = chain(m, f, vt, ['v', c], t.bo)
        if not {'head', 'next'} <= k or k - {'head', 'next', 'null'}: cx.violation('chain|%s' % f.sname, f.where, f.short, 'the chain of a hash is not walked from its head along its links', '%s' % sorted(k))
    walked = []
    def ret(st, v, j):
        cx.count('paths of look-ups')
        same = [e for e, b in st.facts if b and isinstance(e, tuple) and e[0] == 'same']
        heads = {e[1] for e in st.tag or () if e[0] == 'slot'}
        if same:
            walked.append(1)
            for e in same:
                texts = [x for x in e[1:] if x != S]
                ok = False
                if S in e[1:] and len(texts) == 1:
                    x = texts[0]
                    if x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][1][0] == 'obj' and x[1][2] == t.bo['StrP']:
                        nr = ('x', ('m', x[1][1], t.bo['StrNr'], 4))
                        fo = form(v) if v is not None and v != TOP else None
                        sl = v[1] if v is not None and v != TOP and v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'sel' else None
                        if sl and mentions(sl[1], ('m', T, t.off['OneBased'], 1)):
                            # the whole number chosen by the numbering
                            fa, fb = form(sl[2]), form(sl[3])
                            ok = bool(fa) and bool(fb) and fa.get(nr) == 1 == fb.get(nr) and abs(fa.get(1, 0) - fb.get(1, 0)) == 1 and set(fa) | set(fb) <= {nr, 1} and 0 in (fa.get(1, 0), fb.get(1, 0))
                        elif fo and fo.get(nr) == 1:
                            rest = {k: c for k, c in fo.items() if k != nr}
                            ok = len(rest) == 1 and 1 not in rest and all(c == 1 and mentions(k, ('m', T, t.off['OneBased'], 1)) for k, c in rest.items())
                        if any(e2[0] in ('str', 'nr', 'slot') for e2 in st.tag or ()): ok = False
                if not ok: cx.violation('found|%s' % f.sname, wh(f, j), f.short, 'a look-up answers with something other than the number of the entry found equal', '%s' % (v,))
        else:
            end = any(b and isinstance(e, tuple) and len(e) == 3 and e[0] == 'eq' and ('c', 0) in e[1:] and any(x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'def' and x[1][1] in t.cursors for x in e[1:]) for e, b in st.facts)
            walked.append(0)
            if not end: cx.violation('end|%s' % f.sname, wh(f, j), f.short, 'a look-up ends without an equal entry before the end of the chain', '')
            fo = form(v) if v is not None and v != TOP else None
            if any(e2[0] == 'nr' for e2 in st.tag or ()):
                if v is not None and v != TOP and v[0] == 'x' and isinstance(v[1], tuple) and v[1][0] == 'sel': fos = [form(v[1][2]), form(v[1][3])]
                else: fos = [fo]
                if not all(x and x.get(t.mem('FCount')) == 1 for x in fos): cx.violation('added|%s' % f.sname, wh(f, j), f.short, 'adding an entry answers with something other than its number', '%s' % (v,))
            elif v != ('c', -1): cx.violation('none|%s' % f.sname, wh(f, j), f.short, 'a look-up that finds nothing does not answer "none"', '%s' % (v,))
    t.on_ret = ret
    # the chain starts at the hash of the string given
    orig = t.load
    def load(st, p, size):
        a = t.hashidx(p)
        if a is not None and t.final and a != S: cx.violation('key|%s' % f.sname, f.where, f.short, 'a look-up uses the hash of something other than the string given', '%s' % (a,))
        if a is not None and t.final:
            ph = t.now(st, 'PHashTable')
            if not (hashlist.notnull(st, ph) or any(mentions(e, t.mem('ReHashCnt')) for e, b in st.facts)): cx.violation('missing|%s' % f.sname, f.where, f.short, 'a look-up uses the hash table although it may have to be rebuilt', '')
        return orig(st, p, size)
    t.load = load
    # with every hash table that may be missing rebuilt before
    t.run()
    cx.count('look-ups')
    if not t.cursors: cx.violation('walk|%s' % f.sname, f.where, f.short, 'a look-up does not walk the chain of the hash', '')
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the method could not be enumerated', '')

def findname(cx, m):
    """the acronym list"""
    for f in m.fns.values():
        if f.decl or not f.scope.endswith('TAcronymList') or f.sname != 'FindName': continue
        off = {n: o for n, o, z, t in m.fields('gdx::TAcronymList')}
        t = tp.TP(m, f, budget=8000)
        t.keyfacts = t.namephi = True
        def calls(st, cn, args, i):
            g = m.fns.get(cn)
            if cn in ('strcasecmp', 'strcmp'): return ('x', ('cmp', cn, args[0], args[1]))
            if g and g.sname == 'sameTextPChar': return ('x', ('equal', args[0], args[1]))
            return None
        t.on_call = calls
        hs = f.loops()
        t.opaque = {i[1] for h in hs for i in f.blocks[h] if i[0] == 'phi'}
        S = ('p', ('arg', 1), 0)
        kinds = set()
        def ret(st, v, j):
            cx.count('paths of look-ups')
            hit = [e for e, b in st.facts if isinstance(e, tuple) and (b and e[0] == 'eq' and ('c', 0) in e[1:] and any(x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'cmp' for x in e[1:]) or b and e[0] == 'equal')]
            for e in hit:
                c = next((x[1] for x in e[1:] if x[0] == 'x' and isinstance(x[1], tuple) and x[1][0] == 'cmp'), None)
                if c and c[1] != 'strcasecmp': cx.violation('compare|acronyms', wh(f, j), f.short, 'acronyms are compared with regard to letter case', '')
                if c and S not in c[2:]: cx.violation('compare|acronyms', wh(f, j), f.short, 'acronyms are not compared with the name given', '')
            if v == ('c', -1):
                kinds.add('none')
                if hit: cx.violation('found|acronyms', wh(f, j), f.short, 'an acronym that was found is not reported', '')
            else: kinds.add('some')
        t.on_ret = ret
        t.run()
        cx.count('look-ups')
        ext = {m.callee_name(i) for b, i in f.instrs() if i[0] in ('call', 'invoke')}
        if ext & {'strcmp', 'strncmp', 'memcmp', 'bcmp'} and not ext & {'strcasecmp', 'strncasecmp'} and not any(m.fns.get(n) and m.fns[n].sname == 'sameTextPChar' for n in ext):
            cx.violation('compare|acronyms', f.where, f.short, 'acronyms are compared with regard to letter case', '')
        for h, body in hs.items():
            for i in f.blocks[h]:
                if i[0] != 'phi' or i[2] == 'ptr': continue
                ini = [o for o, p in i[4] if p not in body]
                stp = [f.idef(o) for o, p in i[4] if p in body]
                if len(ini) == 1 and ini[0][0] == 'c' and any(x is not None and x[0] == 'add' for x in stp):
                    if ini[0][1] != 0 or not all(x is not None and x[0] == 'add' and x[5][0] == 'c' and x[5][1] == 1 for x in stp if x is not None):
                        cx.violation('all|acronyms', f.where, f.short, 'the search for an acronym does not visit every one', '')

def run(cx):
    m = cx.variant('hash')
    vt = hashlist.slots(m)
    cx.need({'Hash', 'EntryEqual'} <= set(vt.values()), 'virtual functions of the string tables not found')
    ls = lists(m)
    # which table is which
    want = {}
    for n, o, z, ty in m.fields('gdx::TGXFileObj') or cx.module().fields('gdx::TGXFileObj'):
        if n in ('NameList', 'DomainStrList') and 'HashList' in ty: want.setdefault('CS' not in ty.split('HashList')[0][-6:], []).append((n, ty))
        if n == 'SetTextList' and 'HashList' in ty: want.setdefault('text', []).append((n, ty))
    for cls, fs in sorted(ls.items()):
        sens = cls.startswith('gdlib::strhash::TXCSStrHashList<')
        arg = cls[cls.index('<'):]
        base, buck = 'gdlib::strhash::TXStrHashList' + arg, 'gdlib::strhash::THashBucket' + arg
        what = 'texts' if sens else 'names'
        for f in fs:
            if f.sname == 'EntryEqual': compare(cx, m, f, not sens, what)
            elif f.sname == 'Hash': hashing(cx, m, f, not sens, what)
            elif f.sname in ('IndexOf', 'AddObject', 'Add') and m.fields(buck) and m.fields(base): lookup(cx, m, vt, f, base, buck)
            elif f.sname == 'HashAll' and m.fields(buck) and m.fields(base): rebuild(cx, m, vt, f, base, buck)
    cx.need(cx.counts.get('look-ups', 0) >= 3, 'too few look-ups found')
    findname(cx, m)
    members(cx, cx.module())

def members(cx, m):
    for n, o, z, ty in m.fields('gdx::TGXFileObj'):
        if 'StrHashList' not in ty: continue
        cx.count('string tables of a session')
        sens = 'TXCSStrHashList' in ty
        if n in ('NameList', 'DomainStrList') and sens: cx.violation('member|%s' % n, 'src/gxfile.hpp', n, 'names are kept in a table that regards letter case', ty)
        if n == 'SetTextList' and not sens: cx.violation('member|%s' % n, 'src/gxfile.hpp', n, 'texts are kept in a table that ignores letter case', ty)
