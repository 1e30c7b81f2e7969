from events import Ev, Graph, admits
from session import CLS
import phases, loops
TECHNIQUE = 'typestate fixpoint over all call sequences; must-precede analysis on the graph of stream accesses of closing, opening and finishing a symbol'
RULE = ('From every reachable state of a writing session, every path through closing: (pending phases) ends the symbol data with the end mark, positions at the next free place, writes every table marker '
        'the reader expects, then positions at the reserved index, writes the index mark and positions, and writes nothing afterwards. Opening for writing fills the reserved space with zeros only, at '
        'least as many bytes as the index needs. The reader positions by index entries only after the index mark compared equal.')
EXPLANATION = 'Abstract interpretation of closing from each reachable session state, each stream access an event; forward must-analysis over the event graph.'
ASSUMPTIONS = ['in an append session the index of the previous session stays valid on disk until closing rewrites it']
WB = {'i': 4, 'l': 8, 'b': 1, 'w': 2, 'd': 8}

class E4(Ev):
    """the record encoder is one event; its own accesses are the subject of C07"""
    def enc(s, f): return f is not None and f.scope == CLS and f.sname == 'DoWrite'
    def should_inline(s, f, args, st, depth):
        if not s.plain and s.enc(f): return False
        return super().should_inline(f, args, st, depth)
    def on_call(s, fn, i, callee, args, st, opaque):
        super().on_call(fn, i, callee, args, st, opaque)
        if s.on and s.enc(callee): s.mknode(fn, i, callee, 'REC', '', None, (), None, st)

def must(s, api, start, transfer, bottom):
    """forward must-analysis from start over the event graph: node -> state before it; exits -> states"""
    st = {start: bottom}
    work = [start]
    while work:
        x = work.pop()
        out = transfer(x, st[x]) if x is not None else st[x]
        for y, g in s.edgs.get((api, x), ()):
            o = out
            n = join(st[y], o) if y in st else o
            if st.get(y) != n: st[y] = n; work.append(y)
    return st

def join(a, b):
    # (must-seen set, may-phase set, must-end flag)
    return (a[0] & b[0], a[1] | b[1])

def run(cx):
    m = cx.module()
    s = E4(m)
    s.on = False
    s.plain = True
    s.explore()
    s.plain = False
    N = s.nodes
    cl = s.api['gdxClose']
    # --- the reader's side -------------------------------------------------------------------
    init = s.initial()
    s.on = True
    ow = [(r, e) for r, e in s.runop(s.api['gdxOpenWriteEx'], init[0].copy())]
    vs = {e.mem.get((0, s.fld['VersionRead'])) for r, e in ow if r == 1}
    s.version = next(iter(vs)) if len(vs) == 1 else None
    orx = m.find(CLS, 'gdxOpenReadXX')
    cx.need(orx, 'gdxOpenReadXX not found')
    s.runop(orx[0], init[0].copy())
    s.on = False
    rn = [n for n in N if n.api == 'gdxOpenReadXX']
    rgp = [n for n in rn if n.kind == 'GetPosition' and 'this.MajorIndexPosition' in n.labels]
    cx.need(rgp, 'the reader does not determine the place of the index')
    markers = {n.const for n in rn if n.kind == 'R' and n.const.__class__ is str}
    secs = set()
    for p in rn:
        if p.kind == 'SetPosition':
            for y, g in s.edgs.get(('gdxOpenReadXX', p.id), ()):
                q = y
                seen = set()
                while q is not None and q not in seen and N[q].kind in ('SetCompression', 'GetPosition'):
                    seen.add(q); q = next((z for z, _ in s.edgs.get(('gdxOpenReadXX', q), ())), None)
                if q is not None and N[q].const.__class__ is str: secs.add(N[q].const)
    cx.need(len(secs) >= 4, 'sections expected by the reader not found (%s)' % sorted(secs))
    # the index mark: guard under which the reader goes on
    marks, idx = set(), None
    for g0 in rgp:
        for y, _ in s.edgs.get(('gdxOpenReadXX', g0.id), ()):
            q = N[y]
            if q.kind != 'R': continue
            idx = q
            gs = [g for z, g in s.edgs.get(('gdxOpenReadXX', y), ())]
            for z, g in s.edgs.get(('gdxOpenReadXX', y), ()):
                if N[z].kind == 'FlushBuffer' and not s.edgs.get(('gdxOpenReadXX', z)): continue  # giving up: the file is closed
                if g is None or g[0] != '=':
                    cx.violation('reader|mark', q.loc, q.fn, 'the reader goes on after the index mark without having compared it', '%s then %s' % (g, N[z].kind))
                else: marks.add(g[1])
    cx.need(idx is not None, 'the reader reads no index mark')
    if 0 in marks: cx.violation('reader|zero', idx.loc, idx.fn, 'the reader accepts an index that was never written', '')
    # every use of a position read comes after the index
    before = must(s, 'gdxOpenReadXX', None, lambda x, a: (a[0] | ({'idx'} if x == idx.id else set()), a[1]), (frozenset(), frozenset()))
    npos = 0
    for p in rn:
        if p.kind == 'SetPosition' and p.id in before:
            npos += 1
            if 'idx' not in before[p.id][0]: cx.violation('reader|position', p.loc, p.fn, 'the reader positions the file before it has verified the index', '')
    # the index: mark + one position per section the reader uses + next write position
    need = 4 + 8 * len({n.id for n in rn if n.kind == 'R' and n.wire == 'l' and not n.labels & {'TgdxSymbRecord.SPosition'} and rgp and n.id in reach(s, 'gdxOpenReadXX', rgp[0].id, lambda n: n.kind == 'SetPosition')})
    # --- opening: the reserved space ------------------------------------------------------------
    on = [n for n in N if n.api == 'gdxOpenWriteEx']
    gp = [n for n in on if n.kind == 'GetPosition' and 'this.MajorIndexPosition' in n.labels]
    if len(gp) != 1: cx.violation('open|place', s.api['gdxOpenWriteEx'].where, 'gdxOpenWriteEx', 'opening for writing does not record one place for the index', str(len(gp)))
    reserved, counted = 0, set()
    for g0 in gp:
        seen, work = set(), [y for y, _ in s.edgs.get(('gdxOpenWriteEx', g0.id), ())]
        while work:
            y = work.pop()
            if y in seen: continue
            seen.add(y)
            n = N[y]
            if n.kind == 'GetPosition' and 'this.NextWritePosition' in n.labels: continue
            if n.kind == 'W':
                if n.const != 0 and not (n.wire == 's'):
                    cx.violation('open|content', n.loc, n.fn, 'opening for writing puts %s into the space reserved for the index' % ('the value %s' % n.const if n.const is not None else 'a value that is not zero'), '')
                elif n.wire == 's': cx.violation('open|content', n.loc, n.fn, 'opening for writing puts text into the space reserved for the index', '')
                if n.ctx[1] not in counted:
                    counted.add(n.ctx[1])
                    reserved += WB.get(n.wire, 0) * (const_trip(m, n) or 1)
            if n.kind == 'SetPosition': cx.violation('open|moved', n.loc, n.fn, 'opening for writing moves the position inside the reserved space', '')
            work += [z for z, _ in s.edgs.get(('gdxOpenWriteEx', y), ())]
    for r, e in ow:
        if r == 1 and gp:
            v = e.mem.get((0, s.fld['NextWritePosition']))
            a = s.atom(v) if v is not None else None
            if not a or a[0] != 'ev': cx.violation('open|next', s.api['gdxOpenWriteEx'].where, 'gdxOpenWriteEx', 'opening for writing does not continue at the position after the reserved space', str(a))
            elif a[1] == gp[0].id: cx.violation('open|next', gp[0].loc, gp[0].fn, 'the first symbol would be written into the space reserved for the index', '')
    # --- closing -----------------------------------------------------------------------------------
    mn = lambda k: s.modenames.get(k[0], '?')
    wkeys = [k for k in s.states if k[1] == 2]
    cx.need(len(wkeys) >= 8, 'writing states not found')
    keepN = None
    npaths = nstates = 0
    idxbytes = 0
    for k in wkeys:
        s.edgs.clear(); s.exits.clear()
        s.on = True
        outs = s.runop(cl, s.states[k][0].copy())
        s.on = False
        nstates += 1
        pend = mn(k) in phases.WDAT + phases.WDOM if hasattr(phases, 'WDAT') else mn(k).startswith(('fw_raw', 'fw_map', 'fw_str', 'fw_dom'))
        def bad(key, n, msg):
            cx.violation('close|%s' % key, n.loc if n is not None else cl.where, n.fn if n is not None else cl.short, 'closing in phase %s: %s' % (mn(k), msg), 'calls leading there: %s' % ' -> '.join(s.history(k)))
        def tr(x, a):
            n = N[x]
            seen, ph = a
            if n.kind == 'SetPosition':
                if n.argd == ('this', 'MajorIndexPosition'):
                    if 'done' in ph or 'index' in ph or 'body' in ph: bad('twice', n, 'positions at the index more than once')
                    for c in sorted(secs):
                        if (c, 1) not in seen: bad('missing|' + c, n, 'reaches the index without having written the section %s' % c)
                        elif (c, 2) not in seen: bad('unclosed|' + c, n, 'reaches the index without having finished the section %s' % c)
                    return (seen, frozenset(('index',)))
                if 'index' in ph or 'body' in ph: bad('after', n, 'moves on after the index')
                if n.argd == ('this', 'NextWritePosition') or n.argd and n.argd[0] == 'ev' and N[n.argd[1]].kind == 'GetPosition': return (seen | {'pos'}, ph)
                return a
            if n.kind == 'REC' and 'end' in seen: bad('afterend', n, 'records are written after the end mark')
            if n.kind == 'W':
                if 'index' in ph:
                    if n.const not in marks or n.wire != idx.wire: bad('mark', n, 'the first item of the index is not the mark the reader expects')
                    return (seen, frozenset(('body',)))
                if 'body' in ph:
                    if n.wire != 'l': bad('last', n, 'writes something else after the index')
                    return a
                if n.wire == 's' and n.const in secs:
                    if 'pos' not in seen: bad('place', n, 'writes the tables without positioning at the next free place')
                    if pend and 'end' not in seen: bad('pending', n, 'writes the tables without having ended the data of the symbol being written')
                    return (seen | {(n.const, 2 if (n.const, 1) in seen else 1)}, ph)
                if n.wire == 'b' and n.const == 255: return (seen | {'end'}, ph)
            return a
        st = must(s, 'gdxClose', None, tr, (frozenset(), frozenset(('start',))))
        for nd, rc, g in s.exits.get('gdxClose', ()):
            npaths += 1
            if nd is None: bad('nothing', None, 'a path ends without writing anything'); continue
            a = tr(nd, st[nd]) if nd in st else None
            if a is not None and a[1] != frozenset(('body',)): bad('noindex', N[nd], 'a path ends without the index')
        if pend and not mn(k).endswith('raw') and 'raw' not in mn(k):
            if not any(n.api == 'gdxClose' and (n.kind == 'REC' or n.wire == 'd') and n.id in st for n in N):
                bad('records', None, 'the records collected so far are not written')
    # --- finishing a symbol --------------------------------------------------------------------------
    nd_ = 0
    dw = s.api['gdxDataWriteDone']
    for k in wkeys:
        if not mn(k).startswith(('fw_raw', 'fw_map', 'fw_str', 'fw_dom')): continue
        s.edgs.clear(); s.exits.clear()
        s.on = True
        outs = s.runop(dw, s.states[k][0].copy())
        s.on = False
        for r, e in outs:
            if r == 0: continue
            nd_ += 1
            v = e.mem.get((0, s.fld['NextWritePosition']))
            a = s.atom(v) if v is not None else None
            def bad(key, msg): cx.violation('done|' + key, dw.where, dw.short, 'finishing a symbol in phase %s: %s' % (mn(k), msg), '')
            if not a or a[0] != 'ev' or N[a[1]].kind != 'GetPosition': bad('next', 'the next free place is not taken from the position after the data'); continue
            # nothing is written after that position was taken, and the end mark before
            seen, work = set(), [a[1]]
            while work:
                x = work.pop()
                for y, _ in s.edgs.get(('gdxDataWriteDone', x), ()):
                    if y in seen: continue
                    seen.add(y); work.append(y)
                    if N[y].kind in ('W', 'REC'): bad('late', 'data is written after the next free place was taken')
            b = must(s, 'gdxDataWriteDone', None, lambda x, q: (q[0] | ({'end'} if N[x].kind == 'W' and N[x].wire == 'b' and N[x].const == 255 else set()), q[1]), (frozenset(), frozenset()))
            if a[1] in b and 'end' not in b[a[1]][0]: bad('end', 'the data is not ended by the end mark')
    cx.counts.update(writing_states=len(wkeys), closing_paths=npaths, sections=len(secs), positionings_checked=npos, finishing_paths=nd_, reserved_bytes=reserved, functions_analysed=len(s.visited), session_states=len(s.states))
    cx.counts['index_bytes'] = need
    if reserved and need > reserved: cx.violation('open|size', gp[0].loc, gp[0].fn, 'the space reserved for the index (%d bytes) is smaller than the index (%d bytes)' % (reserved, need), '')
    cx.sample('sections: %s' % sorted(secs))
    cx.sample('index mark: %s' % sorted(marks))

def reach(s, api, start, stop):
    seen, work = set(), [start]
    while work:
        x = work.pop()
        for y, _ in s.edgs.get((api, x), ()):
            if y in seen or stop(s.nodes[y]): continue
            seen.add(y); work.append(y)
    return seen

def const_trip(m, n):
    """number of times an event is repeated by a counted loop with constant bounds"""
    for f in m.fns.values():
        if f.decl or f.short != n.stack[-1]: continue
        blk = next((b for b, i in f.instrs() if id(i) == n.ctx[1]), None)
        if blk is None: continue
        k = 1
        for h, body in f.loops().items():
            if blk in body:
                c = loops.const_count(f, h)
                if c is None: return None
                k *= c
        return k
    return None
