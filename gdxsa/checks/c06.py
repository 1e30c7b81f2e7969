from events import Ev, Graph, include, CTRL
from session import CLS
TECHNIQUE = 'interprocedural event-graph extraction from reader and writer, language inclusion of the writer\'s item sequence in the reader\'s, attribute provenance per item'
RULE = ('Every feasible sequence of items (wire type, constant, attribute) that opening for writing and closing put into header, index and each table is a sequence the '
        'opening reader accepts at the position it takes from the matching index slot; attributes on both sides agree; loops around items run once per counted entry.')
EXPLANATION = ('Abstract interpretation of gdxOpenWriteEx, gdxClose and gdxOpenReadXX with every stream primitive call as an event; index slots are paired by position and '
               'give the start of each table on both sides; product construction of both event graphs, with value guards on flag bytes and markers.')
ASSUMPTIONS = ['files of the version this library writes; branches for older versions are outside the rule']

def shared(m):
    """event graphs of opening for writing, closing, opening for reading"""
    s = Ev(m)
    s.on = False
    init = s.initial()
    s.on = True
    return s, init

def cat(l):
    return l.split('.')[0]
def labels_ok(w, r):
    wl, rl = w.labels, r.labels
    for c in {cat(x) for x in wl} & {cat(x) for x in rl}:
        if not ({x for x in wl if cat(x) == c} & {x for x in rl if cat(x) == c}): return False
    return True

def mk_match(marks):
    def match(w, r):
        if w.wire != r.wire: return False
        if w.wire == 's':
            if r.const is not None: return w.const == r.const
            if w.const in marks and r.labels: return False
        return labels_ok(w, r)
    return match

def where(m, n): return n.loc

def build(cx, m):
    s, init = shared(m)
    ow, cl = s.api['gdxOpenWriteEx'], s.api['gdxClose']
    orx = m.find(CLS, 'gdxOpenReadXX')
    cx.need(orx, 'gdxOpenReadXX not found')
    res = s.runop(ow, init[0].copy())
    ok = [x for r, e in res if r == 1 for x in s.split(s.canon(e))]
    cx.need(ok, 'no successful path of opening for writing')
    vo = s.fld.get('VersionRead')
    vs = {e.mem.get((0, vo)) for r, e in res if r == 1}
    cx.need(len(vs) == 1 and next(iter(vs)).__class__ is int, 'version written is not a constant')
    for x in ok: s.runop(cl, x.copy())
    s.version = next(iter(vs))
    s.runop(orx[0], init[0].copy())
    return s

def loops_of(m, s, n):
    """innermost loop around an event and its trip count relative to the bound: (function, header, boundop, offset) or None"""
    return None

def run(cx):
    m = cx.module()
    s = build(cx, m)
    N = s.nodes
    eps = lambda n: n.kind in ('SetCompression', 'GetPosition', 'FlushBuffer')
    wnodes = [n for n in N if n.kind == 'W']
    rnodes = [n for n in N if n.kind == 'R']
    cx.need(len(wnodes) >= 30 and len(rnodes) >= 30, 'too few items found (%d written, %d read)' % (len(wnodes), len(rnodes)))
    marks = {n.const for n in rnodes if n.const.__class__ is str}
    match = mk_match(marks)
    def describe(x):
        if x == 'END': return 'the end of the section'
        n = N[x]
        t = {'s': 'string', 'i': '4-byte integer', 'l': '8-byte integer', 'b': 'byte', 'w': '2-byte integer', 'd': 'double', 'raw': 'block', 'c': 'char'}.get(n.wire, n.wire)
        return '%s%s%s (%s)' % (t, ' %r' % (n.const,) if n.const is not None else '', ' of ' + '/'.join(sorted(n.labels)) if n.labels else '', n.loc)
    allpairs, steps = set(), 0
    def compare(W, ws, R, rs, what):
        nonlocal steps
        bad, pairs, k = include(s, W, ws, R, rs, match)
        steps += k
        allpairs.update(pairs)
        for w, w2, exp, rset in bad[:3]:
            d = 'after %s the writer writes %s; the reader can only take: %s' % (describe(w) if w is not None else 'the start', describe(w2), '; '.join(sorted(describe(e) for e in exp)) or 'nothing')
            n = N[w2] if w2 != 'END' else (N[w] if w is not None else None)
            r = sorted(e for e in exp if e != 'END')
            key = '%s|%s|%s' % (what, repr(n), repr(N[r[0]]) if r else 'END')
            cx.violation(key, n.loc if n else '', n.fn if n else '', '%s: reader and writer disagree: %s' % (what, d), 'writer call path: %s' % (' > '.join(n.stack) if n else ''))
        return pairs
    # header and index
    hw = Graph(s, 'gdxOpenWriteEx', lambda n: n.kind == 'GetPosition', lambda n: n.kind == 'SetCompression', 1)
    wi = [n for n in N if n.api == 'gdxClose' and n.kind == 'SetPosition' and n.argd == ('this', 'MajorIndexPosition')]
    gp = [n for n in N if n.api == 'gdxOpenWriteEx' and n.kind == 'GetPosition' and 'this.MajorIndexPosition' in n.labels]
    cx.need(len(gp) == 1, 'place of the index in a new file not found')
    rgp = [n for n in N if n.api == 'gdxOpenReadXX' and n.kind == 'GetPosition' and 'this.MajorIndexPosition' in n.labels]
    cx.need(len(rgp) == 1, 'place of the index when reading not found')
    hr = Graph(s, 'gdxOpenReadXX', lambda n: n.kind in ('SetPosition', 'GetPosition'), lambda n: n.kind == 'SetCompression', 1)
    compare(hw, None, hr, None, 'file header')
    if len(wi) != 1:
        cx.violation('index|nowrite', cl_where(m), 'gdxClose', 'closing does not write the index exactly once at the place reserved for it', '')
        wi = []
    iw = Graph(s, 'gdxClose', lambda n: n.kind == 'SetPosition', eps)
    ir = Graph(s, 'gdxOpenReadXX', lambda n: n.kind == 'SetPosition', eps, 1)
    slots = {}
    if wi:
        for w, r in compare(iw, wi[0].id, ir, rgp[0].id, 'index'):
            slots.setdefault(r, set()).add(N[w].argd)
    nsec = 0
    sw = Graph(s, 'gdxClose', lambda n: n.kind == 'SetPosition' or n.kind == 'GetPosition', lambda n: n.kind == 'SetCompression')
    sr = Graph(s, 'gdxOpenReadXX', lambda n: n.kind == 'SetPosition', eps, 1)
    for p in [n for n in N if n.api == 'gdxOpenReadXX' and n.kind == 'SetPosition']:
        if not p.argd or p.argd[0] != 'ev':
            cx.violation('position|%s' % p.loc.split(':')[0], p.loc, p.fn, 'the reader positions the file at a value that is not a single index entry', ''); continue
        src = slots.get(p.argd[1], set())
        nm = sorted(N[x].const or '' for x, _ in sr.succ(p.id) if x != 'END')
        what = 'section %s' % '/'.join(nm)
        if len(src) != 1:
            cx.violation('slot|%s' % what, p.loc, p.fn, '%s: the index entry used by the reader corresponds to no single position written' % what, str(src)); continue
        d = next(iter(src))
        if d and d[0] == 'ev': starts = [d[1]]
        elif d and d[0] == 'this': starts = [n.id for n in N if n.api == 'gdxClose' and n.kind == 'SetPosition' and n.argd == d]
        else: starts = []
        if len(starts) != 1:
            cx.violation('start|%s' % what, p.loc, p.fn, '%s: the position written into the index is not the position of a section (%s)' % (what, d), ''); continue
        nsec += 1
        compare(sw, starts[0], sr, p.id, what)
    cx.need(nsec >= 5 or cx.viol, 'only %d table sections found' % nsec)
    # an attribute that is written must not be read into nothing
    for w, r in sorted(allpairs):
        if any(cat(l) not in ('this',) for l in N[w].labels) and not N[r].labels and not N[r].tested and N[r].wire != 's':
            cx.violation('drop|%r' % N[w], N[r].loc, N[r].fn, 'the reader reads %s and discards it' % describe(w), '')
    modes = {a: comp_modes(s, a) for a in {n.api for n in N}}
    for w, r in sorted(allpairs):
        a, b = modes[N[w].api].get(w, set()), modes[N[r].api].get(r, set())
        cx.count('compression_modes_compared')
        if a and b and a != b:
            t = {'off': 'uncompressed', 'on': 'under the compression flag of the file'}
            cx.violation('compression|%r' % N[w], N[w].loc, N[w].fn, '%s is written %s but read %s' % (describe(w), ' or '.join(sorted(t[x] for x in a)), ' or '.join(sorted(t[x] for x in b))), '')
    trips(cx, m, s, allpairs, describe)
    cx.counts.update(items_written=len(wnodes), items_read=len(rnodes), item_pairs_matched=len(allpairs), table_sections=nsec, product_states=steps, functions_analysed=len(s.visited))
    for w, r in sorted(allpairs)[:10]: cx.sample('%s <-> %s' % (describe(w), describe(r)))

def comp_modes(s, api, entry='off', cls=lambda a: 'off' if a == ('c', 0) else 'on'):
    """event -> compression modes the stream can be in when it happens; an operation starts with compression off"""
    out, work, seen = {}, [(None, entry)], set()
    while work:
        x, md = work.pop()
        if (x, md) in seen: continue
        seen.add((x, md))
        for y, _ in s.edgs.get((api, x), ()):
            out.setdefault(y, set()).add(md)
            n = s.nodes[y]
            work.append((y, md if n.kind != 'SetCompression' else cls(n.argd)))
    return out

def cl_where(m):
    return m.find(CLS, 'gdxClose')[0].where

def trips(cx, m, s, pairs, describe):
    from loops import trip
    import collections
    n = 0
    for w, r in sorted(pairs):
        tw, tr = trip(m, s, s.nodes[w]), trip(m, s, s.nodes[r])
        for x, a, b in ((w, tw, tr), (r, tr, tw)):
            if a == 'start' and isinstance(b, int):
                cx.violation('trip|%r' % s.nodes[x], s.nodes[x].loc, s.nodes[x].fn, 'the loop around %s starts at a position computed at run time, its counterpart at a fixed one' % describe(x), '')
        if isinstance(tw, str): tw = None
        if isinstance(tr, str): tr = None
        for t, x in ((tw, w), (tr, r)):
            if t is not None: n += 1
        if tw is not None and tr is not None and tw != tr:
            cx.violation('trip|%r' % s.nodes[w], s.nodes[r].loc, s.nodes[r].fn, '%s is written %+d times relative to its count but read %+d times as %s' % (describe(w), tw, tr, describe(r)), '')
        elif (tw or 0) != 0 and tr is None or (tr or 0) != 0 and tw is None:
            x = w if (tw or 0) != 0 else r
            cx.violation('trip|%r' % s.nodes[x], s.nodes[x].loc, s.nodes[x].fn, 'the loop around %s does not run once per counted entry (%+d)' % (describe(x), tw if x == w else tr), '')
    cx.counts['loop_trip_counts_compared'] = n
