"""C13: every refusal is reported with a distinct, described error."""
import tp, phases
from tp import TOP, isconst
from session import Session
RULE = ('(1) in every reachable session state an operation called outside its phases leaves a non-zero last error; (2) every exit of a writing, registering, defining or filtering '
        'operation that returns failure lies on a path that set the last error (if none was set) and incremented both error counters; the same holds for every operation that '
        'starts reading a symbol when the symbol number is invalid; (3) an open operation that returns failure sets ErrNr; (4) every code that is reported anywhere has an entry '
        'in the message table, no code has two entries and no two codes share a text')
EXPLANATION = ('typestate fixpoint over all call sequences for (1); trace-partitioned propagation over all paths of each operation with every helper inlined for (2) and (3); '
               'constant extraction from the initialiser of the message table and from all call sites of the reporting helpers for (4)')
TECHNIQUE = 'static analysis: typestate fixpoint and trace-partitioned constant propagation over the compiler IR, constant extraction'
ASSUMPTIONS = ['looking up something that does not exist (a name, label, text, record after the last) is an answer, not a refusal']
T = ('arg', 0)
REJECT = ('gdxDataWriteRawStart gdxDataWriteRawStartKeyBounds gdxDataWriteMapStart gdxDataWriteStrStart gdxDataWriteRaw gdxDataWriteMap gdxDataWriteStr gdxAddAlias '
          'gdxSymbolAddComment gdxUELRegisterRaw gdxUELRegisterStr gdxUELRegisterMap gdxUELRegisterRawStart gdxUELRegisterStrStart gdxUELRegisterMapStart gdxUELRegisterDone '
          'gdxFilterRegister gdxFilterRegisterStart gdxFilterRegisterDone gdxAcronymAdd gdxAcronymSetInfo gdxSymbolSetDomain').split()
BADSYM = ('gdxDataReadRawStart gdxDataReadStrStart gdxDataReadMapStart gdxDataReadFilteredStart gdxDataReadSliceStart gdxDataReadRawFast gdxDataReadRawFastEx '
          'gdxSymbolSetDomainX').split()
OPENS = ('gdxOpenWrite', 'gdxOpenWriteEx', 'gdxOpenAppend')

def run(cx):
    phase_errors(cx)
    m = cx.flat()
    off = {n: (o, z) for n, o, z, t in m.fields('gdx::TGXFileObj')}
    cx.need(all(k in off for k in ('LastError', 'ErrCnt', 'ErrCntTotal')), 'the members recording errors were not found')
    ops = {f.sname: f for f in m.fns.values() if not f.decl and f.scope == 'gdx::TGXFileObj' and f.sname.startswith('gdx')}
    for n in REJECT:
        if n in ops: rejecting(cx, m, ops[n], off, {}, 'every failing exit')
    for n in BADSYM:
        if n in ops: rejecting(cx, m, ops[n], off, {1: ('c', -5)}, 'an invalid symbol number', True)
    for n in OPENS:
        if n in ops: opening(cx, m, ops[n], off)
    messages(cx)

# ---- (1)
class S(Session):
    def begin(s, f, st):
        st = st.copy()
        st.mem[(0, s.le)] = 0
        return st
    def end(s, f, st0, ret, st): return st.mem.get((0, s.le))

def phase_errors(cx):
    s = S(cx.module())
    o = {n: x for n, x, z, t in cx.module().fields('gdx::TGXFileObj')}
    cx.need('LastError' in o, 'the member recording the last error was not found')
    s.le = o['LastError']
    s.explore()
    mn = lambda k: s.modenames.get(k[0], '?')
    for (k, op), outs in s.records.items():
        spec = phases.SPEC.get(op)
        if spec is None or mn(k) in spec[0] or op.startswith('gdxOpen'): continue
        for rc, k2, le in outs:
            cx.count('out-of-phase calls')
            vals = le[1] if isinstance(le, tuple) and le[0] == 'alt' else {le}
            if op == 'gdxGetDomainElements': vals = set(vals) - {0}   # a scalar has no domain to list
            if 0 in vals or not vals:
                f = s.api[op]
                cx.violation('phase|%s|%s' % (op, mn(k)), f.where, f.short, 'called in phase %s, to which it does not belong, no error is recorded' % mn(k),
                             'last error at the exit: %s\ncalls leading there: %s' % (le, ' -> '.join(s.history(k))))

# ---- (2)
class R(tp.TP):
    def __init__(s, m, f, off, **kw):
        tp.TP.__init__(s, m, f, preset={(T, off['LastError'][0]): ('c', 0), **kw.pop('pre', {})}, budget=kw.pop('budget', 40000), maxpart=8)
        s.w = {off[k][0]: k for k in ('LastError', 'ErrCnt', 'ErrCntTotal')}
        s.on_call = s.calls
        s.close = False
    def calls(s, st, cn, args, i):
        if 'TGXFileObj8gdxClose' in cn or 'gdxOpenReadXX' in cn: return s.fresh(st, i[1]) if i[1] >= 0 else TOP
        return None
    def store(s, st, p, v, size):
        if p[0] == 'p' and p[1] == T and p[2] in s.w:
            k = s.w[p[2]]
            t = st.tag or frozenset()
            if k == 'LastError': t = t - {k} if v == ('c', 0) else t | {k}
            elif v[0] == 'x' and v[1][0] == 'add' and ('c', 1) in v[1]: t = t | {k}
            st.tag = t or None
        tp.TP.store(s, st, p, v, size)

def rejecting(cx, m, f, off, argv, what, allexits=False):
    pre = {}
    if f.sname == 'gdxSymbolSetDomain': pre[(T, off['CurSyPtr'][0])] = ('p', ('nn', 'symbol'), 0)
    t = R(m, f, off, pre=pre)
    t.argv = argv
    def ret(st, v, j):
        if v is None: return
        rej = isconst(v) and (v[1] < 0 or v[1] == 0 and f.sname != 'gdxAcronymAdd')   # 0: the same acronym is there already
        if not rej and not allexits: return
        cx.count('failing exits')
        miss = {'LastError', 'ErrCnt', 'ErrCntTotal'} - (st.tag or set())
        if miss == {'LastError'} and t.load(st, ('p', T, off['LastError'][0]), 4) != ('c', 0): miss = set()  # an error was recorded before
        if miss == {'LastError', 'ErrCnt', 'ErrCntTotal'}:
            cx.violation('quiet|%s|%s' % (f.sname, what), wh(f, j), f.sname, 'a path returns failure without reporting an error (%s)' % what, show(st))
        elif miss:
            cx.violation('partial|%s|%s' % (f.sname, ','.join(sorted(miss))), wh(f, j), f.sname, 'a reported error does not reach %s' % ', '.join(sorted(miss)), show(st))
    t.on_ret = ret
    t.run()
    cx.count('operations with failing exits')
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the operation could not be enumerated', '')
def wh(f, i):
    w = str(i[3]) if i is not None and len(i) > 3 and i[3] else ''
    return w if ':' in w else f.where
def show(st): return 'path conditions: ' + '; '.join('%s is %s' % (str(e)[:160], b) for e, b in sorted(st.facts, key=str))[:1500]

# ---- (3)
def opening(cx, m, f, off):
    t = R(m, f, off)
    e = ('arg', len(f.args) - 1)
    # ErrNr is non-zero exactly on the paths that return failure: followed through the branch on it
    def calls(st, cn, args, i):
        if 'TGXFileObj8gdxClose' in cn: return t.fresh(st, i[1]) if i[1] >= 0 else TOP
        if 'gdxOpenReadXX' in cn or 'gdxOpenWriteEx' in cn:
            t.store(st, args[-1], ('c', -1), 4)
            return ('c', 0)
        return None
    t.on_call = calls
    def ret(st, v, j):
        if not (isconst(v) and v[1] == 0): return
        cx.count('failing exits of open operations')
        c = t.load(st, ('p', e, 0), 4)
        if isconst(c) and c[1] != 0: return
        if not isconst(c) and c != TOP and any(isinstance(x, tuple) and x[0] == 'eq' and c in x and ('c', 0) in x and not b for x, b in st.facts): return
        if c == TOP and st.tag and 'ErrNr' in st.tag: return
        cx.violation('open|%s' % f.sname, wh(f, j), f.sname, 'a path returns failure with ErrNr not set', 'ErrNr: %r; %s' % (c, show(st)))
    t.on_ret = ret
    t.keyfacts = False
    # remember that a known or tested value was stored
    def store(st, p, v, size):
        if p == ('p', e, 0):
            g = st.tag or frozenset()
            nz = isconst(v) and v[1] != 0
            st.tag = (g | {'ErrNr'} if nz else g - {'ErrNr'}) or None
        R.store(t, st, p, v, size)
    t.store = store
    t.run()
    if t.over: cx.violation('budget|%s' % f.sname, f.where, f.short, 'the paths of the operation could not be enumerated', '')

# ---- (4)
def messages(cx):
    m = cx.module()
    used = {}
    for f in m.fns.values():
        if f.decl: continue
        for b in f.blocks:
            for i in b:
                if i[0] not in ('call', 'invoke'): continue
                g = m.fns.get(m.callee_name(i) or '')
                if not g or not g.scope.endswith('TGXFileObj') or g.sname not in ('ErrorCondition', 'ReportError', 'SetError'): continue
                a = i[5][-1]
                if a[0] == 'c': used.setdefault(a[1], (f, i))
    cx.need(len(used) > 10, 'the calls reporting errors were not found')
    tab = table(m)
    if not tab: cx.count('message table entries', 0); return
    cx.count('reported codes', len(used)); cx.count('message table entries', len(tab))
    names = {}
    for g, d in m.globals.items():
        if (d.get('dname') or '').startswith('ERR_') and d.get('const') and d.get('init') and d['init'][0] == 'c':
            n = names.setdefault(d['init'][1], d['dname'])
            if n != d['dname']: cx.violation('samecode|%s' % d['dname'], d['loc'], d['dname'], '%s and %s are the same error code' % (n, d['dname']), '')
    codes, texts = {}, {}
    for c, t, loc, f in tab:
        if c in codes: cx.violation('dupcode|%s' % c, loc, f.sname, 'error code %d has two entries in the message table' % c, '%r and %r' % (codes[c], t))
        if t in texts and texts[t] != c: cx.violation('duptext|%s' % t[:40], loc, f.sname, 'error codes %d and %d have the same message' % (texts[t], c), t)
        if not t: cx.violation('notext|%s' % c, loc, f.sname, 'error code %d has an empty message' % c, '')
        codes.setdefault(c, t); texts.setdefault(t, c)
    for c, (f, i) in sorted(used.items()):
        if c and c not in codes: cx.violation('nomessage|%d' % c, wh(f, i), f.short, 'error code %d is reported but has no message' % c, '')

def table(m):
    """(code, text, place) of the entries of the initialiser of the map from codes to texts"""
    best = []
    for f in m.fns.values():
        if f.decl or not (f.name.startswith('__cxx_global_var_init') or f.name.startswith('_GLOBAL__sub_I')): continue
        out = []
        strs = {}        # alloca of a string -> text
        for b in f.blocks:
            for i in b:
                if i[0] not in ('call', 'invoke'): continue
                cn = m.callee_name(i) or ''
                a = i[5]
                txt = [x[1] for x in a if x[0] == 'g' and text(m, x[1]) is not None]
                if txt and a[0][0] == 'v' and 'St4pair' not in cn: strs[a[0][1]] = text(m, txt[0])
                if 'St4pair' in cn and len(a) >= 3:
                    code = const(m, f, a[1])
                    t = strs.get(a[2][1]) if a[2][0] == 'v' else text(m, a[2][1]) if a[2][0] == 'g' else None
                    if code is not None and t is not None: out.append((code, t, wh(f, i), f))
        if len(out) > len(best): best = out
    return best
def text(m, g):
    d = m.globals.get(g)
    if not d or not d.get('init') or d['init'][0] != 's': return None
    return bytes(x & 255 for x in d['init'][1]).split(b'\0')[0].decode('latin1')
def const(m, f, o):
    if o[0] == 'c': return o[1]
    if o[0] == 'g':
        d = m.globals.get(o[1])
        if d and d.get('const') and d.get('init') and d['init'][0] == 'c': return d['init'][1]
        return None
    if o[0] == 'v':
        k = f.idef(o)
        if k and k[0] == 'load': return const(m, f, k[4])
        if k and k[0] == 'alloca':
            st = [i for b in f.blocks for i in b if i[0] == 'store' and i[5] == o]
            if len(st) == 1: return const(m, f, st[0][4])
    return None
