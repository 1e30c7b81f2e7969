from ambient import Watch, FILEMOD, ambient_kind, stream_classes
from session import CLS
from ai import Interp, St
TECHNIQUE = 'typestate fixpoint over all call sequences with an effect monitor; constant propagation of the access mode down to the system open call'
RULE = ('In no reachable state of a reading session does any path of any operation call a writing operation of a stream or a file-modifying function outside the streams. A stream is created with read access by '
        'the reading opens, with update access only by append, with create access only by opening for writing; the flags of the system open call match these modes.')
EXPLANATION = 'Abstract interpretation of every public operation from every reachable state of a session, watching stream and file calls on feasible paths.'
ASSUMPTIONS = ['a stream that was never written to has nothing to flush when it is closed (C25)', 'POSIX branch of the conditional code']
O_ACC, O_CREAT, O_TRUNC, O_APPEND = 3, 0o100, 0o1000, 0o2000

class W5(Watch):
    def watch(s, fn, i, f, args, st, opaque):
        k = s.cures
        if k is None or k.__class__ is not tuple: return
        if f.scope in s.rch.streams and f.sname == f.scope.split('::')[-1] or 'make_unique<' in f.dem and 'Stream' in f.dem.split('(')[0]:
            mode = None
            for a in args:
                a = s.R(a, st)
                if a.__class__ is int: mode = a
                elif a.__class__ is tuple and a[0] == 'p' and s.tracked(a[1]) and a[2].__class__ is int:
                    v = s.R(s.loadv(a[1], a[2], 'i32', st, None), st)
                    if v.__class__ is int: mode = v
            if fn.scope == CLS: s.report('ctor', fn, i, repr((s.curapi.sname, mode)), st)
        if k[1] != 1: return
        if f.scope in s.rch.streams:
            if f.sname.split('<')[0].startswith('Write') and fn.scope not in s.rch.streams:
                s.report('write', fn, i, 'calls %s' % f.short, st)
        elif opaque or f.decl:
            if f.decl:
                if f.name in FILEMOD and fn.scope not in s.rch.streams and f.name != 'open': s.report('write', fn, i, 'calls %s' % f.name, st)
            else:
                for kd, e in s.rch.cached(f.name):
                    if kd == 'process' or kd == 'file' and (e in FILEMOD or 'ofstream' in e):
                        s.report('write', fn, i, 'calls %s, which reaches %s' % (f.short, e), st)

def run(cx):
    m = cx.module()
    s = W5(m)
    s.explore()
    nst = sum(1 for k in s.states if k[1] == 1)
    cx.need(nst >= 5, 'reading states not found')
    EX = {'gdxOpenRead': 0, 'gdxOpenReadEx': 0, 'gdxOpenAppend': 2, 'gdxOpenWrite': 0xFFFF, 'gdxOpenWriteEx': 0xFFFF}
    ctors = 0
    for (kind, loc, msg), (fn, stack, api, k) in sorted(s.reports.items(), key=str):
        if kind == 'write':
            cx.violation('write|%s|%s' % (api, msg), loc, fn, 'in a reading session (phase %s) %s %s' % (s.modenames.get(k[0]), api, msg), 'calls leading there: %s\ncall path: %s' % (' -> '.join(s.history(k)), ' > '.join(stack)))
        elif kind == 'ctor':
            op, mode = eval(msg)
            ctors += 1
            if op not in EX: cx.violation('open|%s' % op, loc, fn, '%s opens a file' % op, '')
            elif mode is not None and mode != EX[op] and (mode & 0xFFFF) != EX[op]:
                cx.violation('mode|%s' % op, loc, fn, '%s opens the file with access mode %d instead of %d' % (op, mode, EX[op]), '')
    cx.need(ctors >= 3, 'creation of the file stream not found')
    # ---- the access mode down to open(2) ------------------------------------------------------
    flags = open_flags(cx, m)
    for md, want in ((0, 'read'), (2, 'update'), (0xFFFF, 'create')):
        fl = flags.get(md, set())
        cx.need(fl, 'no system open call found for access mode %d' % md)
        for v, loc, fn in sorted(fl, key=str):
            if v.__class__ is not int: cx.violation('flags|unknown|%d' % md, loc, fn, 'the flags of the system open call for access mode %s are not constant' % want, str(v)); continue
            acc = v & O_ACC
            if want == 'read' and (acc != 0 or v & (O_CREAT | O_TRUNC)): cx.violation('flags|read', loc, fn, 'a file opened for reading is opened with flags 0%o' % v, '')
            if want == 'update' and (acc != 2 or v & O_TRUNC): cx.violation('flags|update', loc, fn, 'a file opened for append is opened with flags 0%o' % v, '')
            if want == 'create' and (acc == 0 or not v & O_CREAT or not v & O_TRUNC): cx.violation('flags|create', loc, fn, 'a file opened for writing is opened with flags 0%o' % v, '')
    cx.counts.update(operations=len(s.apis), reading_states=nst, session_states=len(s.states), stream_creations=ctors, state_operation_pairs=nst * len(s.apis), open_flag_sets=sum(map(len, flags.values())), functions_analysed=len(s.visited))
    for md, fl in sorted(flags.items()): cx.sample('access mode %d -> open flags %s' % (md, sorted('0%o' % v[0] if v[0].__class__ is int else '?' for v in fl)))

class O5(Interp):
    def __init__(s, m):
        super().__init__(m)
        s.got = []
    def should_inline(s, f, args, st, depth):
        return f.in_repo and depth < 12 and not f.sname.startswith('Write')
    def on_call(s, fn, i, f, args, st, opaque):
        if f is not None and f.name in ('open', 'open64', 'creat', 'fopen'):
            s.got.append((s.R(args[1], st) if len(args) > 1 else None, i[3], fn.short))

def open_flags(cx, m):
    cls = 'gdlib::gmsstrm::TXFileStream'
    ctor = [f for f in m.methods(cls) if f.sname == 'TXFileStream' and len(f.args) == 3]
    cx.need(ctor, 'constructor of the file stream not found')
    out = {}
    for md in (0, 2, 0xFFFF):
        for c in ctor:
            s = O5(m)
            args = [('p', s.reg(('this', 0)), 0), ('p', s.reg(('arg', 1, 'name')), 0), md]
            try: s.run(c, args, St())
            except Exception as e:
                cx.need(False, 'file stream constructor cannot be analysed: %r' % e)
            out.setdefault(md, set()).update(s.got)
    return out
