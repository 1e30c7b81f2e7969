from session import Session, CLS
from fields import Fields
import phases
TECHNIQUE = 'typestate fixpoint over all call sequences with a per-path comparison of the object before and after each refused call'
RULE = ('On every path of every operation called outside its phases: session status and owned tables are the same objects as before; in a writing session phase, '
        'current symbol, sort list and every field a writing operation reads are unchanged. Every failing path of an open from a closed object ends closed with no table left.')
EXPLANATION = 'Abstract interpretation of each operation from each reachable session state; exit memory compared with entry memory on refusing paths (identity of pointers, values of fields).'
ASSUMPTIONS = ['members of class type that are modified by standard library calls (strings) are compared only through the operations that store to them']

class S3(Session):
    def end(s, f, st0, ret, st):
        ch = set()
        for k, v in st.mem.items():
            if k[0] != 0 or k[1] == 'z' or st0.mem.get(k) == v: continue
            if v.__class__ is tuple and v[0] == 's' and s.symd[v[1]] == ('L', 0, k[1]): continue
            o = max((o for o in s.byoff if o <= k[1]), default=None)
            if k in st0.mem:
                b = st0.mem[k]
                if b.__class__ is tuple and b[0] == 'alt' and (v in b[1] or (v.__class__ is tuple and v[0] == 'alt' and v[1] <= b[1])): continue
            ch.add(s.byoff.get(o, '?'))
        return frozenset(ch)

def run(cx):
    m = cx.module()
    s = S3(m)
    F = Fields(m, CLS)
    s.explore()
    mn = lambda k: s.modenames.get(k[0], '?')
    wops = [s.api[o] for o, (ph, _, _) in phases.SPEC.items() if o in s.api and any(p in phases.WRITEMODES or p in phases.ELEM for p in ph)] + [s.api['gdxClose']]
    cx.need(len(wops) > 15, 'writing operations not found')
    wread = F.reads(wops)
    err = set()
    for f in m.methods(CLS):
        if f.sname in ('SetError', 'ReportError', 'ErrorCondition', 'InitErrors'): err |= F.wr.get(f.name, set())
    cx.need(err, 'error bookkeeping functions not found')
    tables = {s.byoff[o] for o in s.upoffs}
    raw = {s.byoff[o] for o in s.rawoffs}
    fnp = {n for n, o, z, t in s.members if t == 'fn*'}
    modes = {s.byoff[o] for o in s.modeoffs + s.statusoffs}
    nref = nopen = 0
    for (k, op), outs in s.records.items():
        spec = phases.SPEC.get(op)
        f = s.api[op]
        def bad(msg, key):
            cx.violation('%s|%s|%s' % (op, mn(k), key), f.where, f.short, msg, 'state before: %s\ncalls leading there: %s' % (s.pretty(k), ' -> '.join(s.history(k))))
        for rc, k2, ch in outs:
            if spec and mn(k) not in spec[0]:
                nref += 1
                if k2[1] != k[1]: bad('refused in phase %s but the session status changes from %s to %s' % (mn(k), k[1], k2[1]), 'status')
                c = (ch & tables) - {'SortList', 'ErrorList'} if k[1] == 1 else ch & tables
                if c: bad('refused in phase %s but replaces or drops %s' % (mn(k), ','.join(sorted(c))), 'tables')
                if k[1] == 2:
                    c = (ch & (wread | raw | modes)) - err - fnp - tables
                    if c: bad('refused in phase %s of a writing session but changes %s' % (mn(k), ','.join(sorted(c))), 'fields')
                if k[1] == 0 and mn(k2) != mn(k): bad('refused on a closed object but leaves it in phase %s' % mn(k2), 'phase')
                if k[1] == 1 and mn(k2) not in (mn(k), 'fr_init'): bad('refused in phase %s but leaves phase %s' % (mn(k), mn(k2)), 'phase')
            if op.startswith('gdxOpen') and mn(k) == 'f_not_open' and rc == 0:
                nopen += 1
                if k2 != k: bad('a failed open leaves the object in state: %s' % s.pretty(k2), 'open')
    cx.need(nref > 500 and nopen >= 5, 'too few refusing paths analysed (%d, %d)' % (nref, nopen))
    cx.counts.update(operations=len(s.apis), session_states=len(s.states), refusing_outcomes_checked=nref, failing_open_outcomes_checked=nopen, fields_read_by_writing_operations=len(wread), functions_analysed=len(s.visited))
    cx.sample('error bookkeeping fields exempt: %s' % sorted(err))
