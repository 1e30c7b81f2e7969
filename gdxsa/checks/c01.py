from session import Session
from effects import Effects
import phases
RULE = ('For every reachable session state and every exported operation: outside its phases an operation may only return failure and must not call a '
        'modifying method of an owned table; a path returning success must end in a phase the diagrams allow; in each of its phases success must be possible; '
        'operations that belong to no particular phase never change the phase; phase and read/write status always agree.')
EXPLANATION = ('Typestate analysis: the fixpoint of session states over all call sequences (abstract interpretation of the current IR) gives, per entry phase, '
               'all (result, exit phase) pairs of each operation; these are compared with the phase table in gdxsa/phases.py.')
ASSUMPTIONS = ['the phase table transcribes the documented state diagrams']

class S1(Session):
    def begin(s, f, st):
        s.eff = {}
        s.entry = st.mem.get((0, s.keyoffs[0]))
        return st
    def end(s, f, st0, ret, st):
        return dict(s.eff)
    def on_call(s, fn, i, callee, args, st, opaque):
        super().on_call(fn, i, callee, args, st, opaque)
        if opaque and callee is not None and args and callee.in_repo and callee.args and callee.args[0][0] == 'this' and s.E.mutates_this(callee):
            a = args[0]
            if a.__class__ is tuple and a[0] == 'p' and s.regd[a[1]][0] == 'own' and st.mem.get((0, s.keyoffs[0])) == s.entry:
                s.eff[callee.short] = i[3]

def run(cx):
    s = S1(cx.module())
    s.E = Effects(cx.module())
    s.explore()
    mn = lambda k: s.modenames.get(k[0], '?')
    moden = set(s.modenames.values())
    for op in phases.SPEC:
        cx.need(op in s.api, 'operation %s not found' % op)
        for p in phases.SPEC[op][0]: cx.need(p in moden, 'phase %s not found' % p)
    cx.counts.update(operations=len(s.apis), phase_bound_operations=len(phases.SPEC), session_states=len(s.states), state_operation_pairs=len(s.records),
                     outcomes=sum(len(v) for v in s.records.values()), functions_analysed=len(s.visited))
    def bad(op, k, msg, key, loc=None):
        f = s.api[op]
        cx.violation('%s|%s|%s' % (op, mn(k), key), loc or f.where, f.short, msg, 'state before: %s\ncalls leading there: %s' % (s.pretty(k), ' -> '.join(s.history(k))))
    reach = {}
    for (k, op), outs in s.records.items():
        e = mn(k)
        if op == 'gdxClose':
            for rc, k2, rec in outs:
                if mn(k2) != 'f_not_open': bad(op, k, 'closing in phase %s leaves the object in phase %s' % (e, mn(k2)), 'post ' + mn(k2))
            continue
        spec = phases.SPEC.get(op)
        if spec is None:
            for rc, k2, rec in outs:
                if mn(k2) != e: bad(op, k, 'operation changes the phase from %s to %s' % (e, mn(k2)), 'changes to ' + mn(k2))
            continue
        allowed, post, must = spec
        for rc, k2, rec in outs:
            x = mn(k2)
            if e not in allowed:
                if rc != 0: bad(op, k, 'does not return failure in phase %s, to which it does not belong' % e, 'accepted')
                for c, loc in (rec or {}).items():
                    bad(op, k, 'calls %s although the phase is %s' % (c, e), 'effect ' + c, loc)
            elif rc != 0:
                reach.setdefault(op, set()).add(e)
                if post == '=': ok = [e]
                elif post == 'init': ok = ['fw_init'] if k[1] == 2 else ['fr_init']
                elif isinstance(post, dict): ok = post[e]
                else: ok = post
                if x not in ok: bad(op, k, 'success in phase %s ends in phase %s instead of %s' % (e, x, ' or '.join(ok)), 'post ' + x)
    for k in s.states:
        want = phases.status_of(mn(k), k[1])
        if want is not None and k[1] != want:
            h = s.history(k)
            bad(h[-1] if h else 'gdxClose', k, 'phase %s reached with session status %s' % (mn(k), k[1]), 'status')
    ent = {}
    for (k, op) in s.records: ent.setdefault(op, set()).add(mn(k))
    for op, (allowed, post, must) in phases.SPEC.items():
        for e in must:
            if e not in ent[op]:
                cx.violation('%s|%s|unreachable' % (op, e), s.api[op].where, op, 'phase %s is not reachable by any sequence of calls' % e)
            elif e not in reach.get(op, ()):
                cx.violation('%s|%s|never' % (op, e), s.api[op].where, op, 'is always refused in phase %s, to which it belongs' % e)
    for op in list(phases.SPEC)[:6]: cx.sample('%s: %s' % (op, {mn(k): sorted({'%s->%s' % (rc, mn(k2)) for rc, k2, _ in o}) for (k, o2), o in s.records.items() if o2 == op and mn(k) in phases.SPEC[op][0]}))
