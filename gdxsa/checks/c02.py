from session import Session
RULE = ('Every load, store or member call of the object through an owned table or raw pointer, in every public operation '
        'from every reachable abstract session state, must go through a pointer that is present in that state.')
EXPLANATION = ('Disjunctive forward dataflow analysis (abstract interpretation) of every public method of gdx::TGXFileObj over '
               'LLVM IR built from the current source: fixpoint over all call sequences; a state is (phase, status, which tables '
               'exist / are absent / released). Reports any dereference of an absent or released pointer with the call history.')
ASSUMPTIONS = ['memory obtained by operator new succeeds or throws', 'the caller passes valid pointers of the documented kind',
               'library calls into the C++ standard library do not touch the fields of the object except through pointers given to them']
def run(cx):
    m = cx.module()
    s = Session(m)
    cx.need(len(s.apis) >= 80, 'only %d public operations found' % len(s.apis))
    s.explore()
    cx.need(len(s.states) >= 20, 'session exploration covers only %d states' % len(s.states))
    cx.counts.update(public_operations=len(s.apis), session_states=len(s.states), state_operation_pairs=len(s.records),
                     transitions=sum(len(v) for v in s.edges.values()), functions_analysed=len(s.visited), abstract_steps=s.steps)
    for k in list(s.states)[:8]: cx.sample('%s  reached by %s' % (s.pretty(k), ' -> '.join(s.history(k)) or 'construction'))
    for (kind, loc, msg), (fn, act, api, ent) in sorted(s.reports.items(), key=str):
        h = s.history(ent) + [api] if ent is not None else [api]
        cx.violation('%s|%s|%s' % (api, fn, msg), loc, fn, '%s when calls %s are made on a fresh object' % (msg, ' -> '.join(h)),
                     'call stack: %s\nstate before the last call: %s' % (' -> '.join(act), s.pretty(ent) if ent else ''))
