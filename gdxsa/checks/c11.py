"""C11: forwarding analysis of the C interface, its loader and the C++ convenience wrapper."""
import os, tempfile, shutil, json, re
import ir, pipeline
from pipeline import REPO
RULE = ('(1) each function of the C layer, each exported C__ function and each method of the C++ wrapper, on every path from entry to '
        'return, calls exactly one operation, the one of its own name, with the object first and then its own parameters one for one '
        'in order, and returns exactly the result of that call. (2) the exported variants with length-prefixed strings, pointer '
        'arrays or by-reference callbacks call the operation of their name once, pass every other parameter one for one, and every '
        'buffer they pass instead of a string parameter exchanges data with that very parameter and no other. (3) in the loader, '
        'each function pointer only ever receives the address of its own stub or the library symbol of its own name, after a '
        'compatibility check made under its own name. (4) for each operation the argument count and type codes announced by the '
        'loader equal those expected by the library, and both fit the declared parameter types.')
EXPLANATION = ('SSA forwarding analysis over the LLVM IR of the library, of the C loader and of all inline methods of the C++ wrapper; '
               'constant propagation of symbol names and signature arrays.')
TECHNIQUE = 'SSA value forwarding + constant tables over LLVM IR (library, loader, C++ wrapper)'
ASSUMPTIONS = ['the legacy option-library loader (optcc) is outside GDX']

# type code of the compatibility signature -> acceptable declared types
def ok_code(code, t):
    t = re.sub(r'\s*\*', '*', t.strip())
    T = {0: ['void'], 1: ['void*'], 3: ['int'], 4: ['int*'], 5: ['unsigned int'], 11: ['const char*'], 12: ['char*'], 13: ['double'], 14: ['double*'],
         15: ['int', 'bool'], 23: ['int64_t', 'INT64', 'long', 'long long'], 51: ['const int*'], 52: ['int*'], 53: ['const double*'], 54: ['double*'], 55: ['const char**'], 56: ['char**'],
         57: ['const double*'], 58: ['double*']}
    if code == 59: return not t.startswith(('int*', 'char', 'double', 'const'))
    return code in T and t in T[code]

def strip(f, o):
    """follow casts that keep the value"""
    while True:
        d = f.idef(o)
        if d is None: return o
        if d[0] in ('bitcast', 'addrspacecast', 'freeze'): o = d[4]; continue
        return o

def ident_arg(g, m, depth=0):
    """index of the parameter g returns unchanged on every path (a trivial helper), or None"""
    if g.decl or depth > 3 or len(g.blocks) != 1: return None
    t = g.term(0)
    if t[0] != 'ret' or len(t) < 5 or not t[4]: return None
    if any(i[0] in ('call', 'invoke', 'store') for _, i in g.instrs()): return None
    o = strip(g, t[4])
    ids = list(g.d.get('argids', range(len(g.args))))
    return ids.index(o[1]) if o[0] == 'v' and o[1] in ids else None

def val(f, o, m):
    """resolve an operand to ('arg', n) or the operand itself, through casts and trivial helpers"""
    for _ in range(8):
        o = strip(f, o)
        d = f.idef(o)
        if d and d[0] in ('call', 'invoke'):
            g = m.callee(d)
            k = ident_arg(g, m) if g else None
            if k is not None and k < len(d[5]): o = d[5][k]; continue
        break
    ids = list(f.d.get('argids', range(len(f.args))))
    if o[0] == 'v' and o[1] in ids: return ('arg', ids.index(o[1]))
    return ('op', json.dumps(o))

def retvals(f):
    """operands returned, phis opened"""
    out, seen = [], set()
    def open_(o):
        k = json.dumps(o)
        if k in seen: return
        seen.add(k)
        d = f.idef(o)
        if d and d[0] == 'phi':
            for x, b in d[4]: open_(x)
        elif d and d[0] == 'select': open_(d[5]); open_(d[6])
        else: out.append(o)
    for bi, i in f.instrs():
        if i[0] == 'ret':
            if len(i) > 4 and i[4]: open_(i[4])
            else: out.append(None)
    return out

def alwayscalls(f, blk):
    """does every path from entry to a return pass one of the blocks blk"""
    blk = blk if isinstance(blk, set) else {blk}
    if 0 in blk: return True
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        if f.term(b)[0] == 'ret': return False
        for x in f.succ()[b]:
            if x not in blk and x not in seen: seen.add(x); st.append(x)
    return True

def helper_ok(g, m):
    return g is not None and ident_arg(g, m) is not None

def opname(n):
    n = n.lower()
    return n

class Chk:
    def __init__(s, cx): s.cx = cx; s.n = 0

    def forward(s, m, f, name, calls, first, what, getobj=None, static_core=False):
        """calls: [(block, instr, opname)] of operations; first: index offset of parameters; """
        cx = s.cx; s.n += 1
        key = '%s:%s' % (what, name)
        def bad(msg, i=None): cx.violation(key, str(i[3]) if i else f.where, f.short, msg)
        mine = [c for c in calls if c[2] == name.lower()]
        other = [c for c in calls if c[2] != name.lower()]
        if not mine: return bad('does not call the operation %s%s' % (name, ' but ' + other[0][2] if other else ''))
        if other: return bad('calls %s besides %s' % (other[0][2], name), other[0][1])
        blks = [c[0] for c in mine]
        if len(set(blks)) < len(blks) or any(reaches(f, x, y) for x in blks for y in blks): return bad('may call %s more than once' % name, mine[-1][1])
        if not alwayscalls(f, set(blks)): return bad('a path returns without calling %s' % name, mine[0][1])
        np = len(f.args)
        for b, i, _ in mine:
            args = i[5]
            off = 0
            if len(args) == np - 1 and static_core: off = 1
            if getobj is not None and len(args) == np + 1: off = -1     # static member of the C++ wrapper: no object
            if len(args) + off != np: return bad('passes %d arguments, has %d parameters' % (len(args), np), i)
            for k, a in enumerate(args):
                v = val(f, a, m)
                if k == 0 and getobj is not None:
                    if not (a == ['n'] if off == -1 else getobj(f, a)): return bad('the object passed is not the one called', i)
                    continue
                if v == ('arg', k + off): continue
                if optional(f, m, a, k + off, b): continue
                return bad('argument %d of %s is not parameter %d unchanged' % (k, name, k + off), i)
        sites = [c[1] for c in mine]
        for r in retvals(f):
            if f.ret == 'void' or r is None: continue
            d = f.idef(strip(f, r))
            if not any(d is i for i in sites):
                if d and d[0] in ('zext', 'sext') and any(f.idef(d[4]) is i and i[2] == 'i1' for i in sites): continue
                return bad('returns something else than the result of %s' % name, sites[0])
        if sites[0][2] != 'void' and f.ret == 'void': return bad('drops the result of %s' % name, sites[0])
        for _, j in f.instrs():
            if j[0] == 'store':
                d = f.idef(strip(f, j[5]))
                if d and d[0] == 'alloca': continue
                return bad('modifies memory besides calling %s' % name, j)
            if j[0] in ('call', 'invoke') and not any(j is i for i in sites):
                g = m.callee(j)
                if helper_ok(g, m) or (m.callee_name(j) or '').startswith('llvm.'): continue
                if g and g.sname == 'setCallByRef':
                    tx = cstr(m, j[5][1])
                    if (tx is None or tx.lower().startswith(name.lower() + '_')) and j[5][2][:2] == ['c', 0] and val(f, j[5][0], m) == ('arg', 0): continue
                return bad('does more than calling %s' % name, j)

def reaches(f, x, y):
    seen, st = set(), list(f.succ()[x])
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st += f.succ()[b]
    return y in seen

def optional(f, m, a, k, blk):
    """a scratch variable stands in for output parameter k only where that parameter is tested to be null"""
    d = f.idef(strip(f, a))
    if not d or d[0] != 'alloca': return False
    from checks.c07 import dominators
    for b in range(len(f.blocks)):
        t = f.term(b)
        if t[0] != 'br' or len(t[5]) != 2: continue
        c = f.idef(t[4])
        if not c or c[0] != 'icmp': continue
        ops = [o for o in c[4:] if isinstance(o, list)]
        if not any(o == ['n'] for o in ops) or not any(val(f, o, m) == ('arg', k) for o in ops): continue
        pred = [x for x in c[4:] if isinstance(x, str)]
        eq = 'eq' in pred
        side = t[5][0] if eq else t[5][1]
        other = t[5][1] if eq else t[5][0]
        if side == blk or (blk in region(f, side) and blk not in region(f, other)): return True
    return False

def region(f, s):
    seen, st = set(), [s]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st += f.succ()[b]
    return seen

def cstr(m, o):
    while o and o[0] == 'e': o = o[2]
    if o and o[0] == 'g':
        g = m.globals.get(o[1])
        if g and 'init' in g: return const_bytes(g['init'])
    return None

def const_bytes(init):
    if init[0] in ('s', 'str', 'b'): 
        x = init[1]
        return x.rstrip('\0') if isinstance(x, str) else bytes(c & 255 for c in x).split(b'\0')[0].decode('latin1')
    return None

def run(cx):
    m = cx.module()
    C = Chk(cx)
    # ---- (1) C layer and C__ exports -----------------------------------------------------------------
    layer = {f.sname: f for f in m.fns.values() if not f.decl and f.in_repo and not f.scope.strip(':') and f.sname.startswith('gdx')
             and (f.sig[1:2] or [''])[0] == 'TGXFileRec*'}
    core = {f.sname for f in m.fns.values() if f.scope.endswith('TGXFileObj')}
    def core_op(g):
        return g is not None and g.scope.endswith('TGXFileObj')
    lname = {n.lower(): n for n in layer}
    skip = {'gdxfree', 'gdxcreate', 'gdxcreated', 'gdxdestroy'}
    nlayer = 0
    for n, f in sorted(layer.items()):
        if n.lower() in skip: continue
        nlayer += 1
        calls = [(b, i, g.sname.lower()) for b, i in f.calls() for g in [m.callee(i)] if core_op(g)]
        C.forward(m, f, n, calls, 1, 'layer', static_core=True)
    exp = {}
    for f in m.fns.values():
        mt = re.match(r'^([cdnf])__(gdx\w+)$', f.sname or '')
        if mt and not f.decl: exp.setdefault(mt.group(1), {})[mt.group(2)] = f
    cx.need(len(exp.get('c', {})) > 80 and nlayer > 80, 'exported functions not found')
    for n, f in sorted(exp['c'].items()):
        if n in ('gdxgetloadpath', 'gdxsetloadpath'): continue
        calls = [(b, i, m.callee(i).sname.lower()) for b, i in f.calls() if m.callee(i) and m.callee(i).sname in layer]
        C.forward(m, f, n, calls, 1, 'export')
    for n in lname:
        if n not in exp['c'] and n not in skip:
            cx.violation('export:' + n, layer[lname[n]].where, lname[n], 'operation %s is not exported' % lname[n])
    # ---- (2) string/callback variants ----------------------------------------------------------------
    nvar = 0
    for kind in 'dnf':
        for n, f in sorted(exp.get(kind, {}).items()):
            nvar += 1
            variant(cx, m, f, kind, n, layer, lname)
    # ---- (3)+(4) loader ------------------------------------------------------------------------------
    scratch = tempfile.mkdtemp(prefix='gdxsa.')
    try:
        js = pipeline.compile_module([os.path.join(REPO, 'generated/gdxcc.c')], scratch, 'ldr')
        L = ir.load(json.load(open(js)), REPO.rstrip('/') + '/')
        tu = os.path.join(scratch, 'wrap.cpp')
        hdr = os.path.join(REPO, 'generated/gdxcppwrap.hpp')
        defs = set(re.findall(r'(?<![:\w])(gdx[A-Z]\w*)\s*\(([^;{}()]*)\)\s*(const|)', open(hdr).read()))
        by = {}
        for nme, par, c in defs: by.setdefault(nme, set()).add(c)
        body = 'template<class R, class... A> auto use0(R (*p)(A...)) { return p; }\n' \
               'template<class R, class... A> R (gdx::TGXFileObj::*use0(R (gdx::TGXFileObj::*p)(A...)))(A...) { return p; }\n' \
               'template<class R, class... A> R (gdx::TGXFileObj::*use1(R (gdx::TGXFileObj::*p)(A...) const))(A...) const { return p; }\n'
        for nme, cs in sorted(by.items()):
            for c in sorted(cs): body += 'extern const auto use_%s%s = use%d(&gdx::TGXFileObj::%s);\n' % (nme, c, c == 'const', nme)
        open(tu, 'w').write('#include <stdexcept>\n#include "gdxcppwrap.hpp"\n' + body)
        js = pipeline.compile_module([tu], scratch, 'wrap', extra=['-fno-access-control', '-I' + os.path.join(REPO, 'generated')])
        W = ir.load(json.load(open(js)), REPO.rstrip('/') + '/')
    finally: shutil.rmtree(scratch, ignore_errors=True)
    nl = loader(cx, m, L, layer, lname, exp)
    # C++ wrapper: calls through the loader's function pointers
    nw = 0
    for f in W.fns.values():
        if f.decl or not f.in_repo or not f.scope.endswith('TGXFileObj') or not f.sname.startswith('gdx'): continue
        nw += 1
        calls = []
        for b, i in f.calls():
            d = f.idef(i[4])
            if d and d[0] == 'load' and d[4][0] == 'g': calls.append((b, i, d[4][1].lower()))
            elif W.callee(i) and W.callee(i).decl and W.callee_name(i).startswith('gdx'): calls.append((b, i, W.callee_name(i).lower()))
        def obj(f, a, W=W):
            d = f.idef(strip(f, a))
            if not d or d[0] != 'load': return False
            p = strip(f, d[4]); dd = f.idef(p)
            if dd and dd[0] == 'getelementptr': p = dd[4]
            return val(f, p, W) == ('arg', 0)
        C.forward(W, f, f.sname, calls, 1, 'cppwrap', obj)
    cx.need(nw > 80, 'C++ wrapper methods not found')
    cx.counts.update(c_layer_functions=nlayer, exported_functions=len(exp['c']), string_and_callback_variants=nvar, loader_entries=nl, cpp_wrapper_methods=nw)

# ---------------------------------------------------------------------------------------------------------
def roots(f, m):
    """value -> set of ('arg',n) / ('loc',id) it is derived from, with one level of contents for locals"""
    R, cont = {}, {}
    ids = list(f.d.get('argids', range(len(f.args))))
    for k, a in enumerate(ids): R[a] = {('arg', k)}
    def of(o):
        if o[0] == 'v': return R.get(o[1], set())
        if o[0] == 'e':
            out = set()
            for x in o[2:]:
                if isinstance(x, list) and x and isinstance(x[0], str): out |= of(x)
            return out
        return set()
    ch = True
    while ch:
        ch = False
        for b, i in f.instrs():
            new = None
            if i[0] == 'alloca': new = {('loc', i[1])}
            elif i[0] in ('getelementptr', 'bitcast', 'freeze'): new = of(i[4])
            elif i[0] == 'phi':
                new = set()
                for o, _ in i[4]: new |= of(o)
            elif i[0] == 'select': new = of(i[5]) | of(i[6])
            elif i[0] == 'load' and i[2] == 'ptr':
                new = set()
                for r in of(i[4]): new |= cont.get(r, set()) if r[0] == 'loc' else {r}
            elif i[0] == 'store':
                v = of(i[4])
                for r in of(i[5]):
                    if r[0] == 'loc' and not v <= cont.get(r, set()): cont[r] = cont.get(r, set()) | v; ch = True
            elif i[0] in ('call', 'invoke') and i[2] == 'ptr':
                new = set()
                for a in i[5]: new |= of(a)
            if new is not None and i[1] >= 0 and not new <= R.get(i[1], set()):
                R[i[1]] = R.get(i[1], set()) | new; ch = True
    return R, cont, of

def variant(cx, m, f, kind, n, layer, lname):
    key = 'variant:%s__%s' % (kind, n)
    def bad(msg, i=None): cx.violation(key, str(i[3]) if i else f.where, f.short, msg)
    calls = [(b, i) for b, i in f.calls() if m.callee(i) and m.callee(i).sname in layer and m.callee(i).sname.lower() not in ('gdxcurrentdim', 'gdxsymboldim')]
    mine = [(b, i) for b, i in calls if m.callee(i).sname.lower() == n]
    oth = [(b, i) for b, i in calls if m.callee(i).sname.lower() != n]
    if n not in lname: return
    if n in ('gdxcurrentdim', 'gdxsymboldim'): mine = [(b, i) for b, i in f.calls() if m.callee(i) and m.callee(i).sname.lower() == n]
    if not mine: return bad('does not call %s' % n)
    if oth: return bad('calls %s besides %s' % (m.callee(oth[0][1]).sname, n), oth[0][1])
    if len(mine) > 1: return bad('calls %s more than once' % n, mine[1][1])
    b, i = mine[0]
    if not alwayscalls(f, b): return bad('a path returns without calling %s' % n, i)
    R, cont, of = roots(f, m)
    g = m.callee(i)
    args = i[5]
    if len(args) != len(f.args): return bad('passes %d arguments, has %d parameters' % (len(args), len(f.args)), i)
    # copies between locals and parameters
    flow = set()
    def close(s):
        out = set(s)
        for r in s:
            if r[0] == 'loc': out |= cont.get(r, set())
        return out
    for _, j in f.calls():
        cn = m.callee_name(j) or ''
        c = m.callee(j)
        if (cn.startswith('llvm.memcpy') or cn.startswith('llvm.memmove') or cn in ('strncpy', 'strcpy', 'memcpy', 'memmove', 'strncat')) and len(j[5]) >= 2:
            for x in close(of(j[5][0])):
                for y in close(of(j[5][1])): flow.add((y, x))
        elif c is not None and not c.decl and c.name != g.name and c.sname not in layer:
            rs = [close(of(a)) for a in j[5]]
            for x in rs:
                for y in rs:
                    if x is not y:
                        for p in x:
                            for q in y: flow.add((p, q))
    for _, j in f.instrs():
        if j[0] == 'store':
            d = f.idef(j[4])
            # char-wise copies: value loaded (possibly through casts) from the other side
            while d and d[0] in ('trunc', 'zext', 'sext'): d = f.idef(d[4])
            if d and d[0] == 'load':
                for x in of(j[5]):
                    for y in of(d[4]): flow.add((y, x))
    for k, a in enumerate(args):
        v = val(f, a, m)
        if v == ('arg', k): continue
        rs = close(of(a))
        locs = {r for r in rs if r[0] == 'loc'}
        if not locs: return bad('argument %d of %s is not parameter %d' % (k, n, k), i)
        if any(r[0] == 'arg' and r != ('arg', k) for r in rs): return bad('argument %d of %s is built from another parameter' % (k, n), i)
        part = {p for l in locs for (x, y) in flow for p in ((x,) if y == l else (y,) if x == l else ()) if p[0] == 'arg'}
        if ('arg', k) in rs: part |= {('arg', k)}
        if ('arg', k) not in part: return bad('the buffer passed as argument %d of %s never exchanges data with parameter %d' % (k, n, k), i)
        if part - {('arg', k)}: return bad('the buffer passed as argument %d of %s exchanges data with parameter %s' % (k, n, sorted(part - {('arg', k)})[0][1]), i)
        # direction: read-only string parameters are copied in, others are copied out
        ty = g.sig[1 + k] if 1 + k < len(g.sig) else ''
        inn = any(y in locs and x == ('arg', k) for x, y in flow)
        out = any(x in locs and y == ('arg', k) for x, y in flow)
        if ('arg', k) in rs: continue
        if ty.startswith('const') and not inn: return bad('parameter %d is never copied into the buffer passed to %s' % (k, n), i)
        if not ty.startswith('const') and not out: return bad('the text %s returns in argument %d is never copied to the parameter' % (n, k), i)
    for r in retvals(f):
        if r is None or f.ret == 'void': continue
        if f.idef(strip(f, r)) is not i: return bad('returns something else than the result of %s' % n, i)
    if kind == 'f':
        for _, j in f.calls():
            if m.callee(j) and m.callee(j).sname == 'setCallByRef':
                t = cstr(m, j[5][1])
                if t is not None and not t.lower().startswith(n + '_'): bad('marks %s instead of %s as called by reference' % (t, n), j)

# ---------------------------------------------------------------------------------------------------------
def const_ints(M, f, ptr, before):
    """contents of a local int array passed at a call: constants stored or copied into it"""
    d = f.idef(ptr); base = ptr
    while d and d[0] in ('getelementptr', 'bitcast'): base = d[4]; d = f.idef(base)
    out = {}
    for b, i in f.instrs():
        if i[0] == 'store':
            p = i[5]; off = 0
            pd = f.idef(p)
            if pd and pd[0] == 'getelementptr' and not pd[5][2]: off = pd[5][1]; p = pd[4]
            if p == base and i[4][0] == 'c': out[off // 4] = int(i[4][1])
        elif i[0] == 'call' and (M.callee_name(i) or '').startswith('llvm.memcpy') and i[5][0] == base:
            src = i[5][1]
            while src[0] == 'e': src = src[2]
            g = M.globals.get(src[1]) if src[0] == 'g' else None
            if g and 'init' in g: 
                for k, v in enumerate(ints_of(g['init'])): out[k] = v
        elif i[0] == 'call' and (M.callee_name(i) or '').startswith('llvm.memset') and i[5][0] == base:
            n = i[5][2]
            for k in range(int(n[1]) // 4): out.setdefault(k, 0)
    return [out[k] for k in sorted(out)]

def ints_of(init):
    if init[0] == 'a': return [x for y in init[1] for x in ints_of(y)]
    if init[0] == 'c': return [int(init[1])]
    if init[0] in ('z', 'n', 'zero'): return [0]
    return []

def loader(cx, m, L, layer, lname, exp):
    n = 0
    xl = [f for f in L.fns.values() if not f.decl and any(i[0] == 'store' and i[5][0] == 'g' and i[5][1] == 'gdxClose' for _, i in f.instrs())
          and any(L.callee(i) and L.callee(i).sname == 'loadSym' for _, i in f.calls())]
    cx.need(xl, 'loader function not found')
    # library side signatures
    dll = dll_signs(cx, m)
    seen = {}
    for f in xl:
        checks = {}
        for b, i in f.calls():
            d = f.idef(i[4])
            if d and d[0] == 'load' and d[4][0] == 'g' and d[4][1] == 'XCheck':
                nm = cstr(L, i[5][0])
                checks.setdefault(b, (nm, int(i[5][1][1]), const_ints(L, f, i[5][2], i), i))
        for b, i in f.instrs():
            if i[0] != 'store' or i[5][0] != 'g' or not i[5][1].startswith('gdx'): continue
            t = i[5][1]
            v = strip(f, i[4])
            if v[0] == 'g':
                if v[1] == 'd_' + t or v[1] == t or v[1] == 'd_s_' + t: continue
                if not v[1].startswith('d_'): continue
                cx.violation('loader:' + t, str(i[3]), f.short, 'function pointer %s receives the stub of another function, %s' % (t, v[1])); continue
            d = f.idef(v)
            if d and d[0] in ('call',) and L.callee(d) and L.callee(d).sname == 'loadSym':
                s = cstr(L, d[5][1]); n += 1
                if s is None:
                    o = strip(f, d[5][1]); cx.violation('loader:' + t, str(i[3]), f.short, 'function pointer %s is bound to a symbol that is not a constant' % t); continue
                if s.lower() != ('c__' + t).lower():
                    cx.violation('loader:' + t, str(i[3]), f.short, 'function pointer %s is bound to library symbol %s' % (t, s)); continue
                seen[t] = i
        for nm, k, sg, i in checks.values():
            if nm is None: continue
            n += 1
            key = 'sign:' + nm
            if len(sg) != k + 1: cx.violation(key, str(i[3]), f.short, 'announces %d arguments for %s with %d type codes' % (k, nm, len(sg) - 1)); continue
            if nm not in dll: cx.violation(key, str(i[3]), f.short, 'the library does not know the signature of %s' % nm); continue
            dk, dsg, di = dll[nm]
            if dk != k or dsg[:k + 1] != sg: cx.violation(key, str(i[3]), f.short, 'signature of %s differs: loader %s, library %s' % (nm, sg, dsg)); continue
            lf = layer.get(nm) or layer.get(lname.get(nm.lower(), ''))
            if lf:
                ty = [lf.sig[0]] + list(lf.sig[2:])
                if len(ty) != k + 1: cx.violation(key, str(i[3]), f.short, '%s is announced with %d parameters but has %d' % (nm, k, len(ty) - 1)); continue
                for q, (c, t) in enumerate(zip(sg, ty)):
                    if not ok_code(c, t): cx.violation(key, str(i[3]), f.short, '%s: type code %d does not fit parameter %d of type %s' % (nm, c, q, t))
    checked = {c[0] for f in xl for c in [(cstr(L, i[5][0]),) for b, i in f.calls() if f.idef(i[4]) and f.idef(i[4])[0] == 'load' and f.idef(i[4])[4] == ['g', 'XCheck']]}
    for nm in layer:
        if nm.lower() in ('gdxfree', 'gdxcreate', 'gdxcreated', 'gdxdestroy'): continue
        if nm not in seen: cx.violation('loader:' + nm, xl[0].where, xl[0].short, 'the loader never binds %s to the library' % nm)
        elif nm not in checked: cx.violation('sign:' + nm, xl[0].where, xl[0].short, 'the loader binds %s without a compatibility check under its name' % nm)
    return n

def dll_signs(cx, m):
    """function name -> (argument count, type codes) expected by the exported compatibility check"""
    out = {}
    for f in m.fns.values():
        if f.decl or not any(m.callee(i) and m.callee(i).sname == 'CheckSign' for _, i in f.calls()): continue
        # name tested on the way into a block: strcmp(..., literal) == 0
        for b, i in f.calls():
            if not (m.callee(i) and m.callee(i).sname == 'CheckSign'): continue
            # walk up single predecessors to the deciding strcmp
            nm, blk = None, b
            codes = {}
            while True:
                for j in f.blocks[blk]:
                    if j[0] == 'store':
                        p, off = j[5], 0
                        pd = f.idef(p)
                        if pd and pd[0] == 'getelementptr' and not pd[5][2]: off = pd[5][1]; p = pd[4]
                        if p == i[5][3] and j[4][0] == 'c': codes[off // 4] = int(j[4][1])
                ps = f.pred()[blk]
                if len(ps) != 1: break
                t = f.term(ps[0])
                if t[0] == 'br' and len(t[5]) == 2:
                    c = f.idef(t[4])
                    s = None
                    while c and c[0] in ('icmp', 'xor', 'zext', 'trunc'):
                        c2 = None
                        for o in c[4:]:
                            if isinstance(o, list) and o and o[0] == 'v': c2 = f.idef(o)
                        c = c2
                    if c and c[0] in ('call', 'invoke') and m.callee_name(c) == 'strcmp':
                        nm = cstr(m, c[5][1]) or cstr(m, c[5][0])
                    break
                blk = ps[0]
            if nm: out.setdefault(nm, (int(i[5][1][1]), [codes[k] for k in sorted(codes)], i))
    cx.need(len(out) > 80, 'signature table of the library not found')
    return out
