"""Names for SSA values: access paths and expressions over arguments, object fields and calls, rendered as canonical strings.
Two equal strings denote the same expression (not necessarily at the same time)."""
import re
COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}
SWAP = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule', 'ogt': 'olt', 'oge': 'ole'}

def unq(t):
    """class a pointer-like type points to"""
    if t is None: return None
    t = t.strip()
    while t.endswith('const'): t = t[:-5].rstrip()
    if t.startswith('const '): t = t[6:]
    return t
def pointee(t):
    t = unq(t)
    if not t: return None
    if t.endswith('&&'): return unq(t[:-2])
    if t.endswith('*') or t.endswith('&'): return unq(t[:-1])
    m = re.match(r'std::(unique_ptr|shared_ptr)<(.*)>$', t)
    if m:
        return unq(split_args(m.group(2))[0])
    return None
def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += (ch in '<([') - (ch in '>)]')
        cur += ch
    out.append(cur.strip())
    return out
def elem(t):
    t = unq(t)
    if not t: return None
    m = re.match(r'std::(?:array|vector|deque|list)<(.*)>$', t)
    if m: return unq(split_args(m.group(1))[0])
    m = re.match(r'(.*?)\s*\[\d*\]$', t)
    return unq(m.group(1)) if m else None

class SX:
    def __init__(s, m):
        s.m = m
        s.cache = {}
        s.busy = set()
        s._f = {}
        s.typedefs = m.d.get('typedefs', {})
    def canon_type(s, t):
        t = unq(t)
        n = 0
        while t in s.typedefs and n < 8: t = unq(s.typedefs[t]); n += 1
        return t
    def members(s, cls):
        cls = s.canon_type(cls)
        if cls not in s._f:
            s._f[cls] = sorted((o, o + max(z, 1), n, t) for n, o, z, t in s.m.fields(cls)) if cls in s.m.types else []
        return s._f[cls]
    def argtype(s, f, n):
        if not f.sig: return None
        k = len(f.sig) - 1 - len(f.args)
        # hidden return pointer precedes the declared parameters
        sret = len(f.args) - (len(f.sig) - 1)
        n -= max(sret, 0)
        if 0 <= n < len(f.sig) - 1: return f.sig[n + 1]
        return None
    def argname(s, f, n):
        if f.args[n][0] == 'this': return 'this'
        return '$%d' % n
    # ---- addresses ----------------------------------------------------------
    def sub(s, path, typ, off, var, f):
        """path of the object at byte offset off (plus variable subscripts) inside an object"""
        n = 0
        if var and len(var) == 1 and typ and s.size_of(typ) == var[0][0] and 0 <= off < var[0][0]:
            # pointer arithmetic over elements of this type
            path, var = '%s[%s]' % (path, var[0][1]), []
            if off == 0: return path, s.canon_type(typ)
        while n < 6:
            n += 1
            typ = s.canon_type(typ)
            e = elem(typ) if typ else None
            if e is not None and (var or typ.endswith(']') or typ.startswith('std::array')):
                # subscripts of a plain array member
                if var:
                    idx = '+'.join(v if sc == 1 or True else v for sc, v in var)
                    return '%s[%s]' % (path, idx), e
                z = s.size_of(e)
                if z: 
                    path, typ, off = '%s[%d]' % (path, off // z), e, off % z
                    continue
                return '%s@%d' % (path, off), None
            ms = s.members(typ) if typ else []
            hit = None
            for a, b, nm, t in ms:
                if a <= off < b: hit = (a, nm, t)
            if not hit: break
            path, typ, off = '%s.%s' % (path, hit[1]), s.canon_type(hit[2]), off - hit[0]
            if off == 0 and not var: return path, typ
        if var: return '%s[%s]%s' % (path, '+'.join(v for _, v in var), '@%d' % off if off else ''), elem(typ) if typ else None
        return ('%s@%d' % (path, off) if off else path), (typ if not off else None)
    def leaf(s, path, typ):
        """descend to the first member of a class accessed as a scalar"""
        n = 0
        while n < 4 and typ and not s.canon_type(typ).startswith('std::'):
            n += 1
            ms = s.members(typ)
            if not ms or ms[0][0] != 0: break
            path, typ = '%s.%s' % (path, ms[0][2]), s.canon_type(ms[0][3])
        return path, typ
    def place(s, f, o):
        return s.leaf(*s.addr(f, o))
    def size_of(s, t):
        t = s.canon_type(t)
        B = {'int': 4, 'double': 8, 'bool': 1, 'char': 1, 'unsigned char': 1, 'int64_t': 8, 'long': 8, 'uint8_t': 1, 'uint32_t': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2}
        if t in B: return B[t]
        if t and t.endswith('*'): return 8
        x = s.m.types.get(t)
        return x.get('size') if x else None
    def addr(s, f, o):
        """(path, type of the object) an address operand refers to"""
        k = ('a', f.name, str(o))
        if k in s.cache: return s.cache[k]
        if k in s.busy: return ('loop', None)
        s.busy.add(k)
        r = s._addr(f, o)
        s.busy.discard(k)
        s.cache[k] = r
        return r
    def _addr(s, f, o):
        if o[0] == 'g':
            gd = s.m.globals.get(o[1])
            return ('@' + (gd['dem'] if gd and gd.get('dem') else o[1]), None)
        if o[0] == 'e' and o[1] == 'gep':
            b, t = s.addr(f, o[2])
            return s.sub(b, t, o[3][1], [(sc, s.val(f, x)) for sc, x in o[3][2]], f)
        if o[0] != 'v': return (s.val(f, o), None)
        d = f.idef(o)
        if d is None:
            if o[1] < len(f.args):
                if f.args[o[1]][0] == 'this': return ('this', f.scope)
                return ('*$%d' % o[1], pointee(s.argtype(f, o[1])))
            return ('?', None)
        op = d[0]
        if op == 'getelementptr':
            b, t = s.addr(f, d[4])
            return s.sub(b, t, d[5][1], [(sc, s.val(f, x)) for sc, x in d[5][2]], f)
        if op == 'alloca':
            db = f.dbg.get(d[1])
            return ('%%%d' % d[1], s.canon_type(db[2]) if db and len(db) > 2 and isinstance(db[2], str) else None)
        if op in ('call', 'invoke'):
            c = s.m.callee(d)
            if c is not None and d[5]:
                n = c.sname
                if n in ('operator[]', 'at') and c.scope.startswith('std::') and len(d[5]) == 2:
                    b, t = s.addr(f, d[5][0])
                    return '%s[%s]' % (b, s.val(f, d[5][1])), elem(t) or elem(c.scope)
                if c.scope.startswith('std::') and n in ('operator->', 'operator*', 'get', 'value') and len(d[5]) == 1:
                    b, t = s.leaf(*s.addr(f, d[5][0]))
                    return '*' + b, pointee(t) or pointee(c.scope)
                if c.scope.startswith('std::') and n in ('front', 'data', 'c_str', 'begin') and len(d[5]) == 1:
                    b, t = s.addr(f, d[5][0])
                    return (b + '[0]' if n == 'front' else b), elem(t)
                if n in ('move', 'forward', '__addressof', 'addressof') and len(d[5]) == 1: return s.addr(f, d[5][0])
                if c.sname and c.ret == 'ptr' and c.sig:
                    return s.call(f, d, c), pointee(c.sig[0])
            return (s.val(f, o), None)
        if op == 'load':
            b, t = s.leaf(*s.addr(f, d[4]))
            pt = pointee(t)
            if pt is None and t and s.canon_type(t).startswith('std::vector<'): pt = elem(s.canon_type(t))
            return ('*' + b, pt)
        if op == 'phi' or op == 'select':
            inc = [v for v, _ in d[4]] if op == 'phi' else d[5:7]
            ts = {s.addr(f, v)[1] for v in inc if v[0] != 'n'} - {None}
            return (s.val(f, o), ts.pop() if len(ts) == 1 else None)
        return (s.val(f, o), None)
    # ---- values ----------------------------------------------------------------
    def call(s, f, d, c):
        return '%s(%s)' % (c.sname or c.name, ', '.join(s.arg(f, a) for a in d[5]))
    def arg(s, f, a):
        return s.val(f, a)
    def val(s, f, o):
        k = ('v', f.name, str(o))
        if k in s.cache: return s.cache[k]
        if k in s.busy: return 'rec%s' % (o[1],)
        s.busy.add(k)
        r = s._val(f, o)
        s.busy.discard(k)
        s.cache[k] = r
        return r
    def _val(s, f, o):
        if o[0] == 'c': return str(o[1])
        if o[0] in ('f', 'd', 'n', 'null'): return str(o[1]) if len(o) > 1 else '0'
        if o[0] == 'g' or o[0] == 'e': return '&' + s.addr(f, o)[0]
        if o[0] != 'v': return str(o)
        d = f.idef(o)
        if d is None:
            if o[1] < len(f.args): return '&this' if f.args[o[1]][0] == 'this' else '$%d' % o[1]
            return '?%s' % o[1]
        op = d[0]
        if op == 'load': return s.leaf(*s.addr(f, d[4]))[0]
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'sitofp', 'ptrtoint', 'inttoptr'): return s.val(f, d[4])
        if op in ('getelementptr', 'alloca'): return '&' + s.addr(f, o)[0]
        if op in ('call', 'invoke'):
            c = s.m.callee(d)
            if c is None: return 'call%d' % d[1]
            a, t = s.addr(f, o) if c.scope.startswith('std::') and c.sname in ('operator[]', 'operator->', 'operator*', 'get', 'front', 'data', 'c_str', 'at') or c.sname in ('move', 'forward') else (None, None)
            if a: return '&' + a
            return s.call(f, d, c)
        if op == 'phi': return 'phi%d' % d[1]
        if op == 'icmp' or op == 'fcmp':
            p, a, b = d[4], s.val(f, d[5]), s.val(f, d[6])
            if p in SWAP: p, a, b = SWAP[p], b, a
            elif p in ('eq', 'ne', 'oeq', 'une') and b < a: a, b = b, a
            return '(%s %s %s)' % (a, p, b)
        if op == 'select': return '(%s ? %s : %s)' % tuple(s.val(f, x) for x in d[4:7])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem', 'fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = s.val(f, d[4]), s.val(f, d[5])
            if op == 'sub' and d[5][0] == 'c': op, b = 'add', str(-d[5][1])
            if op in COMM and b < a: a, b = b, a
            return '(%s %s %s)' % (a, op, b)
        return '%s%d' % (op, d[1])

def subscripts(e):
    """[(path, index)] of every subscripted access in a rendered expression"""
    out, st = [], []
    for n, ch in enumerate(e):
        if ch == '[': st.append(n)
        elif ch == ']' and st:
            a = st.pop()
            k = a
            while k > 0 and (e[k - 1].isalnum() or e[k - 1] in '_.*$%@:'): k -= 1
            out.append((e[k:a], e[a + 1:n]))
    return out
