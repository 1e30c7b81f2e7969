"""C22: public C constants and types agree with the core."""
import os, re, struct, subprocess, tempfile, shutil, json
import pipeline, flat
from flat import Lin

RULE = ('(1) every witness in witness/*.cpp (static_assert comparing a published limit, code, position, index, array or callback type with the one of the core or with its published value) compiles; '
        '(2) the compiled initialisers of the published tables equal the published rows; (3) the default record of a variable or equation is the table row selected by the stored type code over exactly the extent of the table, '
        'and special values in it are replaced by the slot of the same index')
EXPLANATION = ('The witness translation units are type-checked against the headers of the current tree; a violated static_assert is the violation. Table contents are read from the initialisers in the generated LLVM IR. '
               'The selection of default records is decided by the bound dataflow over the inlined public operations.')
TECHNIQUE = 'compile-time witnesses (static_assert) plus initialiser comparison and bound dataflow on LLVM IR'
PINF, MINF = 3e300, 4e300
TABLES = {
 'gmsSpecialValues': [1e300, 2e300, 3e300, 4e300, 5e300, 0.0, 10e300],
 'gmsDefRecVar': [0,0,0,0,1, 0,0,0,1,1, 0,0,0,PINF,1, 0,0,0,PINF,1, 0,0,MINF,0,1, 0,0,MINF,PINF,1, 0,0,0,PINF,1, 0,0,0,PINF,1, 0,0,1,PINF,1, 0,0,1,PINF,1],
 'gmsDefRecEqu': [0,0,0,0,1, 0,0,0,PINF,1, 0,0,MINF,0,1, 0,0,MINF,PINF,1, 0,0,0,0,1, 0,0,0,PINF,1, 0,0,0,0,1],
 'DataTypSize': [1, 1, 5, 5, 0],
 'gmsGdxTypeText': ['Set', 'Parameter', 'Variable', 'Equation', 'Alias'],
 'gmsVarTypeText': ['Unknown', 'Binary', 'Integer', 'Positive', 'Negative', 'Free', 'Sos1', 'Sos2', 'Semicont', 'Semiint'],
 'gmsValTypeText': ['.l', '.m', '.lo', '.up', '.scale'],
 'gmsSVText': ['UNdef', 'NA', '+Inf', '-Inf', 'Eps', '0', 'AcroN'],
}

def flatten(m, x):
    if x is None: return []
    k = x[0]
    if k == 'c': return [x[1]]
    if k in ('f', 'd'): return [struct.unpack('<d', struct.pack('<Q', int(x[1]) & (1 << 64) - 1))[0]]
    if k == 'z': return ['zero']
    if k == 's':
        t = x[1]
        return [''.join(map(chr, t)).rstrip('\0')] if isinstance(t, list) else [t]
    if k == 'g':
        g = m.globals.get(x[1])
        return flatten(m, g['init']) if g and g.get('init') else ['?']
    out = []
    for y in x[1:]:
        if isinstance(y, list):
            if y and isinstance(y[0], list):
                for z in y: out += flatten(m, z)
            else: out += flatten(m, y)
    return out

def run(cx):
    wd = os.path.join(pipeline.VERIF, 'witness')
    n = 0
    for src in ('constants.cpp', 'wrapper.cpp'):
        path = os.path.join(wd, src)
        txt = open(path).read()
        ids = re.findall(r'"(?:W:)?([^"\n]+)"(?:\)|,)', '\n'.join(l for l in txt.splitlines() if l.startswith(('SAME', 'TYPE', 'static_assert'))))
        p = subprocess.run([pipeline.LLVM + 'clang++', '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=0', '-fno-caret-diagnostics', *pipeline.INC, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = []
        other = []
        for l in p.stdout.splitlines():
            k = re.search(r'static assertion failed.*?W:(.*)$', l)
            if k: bad.append(k.group(1).strip())
            elif ' error: ' in l or 'fatal error' in l: other.append(l)
        cx.need(not any(('fatal error' in o) or not o.startswith(path) for o in other), 'the headers do not compile: %s' % other[:2])
        for o in other: cx.notes.append('witness not applicable (name gone): ' + o.split('error:')[-1].strip())
        n += len(ids) - len(other)
        for b in bad:
            cx.violation('witness|' + b, locate(b), 'witness/' + src, 'the published constant or type no longer agrees: ' + b, '')
    cx.counts['compile_time_witnesses'] = n
    cx.need(n > 90, 'too few witnesses apply')
    # compiled tables
    sc = tempfile.mkdtemp(prefix='gdxsa.')
    try:
        js = pipeline.compile_module([os.path.join(wd, 'constants.cpp')], sc, 'w', extra=['-DNO_WITNESS'])
        import ir
        m = ir.load(json.load(open(js)), pipeline.REPO.rstrip('/') + '/')
    finally: shutil.rmtree(sc, ignore_errors=True)
    nt = 0
    for g, gd in m.globals.items():
        nm = (gd.get('dem') or g).split('::')[-1]
        if nm in TABLES and gd.get('init'):
            got = expand(m, gd['init'], TABLES[nm])
            nt += 1
            if got != TABLES[nm]:
                d = [k for k in range(min(len(got), len(TABLES[nm]))) if got[k] != TABLES[nm][k]]
                cx.violation('table|' + nm, 'generated/gclgms.h' if nm.startswith('gms') else 'src/gxfile.hpp', nm, 'the table %s differs from the published one at entry %s' % (nm, d[:4] if d else 'count'), 'got %r' % (got,))
    cx.counts['tables_compared'] = nt
    cx.need(nt >= 7, 'published tables not found')
    defrec(cx)

def expand(m, init, want):
    got = flatten(m, init)
    out = []
    for x in got:
        if x == 'zero':
            # a zero row/element: as many as the published layout has there
            row = 5 if len(want) in (50, 35) else 1
            out += [0] * row
        else: out.append(x)
    return out

def locate(b):
    w = b.split()
    for nm in w:
        if re.match(r'(GMS_|GLOBAL_|sv_|dt_|gms)', nm): return 'generated/gclgms.h'
        if re.match(r'(vm_|DOMC_|val)', nm): return 'src/gxfile.hpp' if not b.startswith('wrapper') else 'generated/gdxcppwrap.hpp'
    return 'generated/gdxcppwrap.hpp' if b.startswith('wrapper') else 'generated/gdxcc.h' if b.startswith('loader') else 'src/gxfile.hpp'

def defrec(cx):
    m = cx.flat()
    F = flat.Flat(m); S = F.S
    rows = maps = 0
    for f in m.fns.values():
        if f.decl or f.scope != 'gdx::TGXFileObj': continue
        uses = None
        for b, i in f.instrs():
            if i[0] == 'getelementptr' and i[5][2]:
                base = S.addr(f, i[4])[0]
                k = re.match(r'@(?:gdx::)?(gmsDefRecVar|gmsDefRecEqu)', base)
                if not k: continue
                tab = k.group(1)
                rows += 1
                facts = dict(F.facts(f, b))
                if uses is None:
                    uses = {}
                    for b2, j in f.instrs():
                        if j[0] == 'select':
                            for pos, t in ((5, True), (6, False)):
                                if j[pos][0] == 'v': uses.setdefault(j[pos][1], []).append((j[4], t))
                if i[1] in uses: facts = flat.both(facts, flat.meetall([F.cond(f, c, t) for c, t in uses[i[1]]]))
                off, lo, hi, dt = (0, 0, 9, 2) if tab == 'gmsDefRecVar' else (53, 53, 59, 3)
                cand = [(Lin(c=i[5][1] // 40), facts)]
                for sc, x in i[5][2]:
                    cand = [(l + l2, f2) for l, f1 in cand for l2, f2 in F.alts(f, x, f1)]
                for idx, facts in cand:
                    if not idx.t and idx.c == 0: continue          # the row of an unknown type
                    want = [a for a in idx.t if a.endswith('.SUserInfo')]
                    if len(idx.t) != 1 or not want or idx.t[want[0]] != 1 or idx.c != -off:
                        cx.violation('defrec|row|' + tab, i[3], f.short, 'the row of %s is not selected by the stored type code minus %d' % (tab, off), repr(idx)); continue
                    a = want[0]
                    glo = facts.get(((a, -1),)); ghi = facts.get(((a, 1),))
                    if glo is None or ghi is None or glo < lo or -ghi > hi:
                        cx.violation('defrec|range|' + tab, i[3], f.short, 'the row of %s can be selected with a type code outside %d..%d' % (tab, lo, hi), '\n'.join(flat.show(facts)))
                    elif glo > lo or -ghi < hi:
                        cx.violation('defrec|narrow|' + tab, i[3], f.short, 'type codes %d..%d have a default record in %s but only %d..%d select it' % (lo, hi, tab, glo, -ghi), '\n'.join(flat.show(facts)))
            if i[0] == 'load':
                p = S.addr(f, i[4])[0]
                k = re.match(r'this\.readIntlValueMapDbl\[(.*)\]$', p)
                if not k: continue
                # reached under a comparison with a published special value?
                for x in eqs(F, S, f, b):
                    maps += 1
                    if x != k.group(1):
                        cx.violation('defrec|map', i[3], f.short, 'a default value equal to special value %s is replaced by the reading value of slot %s' % (x, k.group(1)), '')
    cx.counts.update(default_record_row_selections=rows, default_value_replacements=maps)

def eqs(F, S, f, b):
    out = set()
    d = F.idom(f)
    x = b
    n = 0
    while n < 3:
        n += 1
        p = d.get(x)
        if p is None or p == x: break
        t = f.term(p)
        if t[0] == 'br' and t[4] and len(t[5]) == 2:
            c = f.idef(t[4])
            if c is not None and c[0] == 'fcmp' and c[4] in ('oeq', 'une', 'ueq', 'one'):
                eqside = t[5][0] if c[4] in ('oeq', 'ueq') else t[5][1]
                if F.dominates(f, eqside, b) and len(f.pred()[eqside]) == 1:
                    for o in (c[5], c[6]):
                        k = re.match(r'@gmsSpecialValues\[(.*)\]$', S.val(f, o))
                        if k: out.add(k.group(1))
        x = p
    return out
