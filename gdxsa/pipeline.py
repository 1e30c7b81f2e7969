"""Front end: compiles every library translation unit of /repo's working tree to LLVM IR, links it, brings
locals into SSA form and loads the exported module.  Nothing of /repo is executed."""
import os, sys, json, glob, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GDX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I%s/%s' % (REPO, d) for d in ('zlib', 'src', 'generated', 'src/gdlib', 'src/global', 'src/rtl')]
COMMON = ['-DNDEBUG', '-DGC_NO_MUTEX', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-inline', '-fno-discard-value-names',
          '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-fno-split-lto-unit', '-w', '-emit-llvm', '-c']

class AnalysisError(Exception):
    """The tree cannot be analysed (does not compile, an anchor is gone): neither a pass nor a violation."""

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    return p.stdout

def exporter():
    exe = os.path.join(VERIF, 'build', 'irexport')
    src = os.path.join(VERIF, 'exporter', 'irexport.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cfg = lambda *a: run([LLVM + 'llvm-config', *a]).decode().split()
    flags = [f for f in cfg('--cxxflags') if not f.startswith('-std') and f not in ('-fno-exceptions',)]
    tmp = exe + '.%d' % os.getpid()
    run([LLVM + 'clang++', '-O1', '-std=c++17', *flags, '-w', src, '-o', tmp, *cfg('--ldflags'),
         *cfg('--link-shared', '--libs', 'core', 'irreader', 'support', 'demangle')])
    os.replace(tmp, exe)
    return exe

LIB = ['src/*.cpp', 'src/gdlib/*.cpp', 'src/rtl/*.cpp', 'src/rtl/*.c', 'src/global/*.cpp', 'generated/gdxcclib.cpp']

def sources(pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    if not out:
        raise AnalysisError('no sources match %s' % pats)
    return out

def compile_module(srcs, scratch, name, extra=(), passes='sroa,instsimplify'):
    def one(s):
        o = os.path.join(scratch, name + '.' + os.path.relpath(s, '/').replace('/', '_') + '.bc')
        if s.endswith('.c'):
            cmd = [LLVM + 'clang', *COMMON, *INC, *extra, s, '-o', o]
        else:
            cmd = [LLVM + 'clang++', '-std=c++17', *COMMON, *INC, *extra, s, '-o', o]
        run(cmd)
        return o
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, srcs))
    linked = os.path.join(scratch, name + '.linked.bc')
    run([LLVM + 'llvm-link', *bcs, '-o', linked])
    opt = os.path.join(scratch, name + '.opt.bc')
    run([LLVM + 'opt', '-passes=' + passes, linked, '-o', opt])
    js = os.path.join(scratch, name + '.json')
    run([exporter(), opt, js, REPO + '/'])
    return js

def load_library(extra_srcs=(), name='lib', only=None, keep=None):
    scratch = tempfile.mkdtemp(prefix='gdxsa.')
    try:
        srcs = only if only else sources(LIB) + list(extra_srcs)
        js = compile_module(srcs, scratch, name)
        with open(js) as f:
            d = json.load(f)
        if keep:
            shutil.copy(js, keep)
        d['sources'] = [os.path.relpath(s, REPO) for s in srcs]
        return d
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

FLATFLAGS = ['-DNDEBUG', '-DGC_NO_MUTEX', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-g', '-fno-discard-value-names', '-fvisibility=hidden', '-w', '-emit-llvm', '-c']
FLATLIB = ['src/*.cpp', 'src/gdlib/*.cpp', 'src/rtl/*.cpp', 'src/global/*.cpp']
NOINLINE = ('gdxOpenReadXX', 'gdxClose', 'gdxResetSpecialValues')

GATES = r'CanBeQuoted|GoodUELString_|IsGoodIdent|MakeGoodExplText|trimRight|IndexOf|FindName|AddObject|RenameEntry|StoreObject|DoWrite|AddItem'
STRMPUB = r'_ZNK?5gdlib7gmsstrm(8TXStream|12TXFileStream|19TBufferedFileStream|17TMiBufferedStream)|_ZN3rtl7p3utils|_ZN3gdx10TGXFileObj(8gdxClose|14gdxOpenWriteEx|13gdxOpenAppend|13gdxOpenReadXX|15gdxGetLastError|7DoWrite|6DoRead|14gdxDataReadRaw|15gdxDataWriteRaw|16gdxDataWriteDone|20gdxDataWriteRawStart)E'
STRMKEEP = r'_ZNK?5gdlib7gmsstrm(12TXFileStream(4Read|5Write|11SetPosition|[CD]\d)|19TBufferedFileStream(10FillBuffer|11FlushBuffer|4Read|5Write|11SetPosition|11GetPosition|[CD]\d))E|_ZN3rtl7p3utils\d+p3File|_ZN3gdx10TGXFileObj(8gdxClose|14gdxOpenWriteEx|13gdxOpenReadXX|7DoWrite|6DoRead)E'
MAPSPUB = r'_ZNK?3gdx(9TUELTable|15TIntegerMapping|8TDFilter)|_ZNK?3gdx10TGXFileObj\d+gdx[A-Z]'
MAPSKEEP = r'_ZNK?3gdx(9TUELTable(10GetUserMap|10SetUserMap|9NewUsrUel|7IndexOf|9AddObject|11StoreObject|20ResetMapToUserStatus|18GetMapToUserStatus)|15TIntegerMapping(10GetMapping|10SetMapping|15GetHighestIndex|11growMapping)|8TDFilter8InFilter|11TFilterList10FindFilter)E|_ZN3gdx10TGXFileObj(6DoRead|21AddToErrorListDomErrs|14AddToErrorList|18ResultWillBeSorted|14gdxDataReadMap|13gdxOpenReadXX|8gdxClose|15gdxDataReadDone)E|_ZNK?\S*?\d+(AddItem|GetNextRecord|StartRead|GetObject)E'
HASHPUB = r'_ZNK?5gdlib(7strhash|11datastorage)|_ZNK?3gdx9TUELTable|_ZNK?3gdx12TAcronymList'
HASHKEEP = r'_ZNK?5gdlib7strhash\S*?\d+(Hash|HashAll|EntryEqual|Compare|Sort|QuickSort|SetCapacity)E|_ZNK?3gdx9TUELTable20ResetMapToUserStatusE|_ZN(3utils|5gdlib5utils)\S*assignPCharToBuf|\S*BatchAllocator'
def load_flat(keep=None, gates=False, strm=False, maps=False, hash=False):
    """The same program with every helper inlined into the public operations, so that a check made in a helper, in the
    operation itself or in a callee looks the same: one function per public operation."""
    import re
    scratch = tempfile.mkdtemp(prefix='gdxsa.')
    try:
        def one(s):
            o = os.path.join(scratch, os.path.relpath(s, '/').replace('/', '_') + '.bc')
            run([LLVM + 'clang++', '-std=c++17', *FLATFLAGS, *INC, s, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, sources(FLATLIB)))
        linked = os.path.join(scratch, 'all.bc')
        run([LLVM + 'llvm-link', *bcs, '-o', linked])
        if hash:
            # keep the members of templates that nothing calls out of line
            t = run([LLVM + 'llvm-dis', linked, '-o', '-']).decode()
            linked = os.path.join(scratch, 'all.ll')
            with open(linked, 'w') as f: f.write(re.sub(r'^(define .*?)linkonce_odr(?=.*@_ZNK?5gdlib(7strhash|11datastorage))', r'\1weak_odr', t, flags=re.M))
        syms = [l.split()[-1] for l in run([LLVM + 'llvm-nm', '--defined-only', os.path.join(scratch, 'all.bc')]).decode().splitlines()]
        pub = [x for x in syms if re.match(r'_ZNK?3gdx10TGXFileObj(\d+gdx[A-Z]|[CD]\dE)', x)]
        if strm: pub = [x for x in syms if re.match(STRMPUB, x)]
        if maps: pub = [x for x in syms if re.match(MAPSPUB, x)]
        if hash: pub = [x for x in syms if re.match(HASHPUB, x)]
        if len(pub) < (12 if maps or hash else 50): raise AnalysisError('public operations not found')
        keepout = [x for x in pub if re.search(r'\d(%s)E' % '|'.join(NOINLINE), x)]
        if strm: keepout = [x for x in pub if re.match(STRMKEEP, x)] + [x for x in syms if 'TBooleanBitArray6GetBitEi' in x]
        if hash: keepout = [x for x in syms if re.match(HASHKEEP, x)]
        if maps: keepout = [x for x in syms if re.match(MAPSKEEP, x)]
        if gates: keepout += [x for x in syms if re.match(r'_ZNK?\S*?\d+(%s)(E|I|B|P|R|b)' % GATES, x) and x not in keepout]
        api = os.path.join(scratch, 'pub.txt')
        with open(api, 'w') as f: f.write('\n'.join(pub))
        opt = os.path.join(scratch, 'flat.bc')
        simp = 'function(sroa,early-cse<memssa>,jump-threading,simplifycfg,gvn,jump-threading,simplifycfg,adce)'
        if strm or maps or hash: simp = 'function(sroa,early-cse<memssa>,simplifycfg,adce)'
        run([LLVM + 'opt', '-passes=forceattrs,internalize,function(sroa,early-cse<memssa>,simplifycfg),cgscc(inline),%s,globaldce' % simp,
             *['-force-attribute=%s:noinline' % x for x in keepout], '-jump-threading-threshold=200', '-internalize-public-api-file=' + api,
             '-inline-threshold=1000000', '-inlinehint-threshold=1000000', '-inlinecold-threshold=1000000', '-inline-cold-callsite-threshold=1000000', '-locally-hot-callsite-threshold=1000000', linked, '-o', opt])
        js = os.path.join(scratch, 'flat.json')
        run([exporter(), opt, js, REPO + '/'])
        with open(js) as f: d = json.load(f)
        if keep: shutil.copy(js, keep)
        d['sources'] = [os.path.relpath(s, REPO) for s in sources(FLATLIB)]
        return d
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    t = time.time()
    if len(sys.argv) > 2: d = load_flat(keep=sys.argv[2], gates=sys.argv[1] == 'gates', strm=sys.argv[1] == 'strm', maps=sys.argv[1] == 'maps', hash=sys.argv[1] == 'hash')
    else: d = load_library(keep=sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(d['functions']), 'functions', time.time() - t, 's')
