"""Session exploration that watches file access, environment, clock and process functions."""
import re
from session import Session, CLS
FILEMOD = {'write', 'pwrite', 'open', 'open64', 'creat', 'fopen', 'fopen64', 'freopen', 'ftruncate', 'truncate', 'rename', 'unlink', 'remove', 'chmod', 'mkdir', 'rmdir', 'fwrite', 'fputs', 'fputc', 'gzopen', 'gzwrite', 'link', 'symlink', 'utime', 'utimes', 'mkstemp', 'fallocate', 'posix_fallocate'}
PROC = {'system', 'popen', 'fork', 'vfork', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execve', 'posix_spawn', 'posix_spawnp'}
ENV = {'getenv', 'secure_getenv', 'setenv', 'unsetenv', 'putenv'}
CLOCK = {'time', 'gettimeofday', 'clock', 'clock_gettime', 'localtime', 'localtime_r', 'gmtime', 'gmtime_r', 'rand', 'random', 'srand', 'rand_r', 'drand48', 'getpid', 'getppid', 'gethostname', 'uname', 'cuserid', 'getuid', 'getlogin', 'getcwd', 'sysconf', 'getrandom', 'setlocale', 'localeconv', 'nanosleep', 'usleep'}
OTHERFILE = {'stat', 'lstat', 'access', 'readlink', 'realpath', 'opendir', 'readdir', 'fgets', 'fscanf', '__isoc23_fscanf', 'fread', 'gzread', 'chdir', 'statx'}
FILEIO = {'read', 'lseek', 'lseek64', 'close', 'fstat', 'pread', 'open', 'open64', 'write'}
CXX = re.compile(r'std::(basic_(i|o)?fstream|basic_filebuf|filesystem|random_device|chrono::.*clock::now|__cxx11::.*filesystem|mersenne)|std::locale::(global|locale\(char)')

def ambient_kind(f):
    """kind of outside access of an external function, or None"""
    n = f.name
    if n in PROC: return 'process'
    if n in ENV: return 'environment'
    if n in CLOCK: return 'clock'
    if n in OTHERFILE: return 'otherfile'
    if n in FILEMOD or n in FILEIO: return 'file'
    d = f.dem
    if 'fstream' in d or 'basic_filebuf' in d or 'std::filesystem' in d: return 'file'
    if 'random_device' in d or '_clock::now' in d: return 'clock'
    return None

class Reach:
    """external accesses reachable from each function"""
    def __init__(s, m):
        s.m = m
        s.direct, s.callees = {}, {}
        for f in m.fns.values():
            if f.decl: continue
            c = set()
            for _, i in f.calls():
                for t in m.resolve(f, i): c.add(t.name)
            s.callees[f.name] = c
        s.streams = stream_classes(m)
        s._r = {}
    def ext(s, n, stop=frozenset()):
        seen, work, out = {n}, [n], set()
        while work:
            x = work.pop()
            f = s.m.fns[x]
            if f.decl:
                k = ambient_kind(f)
                if k: out.add((k, x))
                continue
            if f.scope in stop: continue
            for y in s.callees.get(x, ()):
                if y not in seen and y in s.m.fns: seen.add(y); work.append(y)
        return out
    def cached(s, n):
        if n not in s._r: s._r[n] = s.ext(n, s.streams)
        return s._r[n]
    def path(s, starts, targets, stop=frozenset()):
        par, work = {x: None for x in starts}, list(starts)
        while work:
            x = work.pop(0)
            if x in targets:
                p = []
                while x is not None: p.append(x); x = par[x]
                return list(reversed(p))
            f = s.m.fns[x]
            if f.decl or f.scope in stop: continue
            for y in sorted(s.callees.get(x, ())):
                if y not in par and y in s.m.fns: par[y] = x; work.append(y)
        return []

def stream_classes(m):
    root = 'gdlib::gmsstrm::TXStream'
    return {c for c in m.types if c.startswith('gdlib::gmsstrm::') and root in m.bases(c)}

class Watch(Session):
    """adds: local strings known to be empty, reports about outside accesses"""
    def __init__(s, m):
        super().__init__(m)
        s.rch = Reach(m)
    def strreg(s, v):
        return v[1] if v.__class__ is tuple and v[0] == 'p' and v[2] == 0 and s.regd[v[1]][0] == 'a' else None
    def on_call(s, fn, i, f, args, st, opaque):
        super().on_call(fn, i, f, args, st, opaque)
        if f is None: return
        if args and 'basic_string<' in f.dem:
            r = s.strreg(args[0])
            if r is not None:
                if f.mname == 'basic_string' and len(args) == 1: st.mon = st.mon | {r} if st.mon.__class__ is frozenset else frozenset((r,))
                elif not f.dem.endswith(' const') and st.mon.__class__ is frozenset and r in st.mon: st.mon = st.mon - {r}
        if st.mon.__class__ is frozenset:
            for n, a in enumerate(args):
                r = s.strreg(a)
                if r is not None and r in st.mon and not f.dem.endswith(' const') and not (f.mname == 'basic_string' and n == 0) and not constref(f, n):
                    st.mon = st.mon - {r}
        s.watch(fn, i, f, args, st, opaque)
    def opaque_result(s, fn, i, f, args, st):
        if f.mname == 'empty' and 'basic_string' in f.dem and st.mon.__class__ is frozenset and s.strreg(args[0]) in st.mon:
            return [(1, st)]
        if f.mname in ('size', 'length') and 'basic_string' in f.dem and st.mon.__class__ is frozenset and s.strreg(args[0]) in st.mon:
            return [(0, st)]
        return super().opaque_result(fn, i, f, args, st)
    def watch(s, fn, i, f, args, st, opaque): pass

def constref(f, n):
    sret = len(f.args) - (len(f.sig) - 1) if f.sig else 0
    k = n - max(sret, 0) + 1
    return bool(f.sig) and 0 < k < len(f.sig) and 'const' in f.sig[k] and f.sig[k].rstrip().endswith(('&', '*')) or (bool(f.sig) and 0 < k < len(f.sig) and f.sig[k].startswith('std::basic_string_view'))
