"""Front end: clang AST (JSON) of the real sources in /repo -> function bodies, records, enums.

Nothing is rewritten or dropped: function bodies are interpreted straight from clang's AST of
the current source files, compiled with the project's own flags."""
import json, subprocess, os, re, glob
from concurrent.futures import ThreadPoolExecutor

class Unsupported(Exception):
    """The construct cannot be processed by the generator: undecided, never a violation."""

class TU: pass

def src_files(repo):
    r = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith('.c'):
                r.append(os.path.join(d, f))
    return sorted(r)

def inc_dirs(repo):
    return sorted(d for d, _, _ in os.walk(os.path.join(repo, 'src')))

def dump(repo, f, extra=()):
    cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-std=c99', '-w',
           '-DINSTALL_PATH="/etc/ccalc"', '-DUSE_READLINE'] + ['-I' + d for d in inc_dirs(repo)] + list(extra) + [f]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=repo)
    if p.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (f, p.stderr.decode()[:500]))
    return json.loads(p.stdout)

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), '__int128': (128, True), 'unsigned __int128': (128, False),
    'size_t': (64, False), 'ssize_t': (64, True), 'uint8_t': (8, False), 'int64_t': (64, True),
    'uint32_t': (32, False), 'int32_t': (32, True), 'uint64_t': (64, False),
}
BOOL = ('bool',); DOUBLE = ('double',); VOID = ('void',)
def INT(b, s): return ('int', b, s)
def PTR(t): return ('ptr', t)
CHAR = INT(8, True); VALIST = ('int', 64, False)    # number of arguments read so far
SIZE = INT(64, False); I32 = INT(32, True)

class Program:
    def __init__(self, repo, files=None):
        self.repo = repo
        self.records = {}     # name -> [(field, type)]
        self.typedefs = {}    # name -> qualtype string
        self.enums = set(); self.enumconst = {}
        self.funcs = {}       # (file, name) -> decl ; globals by name
        self.by_name = {}
        self.globals = {}     # name -> VarDecl json (with init)
        self.idname = {}
        self.tcache = {}
        files = files or src_files(repo)
        with ThreadPoolExecutor(8) as ex:
            dumps = list(ex.map(lambda f: (f, dump(repo, f)), files))
        for f, d in dumps:
            self.load(os.path.relpath(f, repo), d)
        self.layout_cache = {}

    def load(self, f, d):
        recid = {}
        inner = d['inner']
        for x in inner:
            k = x.get('kind')
            if k == 'RecordDecl' and x.get('completeDefinition'):
                fields = [(c['name'], c['type']) for c in x.get('inner', []) if c.get('kind') == 'FieldDecl' and 'name' in c]
                recid[x['id']] = fields
                if x.get('name'):
                    self.records.setdefault(x['name'], fields)
                # nested anonymous records are not used by this code base
            elif k == 'EnumDecl':
                if x.get('name'): self.enums.add(x['name'])
                v = 0
                for c in x.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl': continue
                    cv = self._constval(c)
                    if cv is not None: v = cv
                    self.enumconst[c['name']] = v
                    v += 1
            elif k == 'TypedefDecl':
                name = x['name']; q = x['type'].get('qualType')
                tag = None
                for c in x.get('inner', []):
                    tag = c.get('ownedTagDecl') or tag
                if tag and tag['kind'] == 'RecordDecl' and tag['id'] in recid and not tag.get('name'):
                    self.records.setdefault(name, recid[tag['id']])
                elif tag and tag['kind'] == 'EnumDecl' and not tag.get('name'):
                    self.enums.add(name)
                else:
                    self.typedefs.setdefault(name, q)
            elif k == 'FunctionDecl':
                if any(c.get('kind') == 'CompoundStmt' for c in x.get('inner', [])):
                    fn = Func(self, f, x)
                    self.funcs[(f, x['name'])] = fn
                    if x.get('storageClass') != 'static':
                        self.by_name[x['name']] = fn
                    else:
                        self.by_name.setdefault(x['name'], fn)
            elif k == 'VarDecl':
                if x.get('storageClass') != 'extern' or 'init' in x:
                    old = self.globals.get(x['name'])
                    if old is None or 'init' in x: self.globals[x['name']] = x

    def _constval(self, c):
        if isinstance(c, dict):
            if c.get('kind') == 'ConstantExpr' and 'value' in c: return int(c['value'])
            if c.get('kind') == 'IntegerLiteral': return int(c['value'])
            for y in c.get('inner', []):
                v = self._constval(y)
                if v is not None: return v
        return None

    def find(self, f, name):
        return self.funcs.get((f, name)) or self.by_name.get(name)

    # ---- types
    def type_of(self, tj):
        """tj: clang 'type' json or string"""
        q = tj if isinstance(tj, str) else tj.get('qualType')
        if q in self.tcache: return self.tcache[q]
        t = self.parse_type(q)
        if t is None and not isinstance(tj, str) and 'desugaredQualType' in tj:
            t = self.parse_type(tj['desugaredQualType'])
        if t is None: t = ('rec', q)
        self.tcache[q] = t
        return t

    def parse_type(self, q):
        s = re.sub(r'__attribute__\(\(.*?\)\)', '', q)
        s = re.sub(r'\b(const|volatile|restrict|struct|enum|union|__restrict|extern)\b', '', s).strip()
        if '(' in s:
            m = re.match(r'^(.*?)\(\*+\s*(\[\d*\])?\)\s*\[(\d+)\]$', s)
            if m: return PTR(('arr', self.parse_type(m.group(1)), int(m.group(3))))
            if re.search(r'\(\*', s):
                m = re.search(r'\(\*\s*\[(\d+)\]\)', s)
                return ('arr', PTR(('fn',)), int(m.group(1))) if m else PTR(('fn',))
            return ('fn',)
        dims = []
        while s.endswith(']'):
            i = s.rindex('['); d = s[i+1:-1].strip()
            dims.insert(0, int(d) if d.isdigit() else None)
            s = s[:i].strip()
        stars = 0
        while s.endswith('*'):
            stars += 1; s = s[:-1].strip()
        s = ' '.join(s.split())
        if s in INTS: t = INT(*INTS[s])
        elif s in ('_Bool', 'bool'): t = BOOL
        elif s in ('double', 'long double'): t = DOUBLE
        elif s == 'float': t = DOUBLE
        elif s == 'void': t = VOID
        elif s in self.records: t = ('rec', s)
        elif s in self.enums: t = INT(32, False)
        elif s in ('va_list', '__builtin_va_list', '__gnuc_va_list'): t = VALIST
        elif s in ('__va_list_tag', 'struct __va_list_tag') and stars: t = VALIST; stars -= 1
        elif s in self.typedefs and self.typedefs[s] != q:
            t = self.type_of(self.typedefs[s])
        else: t = ('rec', s)
        for _ in range(stars): t = PTR(t)
        for d in reversed(dims): t = ('arr', t, d)
        return t

    def fields(self, rec):
        if rec not in self.records: raise Unsupported('incomplete record ' + rec)
        return [(n, self.type_of(t)) for n, t in self.records[rec]]

    def align(self, t):
        k = t[0]
        if k == 'int': return t[1] // 8
        if k == 'bool': return 1
        if k in ('double', 'ptr'): return 8
        if k == 'arr': return self.align(t[1])
        if k == 'rec':
            return max([1] + [self.align(ft) for _, ft in self.fields(t[1])])
        return 1

    def size(self, t):
        k = t[0]
        if k == 'int': return t[1] // 8
        if k == 'bool': return 1
        if k in ('double', 'ptr'): return 8
        if k == 'arr': return 0 if t[2] is None else t[2] * self.size(t[1])
        if k == 'rec':
            return self.layout(t[1])[1]
        if k == 'void' or k == 'fn': return 1
        raise Unsupported('size of %r' % (t,))

    def layout(self, rec):
        if rec in self.layout_cache: return self.layout_cache[rec]
        off = 0; al = 1; res = {}
        for n, ft in self.fields(rec):
            a = self.align(ft); al = max(al, a)
            off = (off + a - 1) // a * a
            res[n] = (off, ft)
            off += self.size(ft)
        size = (off + al - 1) // al * al
        self.layout_cache[rec] = (res, size)
        return self.layout_cache[rec]

class Func:
    def __init__(self, prog, file, decl):
        self.prog = prog; self.file = file; self.decl = decl; self.name = decl['name']
        self.params = [c for c in decl.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = [c for c in decl['inner'] if c.get('kind') == 'CompoundStmt'][0]
        self.variadic = decl.get('variadic', False)
        q = decl['type']['qualType']
        self.ret = prog.type_of(q[:q.index('(')].strip()) if not q.strip().startswith('(') else VOID
        # functions returning pointers are printed as 'T *(args)'
        self.static = decl.get('storageClass') == 'static'
        self.line = decl.get('loc', {}).get('line') or decl.get('range', {}).get('begin', {}).get('line')

def line_of(n):
    r = n.get('range', {}).get('begin', {})
    return r.get('line') or r.get('expansionLoc', {}).get('line') or r.get('spellingLoc', {}).get('line')

def macros(repo):
    """object-like integer macros of the headers (as the compiler sees them)"""
    res = {}
    hs = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        hs += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.c')) and 'main.c' not in f]
    for h in hs:
        try: txt = open(h, errors='replace').read()
        except OSError: continue
        for m in re.finditer(r'^[ \t]*#define[ \t]+(\w+)[ \t]+\(?(-?\d+)\)?[ \t]*(?://.*|/\*.*)?$', txt, re.M):
            res[m.group(1)] = int(m.group(2))
    return res
