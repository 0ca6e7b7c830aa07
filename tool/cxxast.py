"""Loads clang's JSON AST of the real /repo code and indexes it."""
import json, os, re, subprocess

REPO = os.environ.get('CAITLYN_REPO', '/repo')
INC = os.path.join(REPO, 'include')


class ExtractError(Exception):
    """The source uses a construct the extractor does not translate."""


def parse_docs(s):
    dec = json.JSONDecoder()
    i, docs, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return docs
        o, i = dec.raw_decode(s, i)
        docs.append(o)


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


INT = {
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'short': (16, True), 'unsigned short': (16, False), 'signed char': (8, True), 'unsigned char': (8, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True),
    'int64_t': (64, True), 'uint64_t': (64, False), 'uint32_t': (32, False), 'int32_t': (32, True),
    'char32_t': (32, False), 'char16_t': (16, False), 'wchar_t': (32, True),
    'difference_type': (64, True), 'size_type': (64, False), 'std::streamsize': (64, True), 'streamsize': (64, True),
}


class Func:
    def __init__(self, node, qual, cls, kind):
        self.node, self.qual, self.cls, self.kind = node, qual, cls, kind
        self.name = node.get('name', '')
        self.type = node.get('type', {}).get('qualType', '')
        self.tmpl = False       # dependent pattern
        self.targs = []

    @property
    def id(self):
        return self.node['id']

    @property
    def body(self):
        for x in self.node.get('inner', []):
            if x.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return x
        return None

    @property
    def params(self):
        return [x for x in self.node.get('inner', []) if x.get('kind') == 'ParmVarDecl']

    @property
    def inits(self):
        return [x for x in self.node.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']

    @property
    def is_const(self):
        return re.search(r'\)\s*const\b', self.type) is not None

    @property
    def is_static(self):
        return self.node.get('storageClass') == 'static' or self.cls is None

    @property
    def key(self):
        return self.qual + ' ' + self.type

    def __repr__(self):
        return f'<{self.key}>'


class Ast:
    def __init__(self, tu_text, workdir, std='c++11', flt='Caitlyn', defines=()):
        os.makedirs(workdir, exist_ok=True)
        self.tu = os.path.join(workdir, 'tu.cpp')
        with open(self.tu, 'w') as f:
            f.write(tu_text)
        cmd = ['clang++', f'-std={std}', '-w', f'-I{INC}', '-fsyntax-only', *defines,
               '-Xclang', '-ast-dump=json', '-Xclang', f'-ast-dump-filter={flt}', self.tu]
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.errors = r.stderr
        if r.returncode != 0:
            raise ExtractError('clang failed: ' + r.stderr[:2000])
        self.docs = parse_docs(r.stdout)
        self.byid = {}
        self.funcs = {}          # id -> Func
        self.byqual = {}         # qualname -> [Func]
        self.classes = {}        # qualname (no Caitlyn::) -> node
        self.aliases = {}
        self.alias_templates = {}
        self.enums = {}          # name -> (bits, signed)
        self.enumconst = {}      # id -> (enumname, value)
        self.vars = {}
        self._file = self._line = None
        for d in self.docs:
            self._locs(d)
        for d in self.docs:
            self._index(d, [], None, False)

    # clang omits repeated file/line fields; replay its state machine
    def _loc1(self, l):
        if not isinstance(l, dict):
            return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                self._loc1(l[k])
        if 'offset' in l:
            if 'file' in l:
                self._file = l['file']
            if 'line' in l:
                self._line = l['line']
            l['line'], l['file'] = self._line, self._file

    def _locs(self, n):
        l = n.get('loc')
        if l:
            self._loc1(l)
        r = n.get('range')
        if r:
            self._loc1(r.get('begin', {}))
            b = r.get('begin', {})
            b = b.get('expansionLoc', b)
            n['_line'], n['_file'] = b.get('line'), b.get('file')
            self._loc1(r.get('end', {}))
        for x in n.get('inner', []):
            if x:
                self._locs(x)

    def text(self, n):
        """source text of an expression node"""
        r = n.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        if 'offset' not in b or 'offset' not in e or not b.get('file'):
            return ''
        with open(b['file'], 'rb') as fh:
            t = fh.read()
        return t[b['offset']:e['offset'] + e.get('tokLen', 0)].decode('utf-8', 'replace')

    def _targs(self, n):
        out = []
        for x in n.get('inner', []):
            if x.get('kind') == 'TemplateArgument':
                t = x.get('type', {})
                out.append(t.get('desugaredQualType') or t.get('qualType') or str(x.get('value', '')))
        return out

    def _index(self, n, scope, cls, tmpl):
        k = n.get('kind')
        if 'id' in n:
            if n['id'] not in self.byid or self._has_body(n):
                self.byid[n['id']] = n
        if k == 'NamespaceDecl':
            sc = scope + [n.get('name', '')]
            if not scope and n.get('name') != 'Caitlyn':
                sc = ['Caitlyn'] + sc if n.get('name') else scope
            for x in n.get('inner', []):
                self._index(x, sc, None, tmpl)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                name += '<' + ', '.join(self._targs(n)) + '>'
            q = '::'.join([s for s in scope if s] + [name])
            n['_qual'] = q
            n['_tmpl'] = tmpl
            if n.get('completeDefinition') or any(x.get('kind') == 'FieldDecl' for x in n.get('inner', [])):
                self.classes.setdefault(strip_ns(q), n)
            for x in n.get('inner', []):
                self._index(x, scope + [name], n, tmpl)
        elif k == 'ClassTemplateDecl':
            for x in n.get('inner', []):
                self._index(x, scope, cls, tmpl or x.get('kind') == 'CXXRecordDecl')
        elif k == 'FunctionTemplateDecl':
            first = True
            self._tparams = [x.get('name') for x in n.get('inner', []) if x.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl')]
            for x in n.get('inner', []):
                isf = x.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl')
                self._index(x, scope, cls, tmpl or (isf and first))
                if isf:
                    first = False
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            q = '::'.join([s for s in scope if s] + [n.get('name', '')])
            f = Func(n, q, cls, k)
            f.tmpl = tmpl
            f.targs = self._targs(n)
            f.tparams = getattr(self, '_tparams', []) if f.targs else []
            old = self.funcs.get(n['id'])
            if old is None or f.body is not None:
                self.funcs[n['id']] = f
                self.byqual.setdefault(q, [])
                self.byqual[q] = [g for g in self.byqual[q] if g.id != f.id] + [f]
            for x in n.get('inner', []):
                self._index_body(x)
        elif k == 'TypeAliasTemplateDecl':
            ps = [x.get('name') for x in n.get('inner', []) if x.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl')]
            t = [x for x in n.get('inner', []) if x.get('kind') == 'TypeAliasDecl']
            if t:
                dv = {x.get('name'): ((x.get('defaultArg') or (x.get('inner') or [{}])[0]).get('type') or {}).get('qualType') for x in n.get('inner', []) if x.get('name') in ps}
                self.alias_templates[n.get('name')] = (ps, t[0].get('type', {}).get('qualType', ''), dv)
        elif k in ('TypeAliasDecl', 'TypedefDecl'):
            t = n.get('type', {})
            self.aliases.setdefault(n.get('name'), {})['::'.join(x for x in scope if x)] = \
                t.get('desugaredQualType') or t.get('qualType')
        elif k == 'EnumDecl':
            self._enum(n, scope)
        else:
            if k == 'VarDecl':
                q = '::'.join([s for s in scope if s] + [n.get('name', '')])
                n['_qual'] = q
                if n['id'] not in self.vars or n.get('inner'):
                    self.vars[n['id']] = n
            for x in n.get('inner', []):
                self._index(x, scope, cls, tmpl)

    def _index_body(self, n):
        if 'id' in n:
            self.byid.setdefault(n['id'], n)
        if n.get('kind') == 'EnumDecl':
            self._enum(n, [])
        for x in n.get('inner', []):
            if x:
                self._index_body(x)

    def _enum(self, n, scope):
        ut = n.get('fixedUnderlyingType', {})
        t = ut.get('desugaredQualType') or ut.get('qualType') or 'unsigned int'
        name = '::'.join([s for s in scope if s] + [n.get('name', '')])
        self.enums[strip_ns(name)] = INT.get(t, (32, True))
        v = -1
        for x in n.get('inner', []):
            if x.get('kind') != 'EnumConstantDecl':
                continue
            v += 1
            for y in x.get('inner', []):
                if 'value' in y:
                    v = int(y['value'])
            self.enumconst[x['id']] = (strip_ns(name), v, x.get('name'))
            self.byid[x['id']] = x

    @staticmethod
    def _has_body(n):
        return any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', []) if x)

    # ------------------------------------------------------------ lookup
    def alias(self, name, ctx):
        d = self.aliases.get(name)
        if not d:
            return None
        c = ctx or ''
        while True:
            for q in (c, 'Caitlyn::' + c if c else 'Caitlyn'):
                if q in d:
                    return d[q]
            if not c:
                break
            c = c.rpartition('::')[0]
        vals = set(d.values())
        return next(iter(vals)) if len(vals) == 1 else None

    def find(self, qual, sig=None, targs=None, tmpl=False):
        c = [f for f in self.byqual.get('Caitlyn::' + qual, self.byqual.get(qual, [])) if f.body is not None or not f.body]
        c = [f for f in c if f.tmpl == tmpl]
        if sig is not None:
            c = [f for f in c if norm_sig(f.type) == norm_sig(sig)]
        if targs is not None:
            c = [f for f in c if f.targs == targs]
        b = [f for f in c if f.body is not None]
        return b or c


def strip_ns(q):
    return q[len('Caitlyn::'):] if q.startswith('Caitlyn::') else q


def norm_sig(s):
    s = re.sub(r'\bnoexcept\b.*$', '', s).replace('Caitlyn::', '')
    m = re.match(r'^[^()]*?(\(.*)$', s)
    s = m.group(1) if m else s
    s = re.sub(r'\s+', '', s)
    s = re.sub(r'->.*$', '', s)
    # top-level const of by-value parameters carries no meaning
    m = re.match(r'^\((.*)\)(const)?$', s)
    if m:
        ps = [p[5:] if p.startswith('const') and not p.endswith(('&', '*')) else p for p in split_args(m.group(1))]
        s = '(' + ','.join(ps) + ')' + (m.group(2) or '')
    return s
