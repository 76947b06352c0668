"""Mechanical extraction: clang's typed AST of /repo's current sources.

A driver translation unit #includes the library sources and instantiates the
templates; clang++ prints the instantiated, fully typed AST as JSON; this module
indexes it.  Nothing is dropped except comments, attributes and source text.
"""
import json, os, subprocess, tempfile, hashlib, re

REPO = os.environ.get('CPPVC_REPO', '/repo')
INC = ['-I%s/include' % REPO, '-I%s/modules/partition/include' % REPO,
       '-I%s/modules/sparsesolver/include' % REPO, '-I/usr/include/suitesparse']


class ExtractError(Exception):
    pass


class CompileError(Exception):
    pass


def clang_json(src_text, filt='linalgcpp'):
    d = tempfile.mkdtemp(prefix='cppvc')
    p = os.path.join(d, 'driver.cpp')
    with open(p, 'w') as f:
        f.write(src_text)
    try:
        r = subprocess.run(['clang++', '-std=c++11', '-w'] + INC +
                           ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        os.unlink(p)
        os.rmdir(d)
    if r.returncode != 0:
        raise CompileError(r.stderr.decode(errors='replace')[:4000])
    return r.stdout.decode(errors='replace')


def parse_docs(s):
    dec = json.JSONDecoder()
    i = 0
    n = len(s)
    docs = []
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            i = s.index('\n', i)
            continue
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


class Func(object):
    def __init__(self, node, qual, cls, targs):
        self.node = node
        self.id = node['id']
        self.name = node['name']
        self.qual = qual            # e.g. linalgcpp::SparseMatrix<double>::Mult
        self.cls = cls              # Cls or None
        self.kind = node['kind']
        self.type = node['type']['qualType']
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.targs = targs
        self.static = node.get('storageClass') == 'static'
        self.virtual = node.get('virtual', False) or any(
            c.get('kind') == 'OverrideAttr' for c in node.get('inner', []))
        self.defaulted = node.get('explicitlyDefaulted') == 'default' or (
            node.get('isImplicit') and self.body is None)
        self.const = self.type.rstrip().endswith('const') or ' const ' in self.type.split(')')[-1] \
            or self.type.split(')')[-1].strip().startswith('const')

    def ret_type(self):
        t = self.type
        # strip trailing param list
        depth = 0
        i = t.rindex(')')
        for k in range(i, -1, -1):
            if t[k] == ')': depth += 1
            elif t[k] == '(':
                depth -= 1
                if depth == 0:
                    return t[:k].strip()
        return t

    def __repr__(self):
        return '<%s : %s>' % (self.qual, self.type)


class Cls(object):
    def __init__(self, node, qual):
        self.node = node
        self.qual = qual
        self.fields = []     # (name, type, node)
        self.bases = []      # type strings
        self.methods = []
        self.id = node['id']
        for b in node.get('bases', []) or []:
            self.bases.append(b['type'].get('desugaredQualType', b['type']['qualType']))

    def __repr__(self):
        return '<class %s>' % self.qual


def tstr(node):
    t = node.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def norm_type(t):
    """canonical spelling of a type"""
    t = t.strip()
    t = re.sub(r'\bclass |\bstruct |\benum |\btypename ', '', t)
    t = re.sub(r'\bstd::__cxx11::', 'std::', t)
    t = t.replace('linalgcpp::', '')
    t = re.sub(r'\b(VectorView|Vector|SparseMatrix|CooMatrix|LilMatrix|BlockMatrix|BlockVector)<>', r'\1<double>', t)
    t = re.sub(r'\bstd::__1::', 'std::', t)
    t = re.sub(r',\s*std::allocator<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?\s*>', '', t)
    t = t.replace('> >', '>>').replace('> >', '>>')
    t = re.sub(r'\s+', ' ', t)
    t = t.replace(' &', '&').replace(' *', '*').replace('& &', '&&')
    return t


def strip_cvref(t):
    t = norm_type(t)
    ch = True
    while ch:
        ch = False
        t2 = t.strip()
        if t2.endswith('&&'): t2 = t2[:-2]
        elif t2.endswith('&'): t2 = t2[:-1]
        t2 = t2.strip()
        if t2.startswith('const '): t2 = t2[6:]
        if t2.startswith('volatile '): t2 = t2[9:]
        if t2.startswith('constexpr '): t2 = t2[10:]
        if t2.endswith(' const'): t2 = t2[:-6]
        if t2.endswith('*const'): t2 = t2[:-5]
        if t2 != t:
            t = t2
            ch = True
    return t


def split_targs(t):
    """'std::vector<a, b<c,d>>' -> ('std::vector', ['a','b<c,d>'])"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    base = t[:i]
    inner = t[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in inner:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return base, out


class Program(object):
    def __init__(self, driver_text, filt='linalgcpp'):
        self.text = driver_text
        s = clang_json(driver_text, filt)
        self.json_bytes = len(s)
        self.sha = hashlib.sha256(s.encode()).hexdigest()
        self.docs = parse_docs(s)
        del s
        self.funcs = {}      # id -> Func
        self.decls = {}      # id -> node (any decl)
        self.classes = {}    # normalised name -> Cls
        self.cls_by_id = {}
        self.byqual = {}     # qual -> [Func]
        self.fields = {}     # field id -> (name, type)
        self.prev = {}       # redecl id -> previous id
        self.enumvals = {}
        for d in self.docs:
            self._walk_decl(d, [], None, False)
        # link definitions to declarations
        self.defn = {}
        for f in list(self.funcs.values()):
            if f.body is not None:
                self.defn[f.id] = f
                i = f.id
                while i in self.prev:
                    i = self.prev[i]
                    self.defn[i] = f
        # link by mangled name
        bym = {}
        for f in self.funcs.values():
            m = f.node.get('mangledName')
            if m and f.body is not None:
                bym[m] = f
        for f in self.funcs.values():
            if f.id not in self.defn:
                m = f.node.get('mangledName')
                if m in bym:
                    self.defn[f.id] = bym[m]
        self.mangled = bym
        # a definition is virtual when any of its declarations is
        chg = True
        while chg:
            chg = False
            for f in self.funcs.values():
                for g in (self.defn.get(f.id), self.funcs.get(self.prev.get(f.id))):
                    if g is not None and f.virtual != g.virtual:
                        f.virtual = g.virtual = True
                        chg = True
        for f in self.funcs.values():
            if f.cls is None and f.id in self.prev:
                # out-of-line member definition
                p = self.funcs.get(self.prev[f.id])
                k = f.id
                while k in self.prev:
                    k = self.prev[k]
                p = self.funcs.get(k)
                if p is not None:
                    f.cls = p.cls
                    if p.cls:
                        f.qual = p.qual

    def _name(self, node):
        nm = node.get('name', '')
        if node['kind'] == 'ClassTemplateSpecializationDecl':
            args = []
            for c in node.get('inner', []):
                if c.get('kind') == 'TemplateArgument':
                    if 'type' in c:
                        args.append(norm_type(c['type'].get('desugaredQualType', c['type']['qualType'])))
                    elif 'value' in c:
                        args.append(str(c['value']))
            nm += '<' + ', '.join(args) + '>'
        return nm

    def _walk_decl(self, n, scope, cls, dependent):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            if k.endswith('Decl'):
                self.decls[n['id']] = n
            if 'previousDecl' in n:
                self.prev[n['id']] = n['previousDecl']
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            sc = scope + ([n['name']] if n.get('name') else [])
            for c in n.get('inner', []):
                self._walk_decl(c, sc, cls, dependent)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in ('CXXRecordDecl',):
                    # the pattern: dependent
                    self._walk_decl(c, scope, cls, True)
                elif ck == 'ClassTemplateSpecializationDecl':
                    self._walk_decl(c, scope, cls, dependent)
                elif ck in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
                    # first is the pattern
                    targs = [x for x in c.get('inner', []) if x.get('kind') == 'TemplateArgument']
                    if first:
                        first = False
                        continue
                    self._func(c, scope, cls, dependent, targs)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if k == 'ClassTemplatePartialSpecializationDecl':
                return
            if not n.get('completeDefinition') and not n.get('inner'):
                return
            nm = self._name(n)
            q = '::'.join(scope + [nm])
            if not n.get('completeDefinition') and k == 'CXXRecordDecl':
                return
            c_ = Cls(n, norm_type(q))
            if not dependent:
                if n.get('completeDefinition'):
                    self.classes[c_.qual] = c_
                self.cls_by_id[n['id']] = c_
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    c_.fields.append((c.get('name', ''), tstr(c), c))
                    self.fields[c['id']] = (c.get('name', ''), tstr(c))
                    self.decls[c['id']] = c
                elif ck == 'FriendDecl':
                    for x in c.get('inner', []):
                        self._walk_decl(x, scope, None, dependent)
                elif ck != 'TemplateArgument':
                    self._walk_decl(c, scope + [nm], c_ if not dependent else None, dependent)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(n, scope, cls, dependent, [])
        elif k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    for x in c.get('inner', []):
                        if x.get('kind') == 'ConstantExpr' and 'value' in x:
                            v = {'true': 1, 'false': 0}.get(x['value']) if x['value'] in ('true', 'false') else int(x['value'])
                    self.enumvals[c['id']] = v
                    v += 1

    def _func(self, n, scope, cls, dependent, targs):
        if dependent:
            return
        q = norm_type('::'.join(scope + [n['name']]))
        old = self.funcs.get(n['id'])
        if old is not None and len(old.node.get('inner', [])) >= len(n.get('inner', [])):
            return
        f = Func(n, q, cls, targs)
        if old is not None:
            f.cls, f.qual = old.cls or cls, old.qual
        self.funcs[n['id']] = f
        self.decls[n['id']] = n
        if 'previousDecl' in n:
            self.prev[n['id']] = n['previousDecl']
        self.byqual.setdefault(q, []).append(f)
        if cls is not None:
            cls.methods.append(f)

    def definition(self, fid):
        f = self.defn.get(fid)
        if f is not None:
            return f
        f = self.funcs.get(fid)
        return f

    def find(self, qual, nparams=None, sig=None, const=None):
        """find function definition by qualified name (normalised)"""
        out = []
        seen = set()
        for f in self.funcs.values():
            if f.qual == qual:
                d = self.definition(f.id)
                if d.id in seen: continue
                seen.add(d.id)
                if nparams is not None and len(d.params) != nparams: continue
                if sig is not None and not all(norm_type(s) in norm_type(d.type) for s in ([sig] if isinstance(sig, str) else sig)): continue
                out.append(d)
        return out
