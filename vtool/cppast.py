"""Load clang's AST (JSON) of the RoutingKit declarations of one translation unit."""
import json, subprocess, os, hashlib

class ExtractError(Exception):
    pass

def load_ast(tu, include_dirs, extra_args=(), filt='RoutingKit::'):
    cmd = ['clang++', '-std=c++11', '-w', '-fsyntax-only'] + ['-I' + d for d in include_dirs] + list(extra_args) + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (tu, p.stderr[-2000:]))
    dec = json.JSONDecoder()
    s = p.stdout
    i = 0
    docs = []
    n = len(s)
    while True:
        while i < n and s[i] not in '{':
            # clang prints "Dumping X:" headers in non-json mode only; skip whitespace
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    fill_locations(docs)
    return Ast(docs)

def fill_locations(docs):
    st = {'file': None, 'line': None}
    def loc(d):
        if 'spellingLoc' in d or 'expansionLoc' in d:
            for k in d:
                if k in ('spellingLoc', 'expansionLoc'):
                    loc(d[k])
            e = d.get('expansionLoc', {})
            d['file'] = e.get('file'); d['line'] = e.get('line'); d['offset'] = e.get('offset')
            return
        if 'offset' not in d:
            return
        if 'file' in d: st['file'] = d['file']
        else: d['file'] = st['file']
        if 'line' in d: st['line'] = d['line']
        else: d['line'] = st['line']
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'loc':
                    loc(v)
                elif k == 'range':
                    loc(v.get('begin', {})); loc(v.get('end', {}))
                elif k in ('inner', 'lookups', 'bases'):
                    walk(v)
                elif isinstance(v, dict) and k not in ('type',):
                    walk(v)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(docs)

FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')

class Ast:
    def __init__(self, docs):
        self.docs = docs
        self.by_id = {}
        self.parent = {}
        self.defs = {}      # id of any redeclaration -> definition node
        self.records = {}   # name -> record node
        self.all_funcs = []
        for d in docs:
            self._index(d, None)
        # link redeclarations
        prev = {}
        for i, n in self.by_id.items():
            if n.get('kind') in FUNCS and 'previousDecl' in n:
                prev[i] = n['previousDecl']
        for n in self.all_funcs:
            if self.body(n) is not None:
                i = n['id']
                seen = set()
                while i and i not in seen:
                    seen.add(i)
                    self.defs[i] = n
                    i = prev.get(i)
        # forward link: a later redeclaration of a defined function
        for i in list(prev):
            j = i
            while j in prev and j not in self.defs: j = prev[j]
            if j in self.defs: self.defs[i] = self.defs[j]

    def _index(self, n, parent):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        if 'id' in n:
            if n['id'] not in self.by_id or n.get('inner'):
                self.by_id[n['id']] = n
                if parent is not None or n['id'] not in self.parent:
                    self.parent[n['id']] = parent
        if n['kind'] in FUNCS:
            self.all_funcs.append(n)
        if n['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
            self.records.setdefault(n.get('name', ''), []).append(n)
        for c in n.get('inner', []):
            self._index(c, n)

    @staticmethod
    def body(n):
        for c in n.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def parent_record(self, n):
        p = self.parent.get(n['id'])
        if p is None and 'parentDeclContextId' in n:
            p = self.by_id.get(n['parentDeclContextId'])
        elif 'parentDeclContextId' in n:
            p = self.by_id.get(n['parentDeclContextId'], p)
        while p is not None and p['kind'] in ('FunctionTemplateDecl', 'LinkageSpecDecl'):
            q = self.parent.get(p['id'])
            if q is None and 'parentDeclContextId' in p:
                q = self.by_id.get(p['parentDeclContextId'])
            p = q
        if p is not None and p['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            return p
        return None

    def template_args(self, n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
